// C09: sim_ds::CHT
#include "trace.hpp"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/CHT.hpp"
#include <memory>
using namespace vt;

// a permutation that leaves the key alone: the script decides the layout of the table
struct IdHash {
    IdHash() = default;
    explicit IdHash(unsigned) {}
    uint64_t hash(uint64_t x) const { return x; }
    uint64_t ihash(uint64_t x) const { return x; }
};

template <unsigned VB, unsigned LF, class Hash> static void go(History& h) {
    using T = sim_ds::CHT<VB, LF, Hash>;
    unsigned kb = h.params.n(); size_t bucket = h.params.n(); unsigned vw = h.params.n();
    bool dflt = h.params.n();
    std::vector<u64> keys;
    std::unique_ptr<T> O[2];
    auto fresh = [&] {
        auto t = dflt ? std::make_unique<T>(kb) : std::make_unique<T>(kb, bucket);
        if (VB == 0) t->set_value_width(vw);
        return t;
    };
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "keys") { keys = g.xs(); O[0] = fresh(); O[1] = fresh(); Ev e("keys"); e.i("n", keys.size()).words("k", keys).i("s0", O[0]->size()).i("s1", O[1]->size()); continue; }
        size_t o = g.n(); auto& t = *O[o];
        auto sizes = [&](Ev& e) { e.i("s0", O[0]->size()).i("s1", O[1]->size()); };
        if (op == "set") { size_t j = g.n(); u64 v = g.x(); t.set(keys[j], v); Ev e("set"); e.i("o", o).i("k", j).w("v", v); sizes(e); }
        else if (op == "del") { size_t j = g.n(); t.erase(keys[j]); Ev e("del"); e.i("o", o).i("k", j); sizes(e); }
        else if (op == "get") { size_t j = g.n(); const T& c = t; auto [p, v] = c.get(keys[j]); Ev e("get"); e.i("o", o).i("k", j).b("p", p).w("v", v); }
        else if (op == "rsv") { size_t n = g.n(); t.reserve(n); Ev e("rsv"); e.i("o", o).i("n", n); sizes(e); }
        else if (op == "cpy") { size_t p = g.n(); if (k % 2) *O[o] = *O[p]; else O[o] = std::make_unique<T>(*O[p]); Ev e("cpy"); e.i("o", o).i("p", p); sizes(e); }
        else if (op == "new") { O[o] = fresh(); Ev e("new"); e.i("o", o); sizes(e); }
        else if (op == "all") { // look every key of the universe up
            Ev e("all"); e.i("o", o);
            e.list("p", keys.size(), [&](size_t j) { buf += t.get(keys[j]).first ? '1' : '0'; });
            e.list("v", keys.size(), [&](size_t j) { auto [p, v] = t.get(keys[j]); Ev::limbs(p ? v : 0); });
            sizes(e);
        }
        else _exit(78);
    }
}
static void run(History& h) {
    using S = sim_ds::SplitMixHash;
    switch (h.params.n()) { // value bits, load factor, hash
    case 0: go<0, 50, S>(h); break;   case 1: go<8, 90, S>(h); break;
    case 2: go<32, 50, S>(h); break;  case 3: go<64, 99, S>(h); break;
    case 4: go<16, 25, S>(h); break;  case 5: go<0, 50, IdHash>(h); break;
    case 6: go<8, 90, IdHash>(h); break; case 7: go<32, 50, IdHash>(h); break;
    case 8: go<64, 99, IdHash>(h); break; default: go<16, 25, IdHash>(h); break;
    }
}
int main(int c, char** v) { return main_(c, v, run); }
