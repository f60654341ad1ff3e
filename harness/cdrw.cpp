// C10: sim_ds::CDRWArray, sim_ds::CDRWVector
#include "trace.hpp"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/CDRWArray.hpp"
#include <memory>
#include <deque>
using namespace vt;
using sim_ds::CDRWArray; using sim_ds::CDRWVector;

static void arrays(History& h) {
    std::unique_ptr<CDRWArray> O[2] = {std::make_unique<CDRWArray>(), std::make_unique<CDRWArray>()};
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        size_t o = g.n();
        auto sizes = [&](Ev& e) { e.i("n0", O[0]->size()).i("n1", O[1]->size()); };
        if (op == "new") { size_t n = g.n(); O[o] = std::make_unique<CDRWArray>(n); Ev e("new"); e.i("o", o).i("n", n); sizes(e); }
        else if (op == "list") {
            auto x = g.xs();
            if (k % 3 == 0) { std::deque<u64> d(x.begin(), x.end()); O[o] = std::make_unique<CDRWArray>(d.begin(), d.end()); }
            else if (k % 3 == 1) O[o] = std::make_unique<CDRWArray>(x.data(), x.data() + x.size());
            else O[o] = std::make_unique<CDRWArray>(x.begin(), x.end());
            Ev e("list"); e.i("o", o).words("l", x); sizes(e);
        }
        else if (op == "set") { size_t i = g.n(); u64 x = g.x(); O[o]->set(i, x); Ev e("set"); e.i("o", o).i("i", i).w("x", x); sizes(e); }
        else if (op == "get") { size_t i = g.n(); u64 x = O[o]->get(i); Ev e("get"); e.i("o", o).i("i", i).w("x", x); }
        else if (op == "cpy") { size_t p = g.n(); if (k % 2) *O[o] = *O[p]; else O[o] = std::make_unique<CDRWArray>(*O[p]); Ev e("cpy"); e.i("o", o).i("p", p); sizes(e); }
        else if (op == "all") { const auto& c = *O[o]; Ev e("all"); e.i("o", o); e.list("a", c.size(), [&](size_t j) { Ev::limbs(c.get(j)); }); sizes(e); }
        else _exit(78);
    }
}
static void vectors(History& h) {
    std::unique_ptr<CDRWVector> O[2] = {std::make_unique<CDRWVector>(), std::make_unique<CDRWVector>()};
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        size_t o = g.n(); auto& v = *O[o];
        auto sizes = [&](Ev& e) { for (int j = 0; j < 2; j++) { auto J = std::to_string(j); e.i(("n" + J).c_str(), O[j]->size()).b(("e" + J).c_str(), O[j]->empty()).i(("c" + J).c_str(), O[j]->capacity()); } };
        if (op == "new") { size_t n = g.n(); O[o] = std::make_unique<CDRWVector>(n); Ev e("new"); e.i("o", o).i("n", n); sizes(e); }
        else if (op == "set") { size_t i = g.n(); u64 x = g.x(); v.set(i, x); Ev e("set"); e.i("o", o).i("i", i).w("x", x); sizes(e); }
        else if (op == "push") { auto l = g.xs(); for (auto x : l) v.push_back(x); Ev e("push"); e.i("o", o).words("l", l); sizes(e); }
        else if (op == "pop") { size_t n = g.n(); for (size_t j = 0; j < n; j++) v.pop_back(); Ev e("pop"); e.i("o", o).i("n", n); sizes(e); }
        else if (op == "res") { size_t n = g.n(); v.resize(n); Ev e("res"); e.i("o", o).i("n", n); sizes(e); }
        else if (op == "rsv") { size_t n = g.n(); v.reserve(n); Ev e("rsv"); e.i("o", o).i("n", n); sizes(e); }
        else if (op == "shr") { v.shrink_to_fit(); Ev e("shr"); e.i("o", o); sizes(e); }
        else if (op == "clr") { v.clear(); Ev e("clr"); e.i("o", o); sizes(e); }
        else if (op == "cpy") { size_t p = g.n(); if (k % 2) *O[o] = *O[p]; else O[o] = std::make_unique<CDRWVector>(*O[p]); Ev e("cpy"); e.i("o", o).i("p", p); sizes(e); }
        else if (op == "get") { size_t i = g.n(); u64 x = v.get(i); Ev e("get"); e.i("o", o).i("i", i).w("x", x); }
        else if (op == "all") { const auto& c = v; Ev e("all"); e.i("o", o); e.list("a", c.size(), [&](size_t j) { Ev::limbs(c.get(j)); }); sizes(e); }
        else _exit(78);
    }
}
static void run(History& h) { if (h.params.n()) vectors(h); else arrays(h); }
int main(int c, char** v) { return main_(c, v, run); }
