// C12: sim_ds::Heap
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/Heap.hpp"
#include <memory>
#include <deque>
using namespace vt;
// Scripts use the rank of a value in a table of increasing 64-bit values.
template <bool Asc> static void go(History& h) {
    using T = sim_ds::Heap<Asc>;
    std::vector<u64> tab;
    auto t = std::make_unique<T>();
    auto back = [&](u64 x) -> ll { auto it = std::lower_bound(tab.begin(), tab.end(), x); return it != tab.end() && *it == x ? it - tab.begin() : -1; };
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        auto seen = [&](Ev& e) { e.i("n", t->size()); e.i("front", t->size() ? back(t->front()) : -2); };
        if (op == "tab") { tab = g.xs(); Ev e("tab"); e.i("asc", Asc).i("m", tab.size()); }
        else if (op == "list") {
            auto l = g.is(); std::vector<u64> v; for (auto x : l) v.push_back(tab[x]);
            if (k % 3 == 0) t = std::make_unique<T>(v);
            else if (k % 3 == 1) t = std::make_unique<T>(v.begin(), v.end());
            else { std::deque<u64> d(v.begin(), v.end()); t = std::make_unique<T>(d.begin(), d.end()); }
            Ev e("list"); e.ints("l", l); seen(e);
        }
        else if (op == "push") { ll x = g.i(); t->push(tab[x]); Ev e("push"); e.i("x", x); seen(e); }
        else if (op == "pop") { t->pop(); Ev e("pop"); seen(e); }
        else if (op == "pushq") { auto l = g.is(); for (auto x : l) t->push(tab[x]); Ev e("pushq"); e.ints("l", l); seen(e); }
        else if (op == "popq") { std::vector<ll> a; for (auto c = g.n(); c && t->size(); c--) { a.push_back(back(t->front())); t->pop(); } Ev e("popq"); e.ints("a", a); seen(e); }
        else if (op == "raw") { // change stored values, then rebuild
            std::vector<std::array<ll, 2>> ch;
            while (g.more()) { ll id = g.i(), x = g.i(); ll old = back(t->value(id)); t->value_reference(id) = tab[x]; ch.push_back({old, x}); }
            t->Build();
            Ev e("raw"); e.list("ch", ch.size(), [&](size_t j) { buf += '[' + std::to_string(ch[j][0]) + ',' + std::to_string(ch[j][1]) + ']'; }); seen(e);
        }
        else if (op == "sift") { // a stored value made a later one, then sifted down from its place
            ll id = g.i(), x = g.i(), old = back(t->value(id));
            if (old >= 0 && (Asc ? x < old : x > old)) x = old;
            t->value_reference(id) = tab[x]; t->Heapify(id);
            Ev e("sift"); e.list("ch", 1, [&](size_t) { buf += '[' + std::to_string(old) + ',' + std::to_string(x) + ']'; }); seen(e);
        }
        else if (op == "all") { std::vector<ll> a; for (size_t j = 1; j <= t->size(); j++) a.push_back(back(t->value(j))); Ev e("all"); e.ints("a", a); seen(e); }
        else if (op == "copy") { auto c = std::make_unique<T>(*t); while (t->size()) t->pop(); t = std::move(c); Ev e("copy"); seen(e); }
        else if (op == "drain") { std::vector<ll> a; while (t->size()) { a.push_back(back(t->front())); t->pop(); } Ev e("drain"); e.ints("a", a); seen(e); }
        else _exit(78);
    }
}
static void run(History& h) { if (h.params.n()) go<true>(h); else go<false>(h); }
int main(int c, char** v) { return main_(c, v, run); }
