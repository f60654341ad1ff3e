// C04: sim_ds::MultiBitVector<1..3>
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include <memory>
using namespace vt;

template <unsigned U> static void go(History& h) {
    using V = sim_ds::MultiBitVector<U>;
    auto v = std::make_unique<V>();
    size_t n = 0;             // 1 + largest index written or grown to
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "sets") {   // sets i:t ...
            std::vector<std::pair<size_t, unsigned>> l;
            while (g.more()) { auto& t = g.str(); size_t c = t.find(':'); l.emplace_back(std::stoull(t), std::stoul(t.substr(c + 1))); }
            for (auto& [i, t] : l) { v->set(i, uint8_t(t)); n = std::max(n, i + 1); }
            Ev e("sets"); e.list("l", l.size(), [&](size_t k) { buf += '[' + std::to_string(l[k].first) + ',' + std::to_string(l[k].second) + ']'; });
        } else if (op == "seq") { // append a digit string
            auto& s = g.str();
            Ev e("seq"); e.i("at", n);
            std::vector<int> l;
            for (char c : s) { v->set(n++, uint8_t(c - '0')); l.push_back(c - '0'); }
            e.ints("l", l);
        } else if (op == "grow") { size_t i = g.n(); v->ResizeCheck(i); n = std::max(n, i + 1); Ev e("grow"); e.i("i", i);
        } else if (op == "growx") { size_t i = g.n(); v->resize(i); n = std::max(n, i + 1); Ev e("grow"); e.i("i", i);
        } else if (op == "build") { v->build(); Ev e("build");
        } else if (op == "copy") { // go on with a copy; the original is changed and dropped
            auto w = std::make_unique<V>(*v);
            for (size_t k = 0; k < n; k++) v->set(k, uint8_t(((*v)[k] + 1) & V::kBitsMask));
            if (n) v->build();
            v = std::move(w);
            Ev e("copy");
        } else if (op == "all") {
            Ev e("all"); e.i("n", n);
            e.list("a", n, [&](size_t k) { buf += std::to_string(unsigned((*v)[k])); });
        } else if (op == "ranks") {
            const V& c = *v;
            Ev e("ranks");
            e.list("r", n, [&](size_t k) { buf += c[k] == 0 ? "-1" : std::to_string(c.rank(k)); });
        } else _exit(78);
    }
}
static void run(History& h) {
    switch (h.params.n()) { case 1: go<1>(h); break; case 2: go<2>(h); break; default: go<3>(h); }
}
int main(int c, char** v) { return main_(c, v, run); }
