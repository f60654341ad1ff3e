// C11: sim_ds::SplitMixHash, MultiplyHash, Xorshift
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
using namespace vt;
struct F { std::function<u64(u64)> f, g; };
static F fn(unsigned kind, unsigned w, bool dflt) {
    using namespace sim_ds;
    SplitMixHash s(w); MultiplyHash m(w); Xorshift x(w);
    if (dflt) { s = SplitMixHash(); m = MultiplyHash(); x = Xorshift(); } // width 64
    switch (kind) {
    case 0: return {[s](u64 v) { return s.hash(v); }, [s](u64 v) { return s.ihash(v); }};
    case 1: return {[m](u64 v) { return m.hash<0>(v); }, [m](u64 v) { return m.ihash<0>(v); }};
    case 2: return {[m](u64 v) { return m.hash<1>(v); }, [m](u64 v) { return m.ihash<1>(v); }};
    case 3: return {[m](u64 v) { return m.hash<2>(v); }, [m](u64 v) { return m.ihash<2>(v); }};
    case 4: return {[x](u64 v) { return x.hash<0>(v); }, [x](u64 v) { return x.ihash<0>(v); }};
    case 5: return {[x](u64 v) { return x.hash<1>(v); }, [x](u64 v) { return x.ihash<1>(v); }};
    default: return {[x](u64 v) { return x.hash<2>(v); }, [x](u64 v) { return x.ihash<2>(v); }};
    }
}
static void run(History& h) {
    unsigned kind = h.params.n(), w = h.params.n(); bool dflt = h.params.n();
    F p = fn(kind, w, dflt);
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "table") { // the whole domain
            size_t n = size_t(1) << w;
            Ev e("table"); e.i("w", w);
            e.list("h", n, [&](size_t x) { buf += std::to_string(ll(p.f(x))); });
            e.list("ih", n, [&](size_t x) { buf += std::to_string(ll(p.g(x))); });
        } else if (op == "pts") {
            auto x = g.xs(); std::vector<u64> a, b, c, d;
            for (auto v : x) { a.push_back(p.f(v)); b.push_back(p.g(a.back())); c.push_back(p.g(v)); d.push_back(p.f(c.back())); }
            Ev e("pts"); e.i("w", w).words("x", x).words("h", a).words("ihh", b).words("ih", c).words("hih", d);
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
