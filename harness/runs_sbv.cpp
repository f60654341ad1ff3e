// C02, C03 on large bit vectors: sim_ds::SuccinctBitVector (the bits are put together in a BitVector)
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include <memory>
using namespace vt;
template <bool Sel> struct A : Nothing {
    using S = sim_ds::SuccinctBitVector<Sel>;
    sim_ds::BitVector v; std::shared_ptr<S> s; bool built = false;
    u64 size() { return built ? s->size() : v.size(); }
    void make(u64 n, u64 b, unsigned) { built = false; s.reset(); v = sim_ds::BitVector(n, b); }
    void fill(u64 x, u64 y, u64 b, unsigned) { v.fill(v.begin() + x, v.begin() + y, b); }
    void res(u64 n, u64 b, unsigned) { v.resize(n, b); }
    void push(u64 c, u64 b) { while (c--) v.push_back(b); }
    void same(unsigned k) { // build
        if (k % 2) s = std::make_shared<S>(std::move(v)); else s = std::make_shared<S>(v);
        v = sim_ds::BitVector(); built = true;
        if (k % 3 == 0) s = std::make_shared<S>(*s); else if (k % 3 == 1) s = std::make_shared<S>(std::move(*s));
    }
    void reread(unsigned) {
        Chunks c; std::ostream os(&c); std::istream is(&c);
        auto w = std::make_shared<S>(sim_ds::BitVector(777, true));
        s->Write(os); w->Read(is);
        if (c.taken != c.wrote) s = std::make_shared<S>(); else s = w;
    }
    u64 rank(u64 x, u64 b, unsigned k) { return b ? (k % 2 ? s->rank(x) : s->rank_1(x)) : s->rank_0(x); }
    u64 sel(u64 k, unsigned) { if constexpr (Sel) return s->select(k); else no(); }
    void scan(Ev& e, u64 a, u64 b, unsigned) { const auto& c = *s; emit_runs(e, "runs", a, b, false, [&](u64 x) { return c[x] ? 1 : 0; }); }
};
static void go(History& h) { h.params.str(); if (h.params.n()) drive_runs<A<true>>(h); else drive_runs<A<false>>(h); }
int main(int c, char** v) { return main_(c, v, go); }
