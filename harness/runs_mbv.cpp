// C04 on long vectors: sim_ds::MultiBitVector
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace vt;
template <unsigned U> struct A : Nothing {
    sim_ds::MultiBitVector<U> v; u64 n = 0;      // n: as many elements as were asked for
    u64 size() { return n; }
    void res(u64 m, u64 t, unsigned) { for (u64 x = n; x < m; x++) v.set(x, uint8_t(t)); n = std::max(n, m); }
    void push(u64 c, u64 t) { while (c--) v.set(n++, uint8_t(t)); }
    void fill(u64 x, u64 y, u64 t, unsigned k) { if (k % 2) for (; x < y; x++) v.set(x, uint8_t(t)); else while (y-- > x) v.set(y, uint8_t(t)); }
    void same(unsigned) { v.build(); }
    void reread(unsigned) {
        Chunks c; std::ostream os(&c); std::istream is(&c);
        sim_ds::MultiBitVector<U> w; for (size_t k = 0; k < 300; k++) w.set(k, 1); w.build();
        v.Write(os); w.Read(is);
        if (c.taken != c.wrote) v = sim_ds::MultiBitVector<U>(); else v = w;
    }
    u64 own(u64 x, unsigned) { return v.rank(x); }
    void scan(Ev& e, u64 a, u64 b, unsigned) { const auto& c = v; emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(c[x]); }); }
};
static void run(History& h) { h.params.str(); switch (h.params.n()) { case 1: drive_runs<A<1>>(h); break; case 2: drive_runs<A<2>>(h); break; default: drive_runs<A<3>>(h); } }
int main(int c, char** v) { return main_(c, v, run); }
