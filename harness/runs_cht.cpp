// C09 with many keys: sim_ds::CHT. Position j is key number j, that is (j * step) mod 2^width with an odd step.
#include "runs.hpp"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/CHT.hpp"
#include <memory>
using namespace vt;
static unsigned kb; static u64 step; static unsigned vw;
template <unsigned VB, unsigned LF> struct A : Nothing {
    using T = sim_ds::CHT<VB, LF, sim_ds::SplitMixHash>;
    static constexpr bool map = true;
    T t{kb};
    A() { if (VB == 0) t.set_value_width(vw); }
    u64 key(u64 j) { return j * step & (kb == 64 ? ~0ull : (1ull << kb) - 1); }
    u64 size() { return t.size(); }
    void make(u64, u64, unsigned) { t = T(kb); if (VB == 0) t.set_value_width(vw); }
    void fill(u64 x, u64 y, u64 v, unsigned k) {
        auto one = [&](u64 j) { if (v == kAbsent) t.erase(key(j)); else t.set(key(j), v); };
        if (k % 2) for (; x < y; x++) one(x); else while (y-- > x) one(y);
    }
    void same(unsigned k) { t.reserve(t.size() + k % 5000); }
    void scan(Ev& e, u64 a, u64 b, unsigned) { const T& c = t; emit_runs(e, "runs", a, b, true, [&](u64 x) { auto [p, v] = c.get(key(x)); return p ? u64(v) : kAbsent; }); }
};
static void run(History& h) {
    h.params.str(); unsigned kind = h.params.n(); kb = h.params.n(); step = h.params.n(); vw = h.params.n();
    switch (kind) { case 0: drive_runs<A<0, 50>>(h); break; case 1: drive_runs<A<8, 90>>(h); break; case 2: drive_runs<A<32, 50>>(h); break; case 3: drive_runs<A<64, 99>>(h); break; default: drive_runs<A<16, 25>>(h); }
}
int main(int c, char** v) { return main_(c, v, run); }
