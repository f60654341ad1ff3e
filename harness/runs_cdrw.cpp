// C10 with many elements: sim_ds::CDRWArray (parameter 0), sim_ds::CDRWVector (1)
#include "runs.hpp"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/CDRWArray.hpp"
using namespace vt;
template <class T> struct A : Nothing {
    static constexpr bool arr = std::is_same_v<T, sim_ds::CDRWArray>;
    T v;
    u64 size() { return v.size(); }
    void make(u64 n, u64, unsigned) { v = T(n); }
    void res(u64 n, u64, unsigned) { if constexpr (!arr) v.resize(n); else no(); }
    void push(u64 c, u64 x) { if constexpr (!arr) while (c--) v.push_back(x); else no(); }
    void pop(u64 c) { if constexpr (!arr) while (c--) v.pop_back(); else no(); }
    void fill(u64 x, u64 y, u64 t, unsigned k) { if (k % 2) for (; x < y; x++) v.set(x, t); else while (y-- > x) v.set(y, t); }
    void same(unsigned k) { if constexpr (!arr) { if (k % 2) v.reserve(v.size() + k % 1000); else v.shrink_to_fit(); } }
    void scan(Ev& e, u64 a, u64 b, unsigned) { const T& c = v; emit_runs(e, "runs", a, b, false, [&](u64 x) { return c.get(x); }); }
};
static void run(History& h) { h.params.str(); if (h.params.n()) drive_runs<A<sim_ds::CDRWVector>>(h); else drive_runs<A<sim_ds::CDRWArray>>(h); }
int main(int c, char** v) { return main_(c, v, run); }
