// C06 on long vectors: sim_ds::FitVector of the width given as second parameter
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/FitVector.hpp"
using namespace vt;
static unsigned width = 1;
struct A : Nothing {
    sim_ds::FitVector v{width};
    u64 size() { return v.size(); }
    void make(u64 n, u64 x, unsigned k) { if (x == 0 && k % 2) v = sim_ds::FitVector(width, n); else if (k % 3) v = sim_ds::FitVector(width, n, x); else { v = sim_ds::FitVector(width); v.assign(n, x); } }
    void res(u64 n, u64 x, unsigned k) { if (x == 0 && k % 2) v.resize(n); else v.resize(n, x); }
    void push(u64 c, u64 x) { while (c--) v.push_back(x); }
    void fill(u64 x, u64 y, u64 t, unsigned k) { if (k % 3 == 0) for (; x < y; x++) v[x] = t; else if (k % 3 == 1) while (y-- > x) v[y] = t; else for (; x < y; x++) v.at(x) = t; }
    void same(unsigned k) { v.reserve(v.size() + k % 1000); }
    void reread(unsigned) {
        Chunks c; std::ostream os(&c); std::istream is(&c);
        v.Write(os); sim_ds::FitVector w(is);
        if (c.taken == c.wrote) v = std::move(w); else v = sim_ds::FitVector(width);
    }
    void scan(Ev& e, u64 a, u64 b, unsigned k) { const auto& c = v; if (k % 2) emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(c[x]); }); else emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(v.at(x)); }); }
};
static void run(History& h) { h.params.str(); width = h.params.n(); drive_runs<A>(h); }
int main(int c, char** v) { return main_(c, v, run); }
