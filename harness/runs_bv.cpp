// C01 on large bit vectors: sim_ds::BitVector
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
using namespace vt;
struct A : Nothing {
    sim_ds::BitVector v;
    u64 size() { return v.size(); }
    void make(u64 n, u64 b, unsigned k) { if (b == 0 && k % 2) v = sim_ds::BitVector(n); else if (k % 3) v = sim_ds::BitVector(n, b); else v.assign(n, b); }
    void res(u64 n, u64 b, unsigned k) { if (b == 0 && k % 2) v.resize(n); else v.resize(n, b); }
    void fill(u64 x, u64 y, u64 b, unsigned k) {
        if (y == x + 1 && k % 4) { if (k % 4 == 1) v[x] = b; else if (k % 4 == 2) v.at(x) = b; else *(v.begin() + x) = b; }
        else if (y - x < 1000 && k % 4 == 0) { auto it = v.begin() + x; for (u64 j = x; j < y; j++, ++it) *it = b; }
        else if (k % 2) v.fill(v.begin() + x, v.begin() + y, b);
        else v.fill(v.end() - (v.size() - x), v.begin() + y, b);
    }
    void push(u64 c, u64 b) { while (c--) v.push_back(b); }
    void same(unsigned k) { if (k % 2) v.reserve(v.size() + k % 1000); else v.shrink_to_fit(); }
    void reread(unsigned k) {
        Chunks s; std::ostream os(&s); std::istream is(&s);
        sim_ds::BitVector w(k % 500, true);
        v.Write(os); w.Read(is);
        if (s.taken != s.wrote) v = sim_ds::BitVector(); else v = std::move(w);
    }
    void scan(Ev& e, u64 a, u64 b, unsigned k) {
        const auto& c = v;
        switch (k % 5) {
        case 0: emit_runs(e, "runs", a, b, false, [&](u64 x) { return v[x] ? 1 : 0; }); break;
        case 1: emit_runs(e, "runs", a, b, false, [&](u64 x) { return c[x] ? 1 : 0; }); break;
        case 2: { auto it = c.begin() + a; emit_runs(e, "runs", a, b, false, [&](u64) { u64 r = *it ? 1 : 0; ++it; return r; }); break; }
        case 3: { auto it = v.end(); emit_runs(e, "runs", a, b, false, [&](u64 x) { return it[ptrdiff_t(x) - ptrdiff_t(v.size())] ? 1 : 0; }); break; }
        case 4: emit_runs(e, "runs", a, b, false, [&](u64 x) { return x == 0 ? bool(c.front()) : x + 1 == c.size() ? bool(v.back()) : bool(c.at(x)); }); break;
        }
    }
};
static void run(History& h) { drive_runs<A>(h); }
int main(int c, char** v) { return main_(c, v, run); }
