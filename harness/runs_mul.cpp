// C08 on many records of three fields: sim_ds::MultipleVector; position 3i + f is field f of record i, value v is written reduced to a byte
// repeated over the field
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/MultipleVector.hpp"
using namespace vt;
static std::vector<size_t> fs;
static u64 spread(u64 v, size_t bytes) { u64 r = 0; while (bytes--) r = r << 8 | (v & 255); return r; }
struct A : Nothing {
    sim_ds::MultipleVector v; bool laid = false;
    A() { lay(); }
    void lay() { if (!laid) { v.set_element_sizes(fs); laid = true; } }
    u64 size() { return v.size() * 3; }
    void make(u64 n, u64, unsigned) { v = sim_ds::MultipleVector(); laid = false; lay(); v.resize(n / 3); }
    void res(u64 n, u64 x, unsigned k) { lay(); if (x == 0) v.resize(n / 3); else { v.resize(n / 3, {spread(x, fs[0]), spread(x, fs[1]), spread(x, fs[2])}); } }
    void push(u64 c, u64 x) { lay(); for (u64 j = 0; j < c; j += 3) v.push_back({spread(x, fs[0]), spread(x, fs[1]), spread(x, fs[2])}); }
    void fill(u64 x, u64 y, u64 t, unsigned k) { for (; x < y; x++) v.block(x / 3).set_at(x % 3, spread(t, fs[x % 3])); }
    void same(unsigned k) { lay(); v.reserve(v.size() + k % 1000); }
    void reread(unsigned) {
        Chunks c; std::ostream os(&c); std::istream is(&c);
        sim_ds::MultipleVector w; w.set_element_sizes(std::vector<size_t>{3, 1}); w.resize(20);
        v.StoreTo(os); w.LoadFrom(is);
        if (c.taken == c.wrote) v = std::move(w); else v.resize(0);
    }
    void scan(Ev& e, u64 a, u64 b, unsigned k) {
        auto get = [&](u64 x, u64 r) { u64 f = fs[x % 3]; return r == spread(r, f) ? r & 255 : r | 1ull << 63; };
        const auto& c = v;
        if (k % 2) emit_runs(e, "runs", a, b, false, [&](u64 x) { switch (x % 3) { case 0: return get(x, c.block(x / 3).get<0>()); case 1: return get(x, c.block(x / 3).get<1>()); default: return get(x, c.block(x / 3).get<2>()); } });
        else emit_runs(e, "runs", a, b, false, [&](u64 x) { return get(x, v.block(x / 3).get_at(x % 3)); });
    }
};
static void run(History& h) { h.params.str(); fs.clear(); for (auto x : h.params.ilist()) fs.push_back(x); drive_runs<A>(h); }
int main(int c, char** v) { return main_(c, v, run); }
