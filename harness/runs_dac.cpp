// C07 on long lists: sim_ds::DacVector (the list is put together first)
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/DacVector.hpp"
using namespace vt;
static std::string units;
template <class T> struct A : Nothing {   // T: the type of the numbers in the list
    std::vector<T> l; sim_ds::DacVector d; bool built = false;
    u64 size() { return built ? d.size() : l.size(); }
    void make(u64 n, u64 x, unsigned) { l.assign(n, x); built = false; }
    void push(u64 c, u64 x) { l.insert(l.end(), c, x); }
    void fill(u64 x, u64 y, u64 t, unsigned) { for (; x < y; x++) l[x] = t; }
    void same(unsigned k) {
        if (units == "-") d = sim_ds::DacVector(l);
        else { std::vector<size_t> u; std::istringstream s(units); std::string w; while (std::getline(s, w, ',')) u.push_back(std::stoull(w)); d = sim_ds::DacVector(l, u); }
        built = true;
    }
    void reread(unsigned) {
        Chunks c; std::ostream os(&c); std::istream is(&c);
        sim_ds::DacVector w(std::vector<u64>{1, 2, 1ull << 40});
        d.Write(os); w.Read(is);
        if (c.taken == c.wrote) d = w; else d = sim_ds::DacVector();
    }
    void scan(Ev& e, u64 a, u64 b, unsigned k) {
        const auto& c = d;
        if (k % 3 == 0) emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(c[x]); });
        else if (k % 3 == 1) emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(c.at(x)); });
        else { auto it = c.begin(); it += a; emit_runs(e, "runs", a, b, false, [&](u64) { u64 r = *it; ++it; return r; }); }
    }
};
static void run(History& h) { h.params.str(); units = h.params.str(); if (h.params.more()) drive_runs<A<uint8_t>>(h); else drive_runs<A<u64>>(h); }
int main(int c, char** v) { return main_(c, v, run); }
