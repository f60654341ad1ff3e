// C05 on long sequences: sim_ds::WaveletTree
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/WaveletTree.hpp"
#include <memory>
using namespace vt;
using sim_ds::WaveletTree;
struct A : Nothing {
    std::vector<uint8_t> in; std::shared_ptr<WaveletTree> w; bool built = false;
    u64 size() { return built ? w->size() : in.size(); }
    void make(u64 n, u64 x, unsigned) { in.assign(n, x); built = false; }
    void push(u64 c, u64 x) { in.insert(in.end(), c, x); }
    void fill(u64 x, u64 y, u64 t, unsigned) { for (; x < y; x++) in[x] = t; }
    void same(unsigned k) {
        if (k % 2 || in.size() > 1 << 28) w = std::make_shared<WaveletTree>(in); else { std::vector<uint32_t> l(in.begin(), in.end()); w = std::make_shared<WaveletTree>(l); }
        built = true;
    }
    void reread(unsigned) {
        Chunks c; std::ostream os(&c); std::istream is(&c);
        auto r = std::make_shared<WaveletTree>(std::vector<int>{3, 1, 255});
        w->Write(os); r->Read(is);
        if (c.taken == c.wrote) w = r; else w = std::make_shared<WaveletTree>(std::vector<int>{1});
    }
    u64 own(u64 x, unsigned k) { const auto& c = *w; switch (k % 3) { case 0: return c.rank(x); case 1: return c.AccessAndRank(x).second; default: return c.rank(in[x], x); } }
    void scan(Ev& e, u64 a, u64 b, unsigned k) { const auto& c = *w; if (k % 2) emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(c[x]); }); else emit_runs(e, "runs", a, b, false, [&](u64 x) { return u64(c.AccessAndRank(x).first); }); }
};
static void run(History& h) { drive_runs<A>(h); }
int main(int c, char** v) { return main_(c, v, run); }
