// C05: sim_ds::WaveletTree
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/WaveletTree.hpp"
#include <memory>
using namespace vt;
using sim_ds::WaveletTree;
template <class T> static std::unique_ptr<WaveletTree> mk(const std::string& s) {
    std::vector<T> v; for (char c : s) v.push_back(T((unsigned char) c));
    return std::make_unique<WaveletTree>(v);
}
static void run(History& h) {
    unsigned ty = h.params.n();
    std::unique_ptr<WaveletTree> w;
    std::string in;
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "build") {
            in = g.bytes();
            auto o = ty == 0 ? mk<uint8_t>(in) : ty == 1 ? mk<int>(in) : ty == 2 ? mk<uint64_t>(in) : mk<uint16_t>(in);
            if (!w || k % 3 == 0) w = std::move(o); else if (k % 3 == 1) *w = *o; else *w = std::move(*o); // over one that has answered queries
            Ev e("build"); std::vector<int> l; for (unsigned char c : in) l.push_back(c);
            e.ints("s", l).i("size", w->size());
        } else if (op == "copy") { // go on with a copy
            auto o = mk<int>(std::string("\x03\x01\x02\x00\x07", 5));
            o->rank(2, 2); o->AccessAndRank(4);
            if (k % 4 == 0) o = std::make_unique<WaveletTree>(*w); else if (k % 4 == 1) o = std::make_unique<WaveletTree>(std::move(*w)); else if (k % 4 == 2) *o = std::move(*w); else *o = *w;
            if ((k % 4 == 0 || k % 4 == 3) && k % 8 >= 4) o.reset(); else w = std::move(o); // or with the source, the copy gone
            Ev e("copy"); e.i("size", w->size());
        } else if (op == "all") {
            const auto& c = *w; size_t n = in.size();
            Ev e("all");
            e.list("a", n, [&](size_t k) { buf += std::to_string(unsigned(c[k])); });
            e.list("r", n, [&](size_t k) { buf += std::to_string(c.rank(k)); });
            e.list("rc", n, [&](size_t k) { buf += std::to_string(c.rank(uint8_t(in[k]), k)); });
            e.list("va", n, [&](size_t k) { buf += std::to_string(unsigned(c.AccessAndRank(k).first)); });
            e.list("vr", n, [&](size_t k) { buf += std::to_string(c.AccessAndRank(k).second); });
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
