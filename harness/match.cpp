// C16: sim_ds::pattern_matching
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
#include <memory>
using namespace vt;
using namespace sim_ds::pattern_matching;
static std::vector<int> bs(const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static void run(History& h) {
    std::string key; // has to outlive the matchers
    struct All { Simple a; Kmp b; Bm c; Bom d; TurboBom e; SundayQS f; SundayMS g; All(std::string_view k) : a(k), b(k), c(k), d(k), e(k), f(k), g(k) {} };
    std::unique_ptr<All> m;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "key") { m.reset(); key = g.bytes(); m = std::make_unique<All>(key); Ev e("key"); e.ints("k", bs(key)); }
        else if (op == "texts" ) {
            while (g.more()) {
                // the text at the very end of its own allocation: reading past it is seen by the address sanitizer
                std::string s = g.bytes();
                std::unique_ptr<char[]> p(new char[s.size()]); std::copy(s.begin(), s.end(), p.get());
                std::string_view t(p.get(), s.size());
                std::vector<std::vector<size_t>> r{m->a.find_all(t), m->b.find_all(t), m->c.find_all(t), m->d.find_all(t), m->e.find_all(t), m->f.find_all(t), m->g.find_all(t),
                    PatternMatchSimple(t, key), PatternMatchKMP(t, key), PatternMatchBM(t, key), PatternMatchBOM(t, key), PatternMatchTurboBOM(t, key), PatternMatchSundayQS(t, key), PatternMatchSundayMS(t, key)};
                Ev e("text"); e.ints("t", bs(s));
                e.list("r", r.size(), [&](size_t j) { buf += '['; bool first = true; for (auto x : r[j]) { if (!first) buf += ','; first = false; buf += std::to_string((ll) x); } buf += ']'; });
            }
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
