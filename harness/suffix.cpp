// C19: sim_ds::SuffixArray
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include <memory>
using namespace vt;
static void str(std::string_view s) { buf += '['; bool first = true; for (unsigned char c : s) { if (!first) buf += ','; first = false; buf += std::to_string(int(c)); } buf += ']'; }
static void run(History& h) {
    std::streambuf* old = std::cout.rdbuf(nullptr); // the constructor prints statistics
    auto used = std::make_unique<sim_ds::SuffixArray>(); // read into, over and over again
    std::unique_ptr<sim_ds::SuffixArray> a;
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    std::string s;
    auto shown = [&](Ev& e) {
        std::stringstream st, sa, lc, sa2, lc2;
        a->Write(st); a->WriteSA(sa); a->WriteLCP(lc);
        std::string t(a->suffix(0));
        { auto c = std::make_unique<sim_ds::SuffixArray>(); c->Read(st); if (c->suffix(0) != t) t += "\377 read back"; c->WriteSA(sa2); c->WriteLCP(lc2); }
        sim_ds::FitVector f(sa), l(lc), f2(sa2), l2(lc2);
        auto vec = [](const sim_ds::FitVector& v) { std::vector<ll> r; for (size_t j = 0; j < v.size(); j++) { u64 x = v[j]; r.push_back(x > 2000000000u ? -1 : (ll) x); } return r; };
        e.key("s"); str(t);
        e.ints("sa", vec(f)).ints("lcp", vec(l)).ints("sb", vec(f2)).ints("lb", vec(l2));
        std::vector<ll> ch; for (size_t j = 0; j < t.size(); j++) ch.push_back(a->char_at(j));
        e.ints("ch", ch);
    };
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "text") { s = g.bytes(); a = std::make_unique<sim_ds::SuffixArray>(s); Ev e("text"); e.key("t"); str(s); shown(e); }
        else if (op == "again") { // through a stream into an object that holds another text, or a copy
            if (k % 3 == 0) { auto c = std::make_unique<sim_ds::SuffixArray>(*a); a = std::move(c); }
            else { std::stringstream st; a->Write(st); used->Read(st); a = std::make_unique<sim_ds::SuffixArray>(*used); }
            Ev e("again"); shown(e);
        }
        else if (op == "suf") { // suffix accessors: pairs start size (-1: to the end)
            std::vector<std::array<ll, 2>> q; while (g.more()) { ll x = g.i(), y = g.i(); q.push_back({x, y}); }
            Ev e("suf"); e.list("q", q.size(), [&](size_t j) { buf += '[' + std::to_string(q[j][0]) + ',' + std::to_string(q[j][1]) + ']'; });
            e.list("r", q.size(), [&](size_t j) { str(q[j][1] < 0 ? a->suffix(q[j][0]) : a->suffix(q[j][0], q[j][1])); });
        }
        else _exit(78);
    }
    std::cout.rdbuf(old);
}
int main(int c, char** v) { return main_(c, v, run); }
