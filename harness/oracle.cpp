// C15: sim_ds::FactorOracle
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include <memory>
#include <deque>
#include <list>
using namespace vt;
static std::vector<int> bs(const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static void run(History& h) {
    std::unique_ptr<sim_ds::FactorOracle> f;
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    std::string text;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "text") {
            text = g.bytes();
            if (k % 5 == 0) f = std::make_unique<sim_ds::FactorOracle>(text);
            else if (k % 5 == 1) f = std::make_unique<sim_ds::FactorOracle>(text.begin(), text.end());
            else if (k % 5 == 2) { std::string r(text.rbegin(), text.rend()); f = std::make_unique<sim_ds::FactorOracle>(r.rbegin(), r.rend()); }
            else if (k % 5 == 3) { std::deque<char> d(text.begin(), text.end()); f = std::make_unique<sim_ds::FactorOracle>(d.begin(), d.end()); }
            else { std::string_view v(text); f = std::make_unique<sim_ds::FactorOracle>(v.begin(), v.end()); }
            if (k % 7 == 3) { auto c = std::make_unique<sim_ds::FactorOracle>(*f); f = std::move(c); } // the copy stands alone
            Ev e("text"); e.ints("t", bs(text));
        } else if (op == "qs" || op == "sub") { // queries: given, or pieces "start length" of the text with optional change "at byte"
            std::vector<std::string> qs; std::vector<ll> a, b, n;
            if (op == "qs") while (g.more()) qs.push_back(g.bytes());
            else while (g.more()) {
                auto s = g.n(), l = g.n(); ll at = g.i(); int c = (int) g.i();
                auto q = text.substr(s, l); if (at >= 0 && size_t(at) <= q.size()) { if (size_t(at) == q.size()) q.push_back((char) c); else q[at] = (char) c; }
                qs.push_back(q);
            }
            for (auto& q : qs) {
                a.push_back(f->accept(q));
                sim_ds::FactorOracle::Exproler x(q);
                bool r = f->accept(x);
                if (r != (a.back() != 0)) a.back() = 9;
                n.push_back((ll) x.pos());
                size_t st = 0; ll m = 0; for (unsigned char c : q) { if (!f->image(st, c)) break; m++; }
                b.push_back(m);
            }
            Ev e("qs"); e.list("q", qs.size(), [&](size_t j) { buf += '['; bool first = true; for (unsigned char c : qs[j]) { if (!first) buf += ','; first = false; buf += std::to_string(int(c)); } buf += ']'; });
            e.ints("a", a).ints("n", n).ints("m", b);
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
