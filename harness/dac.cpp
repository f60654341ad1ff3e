// C07: sim_ds::DacVector
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/DacVector.hpp"
#include <memory>
using namespace vt;
using sim_ds::DacVector;
template <class T> static std::unique_ptr<DacVector> mk(const std::vector<u64>& x, const std::vector<ll>& un, unsigned how) {
    std::vector<T> v; for (auto y : x) v.push_back(T(y));
    if (un.empty()) return how % 2 ? std::make_unique<DacVector>(v) : std::make_unique<DacVector>(v, std::vector<size_t>{});
    if (how % 3 == 0) { std::vector<size_t> u(un.begin(), un.end()); return std::make_unique<DacVector>(v, u); }
    if (how % 3 == 1) { std::vector<int> u(un.begin(), un.end()); return std::make_unique<DacVector>(v, u); }
    std::vector<uint8_t> u(un.begin(), un.end()); return std::make_unique<DacVector>(v, u);
}
static void run(History& h) {
    unsigned ty = h.params.n();
    std::unique_ptr<DacVector> d;
    std::vector<u64> in;
    unsigned tick = 7;
    for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345;
        unsigned k = tick >> 16;
        if (op == "build") { // build <layers|-> values...
            auto un = g.ilist(); in = g.xs();
            auto o = ty == 0 ? mk<uint64_t>(in, un, k) : ty == 1 ? mk<uint32_t>(in, un, k) : ty == 2 ? mk<uint8_t>(in, un, k) : ty == 3 ? mk<int>(in, un, k) : mk<uint16_t>(in, un, k);
            if (!d || k % 5 < 2) d = std::move(o); else if (k % 5 == 2) *d = *o; else *d = std::move(*o); // over one that has answered queries
            Ev e("build"); e.ints("un", un).words("l", in);
            e.i("size", d->size()).b("empty", d->empty()).i("layers", d->num_layers());
        } else if (op == "copy") {
            auto o = std::make_unique<DacVector>(std::vector<int>{5, 70000, 3});
            (void) (*o)[1];
            if (k % 4 == 0) *o = *d; else if (k % 4 == 1) o = std::make_unique<DacVector>(*d); else if (k % 4 == 2) *o = std::move(*d); else o = std::make_unique<DacVector>(std::move(*d));
            if (k % 4 < 2 && k % 8 >= 4) o.reset(); else d = std::move(o); // or with the source, the copy gone
            Ev e("copy"); e.i("size", d->size());
        } else if (op == "all") {
            const auto& c = *d; size_t n = in.size();
            std::vector<u64> r;
            switch (k % 8) {
            case 0: for (size_t j = 0; j < n; j++) r.push_back(c[j]); break;
            case 1: for (size_t j = 0; j < n; j++) r.push_back(c.at(j)); break;
            case 2: for (auto x : c) { r.push_back(x); if (r.size() > n) break; } break;
            case 3: for (auto it = c.begin(); it != c.end(); it++) { r.push_back(*it); if (r.size() > n) break; } break;
            case 4: for (auto it = c.end(); it > c.begin() && r.size() <= n;) { --it; r.push_back(*it); } std::reverse(r.begin(), r.end()); break;
            case 5: { auto it = c.begin(); for (size_t j = 0; j < n; j++) r.push_back(it[j]); break; }
            case 6: { auto it = c.end(); for (size_t j = 0; j < n; j++) r.push_back(*(it - ll(n - j))); break; }
            case 7: for (size_t j = 0; j < n; j++) r.push_back(j == 0 ? c.front() : j + 1 == n ? c.back() : c[j]); break;
            }
            Ev e("all"); e.words("a", r);
            e.list("dep", n, [&](size_t j) { buf += std::to_string(c.depth(j)); });
            e.i("span", c.end() - c.begin());
        } else if (op == "at") {
            size_t i = g.n(); bool oor = false; u64 x = 0;
            try { x = d->at(i); } catch (const std::out_of_range&) { oor = true; }
            Ev e("at"); e.i("i", i).b("oor", oor).w("x", x);
        } else if (op == "iters") {
            size_t x = g.n(), y = g.n(); const auto& c = *d;
            auto p = c.begin() + ll(x); auto q = c.end() - ll(in.size() - y);
            Ev e("iters");
            e.i("x", x).i("y", y).i("d", p - q).b("eq", p == q).b("ne", p != q).b("lt", p < q).b("le", p <= q).b("gt", p > q).b("ge", p >= q);
        } else if (op == "itermove") { // itermove <x> <y>: every way to move an iterator from position x to position y
            ll x = g.i(), y = g.i(), m = y - x; const auto& c = *d;
            const auto p = c.begin() + x; std::vector<ll> at; std::vector<u64> r;
            auto note = [&](decltype(c.begin()) t) { at.push_back(t - c.begin()); if (y < ll(in.size())) r.push_back(*t); };
            { auto t = p; t += m; note(t); }
            { auto t = p; t -= -m; note(t); }
            note(p + m); note(p - (-m));
            { auto t = p; while (t != c.begin() + y) { if (m > 0) { if (k % 2) ++t; else t++; } else { if (k % 2) --t; else t--; } if (t - c.begin() > ll(in.size()) || c.begin() > t) break; } note(t); }
            { auto t = p; auto o = m > 0 ? t++ : m < 0 ? t-- : t; at.push_back((o - c.begin()) - x + y); }
            if (y < ll(in.size())) r.push_back(p[m]);
            Ev e("itermove"); e.i("x", x).i("y", y).ints("at", at).words("r", r);
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
