// Large structures: positions are recorded as pairs, contents as maximal runs. An adapter A offers what its structure can do.
#pragma once
#include "trace.hpp"
namespace vt {
inline void big(u64 x) { buf += '[' + std::to_string(x >> 20) + ',' + std::to_string(x & 0xfffff) + ']'; }
constexpr u64 kAbsent = 0xabcdabcdabcdabcdull;      // what an adapter of a map reports for a missing key
inline void runval(u64 v, bool map) { buf += '"'; if (map && v == kAbsent) buf += '-'; else buf += Ev::hex(v); buf += '"'; }
// maximal runs of f(a..b-1)
template <class F> void emit_runs(Ev& e, const char* key, u64 a, u64 b, bool map, F f) {
    e.key(key); buf += '[';
    bool first = true; u64 cur = 0; size_t n = 0;
    auto out = [&](u64 end) { if (!first) buf += ','; first = false; buf += '['; big(end); buf += ','; runval(cur, map); buf += ']'; };
    for (u64 x = a; x < b; x++) {
        u64 v = f(x);
        if (x == a) cur = v;
        else if (v != cur) { out(x); cur = v; if (++n > 200000) break; }   // enough to be rejected
    }
    if (a < b) out(b);
    buf += ']';
}
// an adapter by default can do nothing
struct Nothing {
    [[noreturn]] void no() { fprintf(stderr, "the adapter has no %s\n", cur_op); _exit(78); }
    void make(u64, u64, unsigned) { no(); }
    void res(u64, u64, unsigned) { no(); }
    void fill(u64, u64, u64, unsigned) { no(); }
    void push(u64, u64) { no(); }
    void pop(u64) { no(); }
    void same(unsigned) { no(); }
    void reread(unsigned) { no(); }
    void prepare(unsigned) {}          // before looking from a sequence of positions
    u64 rank(u64, u64, unsigned) { no(); }
    u64 own(u64, unsigned) { no(); }
    u64 sel(u64, unsigned) { no(); }
    static constexpr bool map = false;
};
template <class A> void drive_runs(History& h) {
    A O[2];
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        size_t o = g.n(); A& t = O[o];
        auto sizes = [&](Ev& e) { e.key("n0"); big(O[0].size()); e.key("n1"); big(O[1].size()); };
        auto bigs = [&](Ev& e, const char* key, const std::vector<u64>& l) { e.list(key, l.size(), [&](size_t j) { big(l[j]); }); };
        auto val = [&](Ev& e, const char* key, u64 v) { e.key(key); runval(v, A::map); };
        auto arg = [&] { auto& s = g.str(); return s == "-" ? kAbsent : (u64) std::stoull(s, nullptr, 16); };
        auto rest = [&] { std::vector<u64> l; while (g.more()) l.push_back(g.n()); return l; };
        if (op == "new") { u64 n = g.n(), v = arg(); t.make(n, v, k); Ev e("new"); e.i("o", o).key("n"); big(n); val(e, "v", v); sizes(e); }
        else if (op == "res") { u64 n = g.n(), v = arg(); t.res(n, v, k); Ev e("res"); e.i("o", o).key("n"); big(n); val(e, "v", v); sizes(e); }
        else if (op == "fill") { u64 x = g.n(), y = g.n(), v = arg(); t.fill(x, y, v, k); Ev e("fill"); e.i("o", o).key("x"); big(x); e.key("y"); big(y); val(e, "v", v); sizes(e); }
        else if (op == "push") { u64 c = g.n(), v = arg(); t.push(c, v); Ev e("push"); e.i("o", o).key("c"); big(c); val(e, "v", v); sizes(e); }
        else if (op == "pop") { u64 c = g.n(); t.pop(c); Ev e("pop"); e.i("o", o).key("c"); big(c); sizes(e); }
        else if (op == "cpy") { size_t p = g.n(); t = O[p]; Ev e("cpy"); e.i("o", o).i("p", p); sizes(e); }
        else if (op == "same") { t.same(k); Ev e("same"); e.i("o", o); sizes(e); }
        else if (op == "io") { t.reread(k); Ev e("same"); e.i("o", o); sizes(e); }
        else if (op == "see") {
            u64 a = g.n(), b = g.n(); t.prepare(k);
            Ev e("see"); e.i("o", o).key("a"); big(a); e.key("b"); big(b);
            t.scan(e, a, b, k);
        }
        else if (op == "rank") { u64 v = arg(); auto q = rest(); Ev e("rank"); e.i("o", o); val(e, "v", v); bigs(e, "q", q); e.list("r", q.size(), [&](size_t j) { big(t.rank(q[j], v, k + j)); }); }
        else if (op == "own") { auto q = rest(); Ev e("own"); e.i("o", o); bigs(e, "q", q); e.list("r", q.size(), [&](size_t j) { big(t.own(q[j], k + j)); }); }
        else if (op == "sel") { u64 v = arg(); auto q = rest(); Ev e("sel"); e.i("o", o); val(e, "v", v); bigs(e, "k", q); e.list("r", q.size(), [&](size_t j) { big(t.sel(q[j], k + j)); }); }
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(78); }
    }
}
// a stream of any length in memory
struct Chunks : std::streambuf {
    std::vector<std::string> c; size_t rp = 0, ro = 0; u64 wrote = 0, taken = 0;
    static constexpr size_t K = 1 << 20;
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        std::streamsize left = n;
        while (left) { if (c.empty() || c.back().size() == K) { c.emplace_back(); c.back().reserve(K); } size_t m = std::min<size_t>(left, K - c.back().size()); c.back().append(s, m); s += m; left -= m; }
        wrote += n; return n;
    }
    int overflow(int ch) override { char x = (char) ch; xsputn(&x, 1); return ch == EOF ? 0 : ch; }
    std::streamsize xsgetn(char* s, std::streamsize n) override {
        std::streamsize got = 0;
        while (got < n && rp < c.size()) { size_t m = std::min<size_t>(n - got, c[rp].size() - ro); std::memcpy(s + got, c[rp].data() + ro, m); got += m; ro += m; if (ro == c[rp].size()) { std::string().swap(c[rp]); rp++; ro = 0; } }
        taken += got; return got;
    }
    int underflow() override { if (rp < c.size()) return (unsigned char) c[rp][ro]; return EOF; }
    int uflow() override { char x; return xsgetn(&x, 1) == 1 ? (unsigned char) x : EOF; }
};
} // namespace vt
