// C01: sim_ds::BitVector
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
using namespace vt;
using sim_ds::BitVector;

static std::vector<int> read(const BitVector& cv, BitVector& v, unsigned how) {
    std::vector<int> r;
    size_t n = v.size();
    r.reserve(n);
    switch (how % 14) {
    case 0: for (size_t k = 0; k < n; k++) r.push_back(v[k]); break;
    case 1: for (size_t k = 0; k < n; k++) r.push_back(cv[k]); break;
    case 2: for (size_t k = 0; k < n; k++) r.push_back(cv.at(k)); break;
    case 3: for (auto it = v.begin(); it != v.end(); ++it) r.push_back(*it); break;
    case 4: for (auto it = cv.begin(); it != cv.end(); it++) r.push_back(*it); break;
    case 5: for (auto it = v.end(); it != v.begin();) { --it; r.push_back(*it); } std::reverse(r.begin(), r.end()); break;
    case 6: for (auto it = cv.end(); it > cv.begin();) { it--; if (it >= cv.begin()) r.push_back(*it); } std::reverse(r.begin(), r.end()); break;
    case 7: { auto it = v.begin(); for (size_t k = 0; k < n; k++) r.push_back(it[(ptrdiff_t) k]); break; }
    case 8: { auto it = cv.end(); for (size_t k = 0; k < n; k++) r.push_back(it[(ptrdiff_t) k - (ptrdiff_t) n]); break; }
    case 9: { auto it = cv.begin(); for (size_t k = 0; k < n; k++) r.push_back(*(it + k)); break; }
    case 10: { auto it = v.end(); for (size_t k = 0; k < n; k++) r.push_back(*(it - (n - k))); break; }
    case 11: { const auto* d = cv.data(); for (size_t k = 0; k < n; k++) r.push_back(int(d[k / 64] >> (k % 64) & 1)); break; }
    case 12: for (auto b : cv) r.push_back(b); break;
    case 13: for (size_t k = 0; k < n; k++) { if (k == 0) r.push_back(v.front()); else if (k + 1 == n) r.push_back(cv.back()); else r.push_back(v.at(k)); } break;
    }
    return r;
}

static BitVector::iterator iter(BitVector& v, size_t x, unsigned how) {
    size_t n = v.size();
    switch (how % 6) {
    default: return v.begin() + x;
    case 1: return v.end() - (n - x);
    case 2: { auto it = v.begin(); for (size_t k = 0; k < x; k++) ++it; return it; }
    case 3: { auto it = v.end(); for (size_t k = n; k > x; k--) it--; return it; }
    case 4: if (x < n) { return &v[x]; } return v.end();
    case 5: { auto it = v.begin(); it += ptrdiff_t(x); return it; }
    }
}
static BitVector::const_iterator citer(const BitVector& v, size_t x, unsigned how) {
    size_t n = v.size();
    switch (how % 5) {
    default: return v.begin() + x;
    case 1: return v.end() - (n - x);
    case 2: { auto it = v.begin(); it += ptrdiff_t(x); return it; }
    case 4: if (x < n) return &v[x]; return v.end();
    case 3: { auto it = v.end(); it -= ptrdiff_t(n - x); return it; }
    }
}

static void run(History& h) {
    BitVector a, b;
    BitVector* O[2] = {&a, &b};
    unsigned tick = 0;
    for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345;
        unsigned k = tick >> 16;
        auto seen = [&](Ev& e) {
            for (int j = 0; j < 2; j++) {
                auto& v = *O[j];
                auto s = read(v, v, k + j);
                std::string J = std::to_string(j);
                e.i(("n" + J).c_str(), (ll) v.size()).b(("e" + J).c_str(), v.empty()).ints(("s" + J).c_str(), s);
            }
        };
        if (op == "at") {
            size_t o = g.n(), x = g.n(); std::string r;
            auto& v = *O[o]; const auto& cv = v;
            try { r = std::to_string(int(k % 2 ? bool(v.at(x)) : bool(cv.at(x)))); }
            catch (const std::out_of_range&) { r = "\\\"out_of_range\\\""; }
            Ev e("at"); e.i("o", o).i("x", x).s("r", r);
        } else if (op == "iters") {
            size_t o = g.n(), x = g.n(), y = g.n(); auto& v = *O[o]; const auto& cv = v;
            auto emit = [&](auto p, auto q) {
                Ev e("iters");
                e.i("o", o).i("x", x).i("y", y).i("d", p - q).b("eq", p == q).b("ne", p != q).b("lt", p < q).b("le", p <= q).b("gt", p > q).b("ge", p >= q);
            };
            if (k % 3 == 0) emit(iter(v, x, k / 3), iter(v, y, k / 31));
            else if (k % 3 == 1) emit(citer(cv, x, k / 3), citer(cv, y, k / 31));
            else { BitVector::const_iterator p = iter(v, x, k / 3), q; q = iter(v, y, k / 31); emit(p, q); }
        } else if (op == "itermove") {
            size_t o = g.n(), x = g.n(); ll d = g.i(); auto& v = *O[o]; const auto& cv = v;
            std::vector<int> r; std::vector<ll> at;
            auto p = iter(v, x, k); auto q = citer(cv, x, k / 7);
            r.push_back(p[d]); r.push_back(q[d]);
            { auto t = p; t += d; r.push_back(*t); at.push_back(t - v.begin()); }
            { auto t = q; t += d; r.push_back(*t); at.push_back(t - cv.begin()); }
            { auto t = p; t -= -d; r.push_back(*t); at.push_back(t - v.begin()); }
            { auto t = q; t -= -d; r.push_back(*t); at.push_back(t - cv.begin()); }
            if (d >= 0) { auto t = p + size_t(d); r.push_back(*t); at.push_back(t - v.begin()); auto u = size_t(d) + q; r.push_back(*u); at.push_back(u - cv.begin()); }
            else { auto t = p - size_t(-d); r.push_back(*t); at.push_back(t - v.begin()); auto u = q - size_t(-d); r.push_back(*u); at.push_back(u - cv.begin()); }
            { BitVector::const_iterator t(p); t += d; r.push_back(*t); }
            Ev e("itermove"); e.i("o", o).i("x", x).i("d", d).ints("r", r).ints("at", at);
        } else {
            size_t o = g.n(); auto*& v = O[o]; (void) v; auto& V = *O[o];
            if (op == "new") { size_t n = g.n(); if (n == 0 && k % 2) V = BitVector(); else V = BitVector(n); Ev e("new"); e.i("o", o).i("n", n); seen(e); }
            else if (op == "newf") { size_t n = g.n(); bool b = g.i(); V = BitVector(n, b); Ev e("newf"); e.i("o", o).i("n", n).b("b", b); seen(e); }
            else if (op == "newv") {
                auto bits = g.bits();
                if (bits.size() == 3 && k % 3 == 0) V = BitVector{bool(bits[0]), bool(bits[1]), bool(bits[2])};
                else if (bits.size() == 1 && k % 3 == 0) V = BitVector{std::initializer_list<bool>{bool(bits[0])}};
                else if (k % 2) { std::vector<bool> s(bits.begin(), bits.end()); V = BitVector(s); }
                else { static const int ones[] = {1, 2, -1, 4, 256, 3, 65536, 6}; std::vector<int> s; for (auto x : bits) s.push_back(x ? ones[(k / 2 + s.size()) % 8] : 0); V = BitVector(s); }
                Ev e("newv"); e.i("o", o).ints("bits", bits); seen(e);
            }
            else if (op == "cpy") { size_t p = g.n(); if (k % 2) V = *O[p]; else { BitVector t(*O[p]); V = t; } Ev e("cpy"); e.i("o", o).i("p", p); seen(e); }
            else if (op == "mov") { size_t p = g.n(); if (k % 2) V = std::move(*O[p]); else { BitVector t(std::move(*O[p])); V = std::move(t); } *O[p] = BitVector(); Ev e("mov"); e.i("o", o).i("p", p); seen(e); }
            else if (op == "swap") { size_t p = g.n(); std::swap(V, *O[p]); Ev e("swap"); e.i("o", o).i("p", p); seen(e); }
            else if (op == "res") { size_t n = g.n(); V.resize(n); Ev e("res"); e.i("o", o).i("n", n); seen(e); }
            else if (op == "resb") { size_t n = g.n(); bool b = g.i(); V.resize(n, b); Ev e("resb"); e.i("o", o).i("n", n).b("b", b); seen(e); }
            else if (op == "push") { bool b = g.i(); V.push_back(b); Ev e("push"); e.i("o", o).b("b", b); seen(e); }
            else if (op == "asn") { size_t n = g.n(); bool b = g.i(); V.assign(n, b); Ev e("asn"); e.i("o", o).i("n", n).b("b", b); seen(e); }
            else if (op == "fill") { size_t x = g.n(), y = g.n(); bool b = g.i(); V.fill(iter(V, x, k), iter(V, y, k / 7), b); Ev e("fill"); e.i("o", o).i("x", x).i("y", y).b("b", b); seen(e); }
            else if (op == "set") {
                size_t x = g.n(); bool b = g.i();
                switch (k % 6) {
                default: V[x] = b; break;
                case 1: V.at(x) = b; break;
                case 2: *iter(V, x, k / 6) = b; break;
                case 3: iter(V, 0, k / 6)[ptrdiff_t(x)] = b; break;
                case 4: iter(V, V.size(), k / 6)[ptrdiff_t(x) - ptrdiff_t(V.size())] = b; break;
                case 5: if (x == 0) V.front() = b; else if (x + 1 == V.size()) V.back() = b; else { auto r = V[x]; r = b; } break;
                }
                Ev e("set"); e.i("o", o).i("x", x).b("b", b); seen(e);
            }
            else if (op == "setfrom") { size_t x = g.n(), p = g.n(), y = g.n(); if (k % 2) V[x] = (*O[p])[y]; else *iter(V, x, k) = *iter(*O[p], y, k / 7); Ev e("setfrom"); e.i("o", o).i("x", x).i("p", p).i("y", y); seen(e); }
            else if (op == "rsv") { size_t n = g.n(); if (n == 0) V.shrink_to_fit(); else V.reserve(n); Ev e("rsv"); e.i("o", o).i("n", n); seen(e); }
            else { fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(78); }
        }
    }
}
int main(int c, char** v) { return main_(c, v, run); }
