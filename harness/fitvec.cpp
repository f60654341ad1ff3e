// C06: sim_ds::FitVector
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/FitVector.hpp"
using namespace vt;
using sim_ds::FitVector;

static std::vector<u64> read(const FitVector& cv, FitVector& v, unsigned how) {
    std::vector<u64> r; size_t n = v.size();
    switch (how % 6) {
    case 0: for (size_t k = 0; k < n; k++) r.push_back(v[k]); break;
    case 1: for (size_t k = 0; k < n; k++) r.push_back(cv[k]); break;
    case 2: for (size_t k = 0; k < n; k++) r.push_back(v.at(k)); break;
    case 3: for (size_t k = 0; k < n; k++) r.push_back(cv.at(k)); break;
    case 4: for (size_t k = n; k-- > 0;) r.push_back(k == 0 ? u64(cv.front()) : k + 1 == n ? u64(v.back()) : u64(v[k])); std::reverse(r.begin(), r.end()); break;
    case 5: for (size_t k = 0; k < n; k++) r.push_back(k == 0 ? u64(v.front()) : k + 1 == n ? u64(cv.back()) : u64(cv[k])); break;
    }
    return r;
}
template <class T> static FitVector list(const std::vector<u64>& x) { std::vector<T> v; for (auto y : x) v.push_back(T(y)); return FitVector(v); }

static void run(History& h) {
    FitVector a, b;
    FitVector* O[2] = {&a, &b};
    unsigned tick = 7;
    for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345;
        unsigned k = tick >> 16;
        auto seen = [&](Ev& e) {
            for (int j = 0; j < 2; j++) {
                auto& v = *O[j]; std::string J = std::to_string(j);
                e.i(("n" + J).c_str(), (ll) v.size()).b(("e" + J).c_str(), v.empty()).i(("w" + J).c_str(), v.unit_width()).words(("s" + J).c_str(), read(v, v, k + j));
            }
        };
        size_t o = g.n(); auto& V = *O[o];
        if (op == "new") { size_t w = g.n(), n = g.n(); if (n == 0 && k % 2) V = FitVector(w); else V = FitVector(w, n); Ev e("new"); e.i("o", o).i("w", w).i("n", n); seen(e); }
        else if (op == "newv") { size_t w = g.n(), n = g.n(); u64 x = g.x(); V = FitVector(w, n, x); Ev e("newv"); e.i("o", o).i("w", w).i("n", n).w("x", x); seen(e); }
        else if (op == "list") {
            unsigned ty = g.n(); auto x = g.xs();
            V = ty == 0 ? list<uint64_t>(x) : ty == 1 ? list<uint32_t>(x) : ty == 2 ? list<uint8_t>(x) : ty == 3 ? list<long long>(x) : list<uint16_t>(x);
            Ev e("list"); e.i("o", o).words("l", x); seen(e);
        }
        else if (op == "cpy") { size_t p = g.n(); if (k % 2) V = *O[p]; else { FitVector t(*O[p]); V = t; } Ev e("cpy"); e.i("o", o).i("p", p); seen(e); }
        else if (op == "mov") { size_t p = g.n(); if (k % 2) V = std::move(*O[p]); else { FitVector t(std::move(*O[p])); V = std::move(t); } *O[p] = FitVector(3); Ev e("mov"); e.i("o", o).i("p", p); seen(e); }
        else if (op == "res") { size_t n = g.n(); V.resize(n); Ev e("res"); e.i("o", o).i("n", n); seen(e); }
        else if (op == "resv") { size_t n = g.n(); u64 x = g.x(); V.resize(n, x); Ev e("resv"); e.i("o", o).i("n", n).w("x", x); seen(e); }
        else if (op == "asn") { size_t n = g.n(); u64 x = g.x(); V.assign(n, x); Ev e("asn"); e.i("o", o).i("n", n).w("x", x); seen(e); }
        else if (op == "push") { u64 x = g.x(); V.push_back(x); Ev e("push"); e.i("o", o).w("x", x); seen(e); }
        else if (op == "set") {
            size_t i = g.n(); u64 x = g.x();
            switch (k % 4) {
            default: V[i] = x; break;
            case 1: V.at(i) = x; break;
            case 2: { auto r = V[i]; r = x ^ 1; r = x; break; }
            case 3: if (i == 0) V.front() = x; else if (i + 1 == V.size()) V.back() = x; else V[i] = x; break;
            }
            Ev e("set"); e.i("o", o).i("i", i).w("x", x); seen(e);
        }
        else if (op == "setfrom") { size_t i = g.n(), p = g.n(), j = g.n(); V[i] = (*O[p])[j]; Ev e("setfrom"); e.i("o", o).i("i", i).i("p", p).i("j", j); seen(e); }
        else if (op == "rsv") { size_t n = g.n(); V.reserve(n); Ev e("rsv"); e.i("o", o).i("n", n); seen(e); }
        else if (op == "at") {
            size_t i = g.n(); std::string r; const auto& c = V;
            bool oor = false; u64 x = 0;
            try { x = k % 2 ? u64(V.at(i)) : u64(c.at(i)); } catch (const std::out_of_range&) { oor = true; }
            Ev e("at"); e.i("o", o).i("i", i).b("oor", oor).w("x", x);
        }
        else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
