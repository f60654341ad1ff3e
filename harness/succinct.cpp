// C02, C03: sim_ds::SuccinctBitVector
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include <memory>
using namespace vt;
using sim_ds::BitVector;
using sim_ds::SuccinctBitVector;

static std::vector<bool> bits;

// an object that has answered queries before another one is assigned over it
template <class S> static void ask(const S& s) {
    size_t n = s.size(), c = s.rank(n); volatile size_t sum = 0;
    for (size_t k : {n / 2, n / 3, n}) sum = sum + s.rank(k);
    if constexpr (std::is_same_v<S, SuccinctBitVector<true>>) if (c) for (size_t k : {c - 1, c / 2, c / 3}) sum = sum + s.select(k);
}
template <class S> static std::unique_ptr<S> make(const BitVector& bv, unsigned how) {
    switch (how % 6) {
    default: return std::make_unique<S>(bv);
    case 1: { BitVector t(bv); return std::make_unique<S>(std::move(t)); }
    case 2: { S t(bv); ask(t); return std::make_unique<S>(t); }
    case 3: { S t(bv); return std::make_unique<S>(std::move(t)); }
    case 4: { BitVector o(300 + bv.size() / 2); for (size_t k = 0; k < o.size(); k += 3) o[k] = 1; auto r = std::make_unique<S>(o); if (how % 4 >= 2) r = std::make_unique<S>(); else ask(*r); S t(bv); ask(t); *r = t; return r; }
    case 5: { BitVector o(777, true); auto r = std::make_unique<S>(o); ask(*r); { S t(bv); *r = std::move(t); } return r; }
    }
}
template <class S> static void digits_of(Ev& e, const char* k, const S& s, size_t n) {
    e.list(k, (n + 15) / 16, [&](size_t j) { unsigned d = 0; for (size_t b = 0; b < 16 && j * 16 + b < n; b++) d |= unsigned(bool(s[j * 16 + b])) << b; buf += std::to_string(d); });
}

template <bool Sel> static void go(History& h, unsigned how) {
    using S = SuccinctBitVector<Sel>;
    std::unique_ptr<S> s;
    BitVector bv;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "bits") { // bits: n then runs: "r<len>:<bit>" / literal "l0101" / "x<len>:<density256>:<seed>" / "p<bit>:<pos,...>"
            bits.clear();
            while (g.more()) {
                auto& t = g.str();
                if (t[0] == 'l') for (size_t k = 1; k < t.size(); k++) bits.push_back(t[k] == '1');
                else if (t[0] == 'r') { size_t c = t.find(':'); size_t len = std::stoull(t.substr(1, c - 1)); bits.insert(bits.end(), len, t[c + 1] == '1'); }
                else if (t[0] == 'x') {
                    size_t c = t.find(':'), d = t.find(':', c + 1);
                    size_t len = std::stoull(t.substr(1, c - 1)); unsigned den = std::stoul(t.substr(c + 1, d - c - 1)); u64 st = std::stoull(t.substr(d + 1)) * 2654435761u + 88172645463325252ull;
                    for (size_t k = 0; k < len; k++) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; bits.push_back(((st >> 20) & 1023) < den); }
                }
            }
            continue;
        }
        if (op == "build") {
            // the source may have been longer before, so that its storage is used
            size_t n = bits.size();
            bv = BitVector(n + (how % 3 == 1 ? 200 : 0), how % 3 == 1);
            bv.resize(n);
            for (size_t k = 0; k < n; k++) bv[k] = bits[k];
            s = make<S>(bv, how);
            if (how % 6 != 1 && how % 2) bv.assign(n, how % 4 == 1); // a copy is independent of its source
            Ev e("build"); e.i("n", n); digits_of(e, "d", bits, n);
            e.i("size", s->size()); digits_of(e, "acc", *s, std::min(s->size(), n));
        } else if (op == "ranks") {
            size_t n = bits.size();
            Ev e("ranks");
            e.list("r", n + 1, [&](size_t k) { buf += std::to_string(s->rank(k)); });
            e.list("r1", n + 1, [&](size_t k) { buf += std::to_string(s->rank_1(k)); });
            e.list("r0", n + 1, [&](size_t k) { buf += std::to_string(s->rank_0(k)); });
        } else if (op == "coarse") {
            size_t n = bits.size();
            std::vector<ll> q; u64 st = g.n() + 12345;
            for (int k = 0; k < 400; k++) { st = st * 6364136223846793005ull + 1442695040888963407ull; q.push_back((st >> 20) % (n + 1)); }
            for (size_t b = 0; b <= n; b += 512) { if (b) q.push_back(b - 1); if (b + 1 <= n) q.push_back(b + 1); }
            q.push_back(n);
            Ev e("coarse");
            e.list("r", n / 16 + 1, [&](size_t k) { buf += std::to_string(s->rank(k * 16)); });
            e.ints("q", q);
            e.list("a", q.size(), [&](size_t k) { buf += std::to_string(s->rank(q[k])); });
            e.list("a0", q.size(), [&](size_t k) { buf += std::to_string(s->rank_0(q[k])); });
        } else if (op == "selects") {
            if constexpr (Sel) {
                size_t ones = 0; for (bool b : bits) ones += b;   // of the input
                Ev e("selects"); e.i("ones", ones);
                e.list("e", ones, [&](size_t k) { buf += std::to_string((ll) s->select(k)); });
            }
        } else _exit(78);
    }
}
static void run(History& h) {
    unsigned sel = h.params.n(), how = h.params.n();
    if (sel) go<true>(h, how); else go<false>(h, how);
}
int main(int c, char** v) { return main_(c, v, run); }
