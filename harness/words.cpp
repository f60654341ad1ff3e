// C21: sim_ds::bit_util, in one configuration of CPU features
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/bit_util.hpp"
#include "sim_ds/bit_util256.hpp"
#include "sim_ds/log.hpp"
using namespace vt;
namespace b = sim_ds::bit_util;
static volatile u64 hide; // arguments pass through memory, so that nothing is computed at compile time
static u64 H(u64 x) { hide = x; return hide; }
template <size_t... I> static std::vector<u64> width_masks(std::index_sequence<I...>) { return {b::width_mask<I>...}; }
template <size_t... I> static std::vector<u64> offset_masks(std::index_sequence<I...>) { return {b::offset_mask<I>...}; }
static void run(History& h) {
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "w") while (g.more()) {
            u64 x = H(g.x());
            Ev e("word"); e.w("x", x);
            e.list("p8", 8, [&](size_t k) { buf += std::to_string(int(b::popcnt8(uint8_t(x >> 8 * k)))); });
            e.list("q8", 8, [&](size_t k) { buf += std::to_string(int(b::popcnt<uint8_t>(uint8_t(x >> 8 * k)))); });
            e.list("p16", 4, [&](size_t k) { buf += std::to_string(int(b::popcnt16(uint16_t(x >> 16 * k)))); });
            e.list("q16", 4, [&](size_t k) { buf += std::to_string(int(b::popcnt<uint16_t>(uint16_t(x >> 16 * k)))); });
            e.list("p32", 2, [&](size_t k) { buf += std::to_string(ll(b::popcnt32(uint32_t(x >> 32 * k)))); });
            e.list("q32", 2, [&](size_t k) { buf += std::to_string(ll(b::popcnt<uint32_t>(uint32_t(x >> 32 * k)))); });
            e.i("p64", b::popcnt64(x)).i("q64", b::popcnt<uint64_t>(x));
            e.list("c64", 65, [&](size_t k) { buf += std::to_string(ll(b::cnt<uint64_t>(x, H(k)))); });
            e.list("c32", 33, [&](size_t k) { buf += std::to_string(ll(b::cnt<uint32_t>(uint32_t(x), H(k)))); });
            e.list("c8", 9, [&](size_t k) { buf += std::to_string(int(b::cnt<uint8_t>(uint8_t(x), H(k)))); });
            e.i("p11", b::popcnt11(x)).i("p10", b::popcnt10(x)).i("p111", b::popcnt111(x)).i("p110", b::popcnt110(x)).i("p101", b::popcnt101(x)).i("p100", b::popcnt100(x));
            e.i("ctz", b::ctz(uint64_t(x))).i("clz", b::clz(uint64_t(x)));
            e.list("ctz32", 2, [&](size_t k) { buf += std::to_string(b::ctz(uint32_t(x >> 32 * k))); });
            e.list("clz32", 2, [&](size_t k) { buf += std::to_string(b::clz(uint32_t(x >> 32 * k))); });
            size_t n = 0; for (int k = 0; k < 64; k++) n += x >> k & 1;
            e.list("sel", n, [&](size_t k) { buf += std::to_string(b::sel(x, H(k + 1))); });
            e.words("sw", std::vector<u64>{b::swap_pi1(x), b::swap_pi2(x), b::swap_pi4(x), b::swap_pi8(x), b::swap_pi16(x), b::swap_pi32(x)});
            std::vector<std::array<size_t, 2>> q;
            for (int k = 0; k < 10; k++) { tick = tick * 1103515245 + 12345; size_t s = (tick >> 16) % 64, l = (tick >> 8) % 65; if (k == 0) s = 0, l = 64; if (k == 1) l = 0; if (k == 2) l = 64 - s; q.push_back({s, l}); }
            e.list("bq", q.size(), [&](size_t k) { buf += '[' + std::to_string(q[k][0]) + ',' + std::to_string(q[k][1]) + ']'; });
            e.list("br", q.size(), [&](size_t k) { Ev::limbs(b::bextr(x, H(q[k][0]), H(q[k][1]))); });
        }
        else if (op == "masks") {
            Ev e("masks");
            e.list("w", 65, [&](size_t k) { Ev::limbs(b::WidthMask(H(k))); });
            e.words("wt", width_masks(std::make_index_sequence<65>()));
            e.list("o", 64, [&](size_t k) { Ev::limbs(b::OffsetMask(H(k))); });
            e.words("ot", offset_masks(std::make_index_sequence<64>()));
        }
        else if (op == "b256") { // four words, masks
            alignas(32) u64 x[4], y[4], z[12]; for (auto& w : x) w = H(g.x());
            for (auto& w : z) w = 0x5a5a;
            Ev e("b256"); e.words("x", x);
            e.b("zero", b::is_zero256(x)).i("pop", b::popcnt256(x)).i("ctz", b::ctz256(x)).i("clz", b::clz256(x));
#ifdef __AVX2__
            e.b("zeroi", b::is_zero256_intrinsics(_mm256_load_si256((const __m256i*) x)));
#else
            e.b("zeroi", b::is_zero256(x));
#endif
            b::copy256_epi64(x, z + 4); e.words("copy", z);
            b::set256_epi1(true, z + 4); e.words("ones", z);
            b::set256_epi1(false, z + 4); e.words("zeros", z);
            std::vector<ll> m = g.ilist();
            e.ints("m", m);
            e.key("y"); buf += '[';
            for (size_t k = 0; k < m.size(); k++) {
                if (k) buf += ',';
                b::xor_map(x, uint8_t(m[k]), y);
                buf += '['; for (int j = 0; j < 4; j++) { if (j) buf += ','; Ev::limbs(y[j]); } buf += ']';
            }
            buf += ']';
            e.key("yi"); buf += '[';
            for (size_t k = 0; k < m.size(); k++) {
                if (k) buf += ',';
#ifdef __AVX2__
                _mm256_store_si256((__m256i*) y, b::xor_map_intrinsics(_mm256_load_si256((const __m256i*) x), uint8_t(m[k])));
#else
                b::xor_map(x, uint8_t(m[k]), y);
#endif
                buf += '['; for (int j = 0; j < 4; j++) { if (j) buf += ','; Ev::limbs(y[j]); } buf += ']';
            }
            buf += ']';
            e.words("xx", x); // the source stays as it was
        }
        else if (op == "show") while (g.more()) { // digits as printed
            u64 x = H(g.x()); size_t n = g.n();
            std::ostringstream os; auto* was = std::cout.rdbuf(os.rdbuf());
            switch (tick++ % 8) {
            case 0: case 1: sim_ds::ShowAsBinary(x, n); break;
            case 2: n = 8; sim_ds::ShowAsBinary(x); break;
            case 3: n = 4; sim_ds::ShowAsBinary(uint32_t(x)); break;
            case 4: n = 2; sim_ds::ShowAsBinary(int16_t(x)); break;
            case 5: n = 1; sim_ds::ShowAsBinary(uint8_t(x)); break;
            case 6: sim_ds::ShowAsBinary(ll(x), n); break;
            default: n = 4; sim_ds::ShowAsBinary(int(x)); break;
            }
            std::cout.rdbuf(was);
            std::vector<ll> d; for (char c : os.str()) d.push_back(c == '0' || c == '1' ? c - '0' : c == ' ' ? 2 : c == '\n' ? 3 : 100 + c);
            Ev e("show"); e.w("x", x).i("n", n).ints("d", d);
        }
        else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
