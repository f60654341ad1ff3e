// C22: sim_ds::calc
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/calc.hpp"
#include <deque>
using namespace vt;
namespace c = sim_ds::calc;
// lists are given as value:count pairs, in any order
template <class T, class R> static void lists(const std::vector<std::pair<u64, size_t>>& vc, unsigned shuffle, const std::vector<ll>& levels) {
    std::vector<T> l; for (auto& p : vc) l.insert(l.end(), p.second, T(p.first));
    if (shuffle % 3 == 1) std::reverse(l.begin(), l.end());
    if (shuffle % 3 == 2) { u64 st = shuffle; for (size_t k = l.size(); k > 1; k--) { st = st * 6364136223846793005ull + 1442695040888963407ull; std::swap(l[k - 1], l[(st >> 33) % k]); } }
    std::vector<R> f{9, 9, 9}, cf{1, 2, 3, 4}; // earlier content of the results
    if (shuffle % 2) { f.clear(); cf.clear(); f.shrink_to_fit(); }
    c::bit_length_frequencies(l, &f);
    c::cummulative_frequency_list(l, &cf);
    Ev e("list");
    e.list("l", vc.size(), [&](size_t k) { buf += "{\"v\":"; Ev::limbs(vc[k].first); buf += ",\"c\":" + std::to_string(vc[k].second) + "}"; });
    e.ints("f", f).ints("cf", cf);
    std::vector<std::vector<ll>> sp; std::vector<ll> lv;
    for (ll m : levels) {
        std::vector<R> s(shuffle % 5, R(7));
        if (l.empty()) s.clear();
        if (m < 0) c::split_positions_optimized_for_dac(l, &s); else c::split_positions_optimized_for_dac(l, &s, size_t(m));
        sp.push_back(std::vector<ll>(s.begin(), s.end())); lv.push_back(m < 0 ? 8 : m);
    }
    e.ints("lv", lv).list("sp", sp.size(), [&](size_t k) { buf += '['; for (size_t j = 0; j < sp[k].size(); j++) { if (j) buf += ','; buf += std::to_string(sp[k][j]); } buf += ']'; });
}
static void run(History& h) {
    unsigned tick = 7; for (auto ch : h.id) tick = tick * 131 + ch;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "units") { // one value, every unit size
            u64 v = g.x();
            Ev e("units"); e.w("v", v);
            e.list("r", 64, [&](size_t u) { buf += std::to_string(c::SizeFitsInUnits(v, u + 1)); });
            e.i("bits", c::SizeFitsInBits(v)).i("bytes", c::SizeFitsInBytes(v));
            e.ints("t", std::vector<size_t>{c::size_fits<1>(v), c::size_fits<2>(v), c::size_fits<3>(v), c::size_fits<4>(v), c::size_fits<7>(v), c::size_fits<8>(v), c::size_fits<16>(v), c::size_fits<32>(v), c::size_fits<63>(v), c::size_fits<64>(v)});
        } else if (op == "aslist") { // value, unit sizes
            u64 v = g.x(); auto s = g.ilist(); size_t r;
            if (k % 4 == 0) r = c::SizeFitsAsList(v, s);
            else if (k % 4 == 1) r = c::SizeFitsAsList(v, std::vector<size_t>(s.begin(), s.end()));
            else if (k % 4 == 2) r = c::SizeFitsAsList(v, std::vector<uint8_t>(s.begin(), s.end()));
            else r = c::SizeFitsAsList(v, std::deque<int>(s.begin(), s.end()));
            Ev e("aslist"); e.w("v", v).ints("s", s).i("r", r);
        } else if (op == "list") { // list type levels value:count...
            auto ty = g.n(); auto lv = g.ilist(); std::vector<std::pair<u64, size_t>> vc;
            while (g.more()) { auto& s = g.str(); auto p = s.find(':'); vc.emplace_back(std::stoull(s.substr(0, p), nullptr, 16), std::stoull(s.substr(p + 1))); }
            if (ty == 0) lists<uint64_t, size_t>(vc, k, lv);
            else if (ty == 1) lists<uint32_t, int>(vc, k, lv);
            else if (ty == 2) lists<uint8_t, size_t>(vc, k, lv);
            else if (ty == 3) lists<size_t, ll>(vc, k, lv);
            else lists<uint16_t, uint32_t>(vc, k, lv);
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
