// C22: sim_ds::calc on lists that are too long to be kept
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/calc.hpp"
#include <iterator>
using namespace vt;
namespace c = sim_ds::calc;
// a list by the runs of its values, with everything of a constant random-access container but the memory
class Long {
    struct It {
        using iterator_category = std::random_access_iterator_tag; using value_type = u64; using difference_type = ptrdiff_t; using pointer = const u64*; using reference = u64;
        const Long* l = nullptr; u64 x = 0;
        u64 operator*() const { return (*l)[x]; }
        u64 operator[](ptrdiff_t d) const { return (*l)[x + d]; }
        It& operator++() { ++x; return *this; }  It operator++(int) { It t = *this; ++x; return t; }
        It& operator--() { --x; return *this; }  It operator--(int) { It t = *this; --x; return t; }
        It& operator+=(ptrdiff_t d) { x += d; return *this; }  It& operator-=(ptrdiff_t d) { x -= d; return *this; }
        friend It operator+(It a, ptrdiff_t d) { a.x += d; return a; }  friend It operator+(ptrdiff_t d, It a) { a.x += d; return a; }
        friend It operator-(It a, ptrdiff_t d) { a.x -= d; return a; }  friend ptrdiff_t operator-(It a, It b) { return ptrdiff_t(a.x - b.x); }
        friend bool operator==(It a, It b) { return a.x == b.x; }  friend bool operator!=(It a, It b) { return a.x != b.x; }
        friend bool operator<(It a, It b) { return a.x < b.x; }  friend bool operator>(It a, It b) { return a.x > b.x; }
        friend bool operator<=(It a, It b) { return a.x <= b.x; }  friend bool operator>=(It a, It b) { return a.x >= b.x; }
    };
    mutable size_t at_ = 0; mutable u64 from = 0;   // run `at_` starts at `from`
public:
    using value_type = u64; using size_type = size_t; using difference_type = ptrdiff_t; using reference = u64; using const_reference = u64;
    using iterator = It; using const_iterator = It; using reverse_iterator = std::reverse_iterator<It>; using const_reverse_iterator = reverse_iterator;
    std::vector<std::pair<u64, u64>> runs; u64 n = 0;
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    u64 operator[](u64 x) const {
        if (x < from) at_ = 0, from = 0;
        while (x - from >= runs[at_].second) from += runs[at_++].second;
        return runs[at_].first;
    }
    u64 at(u64 x) const { if (x >= n) throw std::out_of_range("Long"); return (*this)[x]; }
    u64 front() const { return (*this)[0]; }
    u64 back() const { return (*this)[n - 1]; }
    It begin() const { return {this, 0}; }  It end() const { return {this, n}; }  It cbegin() const { return begin(); }  It cend() const { return end(); }
    reverse_iterator rbegin() const { return reverse_iterator(end()); }  reverse_iterator rend() const { return reverse_iterator(begin()); }
};
static void longlist(const Long& l, const std::vector<ll>& levels) {
    std::vector<size_t> f, cf;
    c::bit_length_frequencies(l, &f);
    c::cummulative_frequency_list(l, &cf);
    auto big = [](u64 x) { buf += '[' + std::to_string(x >> 20) + ',' + std::to_string(x & 0xfffff) + ']'; };
    Ev e("longlist");
    e.list("l", l.runs.size(), [&](size_t k) { buf += "{\"v\":"; Ev::limbs(l.runs[k].first); buf += ",\"c\":"; big(l.runs[k].second); buf += "}"; });
    e.list("f", f.size(), [&](size_t k) { big(f[k]); }).list("cf", cf.size(), [&](size_t k) { big(cf[k]); });
    std::vector<std::vector<size_t>> sp(levels.size());
    for (size_t k = 0; k < levels.size(); k++) c::split_positions_optimized_for_dac(l, &sp[k], size_t(levels[k]));
    e.ints("lv", levels).list("sp", sp.size(), [&](size_t k) { buf += '['; for (size_t j = 0; j < sp[k].size(); j++) { if (j) buf += ','; buf += std::to_string(sp[k][j]); } buf += ']'; });
}
static void run(History& h) {
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "longlist") { // levels value:count ..., in this order
            auto lv = g.ilist(); Long l;
            while (g.more()) { auto& s = g.str(); auto p = s.find(':'); l.runs.emplace_back(std::stoull(s.substr(0, p), nullptr, 16), std::stoull(s.substr(p + 1))); l.n += l.runs.back().second; }
            longlist(l, lv);
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
