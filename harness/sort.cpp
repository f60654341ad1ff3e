// C13: sim_ds::HeapSort
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/sort.hpp"
#include <deque>
using namespace vt;
template <class T> struct Conv { static T to(ll x) { return T(x); } static ll from(const T& t) { return ll(t); } };
template <> struct Conv<std::string> {
    static std::string to(ll x) { char b[40]; snprintf(b, sizeof b, "%08lld-padding-beyond-the-small-buffer", x + 10000000); return b; }
    static ll from(const std::string& s) { return s.size() < 8 ? -999999999 : std::stoll(s.substr(0, 8)) - 10000000; }
};
using P = std::pair<int, std::string>;
template <> struct Conv<P> { static P to(ll x) { return {int(x), std::to_string(x)}; } static ll from(const P& p) { return p.second == std::to_string(p.first) ? p.first : -999999999; } };

template <class It> static void call(It b, It e, const std::string& cmp, ll m) {
    using T = typename std::iterator_traits<It>::value_type;
    auto k = [](const T& t) { return Conv<T>::from(t); };
    if (cmp == "default") sim_ds::HeapSort(b, e);
    else if (cmp == "less") sim_ds::HeapSort(b, e, std::less<T>());
    else if (cmp == "greater") sim_ds::HeapSort(b, e, std::greater<T>());
    else if (cmp == "mod") sim_ds::HeapSort(b, e, [=](const T& x, const T& y) { return ((k(x) % m) + m) % m < ((k(y) % m) + m) % m; });
    else if (cmp == "none") sim_ds::HeapSort(b, e, [](const T&, const T&) { return false; });
    else _exit(78);
}
template <class T> static std::vector<ll> sorted(std::vector<ll> in, size_t a, size_t b, unsigned cont, const std::string& cmp, ll m) {
    std::vector<T> v; for (auto x : in) v.push_back(Conv<T>::to(x));
    std::vector<ll> r;
    switch (cont) {
    case 0: call(v.begin() + a, v.begin() + b, cmp, m); break;
    case 1: if (v.empty()) call((T*) nullptr, (T*) nullptr, cmp, m); else call(v.data() + a, v.data() + b, cmp, m); break;
    case 2: { std::deque<T> d(v.begin(), v.end()); call(d.begin() + a, d.begin() + b, cmp, m); v.assign(d.begin(), d.end()); break; }
    default: { std::vector<T> w(v.rbegin(), v.rend()); call(w.rbegin() + a, w.rbegin() + b, cmp, m); v.assign(w.rbegin(), w.rend()); break; }
    }
    for (auto& x : v) r.push_back(Conv<T>::from(x));
    return r;
}
static void run(History& h) {
    for (auto& g : h.ops) {
        next_op(g); // sort type container cmp m a b values...
        unsigned ty = g.n(), cont = g.n(); auto cmp = g.str(); ll m = g.i(); size_t a = g.n(), b = g.n(); auto in = g.is();
        std::vector<ll> out;
        switch (ty) {
        case 0: out = sorted<int>(in, a, b, cont, cmp, m); break;
        case 1: out = sorted<uint8_t>(in, a, b, cont, cmp, m); break;
        case 2: out = sorted<double>(in, a, b, cont, cmp, m); break;
        case 3: out = sorted<std::string>(in, a, b, cont, cmp, m); break;
        case 4: out = sorted<P>(in, a, b, cont, cmp, m); break;
        case 5: out = sorted<uint64_t>(in, a, b, cont, cmp, m); break;
        default: out = sorted<short>(in, a, b, cont, cmp, m); break;
        }
        Ev e("sort"); e.i("ty", ty).i("cont", cont).s("cmp", cmp).i("m", m).i("a", a).i("b", b).ints("in", in).ints("out", out);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
