// C08: sim_ds::MultipleVector
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/MultipleVector.hpp"
using namespace vt;
using sim_ds::MultipleVector;

// the field number is a template argument
constexpr size_t kFields = 40;
template <size_t... I, class F> static void with_id_(size_t id, F& f, std::index_sequence<I...>) {
    (void)((id == I ? (f(std::integral_constant<int, int(I)>{}), true) : false) || ...);
}
template <class F> static void with_id(size_t id, F f) { with_id_(id, f, std::make_index_sequence<kFields>{}); }
// f is called with the values as an initializer_list
template <size_t... I, class F> static void listed_(const std::vector<u64>& x, F& f, std::index_sequence<I...>) { f(std::initializer_list<u64>{x[I]...}); }
template <size_t... N, class F> static void listed__(const std::vector<u64>& x, F& f, std::index_sequence<N...>) {
    (void)((x.size() == N ? (listed_(x, f, std::make_index_sequence<N>{}), true) : false) || ...);
}
template <class F> static void listed(const std::vector<u64>& x, F f) { listed__(x, f, std::make_index_sequence<kFields + 1>{}); }
template <class F> static void with_type(size_t t, F f) {
    switch (t) { case 1: f(uint8_t{}); break; case 2: f(uint16_t{}); break; case 4: f(uint32_t{}); break; default: f(uint64_t{}); }
}
static void push_list(MultipleVector& m, const std::vector<u64>& x) { listed(x, [&](auto l) { m.push_back(l); }); }
static void resize_list(MultipleVector& m, size_t n, const std::vector<u64>& x) { listed(x, [&](auto l) { m.resize(n, l); }); }
static void assign_list(MultipleVector& m, size_t i, const std::vector<u64>& x) { auto b = m.block(i); listed(x, [&](auto l) { b = l; }); }

static void run(History& h) {
    std::vector<size_t> fs; // field sizes
    MultipleVector m;
    unsigned tick = 7;
    for (auto c : h.id) tick = tick * 131 + c;
    auto bytes = [&](u64 x, size_t w = 8) { buf += '['; for (size_t j = 0; j < w; j++) { if (j) buf += ','; buf += std::to_string((x >> (8 * j)) & 255); } buf += ']'; };
    auto blist = [&](Ev& e, const char* k, const std::vector<u64>& x) { e.list(k, x.size(), [&](size_t j) { bytes(x[j]); }); };
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345;
        unsigned k = tick >> 16;
        // the whole content: all records, all fields, each read through one of the accessors
        auto seen = [&](Ev& e) {
            const auto& c = m;
            size_t n = m.size();
            e.i("n", n).i("bs", m.block_size());
            e.list("f", fs.size(), [&](size_t j) { buf += std::to_string(m.element_size(j)); });
            e.list("s", n, [&](size_t i) {
                buf += '[';
                for (size_t f = 0; f < fs.size(); f++) {
                    if (f) buf += ',';
                    u64 x = 0;
                    with_id(f, [&](auto I) {
                        constexpr int id = decltype(I)::value;
                        switch ((k + f + i) % 5) {
                        case 0: x = m.block(i).template get<id>(); break;
                        case 1: x = c.block(i).template get<id>(); break;
                        case 2: x = m.block(i).get_at(f); break;
                        case 3: x = c.template nested_element<id>(i); break;
                        case 4: x = k % 2 ? c.block(i).template restricted_get<id, u64>() : m.block(i).template restricted_get<id, u64>(); break;
                        }
                    });
                    bytes(x);
                }
                buf += ']';
            });
        };
        if (op == "layout") {
            fs.clear(); while (g.more()) fs.push_back(g.n());
            if (k % 3 == 0) { m = MultipleVector(); m.set_element_sizes(fs); }
            else if (k % 3 == 1 && fs.size() == 3) m = MultipleVector{fs[0], fs[1], fs[2]};
            else if (k % 3 == 1 && fs.size() == 4) m = MultipleVector{int(fs[0]), int(fs[1]), int(fs[2]), int(fs[3])};
            else { m = MultipleVector{7u, 3u}; m.set_element_sizes(std::vector<int>(fs.begin(), fs.end())); } // laid out anew
            Ev e("layout"); e.ints("fs", fs); seen(e);
        }
        else if (op == "push") { auto x = g.xs(); push_list(m, x); Ev e("push"); blist(e, "l", x); seen(e); }
        else if (op == "emplace") { m.emplace_back(); Ev e("push"); blist(e, "l", {}); seen(e); }
        else if (op == "res") { size_t n = g.n(); m.resize(n); Ev e("res"); e.i("to", n); seen(e); }
        else if (op == "resl") { size_t n = g.n(); auto x = g.xs(); resize_list(m, n, x); Ev e("resl"); e.i("to", n); blist(e, "l", x); seen(e); }
        else if (op == "rsv") { size_t n = g.n(); m.reserve(n); Ev e("rsv"); seen(e); }
        else if (op == "copy") { // go on with a copy, change the original
            MultipleVector t(m);
            for (size_t i = 0; i < m.size(); i++) for (size_t f = 0; f < fs.size(); f++) m.block(i).set_at(f, ~m.block(i).get_at(f));
            if (k % 2) m = t; else m = std::move(t);
            Ev e("rsv"); seen(e);
        }
        else if (op == "set") { // set i f value: value fits the field for the nested interface, any value for blocks
            size_t i = g.n(), f = g.n(); u64 x = g.x(); unsigned how = g.n();
            u64 ret = 0;
            with_id(f, [&](auto I) {
                constexpr int id = decltype(I)::value;
                switch (how) {
                case 0: ret = m.template set_nested_element<id>(i, x); break;
                case 1: { auto b = m.block(i); ret = b.template set<id>(x); break; }
                case 2: { auto b = m.block(i); ret = b.set_at(f, x); break; }
                case 3: { auto b = m.block(i); ret = b.template restricted_set<id, u64>(x); break; }
                default: m.block(i).template set<id>(x); ret = x; break;
                }
            });
            Ev e("set"); e.i("i", i).i("f_", f); e.key("x"); bytes(x); e.key("ret"); bytes(ret); seen(e);
        }
        else if (op == "setat") { // set_at with a narrow type: setat i f value bytes signed
            size_t i = g.n(), f = g.n(); u64 x = g.x(); size_t t = g.n(); unsigned sg = g.n();
            auto b = m.block(i); u64 v = x;
            with_type(t, [&](auto z) { using T = decltype(z); if (sg) { auto y = std::make_signed_t<T>(x); v = u64(y); b.set_at(f, y); } else { auto y = T(x); v = u64(y); b.set_at(f, y); } });
            Ev e("set"); e.i("i", i).i("f_", f); e.key("x"); bytes(v); e.key("ret"); bytes(v); seen(e);
        }
        else if (op == "setr") { // restricted_set with T of t bytes
            size_t i = g.n(), f = g.n(); u64 x = g.x(); size_t t = g.n(); u64 ret = 0;
            with_id(f, [&](auto I) { constexpr int id = decltype(I)::value; with_type(t, [&](auto z) { using T = decltype(z); auto b = m.block(i); ret = b.template restricted_set<id, T>(T(x)); }); });
            Ev e("setr"); e.i("i", i).i("f_", f).i("t", t); e.key("x"); bytes(x); e.key("ret"); bytes(ret); seen(e);
        }
        else if (op == "getr") { // restricted_get with T of t bytes, from both kinds of blocks
            size_t i = g.n(), f = g.n(); size_t t = g.n(); u64 r = 0, r2 = 0; const auto& c = m;
            with_id(f, [&](auto I) { constexpr int id = decltype(I)::value; with_type(t, [&](auto z) { using T = decltype(z); r = m.block(i).template restricted_get<id, T>(); r2 = c.block(i).template restricted_get<id, T>(); }); });
            Ev e("getr"); e.i("i", i).i("f_", f).i("t", t); e.key("x"); bytes(r); e.key("y"); bytes(r2);
        }
        else if (op == "asn") { size_t i = g.n(); auto x = g.xs(); assign_list(m, i, x); Ev e("asn"); e.i("i", i); blist(e, "l", x); seen(e); }
        else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
