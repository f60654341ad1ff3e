// C20: Read / Write of every serialisable structure
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include <memory>
#include <list>
using namespace vt;
using namespace sim_ds;
using P = std::unique_ptr<struct Obj>;
using View = std::vector<std::string>; // the answers to all queries, as texts
struct Obj {
    virtual ~Obj() = default;
    virtual View view() = 0;
    virtual void write(std::ostream&) = 0;
    virtual void read(std::istream&) = 0;   // into this object
    virtual void poke(unsigned) {}          // go on changing it
};
static std::string D(u64 x) { return std::to_string(x); }
template <class F> static std::string run_of(size_t n, F f) { // asked for in an order that differs from list to list
    const unsigned from = turn, t = turn++ % 5;
    std::vector<std::string> a(n);
    for (size_t m = 0; m < n; m++) { const size_t j = t ? Ev::nth(t - 1, m, n, from) : m; a[j] = f(j); }
    std::string r; for (auto& x : a) { r += x; r += ' '; } return r;
}
static std::vector<std::string> probes; // queries of the string structures
static std::string enc(std::string_view s) { std::string r; char t[4]; for (unsigned char c : s) { snprintf(t, 4, "%02x", c); r += t; } return r; }

struct Bv : Obj {
    BitVector b;
    View view() override { return {D(b.size()), run_of(b.size(), [&](size_t j) { return b[j] ? "1" : "0"; })}; }
    void write(std::ostream& o) override { b.Write(o); }
    void read(std::istream& i) override { b.Read(i); }
    void poke(unsigned k) override {
        switch (k % 5) { case 0: b.push_back(k & 8); break; case 1: b.resize(b.size() + 70); break; case 2: b.resize(b.size() / 2); b.resize(b.size() + 100, true); break;
            case 3: if (b.size()) b[b.size() - 1] = !b[b.size() - 1]; break; case 4: for (int j = 0; j < 130; j++) b.push_back(j % 3 == 0); }
    }
};
template <bool S> struct Sbv : Obj {
    SuccinctBitVector<S> b;
    View view() override {
        View v{D(b.size()), run_of(b.size(), [&](size_t j) { return b[j] ? "1" : "0"; }), run_of(b.size() + 1, [&](size_t j) { return D(b.rank(j)); })};
        if constexpr (S) if (b.size()) v.push_back(run_of(b.rank(b.size()), [&](size_t j) { return D(b.select(j)); }));
        return v;
    }
    void write(std::ostream& o) override { b.Write(o); }
    void read(std::istream& i) override { b.Read(i); }
};
template <unsigned U> struct Mbv : Obj {
    MultiBitVector<U> m; size_t n = 0; // the number of elements is not kept by the structure
    View view() override {
        View v{run_of(n, [&](size_t j) { return D(m[j]); })};
        v.push_back(run_of(n, [&](size_t j) { return m[j] ? D(m.rank(j)) : std::string("-"); }));
        return v;
    }
    void write(std::ostream& o) override { m.Write(o); }
    void read(std::istream& i) override { m.Read(i); }
    void poke(unsigned k) override { if (!n) return; for (size_t j = k % 3; j < n; j += 5) m.set(j, (m[j] + k) & ((1u << U) - 1)); m.set(n, 1); n++; m.build(); }
};
struct Wt : Obj {
    WaveletTree w;
    Wt() : w(std::vector<int>{0}) {}
    explicit Wt(const std::vector<u64>& v) : w(v) {}
    View view() override {
        size_t n = w.size();
        return {D(n), run_of(n, [&](size_t j) { return D(w[j]); }), run_of(n, [&](size_t j) { return D(w.rank(j)); }),
                run_of(n, [&](size_t j) { auto p = w.AccessAndRank(j); return D(p.first) + ":" + D(p.second) + ":" + D(w.rank(p.first, j)); })};
    }
    void write(std::ostream& o) override { w.Write(o); }
    void read(std::istream& i) override { w.Read(i); }
};
struct Fit : Obj {
    FitVector f;
    View view() override { const auto& c = f; return {D(f.size()), D(f.empty()), D(f.unit_width()), run_of(f.size(), [&](size_t j) { return Ev::hex(c[j]); })}; }
    void write(std::ostream& o) override { f.Write(o); }
    void read(std::istream& i) override { f = FitVector(i); }
    void poke(unsigned k) override {
        u64 m = f.unit_width() == 0 ? 0 : f.unit_width() == 64 ? ~u64(0) : (u64(1) << f.unit_width()) - 1;
        if (!f.unit_width()) return;
        if (k % 2) for (int j = 0; j < 40; j++) f.push_back((0x9e3779b97f4a7c15ull * (j + k)) & m);
        else { f.resize(f.size() / 2 + 1); f[0] = m; f.resize(f.size() + 9, m & 5); }
    }
};
struct Dac : Obj {
    DacVector d;
    View view() override { return {D(d.size()), D(d.empty()), D(d.num_layers()), run_of(d.size(), [&](size_t j) { return Ev::hex(d[j]); }), run_of(d.size(), [&](size_t j) { return D(d.depth(j)); })}; }
    void write(std::ostream& o) override { d.Write(o); }
    void read(std::istream& i) override { d.Read(i); }
};
struct DacS : Dac { void read(std::istream& i) override { d = DacVector(i); } };
struct Mul : Obj {
    MultipleVector m; size_t k = 1;
    Mul() { m.set_element_sizes(std::vector<size_t>{1}); }
    View view() override {
        return {D(m.size()), D(m.block_size()), run_of(k, [&](size_t j) { return D(m.element_size(j)); }),
                run_of(m.size(), [&](size_t j) { auto b = m.block(j); return run_of(k, [&](size_t e) { return Ev::hex(b.get_at(e)); }) + ";" + Ev::hex(m.nested_element<0>(j)); })};
    }
    void write(std::ostream& o) override { m.StoreTo(o); }
    void read(std::istream& i) override { m.LoadFrom(i); }
    void poke(unsigned s) override { m.emplace_back(); m.block(m.size() - 1).set_at(k - 1, s & 0x7f); m.resize(m.size() + 2); m.set_nested_element<0>(m.size() - 1, s & 0x7f); }
};
template <class S> struct Aut : Obj {
    S a; std::vector<std::string> keys; // only to know what to ask
    View view() override { return {run_of(probes.size(), [&](size_t j) { return a.accept(probes[j]) ? "1" : "0"; })}; }
    void write(std::ostream& o) override { a.Write(o); }
    void read(std::istream& i) override { a.Read(i); }
};
template <class S> struct Dic : Obj {
    S a; size_t n = 0;
    View view() override { return {run_of(probes.size(), [&](size_t j) { return D(a.lookup(probes[j])); }), run_of(n, [&](size_t j) { return enc(a.access(j)); })}; }
    void write(std::ostream& o) override { a.Write(o); }
    void read(std::istream& i) override { a.Read(i); }
};
struct Sa : Obj {
    SuffixArray a; size_t n = 0;
    View view() override {
        std::stringstream x, y; a.WriteSA(x); a.WriteLCP(y); FitVector f(x), g(y);
        return {run_of(n, [&](size_t j) { return D(a.char_at(j)); }), enc(a.suffix(0)), run_of(f.size(), [&](size_t j) { return D(f[j]); }), run_of(g.size(), [&](size_t j) { return D(g[j]); })};
    }
    void write(std::ostream& o) override { a.Write(o); }
    void read(std::istream& i) override { a.Read(i); }
};
template <class T> struct Val : Obj { // single values and vectors of values
    T x{};
    View view() override { return {D(x)}; }
    void write(std::ostream& o) override { write_val(x, o); }
    void read(std::istream& i) override { x = read_val<T>(i); }
};
template <class T, class V = std::vector<T>> struct Vec : Obj {
    V x;
    View view() override { return {D(x.size()), run_of(x.size(), [&](size_t j) { return D(u64(x[j])); })}; }
    void write(std::ostream& o) override { write_vec(x, o); }
    void read(std::istream& i) override { read_vec(i, x); }
    void poke(unsigned k) override { x.push_back(T(k)); }
};
struct Str : Obj {
    std::string x;
    View view() override { return {D(x.size()), enc(x)}; }
    void write(std::ostream& o) override { write_string(x, o); }
    void read(std::istream& i) override { x = read_string(i); }
};

static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; if (s == "-") return r; size_t a = 0; while (a <= s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); std::string t; for (size_t k = a; k + 1 < b; k += 2) t.push_back((char) std::stoi(s.substr(k, 2), nullptr, 16)); r.push_back(t); a = b + 1; } return r; }
// an object of the kind and content, and how many elements a fresh object has to be asked for
static P make(const std::string& kind, Args g) {
    if (kind == "bv") { auto r = std::make_unique<Bv>(); for (int b : g.bits()) r->b.push_back(b); return r; }
    if (kind == "sbv" || kind == "sbv0") { BitVector b; for (int x : g.bits()) b.push_back(x); if (kind == "sbv") { auto r = std::make_unique<Sbv<true>>(); r->b = SuccinctBitVector<true>(b); return r; } auto r = std::make_unique<Sbv<false>>(); r->b = SuccinctBitVector<false>(b); return r; }
    if (kind.substr(0, 3) == "mbv") {
        auto l = g.bits();
        auto go = [&](auto r) -> P { for (size_t j = 0; j < l.size(); j++) r->m.set(j, l[j]); r->n = l.size(); if (r->n) r->m.build(); return r; };
        if (kind == "mbv1") return go(std::make_unique<Mbv<1>>());
        if (kind == "mbv2") return go(std::make_unique<Mbv<2>>());
        return go(std::make_unique<Mbv<3>>());
    }
    if (kind == "wt") { return std::make_unique<Wt>(g.xlist()); }
    if (kind == "fit") { auto r = std::make_unique<Fit>(); r->f = FitVector(g.xlist()); return r; }
    if (kind == "fitw") { auto r = std::make_unique<Fit>(); size_t w = g.n(); r->f = FitVector(w); for (auto x : g.xlist()) r->f.push_back(x); return r; }
    if (kind == "dac" || kind == "dacs") { auto r = kind == "dac" ? std::make_unique<Dac>() : std::make_unique<DacS>(); auto un = g.ilist(); auto l = g.xlist(); r->d = un.empty() ? DacVector(l) : DacVector(l, un); return r; }
    if (kind == "dac0") return std::make_unique<Dac>();
    if (kind == "mul") { auto r = std::make_unique<Mul>(); auto sz = g.ilist(); r->k = sz.size(); r->m = MultipleVector(); r->m.set_element_sizes(std::vector<size_t>(sz.begin(), sz.end())); auto l = g.xlist(); for (size_t j = 0; j + r->k <= l.size(); j += r->k) { r->m.emplace_back(); for (size_t e = 0; e < r->k; e++) r->m.block(r->m.size() - 1).set_at(e, l[j + e]); } return r; }
    if (kind == "acc" || kind == "accl" || kind == "acc16") {
        auto ks = split(g.str());
        auto go = [&](auto r) -> P { using S = decltype(r->a); r->a = S(ks.begin(), ks.end()); return r; };
        if (kind == "acc") return go(std::make_unique<Aut<Samc<uint32_t>>>());
        if (kind == "acc16") return go(std::make_unique<Aut<Samc<uint16_t>>>());
        return go(std::make_unique<Aut<Samc<uint64_t, true>>>());
    }
    if (kind == "dic" || kind == "dic64") {
        auto ks = split(g.str());
        auto go = [&](auto r) -> P { using S = decltype(r->a); r->a = S(ks.begin(), ks.end()); r->n = ks.size(); return r; };
        if (kind == "dic") return go(std::make_unique<Dic<SamcDict<uint32_t>>>());
        return go(std::make_unique<Dic<SamcDict<uint64_t>>>());
    }
    if (kind == "sa") { auto r = std::make_unique<Sa>(); auto s = g.bytes(); r->a = SuffixArray(s); r->n = s.size(); return r; }
    if (kind == "v8") { auto r = std::make_unique<Val<uint8_t>>(); r->x = (uint8_t) g.x(); return r; }
    if (kind == "v32") { auto r = std::make_unique<Val<uint32_t>>(); r->x = (uint32_t) g.x(); return r; }
    if (kind == "v64") { auto r = std::make_unique<Val<uint64_t>>(); r->x = g.x(); return r; }
    if (kind == "vec8") { auto r = std::make_unique<Vec<uint8_t>>(); for (auto x : g.xlist()) r->x.push_back((uint8_t) x); return r; }
    if (kind == "vec32") { auto r = std::make_unique<Vec<uint32_t>>(); for (auto x : g.xlist()) r->x.push_back((uint32_t) x); return r; }
    if (kind == "vec64") { auto r = std::make_unique<Vec<uint64_t>>(); r->x = g.xlist(); return r; }
    if (kind == "veca") { auto r = std::make_unique<Vec<uint64_t, aligned_vector<uint64_t>>>(); for (auto x : g.xlist()) r->x.push_back(x); return r; }
    if (kind == "str") { auto r = std::make_unique<Str>(); r->x = g.bytes(); return r; }
    fprintf(stderr, "unknown kind %s\n", kind.c_str()); _exit(78);
}
// what has to be asked of an object that was read: taken over from the object that was written
static void hint(Obj* from, Obj* to) {
    if (auto a = dynamic_cast<Mbv<1>*>(from)) dynamic_cast<Mbv<1>*>(to)->n = a->n;
    if (auto a = dynamic_cast<Mbv<2>*>(from)) dynamic_cast<Mbv<2>*>(to)->n = a->n;
    if (auto a = dynamic_cast<Mbv<3>*>(from)) dynamic_cast<Mbv<3>*>(to)->n = a->n;
    if (auto a = dynamic_cast<Mul*>(from)) dynamic_cast<Mul*>(to)->k = a->k;
    if (auto a = dynamic_cast<Sa*>(from)) dynamic_cast<Sa*>(to)->n = a->n;
    if (auto a = dynamic_cast<Dic<SamcDict<uint32_t>>*>(from)) dynamic_cast<Dic<SamcDict<uint32_t>>*>(to)->n = a->n;
    if (auto a = dynamic_cast<Dic<SamcDict<uint64_t>>*>(from)) dynamic_cast<Dic<SamcDict<uint64_t>>*>(to)->n = a->n;
}
static std::vector<P> ex;
static P fresh(Obj* like) {
    P r;
    #define K(T) if (auto a = dynamic_cast<T*>(like)) r = std::make_unique<T>();
    K(Bv) K(Sbv<true>) K(Sbv<false>) K(Mbv<1>) K(Mbv<2>) K(Mbv<3>) K(Wt) K(Fit) K(Dac) K(DacS) K(Mul) K(Aut<Samc<uint32_t>>) K(Aut<Samc<uint16_t>>)
    if (dynamic_cast<Aut<Samc<uint64_t, true>>*>(like)) r = std::make_unique<Aut<Samc<uint64_t, true>>>();
    K(Dic<SamcDict<uint32_t>>) K(Dic<SamcDict<uint64_t>>) K(Sa) K(Val<uint8_t>) K(Val<uint32_t>) K(Val<uint64_t>) K(Vec<uint8_t>) K(Vec<uint32_t>) K(Vec<uint64_t>)
    if (dynamic_cast<Vec<uint64_t, aligned_vector<uint64_t>>*>(like)) r = std::make_unique<Vec<uint64_t, aligned_vector<uint64_t>>>();
    K(Str)
    return r;
}
static void run(History& h) {
    std::streambuf* old = std::cout.rdbuf(nullptr);
    std::map<int, P> slot;
    std::map<int, std::string> kind;
    std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
    std::list<std::pair<std::string, P>> written; // kinds and witnesses of the stream's items, to know what to ask
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    probes.clear();
    auto show = [&](Ev& e, int s) {
        View v = slot[s]->view();
        e.list("v", v.size(), [&](size_t j) { buf += '"' + v[j] + '"'; });
    };
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "probes") { probes = split(g.str()); continue; }
        if (op == "put") { // put slot kind content
            int s = (int) g.i(); auto kd = g.str();
            slot[s] = make(kd, g); kind[s] = kd;
            Ev e("put"); e.i("o", s).s("k", kd); show(e, s);
        } else if (op == "write") {
            int s = (int) g.i();
            auto a = st.tellp(); if (a < 0) { st.clear(); st.seekp(0, std::ios::end); a = st.tellp(); }
            slot[s]->write(st); auto b = st.tellp();
            P w = fresh(slot[s].get()); hint(slot[s].get(), w.get());
            written.emplace_back(kind[s], std::move(w));
            Ev e("write"); e.i("o", s).i("n", b - a).b("ok", st.good());
        } else if (op == "read") { // read slot: the next item, into the object there if it has the same kind, else into a new one
            int s = (int) g.i();
            auto& w = written.front();
            bool used = slot.count(s) && kind[s] == w.first;
            if (!used) { slot[s] = fresh(w.second.get()); kind[s] = w.first; }
            hint(w.second.get(), slot[s].get());
            auto a = st.tellg(); slot[s]->read(st); auto b = st.tellg();
            Ev e("read"); e.i("o", s).b("used", used).s("k", w.first).i("n", b - a).b("ok", st.good()); show(e, s);
            written.pop_front();
        } else if (op == "drop") { int s = (int) g.i(); slot.erase(s); kind.erase(s); Ev e("drop"); e.i("o", s);
        } else if (op == "view") { int s = (int) g.i(); Ev e("view"); e.i("o", s); show(e, s);
        } else if (op == "poke") { // the same changes to two objects
            int s = (int) g.i(), t = (int) g.i();
            slot[s]->poke(k); slot[t]->poke(k);
            View a = slot[s]->view(), b = slot[t]->view();
            Ev e("poke"); e.i("o", s).i("q", t); e.list("v", a.size(), [&](size_t j) { buf += '"' + a[j] + '"'; }); e.list("w", b.size(), [&](size_t j) { buf += '"' + b[j] + '"'; });
        } else _exit(78);
    }
    std::cout.rdbuf(old);
}
int main(int c, char** v) { return main_(c, v, run); }
