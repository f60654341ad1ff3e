// C14: sim_ds::InitializableArrayFolklore, sim_ds::InitializableArray
#include "trace.hpp"
#include <memory>
#include "sim_ds/basic.hpp"
#include "sim_ds/InitializableArray.hpp"
#include <memory>
#include <new>
using namespace vt;
// Values are bit patterns of T, as 64-bit words.
template <class T> static T of(u64 x) { T t; std::memset(&t, 0, sizeof t); std::memcpy(&t, &x, std::min(sizeof t, sizeof x)); return t; }
template <class T> static u64 bits(T t) { u64 x = 0; std::memcpy(&x, &t, std::min(sizeof t, sizeof x)); return x; }

template <class A, class T> static void drive(A* a, History& h, size_t n, size_t from, u64 v0, bool inplace) {
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    std::vector<std::unique_ptr<A>> keep;
    auto seen = [&](Ev& e) {
        const A& c = *a;
        e.i("n", a->size());
        e.list("a", n, [&](size_t j) {
            T t;
            if constexpr (!std::is_same_v<A, sim_ds::InitializableArrayFolklore<T>>) t = tick >> 16 & 1 ? T((*a)[j]) : tick >> 17 & 1 ? T(c[j]) : c.get(j);
            else t = c.get(j);
            Ev::limbs(bits(t));
        });
    };
    { Ev e("init"); e.i("size", n).w("x", v0); seen(e); }
    for (size_t k = from; k < h.ops.size(); k++) {
        auto& g = h.ops[k]; const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345;
        if (op == "init") { u64 x = g.x(); if (tick >> 16 & 1) a->init(of<T>(x)); else a->fill(of<T>(x)); Ev e("init"); e.i("size", n).w("x", x); seen(e); }
        else if (op == "init0") { if (tick >> 16 & 1) a->init(); else a->fill(); Ev e("init"); e.i("size", n).w("x", bits(T())); seen(e); }
        else if (op == "set") {
            size_t i = g.n(); u64 x = g.x();
            if constexpr (!std::is_same_v<A, sim_ds::InitializableArrayFolklore<T>>) { if (tick >> 16 & 1) (*a)[i] = of<T>(x); else a->set(i, of<T>(x)); }
            else a->set(i, of<T>(x));
            Ev e("set"); e.i("i", i).w("x", x); seen(e);
        } else if (op == "setq") { // many writes, one look
            std::vector<std::pair<size_t, u64>> l; while (g.more()) { size_t i = g.n(); u64 x = g.x(); l.emplace_back(i, x); }
            for (auto& [i, x] : l) a->set(i, of<T>(x));
            Ev e("setq"); e.list("l", l.size(), [&](size_t j) { buf += '[' + std::to_string(l[j].first) + ','; Ev::limbs(l[j].second); buf += ']'; }); seen(e);
        } else if (op == "copy") { // go on with a copy (made, or assigned to an array in use); the original is written all over
            std::unique_ptr<A> c;
            if (tick >> 16 & 1) c = std::make_unique<A>(*a);
            else { c = std::make_unique<A>(); for (size_t j = 0; j < c->size(); j += 3) c->set(j, of<T>(j)); *c = *a; }
            for (size_t j = 0; j < n; j++) a->set(j, of<T>(77 + j));
            a->init(of<T>(99)); if (n) a->set(n / 2, of<T>(98));
            if (tick >> 17 & 1 && keep.size()) keep.pop_back();
            keep.push_back(std::move(c)); a = keep.back().get();
            Ev e("copy"); seen(e);
        } else if (op == "list") { // a folklore array made of a range of values
            auto l = g.xs(); std::vector<T> v; for (auto x : l) v.push_back(of<T>(x));
            if constexpr (std::is_same_v<A, sim_ds::InitializableArrayFolklore<T>>) { *a = A(v.begin(), v.end()); n = v.size(); } else _exit(78);
            Ev e("list"); e.words("l", l); seen(e);
        } else _exit(78);
    }
}
template <class T, size_t S> static void inplace(History& h) {
    using A = sim_ds::InitializableArray<T, S>;
    // memory: what the array's memory holds before
    auto& g = h.ops[0]; next_op(g); auto fill = g.bytes(); u64 v0 = g.x();
    static_assert(sizeof(A) < 1 << 16);
    alignas(64) static unsigned char mems[2][1 << 16];
    unsigned char* mem = mems[side == 1];   // two histories in turn: each its own
    for (size_t k = 0; k < sizeof(A); k++) mem[k] = fill.empty() ? 0 : (unsigned char) fill[k % fill.size()];
    asm volatile("" ::: "memory");
    A* a = v0 == 0 && fill.size() % 2 ? new (mem) A() : new (mem) A(of<T>(v0));
    drive<A, T>(a, h, S, 1, v0, true);
}
template <class T> static void folklore(History& h, size_t n) {
    using A = sim_ds::InitializableArrayFolklore<T>;
    auto& g = h.ops[0]; next_op(g); g.bytes(); u64 v0 = g.x();
    A a = v0 == 0 && n % 2 ? A(n) : A(n, of<T>(v0));
    drive<A, T>(&a, h, n, 1, v0, false);
}
template <class T> static void types_few(History& h, size_t n) {
    switch (n) {
    case 1: inplace<T, 1>(h); break; case 4: inplace<T, 4>(h); break; case 5: inplace<T, 5>(h); break;
    case 6: inplace<T, 6>(h); break; case 8: inplace<T, 8>(h); break; case 64: inplace<T, 64>(h); break;
    default: _exit(78);
    }
}
template <class T> static void types(History& h, size_t n) {
    switch (n) {
    case 1: inplace<T, 1>(h); break; case 2: inplace<T, 2>(h); break; case 3: inplace<T, 3>(h); break;
    case 4: inplace<T, 4>(h); break; case 5: inplace<T, 5>(h); break; case 6: inplace<T, 6>(h); break;
    case 7: inplace<T, 7>(h); break; case 8: inplace<T, 8>(h); break; case 16: inplace<T, 16>(h); break;
    case 33: inplace<T, 33>(h); break; case 64: inplace<T, 64>(h); break; case 128: inplace<T, 128>(h); break;
    default: _exit(78);
    }
}
static void run(History& h) {
    unsigned kind = h.params.n(); unsigned ty = h.params.n(); size_t n = h.params.n();
    if (kind == 0) switch (ty) {
        case 0: folklore<uint8_t>(h, n); break; case 1: folklore<uint16_t>(h, n); break; case 2: folklore<int>(h, n); break;
        case 3: folklore<uint64_t>(h, n); break; case 4: folklore<int8_t>(h, n); break; case 5: folklore<long long>(h, n); break;
        case 6: folklore<double>(h, n); break; case 7: folklore<float>(h, n); break; default: folklore<long double>(h, n); break;
    } else switch (ty) {
        case 0: types<uint8_t>(h, n); break; case 1: types<uint16_t>(h, n); break; case 2: types<int>(h, n); break;
        case 3: types<uint64_t>(h, n); break; case 4: types_few<int8_t>(h, n); break; case 5: types_few<long long>(h, n); break;
        case 6: types_few<double>(h, n); break; case 7: types_few<float>(h, n); break; default: types_few<long double>(h, n); break;
    }
}
int main(int c, char** v) { return main_(c, v, run); }
