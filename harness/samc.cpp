// C18, C23: sim_ds::Samc, sim_ds::SamcDict
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include <memory>
#include <set>
#include <deque>
#include <list>
using namespace vt;
static void str(const std::string& s) { buf += '['; bool first = true; for (unsigned char c : s) { if (!first) buf += ','; first = false; buf += std::to_string(int(c)); } buf += ']'; }
template <class T> static std::unique_ptr<T> make(const std::vector<std::string>& ks, unsigned how) {
    std::unique_ptr<T> r;
    if (how % 3 == 0) r = std::make_unique<T>(ks.begin(), ks.end());
    else if (how % 3 == 1) { std::set<std::string> s(ks.begin(), ks.end()); r = std::make_unique<T>(s.begin(), s.end()); }
    else { std::deque<std::string> s(ks.begin(), ks.end()); r = std::make_unique<T>(s.begin(), s.end()); }
    if (how / 3 % 3 == 1) { auto c = std::make_unique<T>(*r); r = std::move(c); }
    if (how / 3 % 3 == 2) { auto c = std::make_unique<T>(); *c = *r; r = std::move(c); }
    return r;
}
template <class M, class D> static void go(History& h) {
    std::unique_ptr<std::conditional_t<std::is_void_v<M>, int, M>> m; std::unique_ptr<std::conditional_t<std::is_void_v<D>, int, D>> d;
    std::vector<std::string> keys;
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    auto queries = [&](Args& g) { std::vector<std::string> q; while (g.more()) { auto& s = g.str(); g.p--; if (s[0] == '#') { auto x = g.str(); q.push_back(keys[std::stoull(x.substr(1))]); } else q.push_back(g.bytes()); } return q; };
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "keys") {
            keys.clear(); while (g.more()) keys.push_back(g.bytes());
            if constexpr (!std::is_void_v<M>) { auto o = make<M>(keys, k); if (!m || k % 5 < 2) m = std::move(o); else if (k % 5 == 2) *m = *o; else *m = std::move(*o); } // over one that has answered queries
            if constexpr (!std::is_void_v<D>) { auto o = make<D>(keys, k); if (!d || k % 5 < 2) d = std::move(o); else if (k % 5 == 2) *d = *o; else *d = std::move(*o); }
            Ev e("keys"); e.list("k", keys.size(), [&](size_t j) { str(keys[j]); });
        } else if (op == "acc") {
            if constexpr (!std::is_void_v<M>) {
                auto q = queries(g); std::vector<ll> r; for (auto& x : q) r.push_back(m->accept(x));
                Ev e("acc"); e.list("q", q.size(), [&](size_t j) { str(q[j]); }); e.ints("r", r);
            }
        } else if (op == "look") {
            if constexpr (!std::is_void_v<D>) {
                auto q = queries(g); std::vector<ll> r; for (auto& x : q) { auto i = d->lookup(x); r.push_back(i == D::kSearchError ? -1 : i > 2000000000 ? -2 : (ll) i); }
                Ev e("look"); e.list("q", q.size(), [&](size_t j) { str(q[j]); }); e.ints("r", r);
            }
        } else if (op == "ids") { // every identifier there and back
            if constexpr (!std::is_void_v<D>) {
                std::vector<std::string> s; std::vector<ll> r;
                for (size_t i = 0; i < keys.size(); i++) { s.push_back(d->access(i)); auto x = d->lookup(s.back()); r.push_back(x > 2000000000 ? -1 : (ll) x); }
                Ev e("ids"); e.list("s", s.size(), [&](size_t j) { str(s[j]); }); e.ints("r", r);
            }
        } else _exit(78);
    }
}
static void run(History& h) {
    std::string what = h.params.str(); auto ty = h.params.n();
    using namespace sim_ds;
    if (what == "acc") switch (ty) {
        case 0: go<Samc<uint32_t>, void>(h); break;
        case 1: go<Samc<uint16_t>, void>(h); break;
        case 2: go<Samc<uint64_t>, void>(h); break;
        case 3: go<Samc<uint32_t, true>, void>(h); break;
        case 4: go<Samc<uint64_t, true>, void>(h); break;
        case 5: go<Samc<uint8_t>, void>(h); break;
        case 6: go<Samc<uint8_t, true>, void>(h); break;
        case 7: go<Samc<int32_t>, void>(h); break;
        default: _exit(78);
    } else switch (ty) {
        case 0: go<void, SamcDict<uint32_t>>(h); break;
        case 1: go<void, SamcDict<uint16_t>>(h); break;
        case 2: go<void, SamcDict<uint64_t>>(h); break;
        case 3: go<void, SamcDict<int64_t>>(h); break;
        case 4: go<void, SamcDict<uint8_t>>(h); break;
        default: _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
