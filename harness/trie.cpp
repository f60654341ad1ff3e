// C17: sim_ds::graph_util::Trie
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/graph_util.hpp"
#include <memory>
using namespace vt;
static void str(const std::string& s) { buf += '['; bool first = true; for (unsigned char c : s) { if (!first) buf += ','; first = false; buf += std::to_string(int(c)); } buf += ']'; }
template <class I> struct conv { static I to(ll x) { return I(x); } static ll from(const I& x) { return ll(x); } };
template <> struct conv<std::string> { static std::string to(ll x) { return "item number " + std::to_string(x); } static ll from(const std::string& s) { return s.size() > 12 ? std::stoll(s.substr(12)) : -7; } };
template <class I, class S> static void go(History& h) {
    using T = sim_ds::graph_util::Trie<I, S>;
    auto t = std::make_unique<T>();
    std::vector<std::unique_ptr<T>> keep;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        if (op == "ins") {
            auto k = g.bytes(); ll x = g.i(); I* p = t->insert(k, conv<I>::to(x));
            Ev e("ins"); e.key("k"); str(k); e.i("x", x).i("r", p ? conv<I>::from(*p) : -1).i("n", t->size());
        } else if (op == "assign") { // write through the returned pointer
            auto k = g.bytes(); ll x = g.i(); I* p = t->traverse(k); if (p) *p = conv<I>::to(x);
            Ev e("assign"); e.key("k"); str(k); e.i("x", x).b("p", p != nullptr);
        } else if (op == "look") {
            std::vector<std::string> q; std::vector<ll> r;
            while (g.more()) { q.push_back(g.bytes()); I* p = t->traverse(q.back()); r.push_back(p ? conv<I>::from(*p) : -1); }
            Ev e("look"); e.list("q", q.size(), [&](size_t j) { str(q[j]); }); e.ints("r", r);
        } else if (op == "dfs" || op == "bfs") {
            struct V { size_t d; bool term; std::vector<int> c; }; std::vector<V> v;
            auto see = [&](const auto& n, size_t d) { V x{d, n.terminal(), {}}; n.for_each_edge([&](uint8_t c, auto) { x.c.push_back(c); }); v.push_back(x); };
            if (op == "dfs") t->dfs(see); else t->bfs(see);
            Ev e(op.c_str()); e.i("n", t->size());
            e.list("v", v.size(), [&](size_t j) { buf += "{\"d\":" + std::to_string(v[j].d) + ",\"t\":" + (v[j].term ? "1" : "0") + ",\"c\":["; for (size_t k = 0; k < v[j].c.size(); k++) { if (k) buf += ','; buf += std::to_string(v[j].c[k]); } buf += "]}"; });
        } else if (op == "walk") { // node by node through the public node interface
            auto k = g.bytes(); size_t n = 0; ll m = 0; bool agree = true;
            for (unsigned char c : k) {
                auto& nd = m == 0 ? t->root() : t->node(n);
                size_t to = nd.target(c);
                size_t other = 0; nd.for_each_edge([&](uint8_t d, auto x) { if (d == c) other = x; });
                agree = agree && to == other;
                if (to == 0) break;
                n = to; m++;
            }
            size_t sub = 0; t->dfs(n, 5, [&](const auto&, size_t d) { sub++; agree = agree && d >= 5; });
            Ev e("walk"); e.key("k"); str(k); e.i("m", m).b("ok", agree).b("t", t->node(n).terminal()).i("sub", sub);
        } else if (op == "insq") { // many at once
            std::vector<std::string> ks; std::vector<ll> x, r;
            while (g.more()) { ks.push_back(g.bytes()); x.push_back(g.i()); I* p = t->insert(ks.back(), conv<I>::to(x.back())); r.push_back(p ? conv<I>::from(*p) : -1); }
            Ev e("insq"); e.list("k", ks.size(), [&](size_t j) { str(ks[j]); }); e.ints("x", x).ints("r", r).i("n", t->size());
        } else if (op == "lookq") {
            std::vector<std::string> q; std::vector<ll> r;
            while (g.more()) { q.push_back(g.bytes()); I* p = t->traverse(q.back()); r.push_back(p ? conv<I>::from(*p) : -1); }
            Ev e("lookq"); e.list("q", q.size(), [&](size_t j) { str(q[j]); }); e.ints("r", r);
        } else if (op == "nodes") { // every path from the root, and those that end at an item
            std::vector<std::string> v, z; std::vector<std::pair<size_t, std::string>> st{{0, ""}};
            while (!st.empty()) {
                auto [n, s] = st.back(); st.pop_back(); v.push_back(s);
                if (v.size() > 4000000) break;
                const auto& nd = t->node(n); if (nd.terminal()) z.push_back(s);
                nd.for_each_edge([&](uint8_t c, auto to) { st.emplace_back(size_t(to), s + char(c)); });
            }
            ll a = 0, b = 0; t->dfs([&](const auto&, size_t) { a++; }); t->bfs([&](const auto&, size_t) { b++; });
            Ev e("nodes"); e.list("v", v.size(), [&](size_t j) { str(v[j]); }); e.list("t", z.size(), [&](size_t j) { str(z[j]); }); e.i("dfs", a).i("bfs", b);
        } else if (op == "dins" || op == "dlook") { // a key of many letters as runs: letter, how many, ...
            ll x = op == "dins" ? g.i() : 0; std::string k; std::vector<std::pair<int, ll>> rs;
            while (g.more()) { int c = int(g.n()); ll n = g.i(); rs.emplace_back(c, n); k.append(size_t(n), char(c)); }
            I* p = op == "dins" ? t->insert(k, conv<I>::to(x)) : t->traverse(k);
            Ev e(op.c_str()); e.list("k", rs.size(), [&](size_t j) { buf += '[' + std::to_string(rs[j].first) + ',' + std::to_string(rs[j].second) + ']'; });
            e.i("x", x).i("r", p ? conv<I>::from(*p) : -1).i("n", t->size());
        } else if (op == "depths") { // nodes and ends of keys at the depths given, over all, and the greatest depth
            std::vector<size_t> d; std::map<size_t, std::pair<ll, ll>> at; ll all = 0; size_t top = 0;
            while (g.more()) d.push_back(g.n());
            t->bfs([&](const auto& n, size_t k) { all++; top = std::max(top, k); auto& x = at[k]; x.first++; x.second += n.terminal(); });
            std::vector<ll> v, z; for (auto k : d) { v.push_back(at.count(k) ? at[k].first : 0); z.push_back(at.count(k) ? at[k].second : 0); }
            Ev e("depths"); e.ints("d", d).ints("v", v).ints("t", z).i("all", all).i("max", top);
        } else if (op == "copy") {
            keep.push_back(std::move(t)); t = std::make_unique<T>(*keep.back());
            keep.back()->insert("other", conv<I>::to(77)); // a change of the original does not reach the copy
            Ev e("copy"); e.i("n", t->size());
        } else _exit(78);
    }
}
static void run(History& h) {
    auto ty = h.params.n();
    switch (ty) {
        case 0: go<int, size_t>(h); break;
        case 1: go<ll, uint32_t>(h); break;
        case 2: go<std::string, uint32_t>(h); break;
        case 3: go<std::string, size_t>(h); break;
        case 4: go<uint16_t, uint16_t>(h); break;
        case 5: go<size_t, int>(h); break;
        default: _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
