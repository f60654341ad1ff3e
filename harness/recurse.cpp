// C24: sim_ds::recursive, Stopwatch and the timing of processes
#include "trace.hpp"
#include "sim_ds/basic.hpp"
#include <chrono>
#include <functional>
#include <memory>
#include <thread>
using namespace vt;
using Kids = std::vector<std::vector<int>>;
using Log = std::vector<std::array<ll, 2>>;
__attribute__((noinline)) static void other_work(unsigned k) { volatile unsigned char a[3000]; for (auto& x : a) x = (unsigned char) (k += 37); } // uses the stack that calls before it have used
struct Walk { // a function with state of its own
    const Kids* kids; Log* log; std::array<int, 12> salt; std::vector<int> more;
    template <class Self> void operator()(Self&& self, int v, int depth, int& count) const {
        count++;
        log->push_back({v + salt[v % 12] - more[v % more.size()], depth});
        for (int c : (*kids)[v]) self(self, c, depth + 1, count);
        log->push_back({-v - 1, depth});
    }
};
static auto lambda(const Kids& kids, Log& log, int one) {
    return sim_ds::recursive([&kids, &log, one](auto self, int v, int depth, int& count) -> void {
        count += one;
        log.push_back({v, depth});
        for (int c : kids[v]) self(self, c, depth + 1, count);
        log.push_back({-v - 1, depth});
    });
}
static auto by_reference(const Kids& kids, Log& log, int one) {
    return sim_ds::recursive([&kids, &log, one](auto& self, int v, int depth, int& count) -> void {
        count += one;
        log.push_back({v, depth});
        for (int c : kids[v]) self(self, c, depth + 1, count);
        log.push_back({-v - 1, depth});
    });
}
static auto functor(const Kids& kids, Log& log, unsigned k) {
    Walk w{&kids, &log, {}, std::vector<int>(1 + k % 40)};
    for (auto& x : w.salt) x = int(k);
    for (auto& x : w.more) x = int(k);
    return sim_ds::recursive(w);
}
static void run(History& h) {
    unsigned tick = 7; for (auto c : h.id) tick = tick * 131 + c;
    for (auto& g : h.ops) {
        const auto& op = next_op(g);
        tick = tick * 1103515245 + 12345; unsigned k = tick >> 16;
        if (op == "walk") { // the parents of nodes 1, 2, ...; node 0 is the root
            auto p = g.is(); Kids kids(p.size() + 1); for (size_t j = 0; j < p.size(); j++) kids[p[j]].push_back(int(j) + 1);
            Log log; int count = 0; const unsigned how = k % 9, times = 1 + k / 16 % 2;
            Ev e("walk");
            auto use = [&](auto&& f) { for (unsigned j = 0; j < times; j++) { other_work(k + j); log.clear(); count = 0; f(0, 0, count); } };
            if (how == 0) { auto f = lambda(kids, log, 1); use(f); }
            else if (how == 1) { const auto f = functor(kids, log, k); use(f); }
            else if (how == 2) { auto f = by_reference(kids, log, 1); auto c = f; use(c); }
            else if (how == 3) { std::function<void(int, int, int&)> f = lambda(kids, log, 1); use(f); }
            else if (how == 4) { std::unique_ptr<std::function<void(int, int, int&)>> f; { auto x = functor(kids, log, k); f = std::make_unique<std::function<void(int, int, int&)>>(x); } use(*f); }
            else if (how == 5) { auto x = lambda(kids, log, 1); auto f = std::move(x); use(f); }
            else if (how == 6) { auto f = functor(kids, log, k); { auto d = functor(kids, log, k + 1); int n = 0; d(int(kids.size()) - 1, 0, n); } use(f); }
            else if (how == 7) { std::vector<std::function<void(int, int, int&)>> f; for (unsigned j = 0; j < 3; j++) f.push_back(functor(kids, log, k + j)); use(f[k % 3]); }
            else use([&](int a, int b, int& c) { by_reference(kids, log, 1)(a, b, c); });
            e.ints("p", p).i("n", count);
            e.list("log", log.size(), [&](size_t j) { buf += '[' + std::to_string(log[j][0]) + ',' + std::to_string(log[j][1]) + ']'; });
        } else if (op == "time") { // time ms: all in microseconds
            using C = std::chrono::high_resolution_clock;
            auto us = [](auto d) { return (ll) (std::chrono::duration<double, std::micro>(d).count() + .5); };
            const auto ms = std::chrono::milliseconds(g.n());
            ll in = 0, runs = 0, got = 0;
            auto work = [&] { auto a = C::now(); runs++; std::this_thread::sleep_for(ms); in = us(C::now() - a); };
            auto a = C::now();
            if (k % 3 == 0) got = (ll) (sim_ds::millisec_time_in_process(work) * 1e3 + .5);
            else if (k % 3 == 1) got = (ll) (sim_ds::microsec_time_in_process(work) + .5);
            else { sim_ds::Stopwatch w; work(); const auto& c = w; double t = k & 64 ? c.get_sec() * 1e6 : k & 128 ? c.get_milli_sec() * 1e3 : c.get_micro_sec(); got = (ll) (t + .5); }
            ll out = us(C::now() - a);
            Ev e("time"); e.i("runs", runs).i("in", std::min<ll>(in, 2000000000)).i("got", std::min<ll>(got, 2000000000)).i("out", std::min<ll>(out, 2000000000));
        } else if (op == "stop") { // stop n: readings of one watch, in microseconds, one after the other
            using C = std::chrono::high_resolution_clock;
            auto a = C::now(); sim_ds::Stopwatch w; std::vector<ll> r;
            for (auto n = g.n(); n--;) { std::this_thread::sleep_for(std::chrono::microseconds(300)); switch (n % 4) { case 0: r.push_back((ll) (w.get_sec() * 1e6)); break; case 1: r.push_back((ll) (w.get_milli_sec() * 1e3)); break; case 2: r.push_back((ll) w.get_micro_sec()); break;
                default: r.push_back((ll) std::chrono::duration<double, std::micro>(w.time_process()).count()); } }
            ll out = (ll) std::chrono::duration<double, std::micro>(C::now() - a).count();
            for (auto& x : r) x = std::min<ll>(x, 2000000000);
            Ev e("stop"); e.ints("r", r).i("out", std::min<ll>(out, 2000000000));
        } else _exit(78);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
