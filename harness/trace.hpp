// Common part of all conformance harnesses.
//
// A harness interprets a script (a list of histories, each a list of operations), executes every operation on the
// real code of the repository through its public interface only, and records one JSON line per history:
//     {"id":"...","p":[...],"ev":[{"op":"...",<arguments>,<observations>},...]}
// Nothing is judged here: the lines are validated against the TLA+ specification by TLC.
//
// A crash, an exception or an endless loop of the code becomes the last event of its history
// ("crash" / "exception" / "hang"), which no action of any specification matches.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <new>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <ucontext.h>

namespace vt {

using u64 = uint64_t;
using ll = long long;

inline std::string buf;      // JSON of the current history
inline int out_fd = 1;
inline double cpu_limit = 20;
inline bool in_history = false;
inline size_t good = 0;      // length of buf up to the last complete event
inline char cur_op[64] = ""; // operation being executed
inline unsigned turn = 0;    // selects the order of the queries of one list; starts from the name of the history

// Two histories in one process, operation by operation in turn (argument "pairs"): objects of one history must not
// be able to see those of the other. Each history has its own stack and its own copy of the state above.
struct Side { ucontext_t at; std::string buf; size_t good; char cur_op[64]; bool done; };
inline Side sides[2];
inline ucontext_t back;
inline int side = -1;        // which one runs; -1: a single history
inline void keep(Side& s) { s.buf.swap(buf); s.good = good; memcpy(s.cur_op, cur_op, sizeof cur_op); }
inline void take(Side& s) { buf.swap(s.buf); good = s.good; memcpy(cur_op, s.cur_op, sizeof cur_op); }
inline void hand_over() {
    if (side < 0 || sides[1 - side].done) return;
    int me = side;
    keep(sides[me]); side = 1 - me; take(sides[side]);
    swapcontext(&sides[me].at, &sides[side].at);
}

inline void flush_raw(const char* s, size_t n) {
    while (n) { ssize_t k = ::write(out_fd, s, n); if (k <= 0) break; s += k; n -= size_t(k); }
}
inline void flush_other(int k) { // the other history of a pair, as far as it came
    if (side != 1 - k) return;
    auto& s = sides[k];
    for (size_t j = 0; j < s.good; j++) if (s.buf[j] == '\n') s.buf[j] = ' ';
    flush_raw(s.buf.data(), s.good); flush_raw("]}\n", 3);
}
inline void die(const char* what, int sig) {
    if (!in_history) _exit(79);
    in_history = false;
    flush_other(0);
    for (size_t k = 0; k < good; k++) if (buf[k] == '\n') buf[k] = ' ';
    flush_raw(buf.data(), good);
    char t[160];
    int n = snprintf(t, sizeof t, "%s{\"op\":\"%s\",\"at\":\"%s\",\"sig\":%d}]}\n", buf[good - 1] == '[' ? "" : ",", what, cur_op, sig);
    flush_raw(t, size_t(n));
    flush_other(1);
    _exit(77);
}
inline void on_signal(int sig) { die(sig == SIGPROF ? "hang" : "crash", sig); }

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
inline void on_asan_death() { die("crash", 0); }
#endif

inline void setup() {
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigemptyset(&sa.sa_mask);
    sigaction(SIGPROF, &sa, nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(on_asan_death);
    sigaction(SIGABRT, &sa, nullptr);
#else
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    const rlim_t room = (cpu_limit > 200 ? 18ull : 6ull) << 30;    // huge structures have more time and more room
    rlimit rl{room, room};
    setrlimit(RLIMIT_AS, &rl);
#endif
}
inline void arm(double sec) {
    itimerval tv{}; tv.it_value.tv_sec = (time_t) sec; tv.it_value.tv_usec = (suseconds_t) ((sec - (time_t) sec) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
}

// One event under construction.
struct Ev {
    explicit Ev(const char* op) {
        if (buf.back() != '[') buf += ",\n "; // line break between events for readability of replays
        buf += "{\"op\":\""; buf += op; buf += "\"";
    }
    ~Ev() { buf += "}"; if (std::uncaught_exceptions() == 0) good = buf.size(); }
    Ev(const Ev&) = delete;
    void key(const char* k) { buf += ",\""; buf += k; buf += "\":"; }
    Ev& i(const char* k, ll v) { key(k); buf += std::to_string(v); return *this; }
    Ev& b(const char* k, bool v) { return i(k, v ? 1 : 0); }
    Ev& s(const char* k, const std::string& v) { key(k); buf += '"'; buf += v; buf += '"'; return *this; }
    // f(i) appends element i to buf; the elements are asked for in an order that differs from list to list, since the
    // answer to a query must not depend on the queries before it
    template <class F> Ev& list(const char* k, size_t n, F f) {
        key(k); buf += '[';
        const unsigned from = turn, t = n > 1 ? turn++ % 8 : 0;
        if (t % 2 == 0) for (size_t j = 0; j < n; j++) { if (j) buf += ','; f(j); }
        else {
            const size_t start = buf.size();
            std::vector<std::pair<size_t, size_t>> at(n);
            for (size_t m = 0; m < n; m++) { const size_t j = nth(t / 2, m, n, from); const size_t a = buf.size(); f(j); at[j] = {a, buf.size() - a}; }
            std::string r; r.reserve(buf.size() - start + n);
            for (size_t j = 0; j < n; j++) { if (j) r += ','; r.append(buf, at[j].first, at[j].second); }
            buf.resize(start); buf += r;
        }
        buf += ']'; return *this;
    }
    static size_t nth(unsigned order, size_t m, size_t n, unsigned turn) { // a permutation of 0..n-1
        switch (order) {
        case 0: return n - 1 - m;                                       // from the end
        case 1: return (m + turn * size_t(7919)) % n;                   // from somewhere, around
        case 2: m = (m + turn * size_t(104729)) % n; return m < (n + 1) / 2 ? 2 * m : 2 * (m - (n + 1) / 2) + 1;   // the even and the odd ones
        default: return m % 2 ? n - 1 - m / 2 : m / 2;                  // from both ends in turn
        }
    }
    template <class V> Ev& ints(const char* k, const V& v) {
        key(k); buf += '['; bool first = true;
        for (auto&& x : v) { if (!first) buf += ','; first = false; buf += std::to_string((ll) x); }
        buf += ']'; return *this;
    }
    template <class V> Ev& words(const char* k, const V& v) {
        key(k); buf += '['; bool first = true;
        for (auto&& x : v) { if (!first) buf += ','; first = false; limbs(u64(x)); }
        buf += ']'; return *this;
    }
    template <class V> Ev& hexes(const char* k, const V& v) {
        key(k); buf += '['; bool first = true;
        for (auto&& x : v) { if (!first) buf += ','; first = false; buf += '"'; buf += hex(u64(x)); buf += '"'; }
        buf += ']'; return *this;
    }
    Ev& w(const char* k, u64 x) { key(k); limbs(x); return *this; }
    Ev& x(const char* k, u64 x) { return s(k, hex(x)); }
    // 64-bit value as its 16-bit digits, most significant first, without leading zeros; 0 is [].
    static void limbs(u64 x) {
        buf += '['; bool first = true;
        for (int j = 3; j >= 0; j--) {
            unsigned d = (x >> (16 * j)) & 0xffff;
            if (first && d == 0) continue;
            if (!first) buf += ',';
            first = false; buf += std::to_string(d);
        }
        buf += ']';
    }
    static std::string hex(u64 x) { char t[24]; snprintf(t, sizeof t, "%llx", (unsigned long long) x); return t; }
    // exactly k 16-bit digits, least significant first
    static void digits(u64 x, int k) {
        for (int j = 0; j < k; j++) { if (j) buf += ','; buf += std::to_string((unsigned) ((x >> (16 * j)) & 0xffff)); }
    }
};

// Arguments of one script line.
struct Args {
    std::vector<std::string> t; size_t p = 0;
    bool more() const { return p < t.size(); }
    const std::string& str() { if (p >= t.size()) { fprintf(stderr, "script: missing argument of %s\n", t.empty() ? "?" : t[0].c_str()); _exit(78); } return t[p++]; }
    ll i() { return std::stoll(str()); }
    size_t n() { return size_t(std::stoull(str())); }
    u64 x() { return std::stoull(str(), nullptr, 16); }   // hexadecimal
    std::vector<int> bits() { auto& s = str(); std::vector<int> v; if (s != "-") for (char c : s) v.push_back(c - '0'); return v; }
    // byte string in hexadecimal, "-" for the empty one
    std::string bytes() { auto& s = str(); std::string r; if (s != "-") for (size_t k = 0; k + 1 < s.size(); k += 2) r.push_back((char) std::stoi(s.substr(k, 2), nullptr, 16)); return r; }
    std::vector<u64> xs() { std::vector<u64> v; while (more()) v.push_back(x()); return v; }
    std::vector<ll> is() { std::vector<ll> v; while (more()) v.push_back(i()); return v; }
    std::vector<u64> xlist() { auto s = str(); std::vector<u64> v; if (s == "-") return v; size_t a = 0; while (a <= s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); v.push_back(std::stoull(s.substr(a, b - a), nullptr, 16)); a = b + 1; } return v; }
    std::vector<ll> ilist() { auto s = str(); std::vector<ll> v; if (s == "-") return v; size_t a = 0; while (a <= s.size()) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); v.push_back(std::stoll(s.substr(a, b - a))); a = b + 1; } return v; }
};

// Name of the next operation of a script line; remembered for crash events.
inline const std::string& next_op(Args& a) { hand_over(); auto& s = a.str(); snprintf(cur_op, sizeof cur_op, "%s", s.c_str()); return s; }

struct History { std::string id; Args params; std::vector<Args> ops; };

// run(history): executes all operations of one history, emitting events
inline int main_(int argc, char** argv, const std::function<void(History&)>& run) {
    // usage: harness SCRIPT OUT FIRST CPU_LIMIT
    if (argc < 5) { fprintf(stderr, "usage: SCRIPT OUT FIRST CPU\n"); return 78; }
    std::ifstream is(argv[1]);
    if (!is) return 78;
    out_fd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (out_fd < 0) return 78;
    size_t first = std::stoull(argv[3]);
    cpu_limit = std::stod(argv[4]);
    std::vector<History> hs;
    std::string line;
    while (std::getline(is, line)) {
        Args a; std::istringstream ls(line); std::string w;
        while (ls >> w) a.t.push_back(w);
        if (a.t.empty()) continue;
        if (a.t[0] == "H") { hs.emplace_back(); hs.back().id = a.t.at(1); a.p = 2; hs.back().params = a; }
        else hs.back().ops.push_back(a);
    }
    const bool pairs = argc > 5 && !strcmp(argv[5], "pairs");
    setup();
    auto head = [&](History& h) {
        buf.clear();
        buf = "{\"id\":\"" + h.id + "\",\"p\":[";
        for (size_t j = 2; j < h.params.t.size(); j++) { if (j > 2) buf += ','; buf += '"' + h.params.t[j] + '"'; }
        buf += "],\"ev\":[";
        good = buf.size();
        cur_op[0] = 0;
        turn = 0; for (auto c : h.id) turn = turn * 31 + (unsigned char) c;
        turn %= 1000;
    };
    static std::function<void(History&)> go;
    go = [&](History& h) {
        try { run(h); }
        catch (const std::bad_alloc&) {
            buf.resize(good);
            Ev ev("exception");
            ev.s("at", cur_op).s("what", "bad_alloc");
        }
        catch (...) {
            buf.resize(good);
            Ev ev("exception");
            ev.s("at", cur_op);
        }
    };
    auto end = [&] {
        buf += "]}";
        for (auto& c : buf) if (c == '\n') c = ' ';
        buf += "\n";
        flush_raw(buf.data(), buf.size());
    };
    static History* two[2];
    for (size_t k = first; k < hs.size(); k++) {
        if (pairs && k + 1 < hs.size()) {
            static char* stacks[2] = {};
            constexpr size_t kStack = 64u << 20;
            for (int e = 0; e < 2; e++) {
                if (!stacks[e]) stacks[e] = (char*) mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                two[e] = &hs[k + e];
                head(hs[k + e]); keep(sides[e]); sides[e].done = false;
                getcontext(&sides[e].at);
                sides[e].at.uc_stack.ss_sp = stacks[e]; sides[e].at.uc_stack.ss_size = kStack; sides[e].at.uc_link = nullptr;
                makecontext(&sides[e].at, +[] {
                    go(*two[side]);
                    int me = side;
                    sides[me].done = true; keep(sides[me]);
                    if (sides[1 - me].done) { side = -1; setcontext(&back); }
                    side = 1 - me; take(sides[side]);
                    setcontext(&sides[side].at);
                }, 0);
            }
            in_history = true; arm(2 * cpu_limit);
            side = 0; take(sides[0]);
            swapcontext(&back, &sides[0].at);
            arm(0); in_history = false;
            for (auto& s : sides) { take(s); end(); }
            k++;
            continue;
        }
        head(hs[k]);
        in_history = true;
        arm(cpu_limit);
        go(hs[k]);
        arm(0);
        in_history = false;
        end();
    }
    return 0;
}

} // namespace vt
