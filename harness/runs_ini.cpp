// C14 on long arrays: sim_ds::InitializableArrayFolklore (parameter 0), sim_ds::InitializableArray of a fixed size (1..)
#include "runs.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/InitializableArray.hpp"
#include <memory>
#include <new>
using namespace vt;
template <class T, size_t S> struct In : Nothing {
    using R = sim_ds::InitializableArray<T, S>;
    R* a = nullptr;
    u64 size() { return a ? a->size() : 0; }
    void make(u64, u64 x, unsigned k) {
        if (!a) { // memory full of plausible links
            auto* m = (unsigned char*) std::aligned_alloc(64, (sizeof(R) + 63) / 64 * 64);
            T* l = (T*) m; for (size_t j = 0; j < sizeof(R) / sizeof(T); j++) l[j] = T((j * 2654435761u + k) % S / 2 * 2);
            asm volatile("" ::: "memory");
            a = new (m) R(T(x));
        } else if (k % 2) a->init(T(x)); else a->fill(T(x));
    }
    void fill(u64 x, u64 y, u64 t, unsigned k) { if (k % 3 == 0) for (; x < y; x++) a->set(x, T(t)); else if (k % 3 == 1) while (y-- > x) a->set(y, T(t)); else for (; x < y; x++) (*a)[x] = T(t); }
    void scan(Ev& e, u64 x, u64 y, unsigned k) { const R& c = *a; if (k % 2) emit_runs(e, "runs", x, y, false, [&](u64 j) { return u64(c.get(j)); }); else emit_runs(e, "runs", x, y, false, [&](u64 j) { return u64(T((*a)[j])); }); }
};
template <class T> struct Fo : Nothing {
    using R = sim_ds::InitializableArrayFolklore<T>;
    std::unique_ptr<R> a;
    u64 size() { return a ? a->size() : 0; }
    void make(u64 n, u64 x, unsigned k) { if (a && a->size() == n) { if (k % 2) a->init(T(x)); else a->fill(T(x)); } else a = std::make_unique<R>(n, T(x)); }
    void fill(u64 x, u64 y, u64 t, unsigned k) { if (k % 2) for (; x < y; x++) a->set(x, T(t)); else while (y-- > x) a->set(y, T(t)); }
    void scan(Ev& e, u64 x, u64 y, unsigned) { const R& c = *a; emit_runs(e, "runs", x, y, false, [&](u64 j) { return u64(c.get(j)); }); }
    Fo& operator=(const Fo&) { return *this; }
};
static void run(History& h) {
    h.params.str();
    switch (h.params.n()) {
    case 0: drive_runs<Fo<uint32_t>>(h); break; case 1: drive_runs<Fo<uint8_t>>(h); break;
    case 2: drive_runs<In<uint32_t, 70000>>(h); break; case 3: drive_runs<In<uint64_t, 70001>>(h); break;
    case 4: drive_runs<In<uint8_t, 256>>(h); break; case 5: drive_runs<In<uint16_t, 65536>>(h); break;
    default: drive_runs<In<int, 300001>>(h);
    }
}
int main(int c, char** v) { return main_(c, v, run); }
