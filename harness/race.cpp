// Happens-before race detector: the code under test is compiled with -fsanitize=thread, whose
// instrumentation calls end up here instead of in the TSan runtime. Under the controlled scheduler
// only one thread runs at a time, so this needs no synchronisation of its own. Vector clocks follow
// pthread operations (told by sched.cpp), atomics with their memory orders, fences and static guards.
// A pair of conflicting unordered accesses is logged as an event {"e":"race",...}, which no action of
// any specification explains. Atomic operations are preemption points of the scheduler.
// This file itself is compiled without instrumentation.
#include "race.hpp"

#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <string>

#include "sched.hpp"

namespace race { void (*report)(const char* json) = nullptr; }

namespace {

constexpr int MAXT = 32;
typedef uint32_t clk_t;
struct vc_t { clk_t c[MAXT]; };

struct thr_t {
    vc_t now;
    vc_t acq_pending;    // what relaxed loads saw, taken over by an acquire fence
    vc_t rel_fence;      // the clock of the last release fence
    bool has_rel_fence;
    vc_t final_;
    int quiet;
};

struct entry_t { uint8_t tid, mask, flags, pad; clk_t clk; uintptr_t pc; };   // flags: 1 write, 2 atomic
constexpr int NE = 6;
struct cell_t { entry_t e[NE]; };
struct page_t { cell_t cells[512]; };

struct sync_t { const void* addr; vc_t c; bool set; };

struct state_t {
    thr_t t[MAXT];
    page_t** l1;                 // hash of pages
    uintptr_t* keys;
    char* arena;
    size_t used, cap;
    sync_t* syncs;
    int reports;
    uintptr_t seen[64];
    int nthreads;
} S;
bool on = false;
constexpr size_t NP = 1 << 16, NS = 1 << 14;

void* map(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { static const char m[] = "race: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }
    return p;
}

page_t* page(uintptr_t a, bool make) {
    uintptr_t k = a >> 12;
    size_t h = (k * 0x9e3779b97f4a7c15ull) >> 48;
    while (S.keys[h] != 0) {
        if (S.keys[h] == k) return S.l1[h];
        h = (h + 1) & (NP - 1);
    }
    if (!make) return nullptr;
    if (S.used + sizeof(page_t) > S.cap) { S.arena = static_cast<char*>(map(S.cap = size_t(1) << 26)); S.used = 0; }
    S.keys[h] = k;
    S.l1[h] = reinterpret_cast<page_t*>(S.arena + S.used);
    S.used += sizeof(page_t);
    return S.l1[h];
}

vc_t& sync_of(const void* a, bool** set) {
    size_t h = (reinterpret_cast<uintptr_t>(a) * 0x9e3779b97f4a7c15ull) >> 50;
    while (S.syncs[h].addr != nullptr && S.syncs[h].addr != a) h = (h + 1) & (NS - 1);
    S.syncs[h].addr = a;
    *set = &S.syncs[h].set;
    return S.syncs[h].c;
}

inline int me() { return sched::self(); }
inline bool live() { return on && sched::self() >= 0; }
void join(vc_t& a, const vc_t& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

std::string where(uintptr_t pc) {
    Dl_info i;
    char b[64];
    if (dladdr(reinterpret_cast<void*>(pc), &i)) {
        if (i.dli_sname) return i.dli_sname;
        snprintf(b, sizeof b, "+0x%lx", static_cast<unsigned long>(pc - reinterpret_cast<uintptr_t>(i.dli_fbase)));
        return b;
    }
    return "?";
}

void report(uintptr_t addr, const entry_t& e, bool write, bool atomic, uintptr_t pc, const char* what) {
    if (S.reports >= 4) return;
    for (int i = 0; i < S.reports; i++) if (S.seen[i] == pc) return;
    S.seen[S.reports++] = pc;
    thr_t& t = S.t[me()];
    t.quiet++;
    std::string s = std::string("{\"e\":\"race\",\"op\":\"") + (atomic ? "atomic " : "") + (write ? "write" : "read") +
        "\",\"other\":\"" + ((e.flags & 2) ? "atomic " : "") + ((e.flags & 1) ? "write" : "read") + "\",\"in\":\"" +
        (what ? std::string(what) : where(pc)) + "\",\"otherin\":\"" + where(e.pc) + "\"}";
    (void)addr;
    if (race::report) race::report(s.c_str());
    if (getenv("RACE_DEBUG")) fprintf(stderr, "%s addr %lx thread %d other %d\n", s.c_str(), addr, me(), e.tid);
    t.quiet--;
}

void access1(uintptr_t g, uint8_t mask, bool write, bool atomic, uintptr_t pc, const char* what) {
    int t = me();
    thr_t& T = S.t[t];
    cell_t& c = page(g, true)->cells[(g >> 3) & 511];
    int free_ = -1;
    uint8_t fl = static_cast<uint8_t>((write ? 1 : 0) | (atomic ? 2 : 0));
    for (int i = 0; i < NE; i++) {
        entry_t& e = c.e[i];
        if (!e.mask) { if (free_ < 0) free_ = i; continue; }
        if (!(e.mask & mask)) continue;
        bool ordered = e.tid == t || T.now.c[e.tid] >= e.clk;
        if (!ordered && (write || (e.flags & 1)) && !(atomic && (e.flags & 2)))
            report(g, e, write, atomic, pc, what);
        // Superseded: ordered before, and this access conflicts with at least as much.
        if (ordered && (write || !(e.flags & 1)) && (!atomic || (e.flags & 2))) {
            e.mask = static_cast<uint8_t>(e.mask & ~mask);
            if (!e.mask && free_ < 0) free_ = i;
        }
    }
    if (free_ < 0) free_ = static_cast<int>((T.now.c[t] + static_cast<unsigned>(t)) % NE);
    c.e[free_] = entry_t{static_cast<uint8_t>(t), mask, fl, 0, T.now.c[t], pc};
}

void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc, const char* what = nullptr) {
    if (!live() || S.nthreads < 2 || S.t[me()].quiet) return;
    while (n > 0) {
        size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
        access1(a & ~uintptr_t(7), static_cast<uint8_t>(((1u << k) - 1) << off), write, atomic, pc, what);
        a += k; n -= k;
    }
}

void clear(uintptr_t a, size_t n) {
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t pe = (a | 4095) + 1;
        if (pe > e) pe = e;
        if (page_t* p = page(a, false)) {
            uintptr_t f = (a & 4095) >> 3, l = ((pe - 1) & 4095) >> 3;
            memset(&p->cells[f], 0, (l - f + 1) * sizeof(cell_t));
        }
        a = pe;
    }
}

bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME; }
bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }

void do_acquire(const void* a, int o) {
    bool* set;
    vc_t& c = sync_of(a, &set);
    if (!*set) return;
    if (acq(o)) join(S.t[me()].now, c);
    else join(S.t[me()].acq_pending, c);
}
void do_release(const void* a, int o, bool rmw) {
    thr_t& T = S.t[me()];
    bool* set;
    vc_t& c = sync_of(a, &set);
    if (!rmw) { memset(&c, 0, sizeof c); *set = false; }
    if (rel(o)) { join(c, T.now); *set = true; T.now.c[me()]++; }
    else if (T.has_rel_fence) { join(c, T.rel_fence); *set = true; }
}

void pre_atomic() { if (live() && !S.t[me()].quiet) sched::yield_point(); }

}  // namespace

extern "C" {

void race_start() {
    if (!S.l1) {
        S.l1 = static_cast<page_t**>(map(NP * sizeof(page_t*)));
        S.keys = static_cast<uintptr_t*>(map(NP * sizeof(uintptr_t)));
        S.syncs = static_cast<sync_t*>(map(NS * sizeof(sync_t)));
    }
    memset(S.t, 0, sizeof S.t);
    S.t[0].now.c[0] = 1;
    S.nthreads = 1;
    S.reports = 0;
    on = true;
}
void race_quiet(int d) { if (live()) S.t[me()].quiet += d; }
void race_acquire(const void* o) { if (live()) do_acquire(o, __ATOMIC_ACQUIRE); }
void race_release(const void* o) { if (live()) do_release(o, __ATOMIC_RELEASE, true); }
void race_fork(int child) {
    if (!live()) return;
    thr_t& C = S.t[child];
    memset(&C, 0, sizeof C);
    C.now = S.t[me()].now;
    C.now.c[child] = 1;
    S.t[me()].now.c[me()]++;
    S.nthreads++;
}
void race_begin(int) {
    if (!live()) return;
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        void* s; size_t n;
        pthread_attr_getstack(&at, &s, &n);
        clear(reinterpret_cast<uintptr_t>(s), n);
        pthread_attr_destroy(&at);
    }
}
void race_end(int self) { if (live()) S.t[self].final_ = S.t[self].now; }
void race_join(int child) { if (live()) join(S.t[me()].now, S.t[child].final_); }
void race_access(const void* p, unsigned long n, int write, const char* what) {
    access(reinterpret_cast<uintptr_t>(p), n, write != 0, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0)), what);
}

// ---- memory ------------------------------------------------------------------------------------
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
size_t malloc_usable_size(void*);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && on) clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p)); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && on) clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p)); return p; }
void* realloc(void* q, size_t n) {
    // The old block may be given up and become part of another one: forget what happened to it.
    if (q && on) clear(reinterpret_cast<uintptr_t>(q), malloc_usable_size(q));
    void* p = __libc_realloc(q, n);
    if (p && on) clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    return p;
}
void free(void* p) {
    if (p && live()) {
        size_t n = malloc_usable_size(p);
        // Freeing conflicts with every access that is not ordered before it.
        if (n <= 65536 && S.nthreads > 1 && !S.t[me()].quiet) {
            uintptr_t a = reinterpret_cast<uintptr_t>(p);
            int t = me();
            for (uintptr_t g = a; g < a + n; g += 8) {
                page_t* pg = page(g, false);
                if (!pg) { g = (g | 4095) - 7; continue; }
                cell_t& c = pg->cells[(g >> 3) & 511];
                for (int i = 0; i < NE; i++) {
                    entry_t& e = c.e[i];
                    if (e.mask && e.tid != t && S.t[t].now.c[e.tid] < e.clk)
                        report(g, e, true, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0)), "free");
                }
            }
        }
        clear(reinterpret_cast<uintptr_t>(p), n);
    } else if (p && on) clear(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
    __libc_free(p);
}

// ---- instrumentation ---------------------------------------------------------------------------
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define ACC(n) \
    void __tsan_read##n(void* p) { access(reinterpret_cast<uintptr_t>(p), n, false, false, PC); } \
    void __tsan_write##n(void* p) { access(reinterpret_cast<uintptr_t>(p), n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(reinterpret_cast<uintptr_t>(p), n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(reinterpret_cast<uintptr_t>(p), n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { access(reinterpret_cast<uintptr_t>(p), n, false, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(reinterpret_cast<uintptr_t>(p), n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(reinterpret_cast<uintptr_t>(p), n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(reinterpret_cast<uintptr_t>(p), 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(reinterpret_cast<uintptr_t>(p), 8, false, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define LOADED(p, o, n) if (live()) { access(reinterpret_cast<uintptr_t>(p), n, false, true, PC); do_acquire(const_cast<const void*>(static_cast<const volatile void*>(p)), o); }
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int o) { pre_atomic(); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); LOADED(a, o, sizeof(T)) return r; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int o) { pre_atomic(); \
        if (live()) { access(reinterpret_cast<uintptr_t>(a), sizeof(T), true, true, PC); do_release(const_cast<T*>(a), o, false); } \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); pre_atomic(); } \
    RMW(B, T, exchange, __atomic_exchange_n) RMW(B, T, fetch_add, __atomic_fetch_add) RMW(B, T, fetch_sub, __atomic_fetch_sub) \
    RMW(B, T, fetch_and, __atomic_fetch_and) RMW(B, T, fetch_or, __atomic_fetch_or) RMW(B, T, fetch_xor, __atomic_fetch_xor) \
    static bool cas_##B(volatile T* a, T* e, T v, int o, int f, uintptr_t pc) { pre_atomic(); \
        bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (live()) { access(reinterpret_cast<uintptr_t>(a), sizeof(T), r, true, pc); do_acquire(const_cast<T*>(a), r ? o : f); if (r) do_release(const_cast<T*>(a), o, true); } \
        return r; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int f) { return cas_##B(a, e, v, o, f, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int f) { return cas_##B(a, e, v, o, f, PC); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int o, int f) { cas_##B(a, &e, v, o, f, PC); return e; }
#define RMW(B, T, name, op) \
    T __tsan_atomic##B##_##name(volatile T* a, T v, int o) { pre_atomic(); T r = op(a, v, __ATOMIC_SEQ_CST); \
        if (live()) { access(reinterpret_cast<uintptr_t>(a), sizeof(T), true, true, PC); do_acquire(const_cast<T*>(a), o); do_release(const_cast<T*>(a), o, true); } \
        return r; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {
    if (!live()) return;
    thr_t& T = S.t[me()];
    if (acq(o)) join(T.now, T.acq_pending);
    if (rel(o)) { T.rel_fence = T.now; T.has_rel_fence = true; T.now.c[me()]++; }
}
void __tsan_atomic_signal_fence(int) {}

// Function-local statics: the fast path is an (instrumented) acquire load of the guard.
int __cxa_guard_acquire(uint64_t* g) {
    typedef int (*f_t)(uint64_t*);
    static f_t f = nullptr;
    if (!f) f = reinterpret_cast<f_t>(dlsym(RTLD_NEXT, "__cxa_guard_acquire"));
    int r = f(g);
    if (live()) do_acquire(g, __ATOMIC_ACQUIRE);
    return r;
}
void __cxa_guard_release(uint64_t* g) {
    typedef void (*f_t)(uint64_t*);
    static f_t f = nullptr;
    if (!f) f = reinterpret_cast<f_t>(dlsym(RTLD_NEXT, "__cxa_guard_release"));
    if (live()) do_release(g, __ATOMIC_RELEASE, true);
    f(g);
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    typedef int (*f_t)(pthread_once_t*, void (*)());
    static f_t f = nullptr;
    if (!f) f = reinterpret_cast<f_t>(dlsym(RTLD_NEXT, "pthread_once"));
    int r = f(o, fn);
    if (live()) { do_acquire(o, __ATOMIC_ACQUIRE); do_release(o, __ATOMIC_RELEASE, true); }
    return r;
}

}  // extern "C"
