#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include "race.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#undef atomic
#undef atomic_flag
#include <cstdlib>
#include <cstring>

namespace sched {
namespace {

enum state_t { RUN, BLOCKED, CONDWAIT, LAZY, FINISHED };

struct thr_t {
    std::atomic<int> turn{0};
    state_t state = FINISHED;
    const void* obj = nullptr;   // what BLOCKED / CONDWAIT waits for
    bool timed = false;
    bool signaled = false;
    uint64_t prio = 0;
    uint64_t lazy_since = 0;
    int joined_on = -1;
    pthread_t handle{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
};

constexpr int MAXT = 32;
thr_t T[MAXT];
int nthreads = 0;
std::atomic<bool> on{false};
options_t opt;
uint64_t rng_state = 1;
uint32_t nsteps = 0;
uint64_t lazy_clock = 0;
std::vector<uint32_t> change_points;
size_t prefix_pos = 0;
uint64_t low_prio = 0;
thread_local int me = -1;

uint64_t rnd() {
    uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void wake(int t) {
    T[t].turn.store(1);
    syscall(SYS_futex, reinterpret_cast<int*>(&T[t].turn), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void wait_turn(int t) {
    while (T[t].turn.load() == 0)
        syscall(SYS_futex, reinterpret_cast<int*>(&T[t].turn), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    T[t].turn.store(0);
}

[[noreturn]] void stuck(const char* what) {
    if (on_stuck) on_stuck(what);
    _exit(99);
}

uint64_t top_prio() { return (1ull << 40) + (rnd() & 0xffffffff); }

// Picks the thread to run next. `cur` is the one that gives the choice.
int pick(int cur) {
    if (++nsteps > opt.max_steps) stuck("hang");
    int run[MAXT], lazy[MAXT], nr = 0, nl = 0;
    // The current thread first, if it can go on; then others in cyclic order.
    for (int i = 0; i < nthreads; i++) {
        int t = (cur + i) % nthreads;
        if (T[t].state == RUN) run[nr++] = t;
    }
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == LAZY || (T[i].state == CONDWAIT && T[i].timed)) lazy[nl++] = i;
    for (int i = 1; i < nl; i++)   // oldest first
        for (int j = i; j > 0 && T[lazy[j - 1]].lazy_since > T[lazy[j]].lazy_since; j--)
            std::swap(lazy[j - 1], lazy[j]);
    if (nr + nl == 0) stuck("deadlock");

    int cand[2 * MAXT], n = 0;
    for (int i = 0; i < nr; i++) cand[n++] = run[i];
    for (int i = 0; i < nl; i++) cand[n++] = lazy[i];
    int free_ = 1;
    if (nr > 0 && T[cur].state != RUN) free_ = nr;
    if (nr == 0) free_ = 1;

    int k = 0;
    if (n > 1) {
        switch (opt.mode) {
        case PREFIX:
            if (prefix_pos < opt.prefix.size()) k = opt.prefix[prefix_pos++] % n; else k = 0;
            break;
        case PCT: {
            for (uint32_t c : change_points)
                if (c == nsteps) T[cur].prio = low_prio--;
            uint64_t best = 0;
            if (nr == 0) { k = static_cast<int>(rnd() % n); break; }
            if (nl > 0 && rnd() % 16 == 0) { k = nr + static_cast<int>(rnd() % nl); break; }
            for (int i = 0; i < nr; i++)
                if (T[cand[i]].prio >= best) { best = T[cand[i]].prio; k = i; }
            if (nsteps % 997 == 0) T[cand[k]].prio = low_prio--;  // no eternal spinning
            break;
        }
        case STICKY:
            if (nr > 0 && T[cur].state == RUN && rnd() % 8 != 0) { k = 0; break; }
            // fallthrough
        default:
            if (nr == 0) k = static_cast<int>(rnd() % n);
            else if (nl > 0 && rnd() % 8 == 0) k = nr + static_cast<int>(rnd() % nl);
            else k = static_cast<int>(rnd() % nr);
        }
        if (choices && *choices_n < choices_cap)
            choices[(*choices_n)++] = {static_cast<uint16_t>(n), static_cast<uint16_t>(k),
                                       static_cast<uint16_t>(free_)};
    }
    int t = cand[k];
    if (T[t].state != RUN) T[t].state = RUN;   // a lazy thread wakes: timeout or end of sleep
    return t;
}

void switch_from(int t) {
    int next = pick(t);
    if (next == t) return;
    wake(next);
    wait_turn(t);
}

template<class F> F real(F& f, const char* name, const char* ver = nullptr) {
    if (!f) f = reinterpret_cast<F>(ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name));
    return f;
}
#define REAL(name) ([]{ static decltype(&::name) f = nullptr; return real(f, #name); }())
#define REALV(name, v) ([]{ static decltype(&::name) f = nullptr; return real(f, #name, v); }())

bool managed() { return me >= 0 && on.load(std::memory_order_relaxed); }

void unblock(const void* obj) {
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == BLOCKED && T[i].obj == obj) T[i].state = RUN;
}

template<class Try> int lock_with(const void* obj, Try tryf) {
    switch_from(me);
    int rc;
    while ((rc = tryf()) == EBUSY) {
        T[me].state = BLOCKED;
        T[me].obj = obj;
        switch_from(me);
    }
    if (race_acquire) race_acquire(obj);
    return rc;
}

void* trampoline(void* p) {
    int t = static_cast<int>(reinterpret_cast<intptr_t>(p));
    me = t;
    wait_turn(t);
    if (race_begin) race_begin(t);
    void* r = T[t].fn(T[t].arg);
    if (race_end) race_end(t);
    T[t].state = FINISHED;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == BLOCKED && T[i].joined_on == t) { T[i].state = RUN; T[i].joined_on = -1; }
    int next = pick(t);
    me = -1;
    wake(next);
    return r;
}

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    if (on_block) on_block(me, timed ? "timedwait" : "wait");
    if (race_release) race_release(m);
    REAL(pthread_mutex_unlock)(m);
    unblock(m);
    T[me].state = CONDWAIT;
    T[me].obj = c;
    T[me].timed = timed;
    T[me].signaled = false;
    T[me].lazy_since = ++lazy_clock;
    switch_from(me);
    int rc = T[me].signaled ? 0 : ETIMEDOUT;
    while (REAL(pthread_mutex_trylock)(m) == EBUSY) {
        T[me].state = BLOCKED;
        T[me].obj = m;
        switch_from(me);
    }
    if (race_acquire) race_acquire(m);
    return rc;
}

void signal_one(pthread_cond_t* c) {
    int w[MAXT], n = 0;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == CONDWAIT && T[i].obj == c && !T[i].signaled) w[n++] = i;
    if (n) {
        int t = w[n == 1 ? 0 : (opt.mode == PREFIX ? 0 : rnd() % n)];
        T[t].signaled = true;
        T[t].state = RUN;
    }
}

void lazy_sleep() {
    if (on_block) on_block(me, "sleep");
    T[me].state = LAZY;
    T[me].lazy_since = ++lazy_clock;
    if (opt.mode == PCT) T[me].prio = top_prio();
    switch_from(me);
}

}  // namespace

void (*on_block)(int, const char*) = nullptr;
void (*on_stuck)(const char*) = nullptr;
choice_t* choices = nullptr;
uint32_t* choices_n = nullptr;
uint32_t choices_cap = 0;

void start(const options_t& o) {
    opt = o;
    rng_state = o.seed * 0x2545F4914F6CDD1Dull + 12345;
    nthreads = 1;
    nsteps = 0;
    lazy_clock = 0;
    prefix_pos = 0;
    low_prio = 1ull << 39;
    T[0].state = RUN;
    T[0].handle = pthread_self();
    T[0].prio = top_prio();
    change_points.clear();
    for (int i = 0; i < opt.depth; i++) change_points.push_back(1 + rnd() % 120);
    me = 0;
    on = true;
    if (race_start) race_start();
}

void stop() { on = false; me = -1; }
bool active() { return managed(); }
int self() { return me; }
uint32_t steps() { return nsteps; }
void yield_point() { if (managed()) switch_from(me); }
void idle() {
    if (!managed()) return;
    T[me].state = LAZY;
    T[me].lazy_since = ++lazy_clock;
    switch_from(me);
}

}  // namespace sched

using namespace sched;

extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!managed()) return REAL(pthread_create)(h, a, fn, arg);
    if (nthreads >= MAXT) return EAGAIN;
    int t = nthreads;
    T[t].turn = 0;
    T[t].fn = fn;
    T[t].arg = arg;
    T[t].state = RUN;
    T[t].joined_on = -1;
    T[t].prio = top_prio();
    nthreads++;
    if (race_fork) race_fork(t);
    int rc = REAL(pthread_create)(h, a, trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(t)));
    if (rc) { nthreads--; return rc; }
    T[t].handle = *h;
    switch_from(me);
    return 0;
}

int pthread_join(pthread_t h, void** r) {
    if (managed()) {
        for (int i = 0; i < nthreads; i++) {
            if (i != me && pthread_equal(T[i].handle, h)) {
                switch_from(me);
                while (T[i].state != FINISHED) {
                    T[me].state = BLOCKED;
                    T[me].obj = nullptr;
                    T[me].joined_on = i;
                    switch_from(me);
                }
                T[i].handle = pthread_t{};
                if (race_join) race_join(i);
                break;
            }
        }
    }
    return REAL(pthread_join)(h, r);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!managed()) return REAL(pthread_mutex_lock)(m);
    return lock_with(m, [&] { return REAL(pthread_mutex_trylock)(m); });
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (managed()) switch_from(me);
    int rc = REAL(pthread_mutex_trylock)(m);
    if (rc == 0 && race_acquire) race_acquire(m);
    return rc;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (race_release) race_release(m);
    int rc = REAL(pthread_mutex_unlock)(m);
    if (managed()) { unblock(m); switch_from(me); }
    return rc;
}

int pthread_spin_lock(pthread_spinlock_t* m) noexcept {
    if (!managed()) return REAL(pthread_spin_lock)(m);
    return lock_with(const_cast<const int*>(m), [&] { return REAL(pthread_spin_trylock)(m); });
}
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept {
    if (managed()) switch_from(me);
    int rc = REAL(pthread_spin_trylock)(m);
    if (rc == 0 && race_acquire) race_acquire(const_cast<const int*>(m));
    return rc;
}
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept {
    if (race_release) race_release(const_cast<const int*>(m));
    int rc = REAL(pthread_spin_unlock)(m);
    if (managed()) { unblock(const_cast<const int*>(m)); switch_from(me); }
    return rc;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    if (!managed()) return REAL(pthread_rwlock_rdlock)(m);
    return lock_with(m, [&] { return REAL(pthread_rwlock_tryrdlock)(m); });
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    if (!managed()) return REAL(pthread_rwlock_wrlock)(m);
    return lock_with(m, [&] { return REAL(pthread_rwlock_trywrlock)(m); });
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (race_release) race_release(m);
    int rc = REAL(pthread_rwlock_unlock)(m);
    if (managed()) { unblock(m); switch_from(me); }
    return rc;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!managed()) return REALV(pthread_cond_wait, "GLIBC_2.3.2")(c, m);
    switch_from(me);
    cond_wait(c, m, false);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!managed()) return REALV(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, t);
    switch_from(me);
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    if (!managed()) return REAL(pthread_cond_clockwait)(c, m, k, t);
    switch_from(me);
    return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (managed()) { signal_one(c); switch_from(me); return 0; }
    return REALV(pthread_cond_signal, "GLIBC_2.3.2")(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (managed()) {
        for (int i = 0; i < nthreads; i++)
            if (T[i].state == CONDWAIT && T[i].obj == c) { T[i].signaled = true; T[i].state = RUN; }
        switch_from(me);
        return 0;
    }
    return REALV(pthread_cond_broadcast, "GLIBC_2.3.2")(c);
}

int nanosleep(const timespec* a, timespec* b) {
    if (managed()) { lazy_sleep(); return 0; }
    return REAL(nanosleep)(a, b);
}
int clock_nanosleep(clockid_t k, int f, const timespec* a, timespec* b) {
    if (managed()) { lazy_sleep(); return 0; }
    return REAL(clock_nanosleep)(k, f, a, b);
}
int usleep(useconds_t u) {
    if (managed()) { lazy_sleep(); return 0; }
    return REAL(usleep)(u);
}
int sched_yield() noexcept {
    if (managed()) {
        T[me].state = LAZY;
        T[me].lazy_since = ++lazy_clock;
        switch_from(me);
        return 0;
    }
    return REAL(sched_yield)();
}

}  // extern "C"
