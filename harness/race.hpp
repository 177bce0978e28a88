// Happens-before monitor hooks. All weak: without harness/race.cpp linked they do nothing.
// Code of the harness that touches state shared between threads does so inside a race::quiet_t.
#pragma once
extern "C" {
void race_acquire(const void* obj) __attribute__((weak));
void race_release(const void* obj) __attribute__((weak));
void race_fork(int child) __attribute__((weak));      // in the parent, before the child may run
void race_begin(int self) __attribute__((weak));      // in the child
void race_end(int self) __attribute__((weak));
void race_join(int child) __attribute__((weak));      // in the joiner
void race_start() __attribute__((weak));              // thread 0 starts
void race_quiet(int delta) __attribute__((weak));
void race_access(const void* p, unsigned long n, int write, const char* what) __attribute__((weak));
}
#define RACE_OFF __attribute__((no_sanitize("thread"), noinline))
namespace race {
// State of the harness shared between threads without synchronisation.
template<class T> struct var_t {
    T v;
    RACE_OFF operator T() const { return v; }
    RACE_OFF void operator=(T x) { v = x; }
    RACE_OFF void operator++(int) { v++; }
};
extern void (*report)(const char* json) __attribute__((weak));
struct quiet_t {
    quiet_t() { if (race_quiet) race_quiet(1); }
    ~quiet_t() { if (race_quiet) race_quiet(-1); }
    quiet_t(const quiet_t&) = delete;
};
}
