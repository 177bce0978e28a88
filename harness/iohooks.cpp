// Interposed output operations: the executable's definitions win over libstdc++'s and libc's, also
// for calls made inside those libraries. Stream operations become preemption points and accesses
// for the happens-before monitor; system calls on files become preemption points and can be counted.
#include "iohooks.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <ostream>

#include "race.hpp"
#include "sched.hpp"

namespace iohooks {
bool bulk = false;
unsigned long long bulk_bytes = 0;
int bulk_fd_min = 3;
bool (*on_write)(int, const struct iovec*, int, long*) = nullptr;
std::vector<alias_t>& aliases() { static std::vector<alias_t> v; return v; }
const void* shared_streams[4] = {nullptr, nullptr, nullptr, nullptr};

static bool shared(const void* s) { for (auto p : shared_streams) if (p == s) return true; return false; }
static void touch(const void* s, const char* what) {
    if (sched::active()) {
        if (!shared(s) && race_access) race_access(s, 1, 1, what);
        sched::yield_point();
    }
}
static void after() { if (sched::active()) sched::yield_point(); }
}
using namespace iohooks;

template<class F> static F next(const char* sym) {
    race::quiet_t q;
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, sym));
}

#define REAL(sym, type) static type real = next<type>(sym)

extern "C" {
// std::ostream::write(char const*, long)
std::ostream* _ZNSo5writeEPKcl(std::ostream* s, const char* p, long n) {
    typedef std::ostream* (*f_t)(std::ostream*, const char*, long);
    REAL("_ZNSo5writeEPKcl", f_t);
    touch(s, "ostream::write");
    auto r = real(s, p, n);
    after();
    return r;
}
// std::ostream::put(char)
std::ostream* _ZNSo3putEc(std::ostream* s, char c) {
    typedef std::ostream* (*f_t)(std::ostream*, char);
    REAL("_ZNSo3putEc", f_t);
    touch(s, "ostream::put");
    auto r = real(s, c);
    after();
    return r;
}
// std::ostream::flush()
std::ostream* _ZNSo5flushEv(std::ostream* s) {
    typedef std::ostream* (*f_t)(std::ostream*);
    REAL("_ZNSo5flushEv", f_t);
    touch(s, "ostream::flush");
    auto r = real(s);
    after();
    return r;
}
// std::__ostream_insert(ostream&, char const*, long)
std::ostream* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream* s, const char* p, long n) {
    typedef std::ostream* (*f_t)(std::ostream*, const char*, long);
    REAL("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", f_t);
    touch(s, "ostream <<");
    auto r = real(s, p, n);
    after();
    return r;
}

// ---- system calls ------------------------------------------------------------------------------
static bool managed_fd(int fd) { return fd >= bulk_fd_min; }

ssize_t write(int fd, const void* p, size_t n) {
    typedef ssize_t (*f_t)(int, const void*, size_t);
    REAL("write", f_t);
    if (on_write) {
        struct iovec v = {const_cast<void*>(p), n};
        long r = 0;
        if (on_write(fd, &v, 1, &r)) return r;
    }
    if (bulk && managed_fd(fd)) { bulk_bytes += n; return static_cast<ssize_t>(n); }
    if (sched::active()) sched::yield_point();
    ssize_t r = real(fd, p, n);
    if (sched::active()) { int e = errno; sched::yield_point(); errno = e; }
    return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    typedef ssize_t (*f_t)(int, const struct iovec*, int);
    REAL("writev", f_t);
    if (on_write) {
        long r = 0;
        if (on_write(fd, v, c, &r)) return r;
    }
    if (bulk && managed_fd(fd)) {
        ssize_t n = 0;
        for (int i = 0; i < c; i++) n += static_cast<ssize_t>(v[i].iov_len);
        bulk_bytes += static_cast<unsigned long long>(n);
        return n;
    }
    if (sched::active()) sched::yield_point();
    ssize_t r = real(fd, v, c);
    if (sched::active()) { int e = errno; sched::yield_point(); errno = e; }
    return r;
}

// ---- file identities ---------------------------------------------------------------------------
static void alias(struct stat* b) {
    for (auto& a : aliases())
        if (b->st_dev == a.dev && b->st_ino == a.ino) { b->st_dev = a.as_dev; b->st_ino = a.as_ino; return; }
}
int stat(const char* path, struct stat* b) {
    typedef int (*f_t)(const char*, struct stat*);
    REAL("stat", f_t);
    if (sched::active()) sched::yield_point();
    int r = real(path, b);
    if (r == 0) alias(b);
    return r;
}
int lstat(const char* path, struct stat* b) {
    typedef int (*f_t)(const char*, struct stat*);
    REAL("lstat", f_t);
    if (sched::active()) sched::yield_point();
    int r = real(path, b);
    if (r == 0) alias(b);
    return r;
}
int fstat(int fd, struct stat* b) {
    typedef int (*f_t)(int, struct stat*);
    REAL("fstat", f_t);
    int r = real(fd, b);
    if (r == 0) alias(b);
    return r;
}
int fstatat(int dir, const char* path, struct stat* b, int fl) {
    typedef int (*f_t)(int, const char*, struct stat*, int);
    REAL("fstatat", f_t);
    int r = real(dir, path, b, fl);
    if (r == 0) alias(b);
    return r;
}
}
