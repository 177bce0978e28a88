// Force-included (-include) when the scheduler is used: std::atomic used by the code under test
// becomes a preemption point. Third party headers are included first, so that they keep the real one.
#pragma once
#include <cstdint>
#include <atomic>
#include <algorithm>
#include <array>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <vector>
#include <boost/lexical_cast.hpp>
#include <boost/optional/optional.hpp>
#include <boost/thread/tss.hpp>
#include <boost/variant.hpp>
#include <boost/variant/apply_visitor.hpp>
#include <cds/container/vyukov_mpmc_cycle_queue.h>

namespace sched { void yield_point(); void idle(); }

namespace std {
template<class T> struct sched_atomic : public std::atomic<T> {
    typedef std::atomic<T> base;
    sched_atomic() noexcept = default;
    constexpr sched_atomic(T v) noexcept : base(v) {}
    sched_atomic(const sched_atomic&) = delete;
    T operator=(T v) noexcept { store(v); return v; }
    void store(T v, memory_order o = memory_order_seq_cst) noexcept { ::sched::yield_point(); base::store(v, o); ::sched::yield_point(); }
    T load(memory_order o = memory_order_seq_cst) const noexcept { ::sched::yield_point(); return base::load(o); }
    operator T() const noexcept { return load(); }
    T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { ::sched::yield_point(); return base::exchange(v, o); }
    bool compare_exchange_weak(T& e, T v, memory_order a = memory_order_seq_cst) noexcept { ::sched::yield_point(); return base::compare_exchange_strong(e, v, a); }
    bool compare_exchange_weak(T& e, T v, memory_order a, memory_order b) noexcept { ::sched::yield_point(); return base::compare_exchange_strong(e, v, a, b); }
    bool compare_exchange_strong(T& e, T v, memory_order a = memory_order_seq_cst) noexcept { ::sched::yield_point(); return base::compare_exchange_strong(e, v, a); }
    bool compare_exchange_strong(T& e, T v, memory_order a, memory_order b) noexcept { ::sched::yield_point(); return base::compare_exchange_strong(e, v, a, b); }
    template<class U = T> T fetch_add(U v, memory_order o = memory_order_seq_cst) noexcept { ::sched::yield_point(); return base::fetch_add(v, o); }
    template<class U = T> T fetch_sub(U v, memory_order o = memory_order_seq_cst) noexcept { ::sched::yield_point(); return base::fetch_sub(v, o); }
    template<class U = T> T operator+=(U v) noexcept { return fetch_add(v) + v; }
    template<class U = T> T operator-=(U v) noexcept { return fetch_sub(v) - v; }
    T operator++() noexcept { ::sched::yield_point(); return base::operator++(); }
    T operator--() noexcept { ::sched::yield_point(); return base::operator--(); }
    T operator++(int) noexcept { ::sched::yield_point(); return base::operator++(0); }
    T operator--(int) noexcept { ::sched::yield_point(); return base::operator--(0); }
};
struct sched_atomic_flag {
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    bool test_and_set(memory_order o = memory_order_seq_cst) noexcept {
        ::sched::yield_point();
        bool r = f.test_and_set(o);
        if (r) ::sched::idle();
        return r;
    }
    void clear(memory_order o = memory_order_seq_cst) noexcept { f.clear(o); ::sched::yield_point(); }
};
typedef sched_atomic<bool> sched_atomic_bool;
typedef sched_atomic<int> sched_atomic_int;
typedef sched_atomic<unsigned> sched_atomic_uint;
typedef sched_atomic<size_t> sched_atomic_size_t;
}  // namespace std
#define atomic sched_atomic
#define atomic_flag sched_atomic_flag
#define atomic_bool sched_atomic_bool
#define atomic_int sched_atomic_int
#define atomic_uint sched_atomic_uint
#define atomic_size_t sched_atomic_size_t
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
