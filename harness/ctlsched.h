// Controlled interleaving: the threads of a case are real threads, but exactly one runs at a time, and at
// every visible operation (atomic operation, mutex operation, entry/exit of the test-double allocator) the
// choice sequence of the case decides which one continues. A schedule is therefore part of the case: it is
// generated, replayed and shrunk like any other choice.
#pragma once
#include "pbt.h"
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <semaphore.h>
#include <string>
#include <thread>
#include <vector>

namespace sched
{
    void run(pbt::Src& s, const std::vector<std::function<void()>>& bodies);   // runs them to completion
    void yield();                 // a scheduling point (no-op outside of run)
    bool active();                // the calling thread is scheduled
    int self();                   // index of the calling thread (-1 outside)
    void problem(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // recorded; run() fails with the first one
    uint64_t switches();          // context switches of the last run

    // std::atomic's interface; every operation is a scheduling point
    template<typename T> class Atomic
    {
    public:
        Atomic() noexcept = default;
        constexpr Atomic(T v) noexcept : m_V(v) {}
        Atomic(const Atomic&) = delete; Atomic& operator=(const Atomic&) = delete;
        T load(std::memory_order = std::memory_order_seq_cst) const noexcept { yield(); return m_V; }
        void store(T v, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); m_V = v; }
        T exchange(T v, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); T o = m_V; m_V = v; return o; }
        T fetch_add(T v, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); T o = m_V; m_V = T(m_V + v); return o; }
        T fetch_sub(T v, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); T o = m_V; m_V = T(m_V - v); return o; }
        bool compare_exchange_strong(T& e, T v, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { yield(); if (m_V == e) { m_V = v; return true; } e = m_V; return false; }
        bool compare_exchange_weak(T& e, T v, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, v); }
        operator T() const noexcept { return load(); }
        T operator=(T v) noexcept { store(v); return v; }
        T operator++() noexcept { return fetch_add(1) + 1; }
        T operator--() noexcept { return fetch_sub(1) - 1; }
        T operator++(int) noexcept { return fetch_add(1); }
        T operator--(int) noexcept { return fetch_sub(1); }
        T operator+=(T v) noexcept { return fetch_add(v) + v; }
        T operator-=(T v) noexcept { return fetch_sub(v) - v; }
    private:
        T m_V;
    };
}
