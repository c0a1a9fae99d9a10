// Wraps any allocator and records which calls reach it, in order.
#pragma once
#include "leaf.h"
#include <memory>

namespace prb
{
    struct Ev { char kind; int k; void* p; size_t n; };      // A served, R refused, F deallocated
    inline std::vector<Ev> ev;
    inline std::map<void*, std::pair<int, int>> from;        // address -> (allocator, number of blocks there)
    inline std::string err;
    inline void note(const std::string& m) { if (err.empty()) err = m; }
    inline void reset() { ev.clear(); from.clear(); err.clear(); }
    inline void check() { if (!err.empty()) { std::string e = err; pbt::fail("%s", e.c_str()); } leaf::checkErrors(); }
    inline std::string str()
    {
        std::string o; char b[64];
        for (auto& e : ev) { snprintf(b, sizeof b, "%s%c%d(%zd)", o.empty() ? "" : " ", e.kind, e.k, (ssize_t)e.n); o += b; }
        return o;
    }

    template<int K, typename A> class P
    {
    public:
        P() = default;
        P(const P&) = default; P(P&&) = default; P& operator=(const P&) = default; P& operator=(P&&) = default;
        bool operator==(const P& o) const { return m_A == o.m_A; }
        bool operator!=(const P& o) const { return m_A != o.m_A; }
        void* allocate(size_t n) noexcept
        {
            void* p = m_A.allocate(n);
            ev.push_back({p ? 'A' : 'R', K, p, n});
            if (p)
            {
                auto& f = from[p];
                if (f.second && f.first != K) note("two allocators handed out the same address");
                f.first = K; f.second++;
            }
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            ev.push_back({'F', K, p, n});
            auto it = from.find(p);
            if (it == from.end()) { note("deallocation of a block that is not live reached allocator " + std::to_string(K)); return; }
            if (it->second.first != K) { note("a block of allocator " + std::to_string(it->second.first) + " was deallocated into allocator " + std::to_string(K)); return; }
            if (!--it->second.second) from.erase(it);
            m_A.deallocate(p, n);
        }
        template<typename B = A> auto owns(void* p) const noexcept -> decltype(std::declval<const B&>().owns(p)) { return m_A.owns(p); }
        template<typename B = A> auto max_size() const noexcept -> decltype(std::declval<const B&>().max_size()) { return m_A.max_size(); }
        A m_A;
    };
}
