// Test-double leaf allocators. Every leaf instance owns an Arena that hands out exact-size heap blocks
// (so that AddressSanitizer sees every byte outside them), follows a per-case plan of refusals, records
// every call, and notices misuse: unknown / double / wrong-size deallocation, destruction with live blocks.
#pragma once
#include "pbt.h"
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace leaf
{
    constexpr int NID = 12;
    enum : unsigned { OWNS = 1, MAXS = 2, CONS = 4, DEST = 8, ALL = 15, CD = CONS | DEST };

    struct Plan
    {
        size_t budget = SIZE_MAX;      // live bytes one instance may hold
        size_t maxReq = SIZE_MAX / 4;  // largest request it serves (what max_size() reports, if offered)
        uint64_t refuse = 0;           // bit i: refuse the (i mod 64)-th request ever made to this id
        int slack = 0;                 // extra bytes past the end are NOT given: blocks are exact
    };
    extern Plan plan[NID];

    enum Kind { Alloc, Refuse, Dealloc, Construct, Destroy, Create, Die };
    struct Event { Kind kind; int id; uint64_t serial; void* p; size_t n; };
    extern std::vector<Event> events;
    extern bool recording;

    struct Arena
    {
        int id; uint64_t serial; unsigned flags; size_t live = 0; bool dead = false;
        std::map<uintptr_t, size_t> blocks;
    };

    struct IdStat { uint64_t requests = 0, allocs = 0, refusals = 0, deallocs = 0, constructs = 0, destroys = 0, created = 0, died = 0, liveBlocks = 0, liveBytes = 0; };
    extern IdStat stat[NID];

    void error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void checkErrors();                     // throws the first recorded misuse
    bool clean();                           // no misuse recorded
    size_t liveBlocks();                    // over all leaves
    const Arena* find(const void* p);       // arena whose live block contains p
    bool inBlock(const void* p, size_t n);  // [p, p+n) inside one live leaf block
    size_t blockSize(const void* p);        // size of the live leaf block containing p (0 if none)
    int instances(int id);                  // instances alive
    int64_t ownInstances();                 // over all ids, without the arenas that handle leaves share

    Arena* create(int id, unsigned flags);
    void die(Arena*);
    void* allocate(Arena*, size_t n);
    void deallocate(Arena*, int id, void* p, size_t n);
    bool owns(const Arena*, const void* p);
    Arena* shared(int id, unsigned flags);                  // the arena all handle leaves of an id share (created on demand)
    void note(Kind k, int id, const Arena* a, void* p, size_t n);

    void atCaseEnd(std::function<void()>);  // cleanup hooks (static instances behind references, ...)
    void runHooks();
    void reset();                           // end of case: runs hooks, frees everything
    std::string describe();

    // Arena-per-instance leaf: default constructible, movable (state moves), not copyable.
    template<int ID, unsigned F> class R
    {
    public:
        static constexpr unsigned flags = F; static constexpr int id = ID;
        R() noexcept : m_A(create(ID, F)) {}
        R(const R&) = delete; R& operator=(const R&) = delete;
        R(R&& o) noexcept : m_A(o.m_A) { o.m_A = nullptr; }
        R& operator=(R&& o) noexcept { if (this != &o) { if (m_A) die(m_A); m_A = o.m_A; o.m_A = nullptr; } return *this; }
        ~R() { if (m_A) die(m_A); }
        bool operator==(const R& o) const noexcept { return m_A == o.m_A; }
        bool operator!=(const R& o) const noexcept { return m_A != o.m_A; }
        void* allocate(size_t n) noexcept { return leaf::allocate(m_A, n); }
        void deallocate(void* p, size_t n) noexcept { leaf::deallocate(m_A, ID, p, n); }
        template<unsigned X = F> std::enable_if_t<(X & OWNS) != 0, bool> owns(void* p) const noexcept { return leaf::owns(m_A, p); }
        template<unsigned X = F> std::enable_if_t<(X & MAXS) != 0, size_t> max_size() const noexcept { return plan[ID].maxReq; }
        template<typename T, typename... A, unsigned X = F> std::enable_if_t<(X & CONS) != 0> construct(T* p, A&&... a)
        { note(Construct, ID, m_A, p, sizeof(T)); ::new ((void*)p) T(std::forward<A>(a)...); }
        template<typename T, unsigned X = F> std::enable_if_t<(X & DEST) != 0> destroy(T* p)
        { note(Destroy, ID, m_A, p, sizeof(T)); p->~T(); }
        const Arena* arena() const { return m_A; }
    private:
        Arena* m_A;
    };

    // What can throw calls tick(); the fuse decides which of these calls does.
    struct Boom { uint64_t n; };
    extern int64_t fuse;                                    // 0: nothing throws, k: the k-th call does
    extern uint64_t booms;                                  // thrown so far
    inline void tick() { if (fuse > 0 && --fuse == 0) throw Boom{++booms}; }

    // Arena-per-instance leaf that reports failure by throwing: construction, allocate and construct may throw
    template<int ID, unsigned F> class X : public R<ID, F>
    {
        typedef R<ID, F> Base;
    public:
        X() noexcept(false) { tick(); }
        explicit X(int) noexcept(false) { tick(); }
        X(X&&) noexcept = default; X& operator=(X&&) noexcept = default;
        void* allocate(size_t n) noexcept(false) { tick(); return Base::allocate(n); }
        template<typename T, typename... A, unsigned Y = F> std::enable_if_t<(Y & CONS) != 0> construct(T* p, A&&... a) noexcept(false)
        { tick(); Base::construct(p, std::forward<A>(a)...); }
    };

    // Handle leaf: copyable, all instances of one id share one arena (like mallocator / global / stack_allocator).
    template<int ID, unsigned F> class H
    {
    public:
        static constexpr unsigned flags = F; static constexpr int id = ID;
        H() noexcept = default;
        bool operator==(const H&) const noexcept { return true; }
        bool operator!=(const H&) const noexcept { return false; }
        void* allocate(size_t n) noexcept { return leaf::allocate(shared(ID, F), n); }
        void deallocate(void* p, size_t n) noexcept { leaf::deallocate(shared(ID, F), ID, p, n); }
        template<unsigned X = F> std::enable_if_t<(X & OWNS) != 0, bool> owns(void* p) const noexcept { return leaf::owns(shared(ID, F), p); }
        template<unsigned X = F> std::enable_if_t<(X & MAXS) != 0, size_t> max_size() const noexcept { return plan[ID].maxReq; }
        template<typename T, typename... A, unsigned X = F> std::enable_if_t<(X & CONS) != 0> construct(T* p, A&&... a)
        { note(Construct, ID, shared(ID, F), p, sizeof(T)); ::new ((void*)p) T(std::forward<A>(a)...); }
        template<typename T, unsigned X = F> std::enable_if_t<(X & DEST) != 0> destroy(T* p)
        { note(Destroy, ID, shared(ID, F), p, sizeof(T)); p->~T(); }
        const Arena* arena() const { return shared(ID, F); }
    };
}
