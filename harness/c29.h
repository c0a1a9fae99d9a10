#pragma once
#include "pbt.h"
#include "ktl/ktl.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace fw
{
    struct Ev { char kind; int id; const void* p; size_t n; };     // a d o m c x (construct, destroy), D (state destroyed)
    std::vector<Ev>& evs();
    struct State { size_t limit; std::map<char*, size_t> blocks; };
    std::map<int, State>& states();
    struct Obj { int v; static int ctors, dtors; Obj(int a, int& b) : v(a) { b++; ctors++; } Obj(const Obj&) = delete; ~Obj() { dtors++; } };

    // Records every call; a state moves with its allocator and ends with the last holder.
    // Those with an odd tag all compare equal to each other (as stateless ones may), though each records as itself
    template<int Tag> class Rec
    {
    public:
        Rec() : id(-1) {}
        explicit Rec(int i) : id(i) {}
        Rec(const Rec&) = delete; Rec& operator=(const Rec&) = delete;
        Rec(Rec&& o) noexcept : id(o.id) { o.id = -1; }
        Rec& operator=(Rec&& o) noexcept { if (this != &o) { end(); id = o.id; o.id = -1; } return *this; }
        ~Rec() { end(); }
        bool operator==(const Rec& o) const noexcept { return (Tag & 1) || id == o.id; }
        bool operator!=(const Rec& o) const noexcept { return !(*this == o); }
        void* allocate(size_t n) noexcept
        {
            State& s = states()[id]; char* p = n <= s.limit ? static_cast<char*>(::operator new(n ? n : 1)) : nullptr;
            if (p) s.blocks[p] = n;
            evs().push_back({'a', id, p, n}); return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            evs().push_back({'d', id, p, n}); State& s = states()[id];
            if (s.blocks.erase(static_cast<char*>(p))) ::operator delete(p);
        }
        bool owns(void* p) const noexcept { evs().push_back({'o', id, p, 0}); for (auto& b : states()[id].blocks) if (p >= b.first && p < b.first + b.second) return true; return false; }
        size_t max_size() const noexcept { evs().push_back({'m', id, nullptr, 0}); return states()[id].limit; }
        template<typename T, typename... X> void construct(T* p, X&&... x) { evs().push_back({'c', id, p, sizeof(T)}); ::new ((void*)p) T(std::forward<X>(x)...); }
        template<typename T> void destroy(T* p) { evs().push_back({'x', id, p, sizeof(T)}); p->~T(); }
        int id;
    private:
        void end() { if (id >= 0) evs().push_back({'D', id, nullptr, 0}); id = -1; }
    };
    // the same global, used from another translation unit
    void* otherAllocate(int tag, size_t n);
    void otherDeallocate(int tag, void* p, size_t n);
    bool otherOwns(int tag, void* p);
    void otherSet(int tag, int id);
}
