// Leaves that record how they were constructed
#pragma once
#include "pbt.h"
#include "ktl/ktl.h"
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace ca
{
    struct Nope {};
    struct Obj { char c[24]; };
    struct Tok
    {
        uint64_t v; bool moved = false;
        explicit Tok(uint64_t x) : v(x) {}
        Tok(const Tok&) = delete; Tok& operator=(const Tok&) = delete;      // never copied on the way
    };
    struct Arg { char cat; uint64_t v; };
    struct Inst { int id; void* self; char how; std::vector<Arg> args; bool alive, external; long from; std::map<void*, size_t> blocks; };
    extern std::vector<Inst> insts;
    void note(const char* what);             // an error seen inside a leaf, reported by the case
    template<typename T> struct category;
    template<> struct category<Tok&> { static constexpr char value = 'l'; };
    template<> struct category<const Tok&> { static constexpr char value = 'c'; };
    template<> struct category<Tok> { static constexpr char value = 'r'; };
    inline void take(Tok& t) { if (t.moved) note("an argument was used after it had been moved from"); t.moved = true; }
    inline void take(const Tok&) {}

    template<int ID> class L
    {
    public:
        L() : m_I(insts.size()) { insts.push_back({ID, this, 'a', {}, true, false, -1, {}}); }
        template<typename... A, typename = std::enable_if_t<(sizeof...(A) > 0) && (std::is_same_v<std::decay_t<A>, Tok> && ...)>>
        explicit L(A&&... a) : m_I(insts.size())
        {
            insts.push_back({ID, this, 'a', {Arg{category<A>::value, a.v}...}, true, false, -1, {}});
            (void)std::initializer_list<int>{ (std::is_lvalue_reference_v<A> ? 0 : (take(a), 0))... };
        }
        L(const L& o) noexcept : m_I(insts.size()) { insts.push_back({ID, this, 'c', {}, true, false, (long)o.m_I, {}}); }
        L(L&& o) noexcept : m_I(insts.size()) { insts.push_back({ID, this, 'm', {}, true, false, (long)o.m_I, {}}); }
        L& operator=(const L&) noexcept { note("a leaf was assigned to"); return *this; }
        ~L() { if (!insts[m_I].alive) note("a leaf was destroyed twice"); if (!insts[m_I].blocks.empty()) note("a leaf was destroyed with live blocks"); insts[m_I].alive = false; }
        bool operator==(const L& o) const noexcept { return this == &o; }
        bool operator!=(const L& o) const noexcept { return this != &o; }
        void* allocate(size_t n) { void* p = m_A.allocate(n); if (p) insts[m_I].blocks[p] = n; return p; }
        void deallocate(void* p, size_t n)
        {
            auto& b = insts[m_I].blocks; auto it = b.find(p);
            if (it == b.end()) { note("a block came back that is not the leaf's"); return; }
            if (it->second != n) note("a block came back with another size");
            b.erase(it); m_A.deallocate(p, n);
        }
        bool owns(void* p) const { for (auto& [b, n] : insts[m_I].blocks) if ((char*)p >= (char*)b && (char*)p < (char*)b + (n ? n : 1)) return true; return false; }
        size_t max_size() const { return 100000; }
    private:
        size_t m_I; ktl::mallocator m_A;
    };

    void external(int id);                                   // the latest instance of this leaf is an argument
    void logArgs();
    void expect(int id, std::vector<Arg> args);              // one instance is left, constructed from these
    void expectFrom(int id, bool move);                      // one is left, copied or moved from the external one
    void expectNone(int id);
    void moved(const Tok& t, bool yes);
    void* only(int id);
    void same(const void* a, const void* b, const void* c, const char* what);
    void check();
    void end();
    struct Reg { Reg(void (*run)(pbt::Src&), int args); };
    template<bool Typed, typename A> void use(pbt::Src& s, A& a, std::vector<int> ids)
    {
        size_t n = s.range(1, 64);
        if constexpr (Typed) n = 1;
        auto* p = a.allocate(n); check();
        if (!p) return;                                      // a free list whose range does not cover it
        size_t served = 0; for (int id : ids) for (auto& i : insts) if (i.id == id && i.alive && !i.external) served += i.blocks.size();
        CHECK(served == 1, "a block was served by %zu of the composition's own leaves", served);
        memset(p, 1, Typed ? sizeof(Obj) : n); a.deallocate(p, n); check();
    }
}
