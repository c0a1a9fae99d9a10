// Shared by the container checks: element types, an accounting allocator with several distinguishable
// instances, and elements that track their own lifetime.
#pragma once
#include "pbt.h"
#include "leaf.h"
#include "heap.h"
#include "ktl/ktl.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace cont
{
    using pbt::Src;
    enum : unsigned { CONTENT = 1, ALLOC = 2, LIFE = 4 };
    extern unsigned checks;        // which of the assertions this check makes

    void error(unsigned kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // recorded; raised by settle()
    void settle();
    void reset();
    // a failed assertion of another property's kind is not reported, but the case ends there
    struct Stop {};
#define WANT(kind, cond, ...) do { if (!(cond)) { if (cont::checks & (kind)) ::pbt::fail(__VA_ARGS__); throw ::cont::Stop{}; } } while (0)

    // ---- allocator --------------------------------------------------------------------------------
    struct Block { size_t n, bytes; int g; };
    extern std::map<char*, Block> blocks; extern uint64_t takes;    // successful allocations of the case
    extern bool nullForZero;
    void* take(int g, size_t n, size_t bytes);
    void give(int g, void* p, size_t n, size_t bytes);
    int groupOf(const void* p);       // instance whose live block starts at p (-1: none)
    extern uint64_t constructs, destroys;
    struct CD { };
    // F: bit 0 offers construct and destroy, bit 1 default construction gives a fresh instance each time
    template<typename T, unsigned F> struct Acct
    {
        typedef T value_type; int g = 0;
        template<typename U> struct rebind { typedef Acct<U, F> other; };
        Acct() noexcept = default;
        explicit Acct(int x) noexcept : g(x) {}
        template<typename U> Acct(const Acct<U, F>& o) noexcept : g(o.g) {}
        T* allocate(size_t n) noexcept { return static_cast<T*>(take(g, n, n * sizeof(T))); }
        void deallocate(T* p, size_t n) noexcept { give(g, p, n, n * sizeof(T)); }
        template<typename U, typename... X, unsigned Q = F> std::enable_if_t<(Q & 1) != 0> construct(U* p, X&&... x) { constructs++; ::new ((void*)p) U(std::forward<X>(x)...); }
        template<typename U, unsigned Q = F> std::enable_if_t<(Q & 1) != 0> destroy(U* p) { destroys++; p->~U(); }
        bool operator==(const Acct& o) const noexcept { return g == o.g; }
        bool operator!=(const Acct& o) const noexcept { return g != o.g; }
    };
    // how the three allocators of a case are made
    template<typename A> struct Maker { static A make(int) { return A(); } static constexpr bool tracked = false; };
    template<typename T, unsigned F> struct Maker<Acct<T, F>> { static Acct<T, F> make(int g) { return Acct<T, F>(g); } static constexpr bool tracked = true; };

    // ---- trivially copyable elements ----------------------------------------------------------------
    struct S3 { uint8_t a[3]; };
    struct Big { uint64_t a[5]; };
    struct Def { int32_t v = 7; int16_t w = 3; int16_t x = 1; };
    struct alignas(16) Wide { uint64_t a[2]; };
    template<typename T> T mk(uint64_t v)
    {
        T t; unsigned char b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = (unsigned char)(v * (i * 2 + 1) + (v >> 8) + i * 3);
        memcpy((void*)&t, b, sizeof t); return t;
    }
    template<> inline float mk<float>(uint64_t v) { return float(v) / 4; }
    template<typename T> bool eq(const T& a, const T& b) { return !memcmp((const void*)&a, (const void*)&b, sizeof(T)); }

    // ---- elements that track their lifetime -------------------------------------------------------
    void born(const void* p, size_t n, const char* how);
    void dead(const void* p);
    void alive(const void* p, const char* how);
    size_t liveObjects();
    size_t liveIn(const void* p, size_t n);
}
