// C25: packed_ptr stores a pointer and an integer without interference
#include "pbt.h"
#include "ktl/containers/packed_ptr.h"
#include <memory>
#include <utility>
#include <vector>
using pbt::Src;

namespace
{
    struct alignas(64) Line { char c[64]; };
    struct alignas(2) Two { char c[2]; };
    constexpr unsigned lg(uint64_t a) { unsigned r = 0; while (a >>= 1) r++; return r; }
    template<unsigned Bits> constexpr uint64_t mask() { return Bits == 0 ? 0 : (~uint64_t(0) >> (64 - Bits)); }

    uint64_t drawInt(Src& s, unsigned bits)
    {
        switch (s.draw(6))
        {
        case 0: return s.draw(16);
        case 1: return bits ? (~uint64_t(0) >> (64 - bits)) - s.draw(3) : 0;        // around the largest that fits
        case 2: return (bits < 64 ? uint64_t(1) << bits : 0) + s.draw(5) - 2;       // around the first that does not
        case 3: return uint64_t(1) << s.draw(64);
        case 4: return ~uint64_t(0) - s.draw(3);
        default: return s.bits();
        }
    }
    uint64_t drawPtr(Src& s, uint64_t align)
    {
        uint64_t v;
        switch (s.draw(6))
        {
        case 0: v = 0; break;
        case 1: v = align * (1 + s.draw(8)); break;
        case 2: v = ~uint64_t(0); break;
        case 3: v = uint64_t(1) << s.draw(64); break;
        case 4: v = 0x00007f0000000000ull + s.draw(uint64_t(1) << 36); break;
        default: v = s.bits(); break;
        }
        return v & ~(align - 1);
    }
    template<typename P, unsigned Bits, uint64_t Align> struct Case
    {
        typedef ktl::packed_ptr<P, Bits, Align> K;
        struct Slot { K k; uint64_t p, i; };
        static void check(const K& k, uint64_t p, uint64_t i)
        {
            CHECK(reinterpret_cast<uintptr_t>(k.get_ptr()) == p, "get_ptr() is %p, stored was %p", (const void*)k.get_ptr(), (void*)p);
            CHECK(k.template get_int<uint64_t>() == i, "get_int() is %llu, stored was %llu", (unsigned long long)k.template get_int<uint64_t>(), (unsigned long long)i);
            if (Bits <= 32) CHECK(k.template get_int<uint32_t>() == i, "get_int<uint32_t>() is wrong");
            if (Bits <= 16) CHECK(k.template get_int<uint16_t>() == i, "get_int<uint16_t>() is wrong");
            if (Bits <= 8) CHECK(k.template get_int<uint8_t>() == i, "get_int<uint8_t>() is wrong");
            if (Bits <= 1) CHECK(k.template get_int<bool>() == (i != 0), "get_int<bool>() is wrong");
            if (p) CHECK(bool(k), "converts to false although it holds a pointer");
            if (i) CHECK(bool(k), "converts to false although it holds the integer %llu", (unsigned long long)i);
            if (!p && !i) CHECK(!bool(k), "converts to true although it holds null and zero");
        }
        static void setInt(Src& s, Slot& x, uint64_t v)
        {
            switch (s.draw(5))
            {
            case 0: x.k.set_int(v); x.i = v & mask<Bits>(); break;
            case 1: x.k.set_int(uint32_t(v)); x.i = uint32_t(v) & mask<Bits>(); break;
            case 2: x.k.set_int(uint16_t(v)); x.i = uint16_t(v) & mask<Bits>(); break;
            case 3: x.k.set_int(uint8_t(v)); x.i = uint8_t(v) & mask<Bits>(); break;
            default: x.k.set_int(bool(v & 1)); x.i = (v & 1) & mask<Bits>(); break;
            }
        }
        static K make(Src& s, uint64_t p, uint64_t v, uint64_t& i)
        {
            P q = reinterpret_cast<P>(uintptr_t(p));
            switch (s.draw(4))
            {
            case 0: i = v & mask<Bits>(); return K(q, v);
            case 1: i = uint32_t(v) & mask<Bits>(); return K(q, uint32_t(v));
            case 2: i = uint16_t(v) & mask<Bits>(); return K(q, uint16_t(v));
            default: i = uint8_t(v) & mask<Bits>(); return K(q, uint8_t(v));
            }
        }
        static void run(Src& s)
        {
            pbt::log("%u bits, alignment %llu", Bits, (unsigned long long)Align);
            CHECK(uint64_t(K::FREE_BITS) == lg(Align), "FREE_BITS is %llu for alignment %llu", (unsigned long long)K::FREE_BITS, (unsigned long long)Align);
            std::vector<Slot> v; v.push_back({K(), 0, 0});
            check(v[0].k, 0, 0); unsigned sets = 0, ints = 0;
            s.maxSteps = 15 + s.sizeHint() / 2;
            while (s.more(15))
            {
                pbt::Span sp;
                size_t i = s.draw(v.size()), j = s.draw(v.size()); uint64_t p = drawPtr(s, Align), n = drawInt(s, Bits);
                unsigned op = unsigned(s.draw(6));
                static const char* names[] = { "set_int", "set_ptr", "construct", "copy", "assign", "default" };
                pbt::log("%zu:%s(%llx,%llx)", i, names[op], (unsigned long long)p, (unsigned long long)n);
                switch (op)
                {
                case 0: setInt(s, v[i], n); ints++; break;
                case 1: v[i].k.set_ptr(reinterpret_cast<P>(uintptr_t(p))); v[i].p = p; sets++; break;
                case 2: { uint64_t m; K k = make(s, p, n, m); if (v.size() < 4) v.push_back({k, p, m}); else v[i] = {k, p, m}; sets++; ints++; break; }
                case 3: if (v.size() < 4) { Slot c = v[j]; v.push_back(c); } break;
                case 4: { Slot c = v[j]; v[i].k = c.k; v[i].p = c.p; v[i].i = c.i; break; }
                default: v[i] = {K(), 0, 0}; break;
                }
                for (auto& x : v) check(x.k, x.p, x.i);
            }
            if (sets >= 2 && ints >= 2) pbt::nontrivial();
        }
    };
}
static void packed(Src& s)
{
    switch (s.draw(22))
    {
    case 0: Case<int*, 2, 4>::run(s); break;
    case 1: Case<int*, 1, 4>::run(s); break;
    case 2: Case<int*, 0, 4>::run(s); break;
    case 3: Case<char*, 0, 1>::run(s); break;
    case 4: Case<Two*, 1, 2>::run(s); break;
    case 5: Case<double*, 3, 8>::run(s); break;
    case 6: Case<double*, 2, 8>::run(s); break;
    case 7: Case<const uint64_t*, 3, 8>::run(s); break;
    case 8: Case<Line*, 6, 64>::run(s); break;
    case 9: Case<Line*, 3, 64>::run(s); break;
    case 10: Case<void*, 4, 16>::run(s); break;
    case 11: Case<void*, 8, 256>::run(s); break;
    case 12: Case<void*, 12, 4096>::run(s); break;
    case 13: Case<void*, 7, 4096>::run(s); break;
    case 14: Case<void*, 16, 65536>::run(s); break;
    case 15: Case<void*, 20, 1048576>::run(s); break;
    case 16: Case<void*, 31, 0x80000000ull>::run(s); break;
    case 17: Case<void*, 32, 0x100000000ull>::run(s); break;
    case 18: Case<void*, 33, 0x200000000ull>::run(s); break;
    case 19: Case<void*, 40, 0x10000000000ull>::run(s); break;
    case 20: Case<const void*, 5, 0x10000000000ull>::run(s); break;
    default: Case<int**, 3, 8>::run(s); break;
    }
}
// the alignment and the number of free bits follow from the pointed-to type by default
static void deduced(Src& s)
{
    uint64_t v = s.bits(), p = s.bits();
    pbt::log("%llx %llx", (unsigned long long)p, (unsigned long long)v); pbt::nontrivial();
#define D(T, B) { typedef ktl::packed_ptr<T*, B> K; static_assert(K::FREE_BITS >= B); CHECK(K::FREE_BITS == lg(alignof(T)), #T ": FREE_BITS is wrong"); \
        uintptr_t q = uintptr_t(p) & ~uintptr_t(alignof(T) - 1); K k(reinterpret_cast<T*>(q), v); CHECK(reinterpret_cast<uintptr_t>(k.get_ptr()) == q && k.get_int<uint64_t>() == (v & mask<B>()), #T ": stored values are wrong"); }
    D(char, 0) D(int16_t, 1) D(int, 2) D(double, 3) D(void*, 3) D(Line, 6) D(Line, 1) D(max_align_t, 4)
#undef D
}
pbt::Prop pbt::props[] = {
    {"packed", packed, 8, "non-trivial if at least two pointers and two integers were stored"},
    {"deduced", deduced, 1, "every case"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() {}
