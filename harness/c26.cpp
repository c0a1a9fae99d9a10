// C26: the heap allocator is aligned and safe in every build configuration. BACKEND selects the
// configuration the way a platform would: 0 malloc is aligned, 1 posix_memalign, 2 portable fallback, 3 SSE.
#include "pbt.h"
#include "heap.h"
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <string>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#if BACKEND == 3
#include <immintrin.h>
#define SSE_INSTR_SET 2
#endif
#if BACKEND != 0
#undef __LP64__
#endif
#if BACKEND == 2
#undef _POSIX_ADVISORY_INFO
#endif
#include "ktl/ktl.h"
using pbt::Src;

namespace
{
    size_t base;
    struct B { char* p; size_t n; uint32_t pat; };
    uint8_t pb(uint32_t pat, size_t i) { return uint8_t((pat * 2654435761u >> 8) + i * 37 + (i >> 8) * 11); }
    void put(const B& b) { for (size_t i = 0; i < b.n; i++) b.p[i] = char(pb(b.pat, i)); }
    void get(const B& b) { for (size_t i = 0; i < b.n; i++) CHECK(uint8_t(b.p[i]) == pb(b.pat, i), "content of a live block of %zu bytes changed at offset %zu", b.n, i); }
    size_t drawSize(Src& s, bool& giant)
    {
        giant = false;
        switch (s.draw(8))
        {
        case 0: case 1: case 2: return s.draw(80);
        case 3: return (size_t(1) << s.draw(13)) + s.draw(3) - 1;
        case 4: case 5: return s.draw(3000);
        case 6: giant = true; return SIZE_MAX - s.draw(70);
        default: giant = true; return s.flag() ? SIZE_MAX / 2 + s.draw(40) - 20 : (size_t(1) << (40 + s.draw(23))) + s.draw(20);
        }
    }
    // allocations and releases in any order, with refusals by the system
    template<typename A> void blocks(Src& s, const char* name)
    {
        pbt::log("%s", name);
        size_t allocs = 0, refused = 0;
        {
            A a; std::vector<B> live; uint32_t pats = 0;
            s.maxSteps = 20 + 2 * s.sizeHint();
            while (s.more(30))
            {
                pbt::Span sp;
                static const unsigned w[] = { 6, 4, 1 };
                switch (s.pick(w))
                {
                case 0:
                {
                    bool giant; size_t n = drawSize(s, giant); uint64_t f0 = heap::failuresInjected(); size_t l0 = heap::liveBlocks();
                    char* p = (char*)a.allocate(n);
                    pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null");
                    if (giant) CHECK(!p, "a request of %zu bytes was met", n);
                    if (!p)
                    {
                        CHECK(giant || n == 0 || heap::failuresInjected() != f0, "a request of %zu bytes was refused although the system refused nothing", n);
                        CHECK(heap::liveBlocks() == l0, "a refused request leaks memory"); refused++;
                    }
                    else
                    {
                        CHECK(reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t) == 0, "block of %zu bytes at %p is not aligned to %zu", n, (void*)p, alignof(std::max_align_t));
                        CHECK(heap::liveBlocks() == l0 + 1, "a block is not backed by one heap block");
                        CHECK(!n || heap::inLiveBlock(p, n), "block of %zu bytes does not fit in the memory obtained from the system", n);
                        live.push_back({p, n, ++pats}); put(live.back()); allocs++;
                    }
                    break;
                }
                case 1:
                    if (!live.empty())
                    {
                        size_t k = s.draw(live.size()); B b = live[k]; get(b); live.erase(live.begin() + k); size_t l0 = heap::liveBlocks();
                        pbt::log("free(%zu)", b.n); a.deallocate(b.p, b.n);
                        CHECK(heap::liveBlocks() == l0 - 1, "deallocation does not give the block back to the system");
                    }
                    break;
                default: { int64_t k = int64_t(s.draw(4)); size_t c = s.range(1, 2); pbt::log("the system refuses requests %d..%d from now", int(k), int(k + c - 1)); heap::failFrom(k, int64_t(c)); break; }
                }
                for (auto& b : live) get(b);
            }
            while (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; get(b); live.erase(live.begin() + k); a.deallocate(b.p, b.n); }
        }
        CHECK(heap::liveBlocks() == base, "%zd heap blocks leaked", (ssize_t)heap::liveBlocks() - (ssize_t)base);
        CHECK(heap::foreignFrees() == 0, "something was given back to the system that it did not hand out");
        if (allocs >= 3) pbt::nontrivial();
        if (refused) pbt::label("with refusals");
    }
    // allocators that take their own bookkeeping from the heap
    template<typename A> void users(Src& s, const char* name)
    {
        pbt::log("%s", name); size_t allocs = 0;
        {
            A a; std::vector<B> live; uint32_t pats = 0;
            s.maxSteps = 20 + s.sizeHint();
            while (s.more(25))
            {
                pbt::Span sp;
                if (s.flag(2, 3))
                {
                    size_t n = s.draw(60); char* p = (char*)a.allocate(n); pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null");
                    if (p)
                    {
                        CHECK(reinterpret_cast<uintptr_t>(p) % alignof(std::max_align_t) == 0, "block of %zu bytes at %p is not aligned to %zu", n, (void*)p, alignof(std::max_align_t));
                        CHECK(!n || heap::inLiveBlock(p, n), "block does not lie in memory obtained from the system");
                        live.push_back({p, n, ++pats}); put(live.back()); allocs++;
                    }
                }
                else if (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; get(b); live.erase(live.begin() + k); pbt::log("free(%zu)", b.n); a.deallocate(b.p, b.n); }
                for (auto& b : live) get(b);
            }
            while (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; get(b); live.erase(live.begin() + k); a.deallocate(b.p, b.n); }
        }
        CHECK(heap::liveBlocks() == base, "%zd heap blocks leaked", (ssize_t)heap::liveBlocks() - (ssize_t)base);
        CHECK(heap::foreignFrees() == 0, "something was given back to the system that it did not hand out");
        if (allocs >= 3) pbt::nontrivial();
    }
    template<typename T> struct Typed { ktl::type_mallocator<T> a; void* allocate(size_t n) { return n % sizeof(T) || n / sizeof(T) > SIZE_MAX / sizeof(T) ? a.allocate(n / sizeof(T) + (n % sizeof(T) != 0)) : a.allocate(n / sizeof(T)); } void deallocate(void* p, size_t n) { a.deallocate((T*)p, n / sizeof(T) + (n % sizeof(T) != 0)); } };
}
static void backend(Src& s)
{
#if BACKEND == 2
    if (s.flag()) { heap::skew = 8; pbt::log("malloc aligned to 8"); }
#endif
    switch (s.draw(6))
    {
    case 0: case 1: blocks<ktl::mallocator>(s, "mallocator"); break;
    case 2: blocks<Typed<uint64_t>>(s, "type_mallocator<uint64_t>"); break;
    case 3: users<ktl::cascading<ktl::linear_allocator<128>>>(s, "cascading<linear<128>>"); break;
    case 4: users<ktl::shared<ktl::linear_allocator<256>>>(s, "shared<linear<256>>"); break;
    default: users<ktl::freelist<0, 64, ktl::mallocator>>(s, "freelist<0,64,mallocator>"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"backend", backend, 1, "non-trivial if at least three blocks were handed out"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { heap::reset(); heap::limit = size_t(1) << 28; base = heap::liveBlocks(); }
