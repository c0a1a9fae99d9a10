#include "heap.h"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>

extern "C"
{
    void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
    int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); void* __real_memalign(size_t, size_t);
}
namespace heap
{
    size_t limit = size_t(1) << 28;
    size_t skew = 0;
    struct Slot { size_t n, off; };
    static std::map<char*, Slot>& table() { static auto* t = new std::map<char*, Slot>; return *t; }     // operator new is not redirected
    static size_t blocks, bytes; static uint64_t nCalls, nFail, nForeign;
    static int64_t failAt = -1, failCount = 0;
    static std::atomic_flag lock = ATOMIC_FLAG_INIT;
    struct Guard { Guard() { while (lock.test_and_set(std::memory_order_acquire)) {} } ~Guard() { lock.clear(std::memory_order_release); } };
    static void add(void* p, size_t n, size_t off = 0) { Guard g; table()[(char*)p] = {n, off}; blocks++; bytes += n; }
    static size_t del(void* p)          // returns how far p is from what the system gave
    {
        Guard g;
        auto it = table().find((char*)p);
        if (it == table().end()) { nForeign++; return 0; }
        size_t off = it->second.off; blocks--; bytes -= it->second.n; table().erase(it);
        return off;
    }
    static bool refuse(size_t n)
    {
        Guard g;
        nCalls++;
        bool r = false;
        if (failAt == 0) { if (failCount > 0) { failCount--; r = true; } if (failCount == 0) failAt = -1; }
        else if (failAt > 0) failAt--;
        if (n > limit) r = true;
        if (r) { nFail++; errno = ENOMEM; }
        return r;
    }
    size_t liveBlocks() { return blocks; }
    size_t liveBytes() { return bytes; }
    uint64_t calls() { return nCalls; }
    uint64_t failuresInjected() { return nFail; }
    uint64_t foreignFrees() { return nForeign; }
    size_t sizeOf(void* p) { Guard g; auto it = table().find((char*)p); return it == table().end() ? SIZE_MAX : it->second.n; }
    bool inLiveBlock(const void* p, size_t n)
    {
        Guard g; char* q = (char*)p;
        auto it = table().upper_bound(q); if (it == table().begin()) return false;
        --it; return q + n <= it->first + it->second.n;
    }
    void failFrom(int64_t k, int64_t count) { Guard g; failAt = k; failCount = count; }
    void reset() { Guard g; failAt = -1; failCount = 0; skew = 0; }
}
extern "C"
{
    void* __wrap_malloc(size_t n)
    {
        if (heap::refuse(n)) return nullptr;
        size_t k = heap::skew; char* p = (char*)__real_malloc(n + k);
        if (p) heap::add(p += k, n, k);
        return p;
    }
    void __wrap_free(void* p) { if (p) p = (char*)p - heap::del(p); __real_free(p); }
    void* __wrap_calloc(size_t a, size_t b) { if (heap::refuse(b && a > SIZE_MAX / b ? SIZE_MAX : a * b)) return nullptr; void* p = __real_calloc(a, b); if (p) heap::add(p, a * b); return p; }
    void* __wrap_realloc(void* q, size_t n) { if (heap::refuse(n)) return nullptr; if (q) heap::del(q); void* p = __real_realloc(q, n); if (p) heap::add(p, n); return p; }
    int __wrap_posix_memalign(void** r, size_t a, size_t n) { if (heap::refuse(n)) return ENOMEM; int e = __real_posix_memalign(r, a, n); if (!e) heap::add(*r, n); return e; }
    void* __wrap_aligned_alloc(size_t a, size_t n) { if (heap::refuse(n)) return nullptr; void* p = __real_aligned_alloc(a, n); if (p) heap::add(p, n); return p; }
    void* __wrap_memalign(size_t a, size_t n) { if (heap::refuse(n)) return nullptr; void* p = __real_memalign(a, n); if (p) heap::add(p, n); return p; }
}
