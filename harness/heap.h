// Interposition of the heap functions called from the headers under test (linked with --wrap=malloc,
// --wrap=free, ...): balance of live blocks and injection of allocation failures. Only calls compiled
// into the harness objects are redirected, so operator new and the C++ runtime are not affected.
#pragma once
#include <cstddef>
#include <cstdint>

namespace heap
{
    // total number / bytes of live blocks obtained through malloc & co. by the code under test
    size_t liveBlocks();
    size_t liveBytes();
    uint64_t calls();                 // successful + failed allocation calls so far
    // size of the live block starting at p (SIZE_MAX if none)
    size_t sizeOf(void* p);
    // block containing p
    bool inLiveBlock(const void* p, size_t n);
    void failFrom(int64_t k, int64_t count);  // the k-th (0-based) .. allocation calls from now on fail, `count` of them; k<0: none
    uint64_t failuresInjected();
    uint64_t foreignFrees();          // frees of pointers that are not live blocks (of tracked kinds)
    void reset();                     // forget fault plan (not the live blocks)
    extern size_t skew;               // malloc() results are this many bytes past a 16-byte boundary (a platform with weaker alignment)
    extern size_t limit;              // requests above this many bytes are refused (stand-in for the system's limit)
}
