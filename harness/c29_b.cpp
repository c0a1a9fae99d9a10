#include "c29.h"
namespace fw
{
    void* otherAllocate(int tag, size_t n) { if (tag) return ktl::global<Rec<1>>().allocate(n); return ktl::global<Rec<0>>().allocate(n); }
    void otherDeallocate(int tag, void* p, size_t n) { if (tag) ktl::global<Rec<1>>().deallocate(p, n); else ktl::global<Rec<0>>().deallocate(p, n); }
    bool otherOwns(int tag, void* p) { return tag ? ktl::global<Rec<1>>().owns(p) : ktl::global<Rec<0>>().owns(p); }
    void otherSet(int tag, int id) { if (tag) ktl::global<Rec<1>>().set_allocator(Rec<1>(id)); else ktl::global<Rec<0>>().set_allocator(Rec<0>(id)); }
}
