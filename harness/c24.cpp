// C24: containers return to their allocator exactly what they took
#include "vecdrv.h"
#include "arrdrv.h"
#include "heapdrv.h"
#include "driver.h"
#include "scale.h"
using namespace cont;
#define V(...) case __LINE__ - base: __VA_ARGS__::run(s, #__VA_ARGS__); break;
static void storage(Src& s)
{
    using namespace ktl;
    cont::checks = ALLOC;
    constexpr int base = __LINE__ + 3;
    switch (s.draw(12))
    {
    V(Vec<int32_t, Acct<int32_t, 0>>)
    V(Vec<Big, Acct<Big, 1>>)
    V(Vec<S3, type_shared<S3, leaf::R<0, leaf::OWNS>>>)
    V(Vec<uint64_t, type_mallocator<uint64_t>>)
    V(Arr<int32_t, Acct<int32_t, 0>>)
    V(Arr<Big, Acct<Big, 1>>)
    V(Arr<S3, type_shared<S3, leaf::R<0, 0>>>)
    V(Heap<Plain, Less, Acct<Plain, 0>>)
    V(Heap<Copyable, Flex, Acct<Copyable, 1>>)
    V(Heap<MoveOnly, Greater, Acct<MoveOnly, 0>>)
    V(Heap<Copyable, Less, type_shared<Copyable, leaf::R<1, leaf::ALL>>>)
    V(Heap<Plain, Greater, type_shared<Plain, freelist<0, 16384, leaf::R<2, leaf::OWNS>>>>)
    default: break;
    }
    leaf::runHooks(); leaf::checkErrors();
    CHECK(leaf::liveBlocks() == 0, "%zu blocks were never deallocated", leaf::liveBlocks());
    CHECK(heap::liveBlocks() == drv::g_heapBase, "%zd heap blocks leaked", (ssize_t)heap::liveBlocks() - (ssize_t)drv::g_heapBase);
    CHECK(heap::foreignFrees() == 0, "free() of a pointer that is not a live heap block");
}
static void many(Src& s)
{
    using namespace ktl; cont::checks = CONTENT | ALLOC;
    switch (s.draw(4))
    {
    case 0: scale::vector<int32_t, Acct<int32_t, 0>>(s, "trivial_vector<int32_t>"); break;
    case 1: scale::vector<uint8_t, Acct<uint8_t, 1>>(s, "trivial_vector<uint8_t>"); break;
    case 2: scale::vector<Big, Acct<Big, 0>>(s, "trivial_vector<Big>"); break;
    default: scale::vector<uint16_t, type_shared<uint16_t, fallback<linear_allocator<1024>, mallocator>>>(s, "trivial_vector<uint16_t> over fallback"); break;
    }
}
static void manyHeap(Src& s)
{
    using namespace ktl; cont::checks = CONTENT | ALLOC | LIFE;
    switch (s.draw(4))
    {
    case 0: scale::heap<Plain, Less, Acct<Plain, 0>>(s, "binary_heap<Plain,Less>"); break;
    case 1: scale::heap<Copyable, Flex, Acct<Copyable, 1>>(s, "binary_heap<Copyable,Flex>"); break;
    case 2: scale::heap<MoveOnly, Greater, Acct<MoveOnly, 0>>(s, "binary_heap<MoveOnly,Greater>"); break;
    default: scale::heap<Plain, Flex, type_mallocator<Plain>>(s, "binary_heap<Plain,Flex>"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"storage", storage, 600, "non-trivial if containers were modified, grown or resized, and copied, moved or assigned (the rules of C19, C20 and C22)"},
    {"many", many, 1, "thousands of elements; non-trivial if there were at least 500"},
    {"manyHeap", manyHeap, 1, "thousands of elements; non-trivial if there were at least 300, some of which were popped"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); }
