// C23: binary_heap constructs and destroys each element exactly once
#include "heapdrv.h"
#include "driver.h"
#include "scale.h"
using namespace cont;
#define V(T, C, ...) case __LINE__ - base: Heap<T, C, __VA_ARGS__>::run(s, #T "," #C "," #__VA_ARGS__); break;
static void lifetimes(Src& s)
{
    using namespace ktl;
    cont::checks = LIFE;
    constexpr int base = __LINE__ + 3;
    switch (s.draw(9))
    {
    V(Copyable, Less, Acct<Copyable, 0>)
    V(Copyable, Flex, Acct<Copyable, 1>)
    V(MoveOnly, Less, Acct<MoveOnly, 0>)
    V(MoveOnly, Flex, Acct<MoveOnly, 1>)
    V(Copyable, Greater, type_mallocator<Copyable>)
    V(MoveOnly, Less, std::allocator<MoveOnly>)
    V(Copyable, Less, type_shared<Copyable, leaf::R<0, leaf::ALL>>)
    V(MoveOnly, Greater, type_shared<MoveOnly, freelist<0, 16384, leaf::R<1, leaf::CD>>>)
    V(Copyable, Greater, type_shared<Copyable, fallback<linear_allocator<128>, leaf::R<2, leaf::OWNS | leaf::CD>>>)
    default: break;
    }
}
static void many(Src& s)
{
    using namespace ktl; cont::checks = CONTENT | ALLOC | LIFE;
    switch (s.draw(4))
    {
    case 0: scale::heap<Plain, Less, Acct<Plain, 0>>(s, "binary_heap<Plain,Less>"); break;
    case 1: scale::heap<Copyable, Flex, Acct<Copyable, 1>>(s, "binary_heap<Copyable,Flex>"); break;
    case 2: scale::heap<MoveOnly, Greater, Acct<MoveOnly, 0>>(s, "binary_heap<MoveOnly,Greater>"); break;
    default: scale::heap<Plain, Flex, type_mallocator<Plain>>(s, "binary_heap<Plain,Flex>"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"lifetimes", lifetimes, 400, "non-trivial if at least four elements were inserted and two popped, a non-empty heap grew, and one was copied, moved or assigned"},
    {"many", many, 1, "thousands of elements; non-trivial if there were at least 300, some of which were popped"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); }
