// C20: trivial_array behaves as a resizable array of values
#include "arrdrv.h"
#include "driver.h"
#include "large.h"
using namespace cont;
#define V(T, ...) case __LINE__ - base: Arr<T, __VA_ARGS__>::run(s, #T "," #__VA_ARGS__); break;
static void array(Src& s)
{
    using namespace ktl;
    cont::checks = CONTENT;
    constexpr int base = __LINE__ + 3;
    switch (s.draw(13))
    {
    V(int32_t, Acct<int32_t, 0>)
    V(uint8_t, Acct<uint8_t, 0>)
    V(uint64_t, std::allocator<uint64_t>)
    V(S3, Acct<S3, 1>)
    V(Big, Acct<Big, 0>)
    V(Def, type_mallocator<Def>)
    V(Wide, type_mallocator<Wide>)
    V(float, type_shared<float, cascading<linear_allocator<16384>>>)
    V(int16_t, type_shared<int16_t, fallback<linear_allocator<64>, mallocator>>)
    V(int32_t, type_shared<int32_t, leaf::R<0, leaf::ALL>>)
    V(Big, type_shared<Big, segragator<128, freelist<0, 128, leaf::R<1, leaf::OWNS>>, mallocator>>)
    V(uint8_t, type_allocator<uint8_t, leaf::H<2, leaf::OWNS>>)
    V(S3, type_shared<S3, freelist<0, 16384, leaf::R<3, 0>>>)
    default: break;
    }
}
static void huge(Src& s)
{
    using namespace ktl; using large::Vast;
    switch (s.draw(4))
    {
    case 0: large::run<trivial_array<uint8_t, Vast<uint8_t>>, uint8_t, false>(s, "trivial_array"); break;
    case 1: large::run<trivial_array<int32_t, Vast<int32_t>>, int32_t, false>(s, "trivial_array"); break;
    case 2: large::run<trivial_array<cont::Big, Vast<cont::Big>>, cont::Big, false>(s, "trivial_array"); break;
    default: large::run<trivial_array<uint16_t, Vast<uint16_t>>, uint16_t, false>(s, "trivial_array"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"array", array, 9, "non-trivial if the arrays were modified at least four times, a non-empty one was resized, and one was copied, moved or assigned"},
    {"huge", huge, 1, "several GiB of elements; non-trivial if there were more than 4096 elements and three operations"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); large::reset(); }
