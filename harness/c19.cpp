// C19: trivial_vector behaves as a sequence like std::vector
#include "vecdrv.h"
#include "driver.h"
#include "scale.h"
#include "large.h"
using namespace cont;
#define V(T, ...) case __LINE__ - base: Vec<T, __VA_ARGS__>::run(s, #T "," #__VA_ARGS__); break;
static void vector(Src& s)
{
    using namespace ktl;
    cont::checks = CONTENT;
    constexpr int base = __LINE__ + 3;
    switch (s.draw(14))
    {
    V(int32_t, Acct<int32_t, 0>)
    V(uint8_t, Acct<uint8_t, 0>)
    V(uint64_t, std::allocator<uint64_t>)
    V(S3, Acct<S3, 1>)
    V(Big, Acct<Big, 0>)
    V(Def, type_mallocator<Def>)
    V(Wide, type_mallocator<Wide>)
    V(float, type_shared<float, cascading<linear_allocator<16384>>>)
    V(int16_t, type_shared<int16_t, fallback<linear_allocator<64>, mallocator>>)
    V(int32_t, type_shared<int32_t, leaf::R<0, leaf::ALL>>)
    V(Big, type_shared<Big, segragator<128, freelist<0, 128, leaf::R<1, leaf::OWNS>>, mallocator>>)
    V(uint8_t, type_allocator<uint8_t, leaf::H<2, leaf::OWNS>>)
    V(S3, type_shared<S3, freelist<0, 16384, leaf::R<3, 0>>>)
    V(const char*, std::allocator<const char*>)
    default: break;
    }
}
static void huge(Src& s)
{
    using namespace ktl; using large::Vast;
    switch (s.draw(4))
    {
    case 0: large::run<trivial_vector<uint8_t, Vast<uint8_t>>, uint8_t, true>(s, "trivial_vector"); break;
    case 1: large::run<trivial_vector<int32_t, Vast<int32_t>>, int32_t, true>(s, "trivial_vector"); break;
    case 2: large::run<trivial_vector<cont::Big, Vast<cont::Big>>, cont::Big, true>(s, "trivial_vector"); break;
    default: large::run<trivial_vector<uint16_t, Vast<uint16_t>>, uint16_t, true>(s, "trivial_vector"); break;
    }
}
static void many(Src& s)
{
    using namespace ktl; cont::checks = CONTENT | ALLOC;
    switch (s.draw(4))
    {
    case 0: scale::vector<int32_t, Acct<int32_t, 0>>(s, "trivial_vector<int32_t>"); break;
    case 1: scale::vector<uint8_t, Acct<uint8_t, 1>>(s, "trivial_vector<uint8_t>"); break;
    case 2: scale::vector<Big, Acct<Big, 0>>(s, "trivial_vector<Big>"); break;
    default: scale::vector<uint16_t, type_shared<uint16_t, fallback<linear_allocator<1024>, mallocator>>>(s, "trivial_vector<uint16_t> over fallback"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"vector", vector, 500, "non-trivial if the vectors were modified at least four times, a non-empty one grew, and one was copied, moved or assigned"},
    {"huge", huge, 50, "several GiB of elements; non-trivial if there were more than 4096 elements and three operations"},
    {"many", many, 2, "thousands of elements; non-trivial if there were at least 500"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); large::reset(); }
