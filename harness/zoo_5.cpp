#include "zoo_types.h"
ZOO(2, shared<rom<0>>)
ZOO(2, shared<fallback<lin<256>, roc<0>>>)
ZOO(2, shared<cascading<roc<0>>>)
ZOO(2, atomic_shared<threaded<freelist<0, 64, rom<0>>>>)
ZOO(1, threaded<fallback<lin<128>, mal>>)
ZOO(2, dref<cascading<rom<0>>, 0>)
ZOO(2, dref<freelist<0, 64, roc<0>>, 1>)
ZOO(2, dglobal<cascading<lin<512>>>)
ZOO(2, dglobal<freelist<0, 128, homc<0>>>)
ZOO(2, shared<doverflow<freelist<0, 256, mal>>>)
ZOO(1, shared<segragator<32, shared<rom<0>>, cascading<shared<rom<1>>>>>)
ZOO(1, fallback<shared<lin<128>>, shared<freelist<0, 64, mal>>>)
ZOO(1, segragator<64, dref<lin<512>, 2>, dref<cascading<roc<0>>, 3>>)
ZOO(1, shared<hom<0>>)
ZOO(1, freelist<0, 64, ho<0>>)
ZOO(1, fallback<ho<0>, h<1>>)
ZOO(1, segragator<40, shared<hom<0>>, hom<1>>)
