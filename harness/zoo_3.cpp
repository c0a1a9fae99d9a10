#include "zoo_types.h"
ZOO(3, fallback<lin<128>, mal>)
ZOO(3, fallback<ro<0>, r<1>>)
ZOO(2, fallback<rom<0>, rom<1>>)
ZOO(1, fallback<ro<0>, nul>)
ZOO(1, fallback<nul, ro<0>>)
ZOO(2, fallback<fallback<roc<0>, ro<1>>, r<2>>)
ZOO(2, fallback<ro<0>, fallback<roc<1>, rc<2>>>)
ZOO(2, fallback<freelist<16, 64, ro<0>>, r<1>>)
ZOO(2, fallback<freelist<0, 32, lin<256>>, freelist<0, 64, mal>>)
ZOO(2, fallback<cascading<rom<0>>, r<1>>)
ZOO(2, fallback<dstack<256, 1>, cascading<lin<128>>>)
ZOO(2, fallback_builder_min<lin<64>, ro<0>, roc<1>, rom<2>, r<3>>)
ZOO(2, fallback_builder_max<lin<64>, ro<0>, roc<1>, rom<2>, r<3>>)
