#include "zoo_types.h"
ZOO(3, cascading<lin<256>>)
ZOO(3, cascading<ro<0>>)
ZOO(2, cascading<rom<0>>)
ZOO(2, cascading<roc<0>>)
ZOO(2, cascading<fallback<lin<64>, ro<0>>>)
ZOO(2, cascading<freelist<0, 64, ro<0>>>)
ZOO(2, cascading<segragator<32, rom<0>, rom<1>>>)
ZOO(2, cascading<doverflow<rom<0>>>)
ZOO(1, cascading<cascading<rom<0>>>)
ZOO(2, cascading<segragator<32, freelist<0, 32, ro<0>>, lin<512>>>)
