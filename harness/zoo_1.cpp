#include "zoo_types.h"
ZOO(4, mal)
ZOO(1, nul)
ZOO(3, lin<256>)
ZOO(2, lin<100>)
ZOO(2, lin<4096>)
ZOO(3, dstack<512, 0>)
ZOO(1, rom<0>)
ZOO(1, hoc<0>)
ZOO(2, freelist<0, 16, r<0>>)
ZOO(2, freelist<8, 64, mal>)
ZOO(2, freelist<0, 128, lin<1024>>)
ZOO(2, freelist<15, 48, hom<0>>)
ZOO(2, freelist<0, 64, cascading<lin<256>>>)
ZOO(2, freelist<16, 64, roc<0>>)
