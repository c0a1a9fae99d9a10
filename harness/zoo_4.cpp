#include "zoo_types.h"
ZOO(2, segragator<64, ro<0>, ro<1>>)
ZOO(2, segragator<64, segragator<16, rom<0>, romc<1>>, rom<2>>)
ZOO(2, segragator<32, freelist<0, 32, r<0>>, fallback<lin<256>, mal>>)
ZOO(2, segragator<48, lin<256>, roc<0>>)
ZOO(2, segragator_builder_min<freelist<0, 16, r<0>>, thr<16>, freelist<16, 32, r<1>>, thr<32>, freelist<32, 64, mal>, thr<64>, cascading<lin<1024>>, thr<256>, r<2>>)
ZOO(2, segragator_builder_max<freelist<0, 16, r<0>>, thr<16>, freelist<16, 32, r<1>>, thr<32>, freelist<32, 64, mal>, thr<64>, cascading<lin<1024>>, thr<256>, r<2>>)
ZOO(3, doverflow<r<0>>)
ZOO(2, doverflow<lin<1024>>)
ZOO(2, doverflow<fallback<lin<512>, mal>>)
ZOO(2, freelist<0, 64, doverflow<ro<0>>>)
ZOO(2, doverflow<freelist<0, 256, romc<0>>>)
ZOO(1, doverflow<cascading<lin<512>>>)
