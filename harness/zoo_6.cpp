#include "zoo_types.h"
// construct / destroy offered by one side only, by neither, by both
ZOO(2, fallback<roC<0>, roD<1>>)
ZOO(2, fallback<ro<0>, roC<1>>)
ZOO(2, fallback<roD<0>, rc<1>>)
ZOO(2, fallback<lin<64>, rc<0>>)
ZOO(2, segragator<40, roC<0>, roD<1>>)
ZOO(2, segragator<40, lin<256>, rc<0>>)
ZOO(2, segragator<64, roc<0>, mal>)
ZOO(2, segragator<64, romc<0>, romc<1>>)
ZOO(2, cascading<roC<0>>)
ZOO(2, cascading<fallback<roc<0>, roD<1>>>)
ZOO(2, freelist<0, 64, roC<0>>)
ZOO(2, doverflow<roD<0>>)
ZOO(2, shared<fallback<roC<0>, roc<1>>>)
ZOO(2, fallback<segragator<40, roc<0>, ro<1>>, segragator<64, ro<2>, roc<3>>>)
ZOO(2, segragator<40, freelist<0, 40, r<0>>, doverflow<mal>>)
ZOO(2, segragator<64, rc<0>, romc<1>>)
