#include "c18.h"
#include "zoo_types.h"
STL(fallback<ho<0>, shared<h<1>>>)
STL(segragator<48, shared<freelist<0, 48, cascading<roc<2>>>>, shared<segragator<256, cascading<lin<8192>>, homc<3>>>>)
