#include "c18.h"
#include "zoo_types.h"
STL(shared<segragator<64, freelist<0, 64, cascading<lin<4096>>>, mal>>)
STL(shared<cascading<freelist<0, 65536, ro<0>>>>)
