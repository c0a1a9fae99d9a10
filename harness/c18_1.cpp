#include "c18.h"
#include "zoo_types.h"
STL(mal)
STL(shared<cascading<lin<65536>>>)
