#include "c18.h"
#include "zoo_types.h"
STL(shared<threaded<doverflow<cascading<lin<65536>>>>, std::atomic>)
STL(shared<doverflow<roc<0>>>)
