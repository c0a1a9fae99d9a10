#include "c18.h"
#include "zoo_types.h"
STL(shared<fallback<lin<512>, mal>>)
STL(dstack<4194304, 0>)
