#include "c18.h"
#include "zoo_types.h"
STL(dref<fallback<lin<1024>, r<1>>, 0>)
STL(dglobal<fallback<lin<1024>, mal>>)
