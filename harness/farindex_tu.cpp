// The writer of stored indexes with a chosen distance from which nodes are
// written with long offsets (16 GB in the program), such that small indexes
// have them as well. mwsh.hpp declares the distance.
#include "mws/index/memsector.h"
unsigned long long gFarDistance = 1ull << 32;
#undef MEMSECTOR_LONG_OFF_START
#define MEMSECTOR_LONG_OFF_START gFarDistance
#include "mws/index/TmpIndex.cpp"
