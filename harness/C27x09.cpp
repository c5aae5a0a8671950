// BOUND: the random access index histories of C09, with invariant checking on
// SX-ONLY: one_2 one_5 grow
// SX-ONLY-THOROUGH: one_1 one_3 two_1 cap_5
#include "C27.h"
#include "C09.cpp"
