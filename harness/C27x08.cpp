// BOUND: the sequenced index histories of C08, with invariant checking on
// SX-ONLY: one_2 one_5
// SX-ONLY-THOROUGH: one_1 one_3 two_1 two_2
#include "C27.h"
#include "C08.cpp"
