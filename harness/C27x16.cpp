// BOUND: the moves and swaps of C16, with invariant checking on
// SX-ONLY: m7
// SX-ONLY-THOROUGH: m1 m3 m5 m8 m9
#include "C27.h"
#include "C16.cpp"
