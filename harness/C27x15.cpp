// BOUND: the copies of C15, with invariant checking on
// SX-ONLY: a8
// SX-ONLY-THOROUGH: a1 a2 a3 a4 a5 a7
#include "C27.h"
#include "C15.cpp"
