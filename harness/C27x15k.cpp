// BOUND: the copies of C15, with invariant checking on
// SX-ONLY: k1 k2
// SX-ONLY-THOROUGH: k3 k4 k5
#include "C27.h"
#include "C15k.cpp"
