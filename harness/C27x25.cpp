// BOUND: the erasures of C25, with invariant checking on
// SX-ONLY: e5 load2
// SX-ONLY-THOROUGH: e1 e2 e3 e4 e6 twice1 drain3 load5
#include "C27.h"
#include "C25.cpp"
