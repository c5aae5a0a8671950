// BOUND: the modifications of C12, with invariant checking on
// SX-ONLY: group4 m7
// SX-ONLY-THOROUGH: group5 hash_n m6 m8 m9 m10
#include "C27.h"
#include "C12.cpp"
