// BOUND: the replacements of C11, with invariant checking on
// SX-ONLY: group4 m5 m7
// SX-ONLY-THOROUGH: group5 hash_n m6 m8 m9
#include "C27.h"
#include "C11.cpp"
