// BOUND: the rehashing histories of C07, with invariant checking on
// SX-ONLY: run_n run_3
// SX-ONLY-THOROUGH: run_u run_n3 two_u growth_n
#include "C27.h"
#include "C07.cpp"
