// BOUND: the ranked index histories of C05, with invariant checking on
// SX-ONLY: his_3a erase_all mod_big
// SX-ONLY-THOROUGH: his_n his_u his_3b his2_n big_u
#include "C27.h"
#include "C05.cpp"
