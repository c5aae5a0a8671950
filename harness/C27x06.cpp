// BOUND: the hashed index histories of C06, with invariant checking on
// SX-ONLY: one_3 groups
// SX-ONLY-THOROUGH: ins_u ins_n one_n one_u one_3b one_4 two_n
#include "C27.h"
#include "C06.cpp"
