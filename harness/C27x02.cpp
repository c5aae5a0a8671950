// BOUND: the ordered insertions, erasures and changes of C02, with invariant checking on
// SX-ONLY: ins_n hint_u erase_n big_u change_3
// SX-ONLY-THOROUGH: ins_u ins_r hint_n hint2_n erase_u erase_r range_n big_n change_n change_u
#include "C27.h"
#include "C02.cpp"
