// BOUND: iterator histories of C19, with safe mode on
// SX-ONLY: w1 empty1 empty2
// SX-ONLY-THOROUGH: w3 v1 v2 v3 v5 w2 w5
#include "C24sm.h"
#include "C19.cpp"
