// BOUND: node transfers of C18, with safe mode on
// SX-ONLY: n2 n3b q1 q2
// SX-ONLY-THOROUGH: n1 n4 n1b n3 n5 q3 q4
#include "C24sm.h"
#include "C18.cpp"
