// BOUND: the node transfers of C18, with invariant checking on
// SX-ONLY: n3b q1
// SX-ONLY-THOROUGH: n1 n2 n3 n4 n5 q2 q3
#include "C27.h"
#include "C18.cpp"
