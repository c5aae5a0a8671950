// BOUND: the merges and splices of C18, with invariant checking on
// SX-ONLY: t1 t3 s3
// SX-ONLY-THOROUGH: t2 t4 t5 s1 s2 s5
#include "C27.h"
#include "C18t.cpp"
