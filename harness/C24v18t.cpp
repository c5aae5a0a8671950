// BOUND: merges and splices of C18, with safe mode on
// SX-ONLY: t1b t2b t3b t4b s1 s2 s4 s6
// SX-ONLY-THOROUGH: t5b t1 t2 t2c t3 t4 t5 q1 q2 q3 q4 s3 s5 s7
#include "C24sm.h"
#include "C18t.cpp"
