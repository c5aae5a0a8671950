// BOUND: the histories of C01, with invariant checking on
// SX-ONLY: h3
// SX-ONLY-THOROUGH: h1 h2 h4 g1 g2 g4
#include "C27.h"
#include "C01.cpp"
