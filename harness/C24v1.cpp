// BOUND: the histories of C01 on 4-index containers, with safe mode on
// SX-ONLY: g1
// SX-ONLY-THOROUGH: g2 g4 h1 h2 h3 h4 g3
#include "C24sm.h"
#include "C01.cpp"
