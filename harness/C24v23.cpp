// BOUND: restored iterators of C23, with safe mode on
// SX-ONLY: i_a i_b i_b0 i_c two again versions construct
#include "C24sm.h"
#include "C23i.cpp"
