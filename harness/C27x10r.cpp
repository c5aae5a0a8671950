// BOUND: the rearrangements of random access indices of C10, with invariant checking on
// SX-ONLY: reorder_2 sort_3 erasing_2 splice_3
// SX-ONLY-THOROUGH: reorder_1 reorder_3 reorder_5 merging_2 erasing_3 merging_3 splice_1 splice_2
#include "C27.h"
#include "C10r.cpp"
