// BOUND: hashed indices (unique; non-unique with a sequenced index) of 4-9 elements with load limits 0.02, 0.04 and 1 and bucket arrays of 53 to 769; after move construction and assignment, swap (of containers and indices), copy construction and assignment, and merge, both containers grow by 6 elements, or up to 56
#include "C07m.h"
SX_ENTRY(moved_u){ hm::run<hm::U>(); }
SX_ENTRY(moved_n){ hm::run<hm::N>(); }
