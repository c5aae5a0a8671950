// BOUND: histories of 2 (one index of each kind: 3) operations out of 13 kinds (insertion, erasure, rehash/reserve/shrink, copy and move assignment, swap, copy and move construction, splice/merge, node extraction/insertion/handle assignment, list assignment, clear, range insertion) over two containers with equal or unequal allocators and temporaries; every propagation setting used; up to 2 elements per container initially
#include "C17.h"
SX_ENTRY(a1){ KN=2; run<cfg<0>::D1,0>(2,1,2); }
SX_ENTRY(a2){ hx_buckets(1); KN=1; run<cfg<0>::D2,0>(2,1,2); }
SX_ENTRY(a3){ KN=1; run<cfg<7>::D3,7>(2,1,2); }
SX_ENTRY(a4){ hx_buckets(1); KN=1; run<cfg<4>::D4,4>(2,1,2); }
SX_ENTRY(a6){ hx_buckets(2); KN=2; run<cfg<1>::D6,1>(2,1,2); }
SX_ENTRY(a7){ KN=1; run<cfg<0>::D7,0>(1,1,3); }
SX_ENTRY_THOROUGH(t2){ hx_buckets(1); KN=1; run<cfg<0>::D2,0>(1,1,3); }
SX_ENTRY_THOROUGH(t4){ hx_buckets(1); KN=1; run<cfg<3>::D4,3>(1,1,3); }
SX_ENTRY_THOROUGH(t6){ hx_buckets(1); KN=2; run<cfg<7>::D6,7>(1,1,3); }
