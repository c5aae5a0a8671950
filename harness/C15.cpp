// BOUND: ten containers of 1-4 indices covering every index kind, with stateful key extractors, comparisons, hashes and equalities in every state; 0-4 elements with every key pattern, bucket-collision pattern and (in the arena entries) every relative order of node addresses; one preceding erasure/relocation/modification; copy construction, allocator-extended copy (equal and unequal), copy assignment (onto empty, non-empty, self; propagating or not), followed by one change to either side
#include "C15y.h"
SX_ENTRY(a1){ run<cfg<0>::D1,0>(3,4,CC,true); }
SX_ENTRY(a2){ hx_buckets(2); KN=2; run<cfg<0>::D2,0>(3,4,CC,true); }
SX_ENTRY(a3){ run<cfg<0>::D3,0>(3,3,CC,true); }
SX_ENTRY(a4){ KN=2; hx_buckets(2); run<cfg<0>::D4,0>(3,3,CC,true); }
SX_ENTRY(a5){ run<cfg<0>::D5,0>(3,2,CC,true); }
SX_ENTRY(a8){ run<cfg<0>::D8,0>(4,1,CC,true); }
SX_ENTRY(a7){ run<cfg<0>::D7,0>(4,1,CC,true); }
SX_ENTRY(a0){ KN=2; hx_buckets(1); run<cfg<0>::D0,0>(2,3,CC,true); }
