// BOUND: ten containers of 1-4 indices covering every index kind, with stateful key extractors, comparisons, hashes and equalities in every state; 0-4 elements with every key pattern, bucket-collision pattern and every relative order of node addresses; one preceding erasure/relocation/modification; copy construction, allocator-extended copy (equal and unequal), copy assignment (onto empty, non-empty, self; propagating or not), followed by one change to either side
#include "C15y.h"
SX_ENTRY(k1){ run<cfg<8>::D1,8>(2,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k2){ hx_buckets(2); KN=2; run<cfg<1>::D2,1>(2,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k3){ KN=2; run<cfg<1>::D3,1>(2,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k4){ hx_buckets(2); KN=2; run<cfg<8>::D4,8>(2,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k5){ KN=2; run<cfg<9>::D5,9>(2,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k6){ hx_buckets(2); KN=4; run<cfg<0>::D6,0>(3,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k7){ run<cfg<1>::D7,1>(3,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k8){ run<cfg<9>::D8,9>(3,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(k9){ KN=3; run<cfg<0>::D9,0>(3,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
SX_ENTRY(e1){ run<cfg<0>::D1,0>(4,0,CC|AS); }
SX_ENTRY(e2){ hx_buckets(3); run<cfg<0>::D2,0>(4,0,CC|AS); }
SX_ENTRY(zero){ KN=1; run<cfg<0>::D0,0>(0,0,CC|CA|AS|SELF|EMPTYAS,false,true); }
