// BOUND: single-index containers of every kind, up to 5 elements (6 thorough) with every key-order, equality and bucket-collision pattern, every position, range and key; two successive erasures of any kind; draining of up to 4 elements in every order; 14-element structured loads with 2-3 erasures at every position
#include "C25.h"
SX_ENTRY(e1){ KN=5; run<E1>(5,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY(e2){ KN=5; run<E2>(5,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY(e3){ hx_buckets(3); KN=3; run<E3>(5,1,POS|KEY|CLEAR); }
SX_ENTRY(e3r){ hx_buckets(2); KN=2; run<E3>(4,1,RANGE|KEY); }
SX_ENTRY(e4){ hx_buckets(4); KN=4; run<E4>(4,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY(e5){ KN=4; run<E5>(4,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY(e6){ KN=1; BN=1; run<E6>(5,2,ALL&~KEY); }
SX_ENTRY(e7){ KN=1; BN=1; run<E7>(5,2,ALL&~KEY); }
SX_ENTRY(twice1){ KN=4; run<E1>(4,2,POS|KEY|RANGE); }
SX_ENTRY(twice3){ hx_buckets(2); KN=2; run<E3>(4,2,POS|KEY); }
SX_ENTRY(drain1){ KN=2; drain<E1>(4); }
SX_ENTRY(drain3){ hx_buckets(2); KN=2; drain<E3>(4); }
SX_ENTRY(load2){ loaded<E2>(14,2,POS); }
SX_ENTRY(load5){ loaded<E5>(14,2,POS); }
SX_ENTRY(load2k){ KN=15; loaded<E2>(14,2,KEY); }
SX_ENTRY_THOROUGH(e16){ KN=6; run<E1>(6,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY_THOROUGH(e36){ hx_buckets(3); KN=3; run<E3>(6,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY_THOROUGH(e56){ KN=5; run<E5>(5,1,POS|RANGE|KEY|CLEAR); }
SX_ENTRY_THOROUGH(load2_3){ loaded<E2>(15,3,POS); }
SX_ENTRY_THOROUGH(load1_3){ loaded<E5>(15,3,POS); }
SX_ENTRY_THOROUGH(drain15){ KN=3; drain<E1>(5); }
SX_ENTRY_THOROUGH(drain35){ hx_buckets(2); KN=2; drain<E3>(5); }
