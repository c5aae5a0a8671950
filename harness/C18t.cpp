// BOUND: merge and transfer splice (whole, one element, range) between every pair of index kinds of node-compatible containers with up to 3 elements each, every key and collision pattern, every position and range; the same container on both sides
#include "C18s.h"
SX_ENTRY(t1){ hx_buckets(2); KN=2; transfer<P1,0,P1b,1>(2,2); }
SX_ENTRY(t1b){ hx_buckets(2); KN=2; transfer<P1b,1,P1,0>(2,2); }
SX_ENTRY(t2){ hx_buckets(2); KN=2; transfer<P2,1,P2b,0>(2,2); }
SX_ENTRY(t2b){ hx_buckets(2); KN=2; transfer<P2b,0,P2,1>(2,2); }
SX_ENTRY(t2c){ hx_buckets(3); BN=1; transfer<P2,0,P2,1>(3,3); }
SX_ENTRY(t3){ KN=3; BN=1; transfer<P3,0,P3b,2>(2,3); }
SX_ENTRY(t3b){ KN=2; transfer<P3,2,P3b,1>(2,2); }
SX_ENTRY(t3c){ KN=2; transfer<P3b,1,P3,0>(2,2); }
SX_ENTRY(t4){ KN=2; BN=2; hx_buckets(1); transfer<P4,0,P4b,1>(2,2); }
SX_ENTRY(t4b){ KN=2; BN=2; hx_buckets(1); transfer<P4,2,P4b,0>(2,2); }
SX_ENTRY(t5){ KN=3; BN=2; hx_buckets(1); transfer<P5,0,P5,2>(2,3); }
SX_ENTRY(t5b){ KN=3; BN=2; hx_buckets(1); transfer<P5,2,P5,1>(2,2); }
SX_ENTRY(q1){ KN=1; BN=1; transfer<Q1,0,Q1,0>(3,3); }
SX_ENTRY(q2){ KN=1; BN=1; transfer<Q2,0,Q2,0>(3,3); }
SX_ENTRY(q3){ KN=2; BN=1; hx_buckets(2); transfer<Q3,0,Q3,0>(3,3); }
SX_ENTRY(q4){ KN=2; BN=1; transfer<Q4,0,Q4,0>(3,3); }
SX_ENTRY(s1){ hx_buckets(2); selfmerge<P1,0,1>(3); }
SX_ENTRY(s2){ hx_buckets(2); selfmerge<P5,1,2>(3); }
SX_ENTRY(s3){ BN=1; selfsplice<P3,0,2>(4); }
SX_ENTRY(s4){ BN=1; selfsplice<P3,2,1>(3); }
SX_ENTRY(s5){ BN=2; hx_buckets(2); selfsplice<P2,1,0>(3); }
SX_ENTRY(s6){ KN=2; BN=2; hx_buckets(2); selfsplice<P4,0,2>(3); }
SX_ENTRY(s7){ KN=3; BN=1; selfsplice<P3,0,0>(4); }
SX_ENTRY_THOROUGH(u1){ hx_buckets(3); KN=3; transfer<P1,0,P1b,1>(2,3); }
SX_ENTRY_THOROUGH(u3){ KN=3; BN=1; transfer<P3,0,P3b,2>(3,3); }
SX_ENTRY_THOROUGH(u5){ KN=3; BN=2; hx_buckets(2); transfer<P5,0,P5,2>(3,3); }
SX_ENTRY_THOROUGH(u4){ KN=3; BN=2; hx_buckets(2); transfer<P4,2,P4b,0>(2,3); }
SX_ENTRY_THOROUGH(v3){ BN=1; selfsplice<P3,0,2>(5); }
SX_ENTRY_THOROUGH(v6){ KN=3; BN=2; hx_buckets(2); selfsplice<P4,0,2>(4); }
