// BOUND: containers of 3-4 indices covering every kind, up to 4 elements with every key and collision pattern, one or two successive erasures of every kind through any index; draining of 3 elements through any indices in any order
#include "C25.h"
SX_ENTRY(m1){ KN=3; run<M1>(3,1,ALL); }
SX_ENTRY(m2){ hx_buckets(2); KN=2; run<M2>(3,1,ALL); }
SX_ENTRY(m3){ hx_buckets(3); KN=3; run<M3>(3,1,ALL); }
SX_ENTRY(m1_2){ KN=2; BN=1; run<M1>(3,2,ALL,false); }
SX_ENTRY(m2_2){ hx_buckets(2); KN=2; BN=1; run<M2>(3,2,ALL,false); }
SX_ENTRY(d1){ KN=2; BN=1; drain<M1>(3); }
SX_ENTRY(d2){ hx_buckets(2); KN=2; BN=1; drain<M2>(3); }
SX_ENTRY(d3){ hx_buckets(1); KN=3; BN=1; drain<M3>(3); }
SX_ENTRY_THOROUGH(m14){ KN=3; run<M1>(4,1,ALL); }
SX_ENTRY_THOROUGH(m24){ hx_buckets(3); KN=3; run<M2>(4,1,ALL); }
SX_ENTRY_THOROUGH(m34){ hx_buckets(2); KN=4; run<M3>(4,1,ALL); }
SX_ENTRY_THOROUGH(m3_2){ hx_buckets(1); KN=3; run<M3>(3,2,ALL); }
