// BOUND: as above, containers with hashed indices
#include "C16.h"
SX_ENTRY(m2){ hx_buckets(2); KN=2; run<cfg<4>::D2,4>(2,2,ALLK); }
SX_ENTRY(m4){ hx_buckets(2); KN=2; run<cfg<0>::D4,0>(2,1,ALLK); }
SX_ENTRY(m6){ hx_buckets(2); KN=4; run<cfg<0>::D6,0>(2,2,ALLK); }
SX_ENTRY(m0){ hx_buckets(1); KN=2; run<cfg<2>::D0,2>(2,1,ALLK); }
SX_ENTRY_THOROUGH(h2){ hx_buckets(2); KN=2; run<cfg<0>::D2,0>(3,1,ALLK,4,false); }
SX_ENTRY_THOROUGH(h4){ hx_buckets(2); KN=2; run<cfg<6>::D4,6>(3,1,ALLK,2,false); }
SX_ENTRY_THOROUGH(h6){ hx_buckets(3); KN=3; run<cfg<6>::D6,6>(4,1,ALLK,2,false); }
