// BOUND: as above, other configurations
#include "C17.h"
SX_ENTRY(b8){ KN=1; run<cfg<2>::D8,2>(1,1,3); }
SX_ENTRY(b9){ KN=2; run<cfg<6>::D9,6>(1,1,2); }
SX_ENTRY(b0){ hx_buckets(1); KN=1; run<cfg<8>::D0,8>(1,1,2); }
SX_ENTRY(b5){ KN=2; run<cfg<5>::D5,5>(1,1,2); }
SX_ENTRY(b6){ hx_buckets(1); KN=1; run<cfg<0>::D6,0>(1,1,3); }
SX_ENTRY_THOROUGH(t3){ KN=1; run<cfg<0>::D3,0>(1,1,3); }
SX_ENTRY_THOROUGH(t9){ KN=2; run<cfg<0>::D9,0>(2,1,3); }
