// BOUND: merge and splice (whole, one element, range) between containers of 1-3 indices of every kind with up to 3 elements each, equal and unequal allocators, every refusal pattern, every target position, one fault anywhere
#include "C14.h"
SX_ENTRY(t_q1){ KN=2; BN=1; transfer<Q1,0,Q1,0>(2,2,true); }
SX_ENTRY(t_q1u){ KN=2; BN=1; transfer<Q1,0,Q1,0>(2,2,false); }
SX_ENTRY(t_q2){ KN=2; BN=1; transfer<Q2,0,Q2,0>(2,2,true); }
SX_ENTRY(t_q2u){ KN=2; BN=1; transfer<Q2,0,Q2,0>(2,2,false); }
SX_ENTRY(t_1){ BN=1; transfer<S1,0,S1,1>(2,2,true); }
SX_ENTRY(t_2){ BN=1; hx_buckets(2); KN=2; transfer<S2,1,S2,0>(2,2,true); }
SX_ENTRY(t_3){ BN=2; hx_buckets(2); KN=2; transfer<S3,0,S3,1>(1,2,true); }
SX_ENTRY(t_4){ BN=1; transfer<S4,0,S4,0>(2,2,true); }
SX_ENTRY(t_4u){ BN=1; transfer<S4,0,S4,0>(2,2,false); }
SX_ENTRY(t_4r){ BN=1; KN=2; transfer<S4,2,S4,1>(2,2,true); }
SX_ENTRY(t_5){ BN=1; KN=2; transfer<S5,0,S5,2>(2,2,true); }
SX_ENTRY(t_6){ KN=2; transfer<S6,1,S6,0>(1,2,true); }
SX_ENTRY_THOROUGH(t_43){ BN=1; transfer<S4,0,S4,0>(2,3,true); }
SX_ENTRY_THOROUGH(t_53){ BN=1; transfer<S5,0,S5,2>(2,3,true); }
SX_ENTRY_THOROUGH(t_43u){ BN=1; transfer<S4,0,S4,0>(2,3,false); }
