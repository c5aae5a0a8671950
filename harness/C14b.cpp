// BOUND: range insertion, n copies, assign, list assignment, resize, erase by key and by range, sort, merge, remove_if and unique, and moves of containers between unequal allocators, on containers of 1-3 indices of every kind with up to 4 elements and up to 3 new ones, one fault anywhere
#include "C14.h"
SX_ENTRY(b_1){ BN=1; bulk<S1,0>(2); }
SX_ENTRY(b_1b){ KN=2; bulk<S1,1>(2); }
SX_ENTRY(b_2){ BN=1; KN=2; hx_buckets(2); bulk<S2,0>(1); }
SX_ENTRY(b_2s){ BN=1; KN=2; hx_buckets(1); bulk<S2,1>(1); }
SX_ENTRY(b_3){ KN=2; BN=3; hx_buckets(2); bulk<S3,0>(2); }
SX_ENTRY(b_4){ BN=1; bulk<S4,0>(2); }
SX_ENTRY(b_4r){ BN=1; bulk<S4,2>(2); }
SX_ENTRY(b_5){ BN=1; bulk<S5,0>(1); }
SX_ENTRY(b_q1){ BN=1; KN=1; bulk<Q1,0>(3); }
SX_ENTRY(b_q2){ BN=1; KN=1; bulk<Q2,0>(3); }
SX_ENTRY(l_q1){ BN=1; listop<Q1,0>(4,3); }
SX_ENTRY(l_q2){ BN=1; listop<Q2,0>(4,3); }
SX_ENTRY(l_4){ BN=1; KN=4; listop<S4,0>(3,2); }
SX_ENTRY(l_4r){ BN=1; KN=4; listop<S4,2>(3,2); }
SX_ENTRY(l_5){ BN=1; KN=4; listop<S5,0>(2,2); }
SX_ENTRY_THOROUGH(l_q15){ BN=1; KN=4; listop<Q1,0>(5,2); }
SX_ENTRY_THOROUGH(l_q25){ BN=1; KN=4; listop<Q2,0>(5,2); }
SX_ENTRY(m_1){ BN=1; moving<S1>(3,1); }
SX_ENTRY(m_2){ BN=1; KN=2; hx_buckets(2); moving<S2>(2,1); }
SX_ENTRY(m_3){ KN=2; hx_buckets(2); moving<S3>(2,1); }
SX_ENTRY(m_4){ BN=1; moving<S4>(3,1); }
SX_ENTRY(m_5){ BN=1; KN=2; moving<S5>(3,1); }
SX_ENTRY(m_6){ KN=2; moving<S6>(2,1); }
