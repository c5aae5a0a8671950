// BOUND: extraction by iterator (every index, position) and by key (every value) from containers of 1-3 indices of every kind with up to 3 elements; the handle moved, swapped, edited or dropped; insertion (plain, hinted, positional) through every index of a node-compatible container of up to 3 elements with every key coincidence
#include "C18n.h"
SX_ENTRY(n1){ KN=2; hx_buckets(2); nodes<P1,P1b>(2,2); }
SX_ENTRY(n1b){ KN=2; hx_buckets(2); nodes<P1b,P1>(2,2); }
SX_ENTRY(n2){ KN=2; hx_buckets(2); nodes<P2b,P2>(2,2); }
SX_ENTRY(n3){ KN=2; nodes<P3,P3b>(2,2); }
SX_ENTRY(n3b){ KN=2; nodes<P3b,P3>(2,1); }
SX_ENTRY(n4){ KN=2; hx_buckets(1); nodes<P4b,P4>(2,1); }
SX_ENTRY(n5){ KN=2; hx_buckets(2); nodes<P5,P5>(2,1); }
SX_ENTRY(q1){ KN=1; BN=1; nodes<Q1,Q1>(3,2,0); }
SX_ENTRY(q2){ KN=1; BN=1; nodes<Q2,Q2>(3,2,0); }
SX_ENTRY(q3){ KN=2; BN=1; hx_buckets(2); nodes<Q3,Q3>(3,2); }
SX_ENTRY(q4){ KN=2; BN=1; nodes<Q4,Q4>(3,2); }
SX_ENTRY_THOROUGH(n13){ KN=2; hx_buckets(2); nodes<P1,P1b>(3,2); }
SX_ENTRY_THOROUGH(n33){ KN=2; nodes<P3,P3b>(3,2); }
SX_ENTRY_THOROUGH(n43){ KN=2; hx_buckets(2); nodes<P4b,P4>(2,2); }
SX_ENTRY_THOROUGH(n53){ KN=3; hx_buckets(2); nodes<P5,P5>(2,2); }
