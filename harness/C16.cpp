// BOUND: ten containers of 1-4 indices covering every index kind; up to 3 elements on either side with every key and bucket-collision pattern; all functor states; move construction, allocator-extended move construction, move assignment, swap (member, free, through each index) for equal and unequal allocators with and without propagation; an iterator of every index at every position followed into the new owner
#include "C16.h"
SX_ENTRY(m1){ run<cfg<0>::D1,0>(2,2,ALLK); }
SX_ENTRY(m3){ KN=2; run<cfg<2>::D3,2>(2,1,ALLK); }
SX_ENTRY(m5){ KN=2; run<cfg<6>::D5,6>(2,1,ALLK); }
SX_ENTRY(m7){ run<cfg<2>::D7,2>(3,3,ALLK); }
SX_ENTRY(m8){ run<cfg<4>::D8,4>(3,3,ALLK); }
SX_ENTRY(m9){ run<cfg<0>::D9,0>(3,2,ALLK); }
SX_ENTRY_THOROUGH(h1){ run<cfg<6>::D1,6>(3,1,ALLK,4,false); }
SX_ENTRY_THOROUGH(h3){ KN=2; run<cfg<0>::D3,0>(3,1,ALLK,4,false); }
SX_ENTRY_THOROUGH(h5){ run<cfg<0>::D5,0>(3,1,ALLK,2,false); }
SX_ENTRY_THOROUGH(h7){ run<cfg<0>::D7,0>(4,3,ALLK,3,false); }
SX_ENTRY_THOROUGH(h8){ run<cfg<0>::D8,0>(4,3,ALLK,3,false); }
