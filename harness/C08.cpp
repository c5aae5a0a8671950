// BOUND: sequenced index alone (no restrictions on elements) and first/middle/last next to unique/non-unique ordered, hashed, ranked and random access indices; up to 5 elements with every equality pattern of keys; histories of up to 3 operations drawn from every insertion form, erase, pop, resize, assign, clear, node extraction and insertion, replace, modify and operations through another index, at every position
#include "lx.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<sequenced<>>> C1;
typedef multi_index_container<El,indexed_by<sequenced<>,ordered_unique<KA>>> C2;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HLow>,sequenced<>,ordered_non_unique<KB>>> C3;
typedef multi_index_container<El,indexed_by<random_access<>,ranked_unique<KB>,sequenced<>>> C4;
typedef multi_index_container<El,indexed_by<sequenced<>,sequenced<>>> C5;
template<class C,int I> void history(int init,int len){ lx_id=1; lx_keys=len>1?2:3; C c; LM<C,I> m; auto& x=c.template get<I>();
  for (int i=0;i<init;i++) { El e=lx_new(); if (nidx<C>()==1) { e.a=0; e.b=0; } if (clashm(c,m,e)) continue; auto r=x.push_back(e); m.ins(m.n,e,&*r.first); }
  for (int i=0;i<len;i++) { int op=sx_choose(LX_N); lx_step<C,I>(c,m,op); m.check(c,"sequence"); positions<C,I>(c,m); verify(c); }
  observe(c); sx_reach("end"); }
SX_ENTRY(one_1){ history<C1,0>(4,1); }
SX_ENTRY(one_2){ history<C2,0>(3,1); }
SX_ENTRY(one_3){ history<C3,1>(2,1); }
SX_ENTRY(one_4){ history<C4,2>(2,1); }
SX_ENTRY(one_5){ history<C5,1>(3,1); }
SX_ENTRY(two_1){ history<C1,0>(2,2); }
SX_ENTRY(two_2){ history<C2,0>(1,2); }
SX_ENTRY(two_5){ history<C5,0>(1,2); }
SX_ENTRY_THOROUGH(one_23){ history<C2,0>(4,1); }
SX_ENTRY_THOROUGH(one_33){ history<C3,1>(3,1); }
SX_ENTRY_THOROUGH(one_43){ history<C4,2>(3,1); }
SX_ENTRY_THOROUGH(two_13){ history<C1,0>(3,2); }
SX_ENTRY_THOROUGH(three_1){ history<C1,0>(1,3); }
