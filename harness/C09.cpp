// BOUND: random access index alone (no restrictions on elements) and first/middle/last next to unique/non-unique ordered, hashed, ranked and sequenced indices; up to 5 elements with every equality pattern of keys; histories of up to 3 operations drawn from every insertion form, erase, pop, resize, assign, clear, node extraction and insertion, replace, modify and operations through another index, at every position; capacity growth through 0,15,22,33 elements, reserve and shrink_to_fit at every size up to 18
#include "lx.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<random_access<>>> C1;
typedef multi_index_container<El,indexed_by<random_access<>,ordered_unique<KA>>> C2;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HLow>,random_access<>,ordered_non_unique<KB>>> C3;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KB>,random_access<>>> C4;
typedef multi_index_container<El,indexed_by<random_access<>,random_access<>>> C5;
template<class C,int I> void history(int init,int len){ lx_id=1; lx_keys=len>1?2:3; C c; LM<C,I> m; auto& x=c.template get<I>();
  for (int i=0;i<init;i++) { El e=lx_new(); if (nidx<C>()==1) { e.a=0; e.b=0; } if (clashm(c,m,e)) continue; auto r=x.push_back(e); m.ins(m.n,e,&*r.first); }
  for (int i=0;i<len;i++) { int op=sx_choose(LX_N); lx_step<C,I>(c,m,op); m.check(c,"sequence"); positions<C,I>(c,m); verify(c); }
  observe(c); sx_reach("end"); }
SX_ENTRY(one_1){ history<C1,0>(4,1); }
SX_ENTRY(one_2){ history<C2,0>(3,1); }
SX_ENTRY(one_3){ history<C3,1>(2,1); }
SX_ENTRY(one_4){ history<C4,2>(2,1); }
SX_ENTRY(one_5){ history<C5,1>(3,1); }
SX_ENTRY(two_1){ history<C1,0>(2,2); }
SX_ENTRY(two_2){ history<C2,0>(1,2); }
SX_ENTRY(two_5){ history<C5,0>(1,2); }
SX_ENTRY_THOROUGH(one_23){ history<C2,0>(4,1); }
SX_ENTRY_THOROUGH(one_33){ history<C3,1>(3,1); }
SX_ENTRY_THOROUGH(one_43){ history<C4,2>(3,1); }
SX_ENTRY_THOROUGH(two_13){ history<C1,0>(3,2); }
SX_ENTRY_THOROUGH(three_1){ history<C1,0>(1,3); }

// capacity: growth, reserve, shrink; contents and iterators unaffected
template<class C,int I> void capacity(int n){ C c; auto& x=c.template get<I>(); const El* p[40]; for (int i=0;i<n;i++) { size_t cap=x.capacity(); auto r=x.push_back(El(i,i,i,0)); p[i]=&*r.first; sx_check(x.capacity()>=x.size(),"capacity-below-size"); sx_check(x.capacity()>=cap,"capacity-shrinks"); }
  auto it=x.begin(); auto itn=n? x.begin()+n/2 : x.end();
  int op=sx_choose(5); size_t cap=x.capacity(); int k=sx_choose(5);
  if (op==0) { size_t r=(size_t)k*9; x.reserve(r); sx_check(x.capacity()>=r&&x.capacity()>=cap,"reserve"); }
  else if (op==1) { x.shrink_to_fit(); sx_check(x.capacity()==x.size(),"shrink_to_fit"); }
  else if (op==2) { x.reserve(40); x.shrink_to_fit(); sx_check(x.capacity()==x.size(),"shrink_to_fit"); x.shrink_to_fit(); }
  else if (op==3) { C d(c); sx_check(d.template get<I>().capacity()>=d.size(),"copy-capacity"); for (int i=0;i<n;i++) sx_check(d.template get<I>()[i].id==i,"copy-content"); for (int i=0;i<3;i++) d.template get<I>().push_back(El(50+i,50+i,50+i,0)); sx_check(d.template get<I>().capacity()>=d.size()&&d.template get<I>()[n+2].id==52,"copy-growth"); }
  else { C d; d.swap(c); sx_check(x.capacity()>=x.size()&&d.template get<I>().capacity()>=d.size(),"swap-capacity"); for (int i=0;i<n;i++) sx_check(&d.template get<I>()[i]==p[i],"swap-content"); x.push_back(El(60,60,60,0)); sx_check(x[0].id==60&&x.size()==1,"swapped-usable"); c.swap(d); }
  sx_check((int)x.size()==n,"capacity-op-size"); for (int i=0;i<n;i++) sx_check(&x[i]==p[i],"capacity-op-content"); if (n) sx_check(&*it==p[0]&&&*itn==p[n/2]&&itn-it==n/2,"iterators-valid");
  int at=sx_choose(n+1); auto r=x.insert(x.begin()+at,El(30,30,30,0)); sx_check(r.first-x.begin()==at&&x.capacity()>=x.size(),"insert-after"); for (int i=0;i<n;i++) sx_check(&x[i<at?i:i+1]==p[i],"insert-after-content"); int del=sx_choose(n+1); x.erase(x.begin()+del); x.shrink_to_fit(); sx_check(x.capacity()==(size_t)n,"shrink-after-erase"); for (int i=0,j=0;i<n+1;i++) { const El* q= i<at?p[i]:i==at?0:p[i-1]; if (i==del) continue; if (q) sx_check(&x[j]==q,"after-erase"); else sx_check(x[j].id==30,"after-erase-new"); j++; } sx_reach("capacity"); }
SX_ENTRY(cap_0){ capacity<C1,0>(0); }
SX_ENTRY(cap_1){ capacity<C1,0>(1); }
SX_ENTRY(cap_5){ capacity<C1,0>(5); }
SX_ENTRY(cap_15){ capacity<C1,0>(SX_T(14,15)); }
SX_ENTRY(cap_16){ capacity<C1,0>(16); }
SX_ENTRY(cap_c2){ capacity<C2,0>(11); }
SX_ENTRY(cap_c5){ capacity<C5,1>(10); }
SX_ENTRY_THOROUGH(cap_23){ capacity<C1,0>(23); }
SX_ENTRY(grow){ C1 c; for (int i=0;i<40;i++) { c.push_back(El(i,0,0,0)); sx_check(c.capacity()>=c.size(),"capacity-below-size"); } for (int i=0;i<40;i++) sx_check(c[i].id==i&&(c.begin()+i)-c.begin()==i,"growth-order"); int k=sx_choose(40); c.resize(k); sx_check(c.size()==(size_t)k,"resize"); c.shrink_to_fit(); sx_check(c.capacity()==(size_t)k,"shrink_to_fit"); for (int i=0;i<20;i++) { c.push_front(El(100+i,0,0,0)); sx_check(c.capacity()>=c.size(),"capacity-below-size"); } for (int i=0;i<20;i++) sx_check(c[i].id==119-i,"push_front-order"); for (int i=0;i<k;i++) sx_check(c[20+i].id==i,"push_front-rest"); }
