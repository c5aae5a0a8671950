// BOUND: hashed indices, unique and not: up to 4+4 elements, every assignment of keys and values from 2-3 each, every bucket collision pattern, different insertion orders, bucket counts, erasures and reinsertions; as first and as other index; equality of values coarser than identity
#include "hx.h"
using namespace mi;
struct Q { int id,k,v; Q(int i=0,int a=0,int b=0):id(i),k(a),v(b){} bool operator==(const Q& o) const { return (k==o.k)&(v==o.v); } };
typedef member<Q,int,&Q::k> QK; typedef member<Q,int,&Q::v> QV; typedef member<Q,int,&Q::id> QI;
struct KEq { bool operator()(int a,int b) const { return (a>>1)==(b>>1); } }; struct KHash { size_t operator()(int a) const { return (size_t)(a>>1)*53; } };
typedef multi_index_container<Q,indexed_by<hashed_non_unique<QK,HSym>>> H1;
typedef multi_index_container<Q,indexed_by<hashed_unique<QK,HSym>>> H2;
typedef multi_index_container<Q,indexed_by<sequenced<>,hashed_non_unique<QK,HSym>>> H3;
typedef multi_index_container<Q,indexed_by<hashed_non_unique<QK,KHash,KEq>,sequenced<>>> H4;   // keys 2i and 2i+1 are one group, but different elements
typedef multi_index_container<Q,indexed_by<hashed_unique<QK,KHash,KEq>>> H5;
static int gid; template<class C> void put1(C& c,int k,int v){ if constexpr (ix<C,0>::positional) c.push_back(Q(gid++,k,v)); else c.insert(Q(gid++,k,v)); }
template<class C> void fill(C& c,int n,int KN,int VN){ for (int i=0;i<n;i++) { int k=sx_int(0,KN-1),v=sx_int(0,VN-1); put1(c,k,v); } }
// same elements with the same multiplicities (equality of elements includes the key, so groups agree)
template<class X> int multiset(const X& x,const X& y){ int r=(int)(x.size()==y.size()); for (auto& e: x) { int a=0,b=0; for (auto& f: x) a+=(e.k==f.k)&(e.v==f.v); for (auto& f: y) b+=(e.k==f.k)&(e.v==f.v); r&=a==b; } return r; }
template<class X> void check(const X& x,const X& y){ int eq=multiset(x,y); bool r=x==y; sx_check(r==eq,"=="); sx_check((y==x)==eq,"==-symmetric"); sx_check((x!=y)==!eq,"!="); sx_reach(r?"equal":"unequal"); sx_observe(eq); }
template<class C> void ready(){ gid=0; }
// two independent containers of any content
template<class C,int I> void any2(int n,int m,int KN,int VN){ gid=0; C c,d; fill(c,n,KN,VN); fill(d,m,KN,VN); if (sx_choose(2)) d.template get<I>().rehash(100); check(c.template get<I>(),d.template get<I>()); if constexpr (I==0) { int eq=multiset(c.template get<0>(),d.template get<0>()); sx_check((c==d)==eq&&(d!=c)==!eq,"container-equality"); } }
// a permutation of the same elements, with at most one of them changed
template<class C,int I> void perm(int n,int KN,int VN,bool change){ gid=0; Q e[4]; for (int i=0;i<n;i++) e[i]=Q(i,sx_int(0,KN-1),sx_int(0,VN-1)); C c,d; for (int i=0;i<n;i++) put1(c,e[i].k,e[i].v); if (change) { int i=sx_choose(n); e[i].k=sx_int(0,KN-1); e[i].v=sx_int(0,VN-1); } int left=(1<<n)-1; while (left) { int i=sx_choose(n); if (!(left>>i&1)) return; left&=~(1<<i); put1(d,e[i].k,e[i].v); } int w=sx_choose(3); if (w==1) d.template get<I>().rehash(100); else if (w==2) { auto& x=d.template get<I>(); auto it=x.begin(); Q z=*it; x.erase(it); put1(d,z.k,z.v); } check(c.template get<I>(),d.template get<I>()); }
SX_ENTRY(n22){ hx_buckets(2); any2<H1,0>(2,2,2,2); }
SX_ENTRY(n33){ hx_buckets(2); any2<H1,0>(3,3,2,3); }
SX_ENTRY(n32){ hx_buckets(2); any2<H1,0>(3,2,2,2); }
SX_ENTRY(n10){ hx_buckets(2); any2<H1,0>(1,0,2,2); }
SX_ENTRY(u22){ hx_buckets(3); any2<H2,0>(2,2,3,3); }
SX_ENTRY(u33){ hx_buckets(2); any2<H2,0>(3,3,2,2); }
SX_ENTRY_THOROUGH(u333){ hx_buckets(3); any2<H2,0>(3,3,3,2); }
SX_ENTRY(i33){ hx_buckets(2); any2<H3,1>(3,3,2,2); }
SX_ENTRY(g22){ any2<H4,0>(2,2,3,2); }
SX_ENTRY(g33){ any2<H4,0>(3,3,3,1); }
SX_ENTRY(gu22){ any2<H5,0>(2,2,4,2); }
SX_ENTRY(one){ hx_buckets(1); any2<H1,0>(4,4,1,3); }
SX_ENTRY(p3){ hx_buckets(2); perm<H1,0>(3,2,2,true); }
SX_ENTRY(p4){ hx_buckets(1); perm<H1,0>(4,1,3,false); }
SX_ENTRY(p3i){ hx_buckets(2); perm<H3,1>(3,2,2,false); }
SX_ENTRY(pg3){ perm<H4,0>(3,4,1,true); }
SX_ENTRY(pu3){ hx_buckets(2); perm<H2,0>(3,2,2,true); }
SX_ENTRY_THOROUGH(pu33){ hx_buckets(3); perm<H2,0>(3,3,2,true); }
SX_ENTRY(none){ H1 a,b; check(a,b); H2 c,d; check(c,d); d.rehash(100); sx_check(c==d,"empty"); }
SX_ENTRY_THOROUGH(n44){ hx_buckets(2); any2<H1,0>(4,4,2,2); }
SX_ENTRY_THOROUGH(n33w){ hx_buckets(3); any2<H1,0>(3,3,3,2); }
SX_ENTRY_THOROUGH(p4t){ hx_buckets(2); perm<H1,0>(4,2,2,true); }
SX_ENTRY_THOROUGH(g44){ any2<H4,0>(4,4,2,2); }
