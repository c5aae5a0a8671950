// BOUND: ordered and ranked indices loaded with 16-40 elements in ascending, descending, zigzag, hinted and range order, then thinned by every sequence of up to 4 erasure patterns (front, back, middle, every other) or up to 3 arbitrary single operations; comparisons counted for every lookup and insertion
#include "mi.h"
#include <boost/multi_index/ordered_index.hpp>
using namespace mi;
static int ncmp;
struct CLess { bool operator()(int a,int b) const { ++ncmp; return a<b; } };
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA,CLess>>> CN;
typedef multi_index_container<El,indexed_by<ordered_unique<KA,CLess>>> CU;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA,CLess>>> CR;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA,CLess>>> CS;
// floor(2*log2(n+1))
static int lim(int n){ unsigned long long s=(unsigned long long)(n+1)*(n+1); int h=0; while ((2ull<<h)<=s) h++; return h; }
template<class C> auto& oi(C& c){ return c.template get<nidx<C>()-1>(); }
template<class X> void ranks(X&,int,int,long){}
template<class X> auto ranks(X& x,int q,int L,int) -> decltype((void)x.find_rank(q)) {
  ncmp=0; x.find_rank(q); sx_check(ncmp<=L+2,"find_rank-comparisons"); ncmp=0; x.lower_bound_rank(q); sx_check(ncmp<=L+1,"lower_bound_rank-comparisons"); ncmp=0; x.upper_bound_rank(q); sx_check(ncmp<=L+1,"upper_bound_rank-comparisons");
  ncmp=0; x.equal_range_rank(q); sx_check(ncmp<=2*L+3,"equal_range_rank-comparisons"); ncmp=0; x.range_rank([q](int z){ ++ncmp; return z>=q; },[q](int z){ ++ncmp; return z<=q+1; }); sx_check(ncmp<=2*L+3,"range_rank-comparisons"); }
// every lookup and insertion point within the logarithmic bound
template<class C> void balanced(C& c,bool ins=true){
  auto& x=oi(c); int n=(int)x.size(),L=lim(n); int prev=-1; int cnt=0; auto it=x.begin(); 
  while (it!=x.end()) { int k=it->a; ++it; ++cnt; if (k==prev) continue; prev=k;
    for (int d=0;d<2;d++) { int q=k-d;
      ncmp=0; x.lower_bound(q); sx_check(ncmp<=L+1,"lower_bound-comparisons");
      ncmp=0; x.upper_bound(q); sx_check(ncmp<=L+1,"upper_bound-comparisons");
      ncmp=0; x.find(q); sx_check(ncmp<=L+2,"find-comparisons");
      ncmp=0; x.contains(q); sx_check(ncmp<=L+2,"contains-comparisons");
      ncmp=0; x.equal_range(q); sx_check(ncmp<=2*L+3,"equal_range-comparisons");
      ncmp=0; x.range([q](int z){ ++ncmp; return z>=q; },[q](int z){ ++ncmp; return z<=q+1; }); sx_check(ncmp<=2*L+3,"range-comparisons");
      ncmp=0; x.count(q); sx_check(ncmp<=2*L+3,"count-comparisons"); ranks(x,q,L,0); } }
  sx_check(cnt==n,"size"); sx_reach("balanced");
}
template<class C> void chk_ins(C& c,int key,int id){ int L=lim((int)c.size()); ncmp=0; put(c,El(id,key,0,0)); sx_check(ncmp<=L+2,"insertion-comparisons"); }
template<class C> void load(C& c,int n,int shape){
  if (shape<3) { for (int i=0;i<n;i++) chk_ins(c, 4*(shape==0? i : shape==1? n-i : (i&1)? n-i/2 : i/2),i); }
  else if (shape==3) { auto& x=oi(c); if constexpr (nidx<C>()==1) for (int i=0;i<n;i++) { ncmp=0; x.insert(x.end(),El(i,4*i,0,0)); sx_check(ncmp<=4,"hinted-insertion-comparisons"); } else for (int i=0;i<n;i++) chk_ins(c,4*i,i); }
  else if (shape==4) { auto& x=oi(c); if constexpr (nidx<C>()==1) for (int i=0;i<n;i++) { ncmp=0; x.insert(x.begin(),El(i,4*(n-i),0,0)); sx_check(ncmp<=4,"hinted-insertion-comparisons"); } else for (int i=0;i<n;i++) chk_ins(c,4*(n-i),i); }
  else { El v[48]; for (int i=0;i<n;i++) v[i]=El(i,4*i,0,0); oi(c).insert(oi(c).begin(),oi(c).begin()); if constexpr (nidx<C>()==1) { c.insert(v,v+n); } else { c.insert(c.end(),v,v+n); } }
}
template<class C> void er(C& c,typename ix<C,nidx<C>()-1>::type::iterator it){ ncmp=0; oi(c).erase(it); sx_check(ncmp<=1,"erase-comparisons"); }
template<class C> void thin(C& c,int how){ auto& x=oi(c); int n=(int)x.size(),k=(n+2)/3; 
  if (how==0) while (k-->0) er(c,x.begin()); else if (how==1) while (k-->0) { auto it=x.end(); --it; er(c,it); }
  else if (how==2) { auto it=nth_it(x,n/3); while (k-->0) er(c,it++); }
  else if (how==3) { auto it=x.begin(); while (it!=x.end()) { auto d=it++; er(c,d); if (it!=x.end()) ++it; } }
  else { x.erase(nth_it(x,n/4),nth_it(x,n-n/4)); } }
template<class C> void thinning(int n,int len){ C c; load(c,n,sx_choose(6)); balanced(c); for (int i=0;i<len;i++) { thin(c,sx_choose(5)); balanced(c); } }
SX_ENTRY(thin_n){ thinning<CN>(SX_T(32,48),SX_T(3,4)); }
SX_ENTRY(thin_u){ thinning<CU>(32,SX_T(2,3)); }
SX_ENTRY(thin_r){ thinning<CR>(32,SX_T(2,3)); }
SX_ENTRY(thin_s){ thinning<CS>(28,2); }
// arbitrary operations on a loaded tree
template<class C> void ops(int n,int len){ C c; load(c,n,sx_choose(3)); int id=100;
  for (int i=0;i<len;i++) { auto& x=oi(c); if (sx_choose(2)) chk_ins(c,sx_int(0,4*n+2),id++); else er(c,nth_it(x,sx_choose((int)x.size()))); }
  auto& x=oi(c); int sz=(int)x.size(),L=lim(sz); int q=sx_int(0,4*n+3); ncmp=0; x.lower_bound(q); sx_check(ncmp<=L+1,"lower_bound-comparisons"); sx_reach("ops"); }
SX_ENTRY(ops_n){ ops<CN>(12,2); }
SX_ENTRY(ops_r){ ops<CR>(10,2); }
SX_ENTRY_THOROUGH(ops_n3){ ops<CN>(10,3); }
// erase many at one symbolic window: what remains is searched within its own bound
template<class C> void window(int n){ C c; load(c,n,sx_choose(3)); auto& x=oi(c); int lo=sx_choose(n),len=1+sx_choose(6); if (lo+len>n) len=n-lo; auto it=nth_it(x,lo);
  // keep the window only
  while (x.begin()!=it) er(c,x.begin()); while ((int)x.size()>len) { auto d=x.end(); --d; er(c,d); } balanced(c); }
SX_ENTRY(win_n){ window<CN>(31); }
SX_ENTRY(win_u){ window<CU>(24); }
SX_ENTRY(win_r){ window<CR>(24); }
// other mutators: modify, replace, extract/insert, merge, copy, hinted loads with equal keys
template<class C> void modifying(int n){ C c; load(c,n,sx_choose(2)); auto& x=oi(c); int how=sx_choose(4);
  for (int i=0;i<n;i++) { auto it= how&1? x.begin() : nth_it(x,i%2? n-1:0); int k= how&2? 4*n+4*i+4 : -4*i-4; int L=lim(n); ncmp=0; if (i%3) x.modify(it,[k](El& e){ e.a=k; }); else { El e(*it); e.a=k; x.replace(it,e); } sx_check(ncmp<=2*L+8,"modify-comparisons"); }
  balanced(c); sx_reach("modified"); }
SX_ENTRY(mod_n){ modifying<CN>(32); }
SX_ENTRY(mod_u){ modifying<CU>(24); }
SX_ENTRY(mod_r){ modifying<CR>(24); }
template<class C> void moving(int n){ C c; load(c,n,sx_choose(3)); auto& x=oi(c); C d; int how=sx_choose(4); auto& y=oi(d);
  if (how==0) { for (int i=0;i<n;i++) { auto nh=x.extract(i&1? x.begin():nth_it(x,(int)x.size()-1)); ncmp=0; int L=lim((int)d.size()); y.insert(std::move(nh)); sx_check(ncmp<=L+2,"node-insertion-comparisons"); balanced(d); } }
  else if (how==1) { y.merge(x); balanced(d); }
  else if (how==2) { C e(c); balanced(e); for (int i=0;i<2;i++) { thin(e,sx_choose(4)); balanced(e); } }
  else { load(d,n/2,2); d=c; balanced(d); thin(d,sx_choose(5)); balanced(d); c.swap(d); balanced(c); balanced(d); }
  sx_reach("moved"); }
SX_ENTRY(move_n){ moving<CN>(20); }
SX_ENTRY(move_r){ moving<CR>(20); }
SX_ENTRY(move_u){ moving<CU>(18); }
// runs of equal keys and correct hints inside them
template<class C> void equal_runs(int n){ C c; int k=1+sx_choose(3); for (int i=0;i<n;i++) chk_ins(c,4*(i%k),i); auto& x=oi(c); int p=sx_choose(n+1); auto h=nth_it(x,p); int key; if (p<n) key=h->a; else { auto g=h; --g; key=g->a; } ncmp=0; x.insert(h,El(200,key,0,0)); sx_check(ncmp<=5,"hinted-insertion-comparisons"); balanced(c); thin(c,sx_choose(5)); balanced(c); }
SX_ENTRY(eq_n){ equal_runs<CN>(24); }
SX_ENTRY(eq_r){ equal_runs<CR>(20); }
// in-place hint between two different neighbours
template<class C> void gap_hint(int n){ C c; load(c,n,sx_choose(3)); auto& x=oi(c); for (int i=0;i<3;i++) { int p=sx_choose((int)x.size()); auto h=nth_it(x,p); int key=h->a-1; if (p) { auto g=h; --g; if (g->a>=key) continue; } ncmp=0; x.insert(h,El(200+i,key,0,0)); sx_check(ncmp<=4,"hinted-insertion-comparisons"); } balanced(c); }
SX_ENTRY(gap_n){ gap_hint<CN>(10); }
SX_ENTRY(gap_u){ gap_hint<CU>(8); }

// fully symbolic loads: every insertion order of n keys, one arbitrary erasure, every probe
template<class C> void symbolic(int n,int hi){ C c; for (int i=0;i<n;i++) chk_ins(c,sx_int(0,hi),i); auto& x=oi(c); er(c,nth_it(x,sx_choose((int)x.size()))); int L=lim((int)x.size()); int q=sx_int(0,hi+1); int op=sx_choose(5); int s=0,b=1; ncmp=0;
  if (op==0) { x.lower_bound(q); b=L+1; } else if (op==1) { x.upper_bound(q); b=L+1; } else if (op==2) { x.find(q); b=L+2; } else if (op==3) { x.equal_range(q); b=2*L+3; } else { x.count(q); b=2*L+3; } s=ncmp; sx_check(s<=b,"lookup-comparisons"); sx_observe(s); sx_reach("symbolic"); }
SX_ENTRY(sym_n){ symbolic<CN>(5,5); }
SX_ENTRY(sym_u){ symbolic<CU>(5,5); }
SX_ENTRY(sym_r){ symbolic<CR>(4,5); }
SX_ENTRY_THOROUGH(sym_n6){ symbolic<CN>(6,6); }
