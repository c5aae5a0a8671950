// BOUND: ordered and ranked indices of up to 6 elements with every order/equality pattern of keys, in every tree shape insertion produces, also after an erasure; every probe key relative to them; compatible keys grouping pairs/triples of keys; range bounds strict, non-strict, crossing or unbounded; full 32-bit keys up to 3 elements
#include "mi.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA>>> CN;
typedef multi_index_container<El,indexed_by<ordered_unique<KA>>> CU;
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA,std::greater<int>>>> CG;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA>>> CR;
typedef multi_index_container<El,indexed_by<ranked_unique<KA>>> CRU;
typedef multi_index_container<El,indexed_by<sequenced<>,ordered_non_unique<KB>,ordered_unique<KA>>> C3;

// compatible key: the group k/2
struct Grp { int g; };
struct GComp { bool operator()(int k,Grp q) const { return (k>>1)<q.g; } bool operator()(Grp q,int k) const { return q.g<(k>>1); } };
struct GCompR { bool operator()(int k,Grp q) const { return (k>>1)>q.g; } bool operator()(Grp q,int k) const { return q.g>(k>>1); } };
// compatible key accepted by the index' own comparison
struct Less2 { typedef void is_transparent_not; bool operator()(int a,int b) const { return a<b; } bool operator()(int k,Grp q) const { return (k>>1)<q.g; } bool operator()(Grp q,int k) const { return q.g<(k>>1); } };
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA,Less2>>> CL;
typedef multi_index_container<El,indexed_by<ordered_unique<KA,Less2>>> CLU;

// less(i): key of element i is below the probe; gt(i): above. The element sequence is ids s[0..n)
template<class X,class Lt,class Gt,class Find,class Cnt,class Has,class LB,class UB,class ER>
void probe(const X& x,Lt lt,Gt gt,Find fnd,Cnt cnt,Has has,LB lb,UB ub,ER er){
  int n=(int)x.size(); int lo=0,hi=0; for (auto it=x.begin();it!=x.end();++it) { lo+=(int)lt(*it); hi+=(int)!gt(*it); }
  auto pos=[&](typename X::const_iterator i){ return (int)std::distance(x.begin(),i); };
  int op=sx_choose(6);
  if (op==0) { typename X::const_iterator i=fnd(); int p=pos(i); sx_check(((hi==lo)&(p==n))|((hi!=lo)&(p>=lo)&(p<hi)),"find"); sx_observe((uint64_t)p); if (p<n) sx_reach("found"); else sx_reach("not-found"); }
  else if (op==1) { sx_check((int)cnt()==hi-lo,"count"); sx_observe((uint64_t)cnt()); }
  else if (op==2) { sx_check((int)has()==(int)(hi!=lo),"contains"); }
  else if (op==3) { int p=pos(lb()); sx_check(p==lo,"lower_bound"); sx_observe((uint64_t)p); }
  else if (op==4) { int p=pos(ub()); sx_check(p==hi,"upper_bound"); sx_observe((uint64_t)p); }
  else { auto r=er(); int a=pos(r.first),b=pos(r.second); sx_check((a==lo)&(b==hi),"equal_range"); sx_observe((uint64_t)(a*100+b)); if (b-a>=2) sx_reach("several"); }
  sx_reach("end");
}
template<class X> void probe_key(const X& x,int k){ auto l=x.key_comp(); auto ke=x.key_extractor(); probe(x,[&](const El& e){ return l(ke(e),k); },[&](const El& e){ return l(k,ke(e)); },
  [&]{ return x.find(k); },[&]{ return x.count(k); },[&]{ return x.contains(k); },[&]{ return x.lower_bound(k); },[&]{ return x.upper_bound(k); },[&]{ return x.equal_range(k); }); }
template<class Cmp,class X> void probe_compat(const X& x,Grp g){ Cmp l; auto ke=x.key_extractor(); probe(x,[&](const El& e){ return l(ke(e),g); },[&](const El& e){ return l(g,ke(e)); },
  [&]{ return x.find(g,l); },[&]{ return x.count(g,l); },[&]{ return x.contains(g,l); },[&]{ return x.lower_bound(g,l); },[&]{ return x.upper_bound(g,l); },[&]{ return x.equal_range(g,l); }); }
template<class X> void probe_own(const X& x,Grp g){ Less2 l; auto ke=x.key_extractor(); probe(x,[&](const El& e){ return l(ke(e),g); },[&](const El& e){ return l(g,ke(e)); },
  [&]{ return x.find(g); },[&]{ return x.count(g); },[&]{ return x.contains(g); },[&]{ return x.lower_bound(g); },[&]{ return x.upper_bound(g); },[&]{ return x.equal_range(g); }); }

template<class C> void fill(C& c,int n,int hi){ for (int i=0;i<n;i++) put(c,El(i,sx_int(0,hi),i,0)); }
template<class C> void keyed(int n,int hi){ C c; fill(c,n,hi); probe_key(c,sx_int(0,hi+1)-0); }
SX_ENTRY(key_n){ keyed<CN>(4,4); }
SX_ENTRY(key_u){ keyed<CU>(4,5); }
SX_ENTRY(key_g){ keyed<CG>(4,4); }
SX_ENTRY(key_r){ keyed<CR>(4,4); }
SX_ENTRY(key_ru){ keyed<CRU>(4,5); }
SX_ENTRY(key_e){ int n=sx_choose(2); CN c; fill(c,n,2); probe_key(c,sx_int(0,2)); }
SX_ENTRY_THOROUGH(key_n6){ keyed<CN>(6,6); }
SX_ENTRY_THOROUGH(key_u6){ keyed<CU>(6,7); }
SX_ENTRY_THOROUGH(key_r6){ keyed<CR>(6,6); }
SX_ENTRY(wide_n){ CN c; for (int i=0;i<3;i++) c.insert(El(i,sx_any_int(),0,0)); probe_key(c,sx_any_int()); }
SX_ENTRY(wide_u){ CU c; for (int i=0;i<3;i++) c.insert(El(i,sx_any_int(),0,0)); probe_key(c,sx_any_int()); }
template<class C> void erased(int n,int hi){ C c; fill(c,n,hi); if (c.size()) c.erase(nth_it(c,sx_choose((int)c.size()))); probe_key(c,sx_int(0,hi+1)); }
SX_ENTRY(erased_n){ erased<CN>(4,4); }
SX_ENTRY(erased_r){ erased<CR>(4,3); }
SX_ENTRY_THOROUGH(erased_n5){ erased<CN>(5,5); }
// larger trees with runs of equal keys
template<class C> void runs(int n){ C c; int w=1+sx_choose(4),sh=sx_choose(2); for (int i=0;i<n;i++) put(c,El(i,sh? (n-i)/w : i/w,i,0)); for (int i=0;i<2;i++) c.erase(nth_it(c,sx_choose((int)c.size()))); probe_key(c,sx_int(0,n+1)-1); }
SX_ENTRY(runs_n){ runs<CN>(9); }
SX_ENTRY(runs_r){ runs<CR>(8); }
// second and third indices
SX_ENTRY(multi){ C3 c; for (int i=0;i<3;i++) c.push_back(El(i,sx_int(0,3),sx_int(0,3),0)); if (sx_choose(2)) probe_key(c.get<1>(),sx_int(0,3)); else probe_key(c.get<2>(),sx_int(0,3)); }
// compatible keys
template<class C,class Cmp> void compat(int n,int hi){ C c; fill(c,n,hi); Grp g={sx_int(0,hi/2+1)}; probe_compat<Cmp>(c,g); }
SX_ENTRY(compat_n){ compat<CN,GComp>(4,5); }
SX_ENTRY(compat_u){ compat<CU,GComp>(4,6); }
SX_ENTRY(compat_g){ compat<CG,GCompR>(4,5); }
SX_ENTRY(compat_r){ compat<CR,GComp>(4,5); }
template<class C> void own(int n,int hi){ C c; fill(c,n,hi); Grp g={sx_int(0,hi/2+1)}; probe_own(c,g); }
SX_ENTRY(own_n){ own<CL>(4,5); }
SX_ENTRY(own_u){ own<CLU>(4,6); }
SX_ENTRY_THOROUGH(own_n5){ own<CL>(5,6); }

// range
struct Lo { int k; bool strict; bool operator()(int x) const { return strict? x>k : x>=k; } };
struct Up { int k; bool strict; bool operator()(int x) const { return strict? x<k : x<=k; } };
template<class X> void ranges(const X& x,int hi){
  int n=(int)x.size(); int how=sx_choose(4); bool slo=sx_choose(2),sup=sx_choose(2); Lo lo={how&1? sx_int(0,hi):0,slo}; Up up={how&2? sx_int(0,hi):0,sup};
  std::pair<typename X::const_iterator,typename X::const_iterator> r;
  if (how==0) r=x.range(unbounded,unbounded); else if (how==1) r=x.range(lo,unbounded); else if (how==2) r=x.range(unbounded,up); else r=x.range(lo,up);
  auto ke=x.key_extractor(); int a=0,b=0; // elements failing lower; elements satisfying upper
  for (auto it=x.begin();it!=x.end();++it) { int k=ke(*it); if (how&1) a+=!lo(k); if (how&2) b+=up(k); else b++; }
  int p=(int)std::distance(x.begin(),r.first); 
  int q=(int)std::distance(x.begin(),r.second);
  int e=b<a? a : b; // empty: both at the first element satisfying lower
  sx_check((p==a)&(q==e),"range"); sx_observe((uint64_t)(p*100+q)); if (q-p>=2) sx_reach("wide-range"); if (p==q) sx_reach("empty-range"); (void)n;
}
template<class C> void rng(int n,int hi){ C c; fill(c,n,hi); ranges(c,hi); }
SX_ENTRY(range_n){ rng<CN>(4,5); }
SX_ENTRY(range_u){ rng<CU>(4,5); }
SX_ENTRY(range_r){ rng<CR>(4,5); }
SX_ENTRY_THOROUGH(range_n5){ rng<CN>(5,7); }
SX_ENTRY_THOROUGH(range_u6){ rng<CU>(6,7); }
SX_ENTRY(range_big){ CN c; int w=1+sx_choose(3); int n=9; for (int i=0;i<n;i++) put(c,El(i,i/w,i,0)); c.erase(nth_it(c,sx_choose(n))); ranges(c,9); }
SX_ENTRY(range_wide){ CN c; for (int i=0;i<3;i++) c.insert(El(i,sx_any_int(),0,0)); Lo lo={sx_any_int(),sx_choose(2)!=0}; Up up={sx_any_int(),sx_choose(2)!=0}; auto r=c.range(lo,up); int a=0,b=0; for (auto& e: c) { a+=!lo(e.a); b+=up(e.a); } int p=(int)std::distance(c.begin(),r.first),q=(int)std::distance(c.begin(),r.second); sx_check((p==a)&(q==(b<a?a:b)),"range"); }
// lambdas as bounds (the documented current style)
SX_ENTRY(range_lambda){ CN c; fill(c,3,4); int x=sx_int(0,4),y=sx_int(0,4); auto r=c.range([=](int k){ return x<=k; },[=](int k){ return k<y; }); int m=0,ok=1; for (auto it=r.first;it!=r.second;++it,++m) ok&=(x<=it->a)&(it->a<y); int w=0; for (auto& e: c) w+=(x<=e.a)&(e.a<y); sx_check(ok&(m==w),"range-lambda"); }
