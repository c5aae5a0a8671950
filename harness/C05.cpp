// BOUND: ranked indices (unique, non-unique, single or combined with others) of up to 6 elements with every order/equality pattern of keys in every tree shape insertion produces; 12-16 element structured loads; up to 3 arbitrary operations (insert, hinted insert, erase, range erase, modify, replace, extract/insert node, copy, swap, move, merge); every rank and every probe key
#include "mi.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA>>> CN;
typedef multi_index_container<El,indexed_by<ranked_unique<KA>>> CU;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA,std::greater<int>>>> CG;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA>,ranked_non_unique<KB>>> C3;
struct Grp { int g; };
struct GComp { bool operator()(int k,Grp q) const { return (k>>1)<q.g; } bool operator()(Grp q,int k) const { return q.g<(k>>1); } };

// nth and rank are exact for every position of ranked index x
template<class X> void ranks(const X& x){
  int n=(int)x.size(); int i=0; auto it=x.begin();
  for (;it!=x.end();++it,++i) { sx_check(i<n,"iteration-longer"); sx_check(x.nth(i)==it,"nth"); sx_check((int)x.rank(it)==i,"rank"); }
  sx_check(i==n,"iteration-shorter"); sx_check((int)x.rank(x.end())==n,"rank-of-end"); for (int d=0;d<3;d++) sx_check(x.nth(n+d)==x.end(),"nth-past-end"); sx_check(x.nth((size_t)-1)==x.end(),"nth-huge"); sx_reach("ranks");
}
template<class C> void all_ranks(const C& c){ each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==RNK) ranks(c.template get<I.value>()); }); }
template<class C> void fill(C& c,int n,int hi){ for (int i=0;i<n;i++) put(c,El(i,sx_int(0,hi),i&1,0)); }
// rank lookups
template<class X> void lookups(const X& x,int hi){
  int q=sx_int(0,hi); auto l=x.key_comp(); auto ke=x.key_extractor(); int lo=0,up=0; for (auto& e: x) { lo+=(int)l(ke(e),q); up+=(int)!l(q,ke(e)); } int n=(int)x.size(); int op=sx_choose(5);
  if (op==0) { int r=(int)x.find_rank(q); sx_check(((lo==up)&(r==n))|((lo!=up)&(r>=lo)&(r<up)),"find_rank"); sx_check(r==(int)x.rank(x.find(q)),"find_rank-vs-find"); }
  else if (op==1) sx_check((int)x.lower_bound_rank(q)==lo,"lower_bound_rank");
  else if (op==2) sx_check((int)x.upper_bound_rank(q)==up,"upper_bound_rank");
  else if (op==3) { auto r=x.equal_range_rank(q); sx_check(((int)r.first==lo)&((int)r.second==up),"equal_range_rank"); }
  else sx_check((int)x.count(q)==up-lo,"count");
  sx_reach("lookup");
}
template<class X> void lookups_c(const X& x,int hi){
  Grp q={sx_int(0,hi/2+1)}; GComp l; auto ke=x.key_extractor(); int lo=0,up=0; for (auto& e: x) { lo+=(int)l(ke(e),q); up+=(int)!l(q,ke(e)); } int n=(int)x.size(); int op=sx_choose(5);
  if (op==0) { int r=(int)x.find_rank(q,l); sx_check(((lo==up)&(r==n))|((lo!=up)&(r>=lo)&(r<up)),"find_rank"); }
  else if (op==1) sx_check((int)x.lower_bound_rank(q,l)==lo,"lower_bound_rank");
  else if (op==2) sx_check((int)x.upper_bound_rank(q,l)==up,"upper_bound_rank");
  else if (op==3) { auto r=x.equal_range_rank(q,l); sx_check(((int)r.first==lo)&((int)r.second==up),"equal_range_rank"); }
  else sx_check((int)x.count(q,l)==up-lo,"count");
}
struct Lo { int k; bool strict; bool operator()(int x) const { return strict? x>k : x>=k; } };
struct Up { int k; bool strict; bool operator()(int x) const { return strict? x<k : x<=k; } };
template<class X> void range_ranks(const X& x,int hi){
  int how=sx_choose(4); bool slo=sx_choose(2),sup=sx_choose(2); Lo lo={how&1? sx_int(0,hi):0,slo}; Up up={how&2? sx_int(0,hi):0,sup}; std::pair<size_t,size_t> r;
  if (how==0) { auto t=x.range_rank(unbounded,unbounded); r.first=t.first; r.second=t.second; } else if (how==1) { auto t=x.range_rank(lo,unbounded); r.first=t.first; r.second=t.second; } else if (how==2) { auto t=x.range_rank(unbounded,up); r.first=t.first; r.second=t.second; } else { auto t=x.range_rank(lo,up); r.first=t.first; r.second=t.second; }
  auto ke=x.key_extractor(); int a=0,b=0; for (auto& e: x) { int k=ke(e); if (how&1) a+=!lo(k); if (how&2) b+=up(k); else b++; }
  sx_check(((int)r.first==a)&((int)r.second==(b<a?a:b)),"range_rank"); sx_reach("range");
}
template<class C> void ins(int n,int hi){ C c; fill(c,n,hi); all_ranks(c); observe(c); }
SX_ENTRY(ins_n){ ins<CN>(6,5); }
SX_ENTRY(ins_u){ ins<CU>(6,5); }
SX_ENTRY(ins_g){ ins<CG>(5,4); }
SX_ENTRY_THOROUGH(ins_n7){ ins<CN>(7,6); }
template<class C> void look(int n,int hi){ C c; fill(c,n,hi); lookups(c,hi+1); }
SX_ENTRY(look_n){ look<CN>(4,4); }
SX_ENTRY(look_u){ look<CU>(5,5); }
SX_ENTRY(look_g){ look<CG>(4,4); }
SX_ENTRY(look_0){ CN c; ranks(c); lookups(c,2); }
SX_ENTRY_THOROUGH(look_n6){ look<CN>(6,6); }
SX_ENTRY(compat){ CN c; fill(c,4,5); lookups_c(c,5); }
SX_ENTRY(compat_u){ CU c; fill(c,4,6); lookups_c(c,6); }
SX_ENTRY(rangerank_n){ CN c; fill(c,4,5); range_ranks(c,5); }
SX_ENTRY(rangerank_u){ CU c; fill(c,4,5); range_ranks(c,5); }
SX_ENTRY(runs){ CN c; int w=1+sx_choose(4); int n=12; for (int i=0;i<n;i++) put(c,El(i,2*(i/w),0,0)); for (int i=0;i<1;i++) c.erase(nth_it(c,sx_choose((int)c.size()))); if (sx_choose(2)) lookups(c,13); else range_ranks(c,13); }

// arbitrary operations, ranks checked after each
template<class C,int I> void step(C& c,int hi,int& id){
  auto& x=c.template get<I>(); int n=(int)x.size(); int op=sx_choose(10);
  if (op==0) x.insert(El(id++,sx_int(0,hi),sx_int(0,hi),0));
  else if (op==1) { int p=sx_choose(n+1); x.insert(nth_it(x,p),El(id++,sx_int(0,hi),sx_int(0,hi),0)); }
  else if (op==8) { C d; for (int i=0;i<3;i++) put(d,El(id++,sx_int(0,hi),1,0)); if constexpr (nidx<C>()==1) x.merge(d.template get<I>()); else c.template get<I>().merge(d.template get<I>()); all_ranks(d); }
  else if (n==0) return;
  else if (op==2) x.erase(nth_it(x,sx_choose(n)));
  else if (op==3) { int p=sx_choose(n),q=p+sx_choose(n-p+1); x.erase(nth_it(x,p),nth_it(x,q)); }
  else if (op==4) { int a=sx_int(0,hi),b=sx_int(0,hi); x.modify(nth_it(x,sx_choose(n)),[=](El& e){ e.a=a; e.b=b; }); }
  else if (op==5) { auto it=nth_it(x,sx_choose(n)); x.replace(it,El(it->id,sx_int(0,hi),sx_int(0,hi),0)); }
  else if (op==6) { auto nh=x.extract(nth_it(x,sx_choose(n))); all_ranks(c); if (sx_choose(2)) { int p=sx_choose(n); x.insert(nth_it(x,p),std::move(nh)); } else x.insert(std::move(nh)); }
  else if (op==7) { int how=sx_choose(4); if (how==0) { C d(c); all_ranks(d); d.template get<I>().erase(d.template get<I>().begin()); all_ranks(d); c=d; } else if (how==1) { C d; put(d,El(id++,1,1,0)); d.swap(c); all_ranks(d); all_ranks(c); d.swap(c); } else if (how==2) { C d(std::move(c)); all_ranks(d); all_ranks(c); c=std::move(d); } else { x.erase(x.begin()->a); } }
  else if (op==9) { int b=sx_int(0,hi); int old=nth_it(x,n-1)->a; x.modify(nth_it(x,sx_choose(n)),[=](El& e){ e.a=b; },[=](El& e){ e.a=old; }); }
  all_ranks(c);
}
template<class C,int I> void history(int n,int hi,int len){ C c; fill(c,n,hi); int id=n; for (int i=0;i<len;i++) step<C,I>(c,hi,id); observe(c); sx_reach("history"); }
SX_ENTRY(his_n){ history<CN,0>(3,3,1); }
SX_ENTRY(his_u){ history<CU,0>(4,4,1); }
SX_ENTRY(his_3a){ history<C3,1>(2,2,1); }
SX_ENTRY(his_3b){ history<C3,2>(2,2,1); }
SX_ENTRY(his2_n){ history<CN,0>(2,2,2); }
SX_ENTRY_THOROUGH(his2_u){ history<CU,0>(2,3,2); }
SX_ENTRY_THOROUGH(his_n4){ history<CN,0>(4,4,1); }
SX_ENTRY_THOROUGH(his2_3){ history<C3,1>(2,2,2); }
// larger structured trees: arbitrary erasures and insertions
template<class C> void big(int n,int k){ C c; int shape=sx_choose(3); for (int i=0;i<n;i++) { int key= shape==0? i : shape==1? n-i : (i&1)? n-i/2 : i/2; put(c,El(i,2*key,i,0)); } all_ranks(c);
  for (int i=0;i<k;i++) { int p=sx_choose((int)c.size()); c.erase(nth_it(c,p)); all_ranks(c); } put(c,El(30,sx_int(0,2*n+1),0,0)); all_ranks(c); }
SX_ENTRY(big_n){ big<CN>(12,2); }
SX_ENTRY(big_u){ big<CU>(16,1); }
SX_ENTRY_THOROUGH(big_n3){ big<CN>(14,3); }
SX_ENTRY(erase_all){ CN c; fill(c,5,4); while (c.size()) { c.erase(nth_it(c,sx_choose((int)c.size()>3?(int)c.size():1))); ranks(c); } }
SX_ENTRY(mod_big){ CU c; for (int i=0;i<9;i++) put(c,El(i,2*i,0,0)); int a=sx_int(0,19); c.modify(nth_it(c,sx_choose(9)),[=](El& e){ e.a=a; }); all_ranks(c); int b=sx_int(0,19); int p=sx_choose(8); c.replace(nth_it(c,p),El(20,b,0,0)); all_ranks(c); observe(c); }
