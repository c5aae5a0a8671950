// BOUND: hashed indices (unique, non-unique; alone and with other indices) of up to 6 elements over up to 4 key values; every assignment of key values to buckets (all collision patterns, equal and different hash values); every key pattern; up to 2 arbitrary operations after the load; every probe key
#include "hx.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HSym>>> CU;
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HSym>>> CN;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HSym>,hashed_non_unique<KB,HSym>,sequenced<>>> C3;
typedef multi_index_container<El,indexed_by<sequenced<>,hashed_non_unique<KA,HSym>,ordered_unique<KB>>> C4;
static int nid;
struct Fa { int operator()(const El& e) const { return e.a; } };
struct Fb { int operator()(const El& e) const { return e.b; } };
template<class C> void hcheck(const C& c,int keys){
  sx_check(c.size()==c.template get<0>().size(),"size");
  each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::kind==HSH) { auto ke=c.template get<I.value>().key_extractor(); for (int q=0;q<=keys&&q<HK;q++) hx_lookup(c.template get<I.value>(),q,[&](const El& e){ return ke(e); },X::uniq); } });
}
// one probe key, chosen symbolically
template<class C> void probe(const C& c,int keys){ int q=sx_choose(keys+1); each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::kind==HSH) { auto ke=c.template get<I.value>().key_extractor(); hx_lookup(c.template get<I.value>(),q,[&](const El& e){ return ke(e); },X::uniq); } }); }
static int key(int k){ return sx_int(0,k-1); }
template<class C> void fill(C& c,int n,int k){ for (int i=0;i<n;i++) put(c,El(nid++,key(k),key(k),0)); }

template<class C,int I> void step(C& c,int k){
  auto& x=c.template get<I>(); int n=(int)x.size(); int op=sx_choose(14); typedef typename std::remove_reference<decltype(x)>::type X;
  if (op==0) { El ne(nid++,key(k),key(k),0); int a=x.key_extractor()(ne); int q=(int)x.count(a),sz=(int)c.size(); auto p=x.insert(ne); sx_check((int)c.size()==sz+(int)p.second,"insert-size"); sx_check((int)x.count(a)==q+(int)p.second,"insert-count"); }
  else if (op==1) { x.insert(nth_it(x,sx_choose(n+1)),El(nid++,key(k),key(k),0)); }
  else if (op==2) { int a=key(k); int q=(int)x.count(a),sz=(int)c.size(); size_t r=x.erase(a); sx_check((int)r==q,"erase-key-count"); sx_check((int)c.size()==sz-q,"erase-key-size"); sx_check(!x.contains(a),"erase-key-left"); }
  else if (op==3) { C d(c); hcheck(d,k); if (n) { d.template get<I>().erase(nth_it(d.template get<I>(),sx_choose(n))); hcheck(d,k); } sx_reach("copy"); }
  else if (op==4) { x.rehash(sx_choose(2)?97:200); }
  else if (op==5) { C d; int m=sx_choose(3); for (int i=0;i<m;i++) put(d,El(nid++,key(k),key(k),0)); if (sx_choose(2)) x.merge(d.template get<I>()); else { d.swap(c); } hcheck(d,k); }
  else if (n==0) return;
  else { int p=sx_choose(n); auto it=nth_it(x,p); const El* e=&*it; int id=e->id;
    if (op==6) { auto nx=it; ++nx; auto r=x.erase(it); sx_check(r==nx,"erase-returns-next"); }
    else if (op==7) { int q=p+sx_choose(n-p+1); auto l=nth_it(x,q); auto r=x.erase(it,l); sx_check(r==l,"erase-range-returns-last"); sx_check((int)c.size()==n-(q-p),"erase-range-size"); }
    else if (op==8) { int a=key(k),b=key(k); bool ok=x.modify(it,[=](El& z){ z.a=a; z.b=b; }); sx_check((int)c.size()==n-(ok?0:1),"modify-size"); if (ok) sx_check(&*it==e,"modify-iterator"); }
    else if (op==9) { int a=key(k),b=key(k); int oa=e->a,ob=e->b; bool ok=x.modify(it,[=](El& z){ z.a=a; z.b=b; },[=](El& z){ z.a=oa; z.b=ob; }); sx_check((int)c.size()==n,"modify-rollback-size"); sx_check((e->a==(ok?a:oa))&(e->b==(ok?b:ob)),"modify-rollback-value"); }
    else if (op==10) { int a=key(k); int* pa=&a; bool ok=x.modify_key(it,[=](int& z){ z=*pa; }); sx_check((int)c.size()==n-(ok?0:1),"modify_key-size"); }
    else if (op==11) { int a=key(k),b=key(k); bool ok=x.replace(it,El(id,a,b,0)); sx_check((int)c.size()==n,"replace-size"); if (ok) sx_check((e->a==a)&(e->b==b),"replace-value"); }
    else if (op==12) { auto nh=x.extract(it); hcheck(c,k); nh.value().a=key(k); auto r=x.insert(std::move(nh)); sx_check((int)c.size()==n-1+(int)r.inserted,"node-insert-size"); }
    else { if (sx_choose(2)) { c.clear(); sx_check(x.begin()==x.end()&&x.empty(),"clear"); } else { C d(std::move(c)); hcheck(d,k); hcheck(c,k); sx_check(c.empty(),"moved-from"); put(c,El(nid++,0,0,0)); hcheck(c,k); c=std::move(d); } }
  }
}
template<class C,int I> void run(int n,int k,int len,bool eq=false){ nid=0; { hx_buckets(k,eq); C c; fill(c,n,k); hcheck(c,k); for (int i=0;i<len;i++) step<C,I>(c,k); hcheck(c,k); verify(c); observe(c); sx_reach("end"); } }

SX_ENTRY(ins_u){ run<CU,0>(5,4,0); }
SX_ENTRY(ins_n){ run<CN,0>(5,3,0); }
SX_ENTRY(ins_n2){ run<CN,0>(7,2,0,true); }
SX_ENTRY(one_u){ run<CU,0>(3,3,1); }
SX_ENTRY(one_n){ run<CN,0>(4,3,1); }
SX_ENTRY(one_n3){ run<CN,0>(3,3,1); }
SX_ENTRY(one_ne){ run<CN,0>(3,2,1,true); }
SX_ENTRY(one_3){ run<C3,0>(2,2,1); }
SX_ENTRY(one_3b){ run<C3,1>(2,2,1); }
SX_ENTRY(one_4){ run<C4,1>(2,2,1); }
SX_ENTRY(two_u){ run<CU,0>(1,2,2); }
SX_ENTRY(two_n){ run<CN,0>(1,2,2); }
SX_ENTRY_THOROUGH(ins_u6){ run<CU,0>(5,5,0); }
SX_ENTRY_THOROUGH(ins_n6){ run<CN,0>(6,4,0); }
SX_ENTRY_THOROUGH(one_u4){ run<CU,0>(3,4,1); }
SX_ENTRY_THOROUGH(one_n6){ run<CN,0>(6,2,1); }
SX_ENTRY_THOROUGH(one_n5){ run<CN,0>(5,3,1); }
SX_ENTRY_THOROUGH(two_n3){ run<CN,0>(3,2,2); }
SX_ENTRY_THOROUGH(one_33){ run<C3,0>(3,2,1); }
SX_ENTRY_THOROUGH(one_43){ run<C4,1>(3,3,1); }

// large groups: every erasure/modification sequence inside groups of up to 6 next to another group
SX_ENTRY(groups){ nid=0; hx_tab[0]=7; hx_tab[1]=sx_choose(2)?7+53:8; hx_tab[2]=7+106; CN c; int g=1+sx_choose(6),h=sx_choose(3); bool mix=sx_choose(2);
  if (mix) for (int i=0;i<h;i++) put(c,El(nid++,1,0,0)); for (int i=0;i<g;i++) put(c,El(nid++,0,0,0)); if (!mix) for (int i=0;i<h;i++) put(c,El(nid++,1,0,0));
  hcheck(c,2); int n=(int)c.size(); auto it=nth_it(c,sx_choose(n)); int op=sx_choose(4); int a=sx_int(0,2);
  if (op==0) c.erase(it); else if (op==1) c.modify(it,[=](El& z){ z.a=a; }); else if (op==2) { c.replace(it,El(20,a,0,0)); } else { auto nh=c.extract(it); c.insert(std::move(nh)); }
  hcheck(c,2); n=(int)c.size(); if (n) { if (sx_choose(2)) c.erase(nth_it(c,sx_choose(n))); else c.insert(El(21,sx_int(0,2),0,0)); } hcheck(c,2); verify(c); observe(c); sx_reach("groups"); }

// lookup with compatible keys, hash and predicate; default hash and equality
struct Probe { int v; }; struct PHash { size_t operator()(Probe p) const { return HSym()(p.v); } }; struct PEq { bool operator()(Probe p,int k) const { return p.v==k; } };
template<class C> void compat(int n,int k){ nid=0; hx_buckets(k); C c; fill(c,n,k); int q=key(k+1 < HK? k+1:k); int m=0; for (auto& e: c) m+=e.a==q; m=(int)sx_concretize((unsigned)m); auto f=c.find(Probe{q},PHash(),PEq()); sx_check((f!=c.end())==(m>0),"compatible-find"); if (m) sx_check(f->a==q,"compatible-find-key");
  sx_check((int)c.count(Probe{q},PHash(),PEq())==m,"compatible-count"); sx_check(c.contains(Probe{q},PHash(),PEq())==(m>0),"compatible-contains"); auto r=c.equal_range(Probe{q},PHash(),PEq()); int j=0; for (auto i=r.first;i!=r.second;++i,++j) { sx_check(i!=c.end(),"compatible-range-end"); sx_check(i->a==q,"compatible-range"); } sx_check(j==m,"compatible-range-size"); sx_reach("compat"); }
SX_ENTRY(compat_u){ compat<CU>(3,3); }
SX_ENTRY(compat_n){ compat<CN>(4,3); }
// keys of user types with coarse equality: equality classes decide
struct HPar { size_t operator()(int k) const { return (size_t)(unsigned)(k&3)*53+5; } }; struct EPar { bool operator()(int a,int b) const { return ((a^b)&3)==0; } };
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HPar,EPar>>> CP; typedef multi_index_container<El,indexed_by<hashed_unique<KA,HPar,EPar>>> CPU;
template<class C> void coarse(bool uniq){ nid=0; C c; for (int i=0;i<4;i++) c.insert(El(nid++,sx_int(0,255)&7,0,0)); int q=sx_int(0,255)&7; int m=0; for (auto& e: c) m+=EPar()(e.a,q); sx_check((int)c.count(q)==m,"coarse-count"); auto f=c.find(q); sx_check((f!=c.end())==(m>0),"coarse-find"); auto r=c.equal_range(q); int j=0; for (auto i=r.first;i!=r.second;++i,++j) sx_check(EPar()(i->a,q),"coarse-range"); sx_check(j==m,"coarse-range-size"); if (uniq) sx_check(m<=1,"coarse-unique"); verify(c); }
SX_ENTRY(coarse_n){ coarse<CP>(false); }
SX_ENTRY(coarse_u){ coarse<CPU>(true); }
// boost::hash / std::equal_to on full-range keys
typedef multi_index_container<El,indexed_by<hashed_unique<KA>,hashed_non_unique<KB>>> CD;
SX_ENTRY(deflt){ CD c; int ks[3]; for (int i=0;i<3;i++) { ks[i]=sx_int(0,3)*16777259; c.insert(El(i,ks[i],ks[i]^1,0)); } int q=sx_int(0,3)*16777259; int m=0; for (auto& e: c) m+=e.a==q; sx_check((int)c.count(q)==m&&m<=1,"default-hash-count"); sx_check(c.contains(q)==(m>0),"default-contains"); int m2=0; for (auto& e: c) m2+=e.b==(q^1); sx_check((int)c.get<1>().count(q^1)==m2,"default-hash-count-2"); verify(c); verify_find(c); }
