// BOUND: splices between two positional indices of the same container (up to 3 elements, every order of the second, every position and range, end and foreign iterators); containers with unequal allocators; element access out of bounds with any index
#include "C24.h"
#include "fx.h"
typedef multi_index_container<El,indexed_by<sequenced<>,random_access<>,sequenced<>>> SRS;
typedef multi_index_container<El,indexed_by<random_access<>>> R;
typedef multi_index_container<El,indexed_by<sequenced<>,hashed_unique<KI,HLow>>,TA<El>> SHt;
typedef multi_index_container<El,indexed_by<ordered_unique<KI>,random_access<>>,TA<El>> ORt;
template<class C> int posof(C& x,int id){ int p=0; for (auto& e: x) { if (e.id==id) return p; p++; } return p; }
// x=index J, y=index K of the same container
template<class C,int J,int K> void cross(int n){ nid=0; try { C c,o; o.push_back(fresh()); auto& x=c.template get<J>(); auto& y=c.template get<K>(); for (int i=0;i<n;i++) c.push_back(fresh()); if (sx_choose(2)) y.reverse(); if (n) y.relocate(y.begin(),nth_it(y,sx_choose(n)));
    int op=sx_choose(3), p=sx_choose(n+1); bool foreign=sx_choose(2); auto pos= foreign? o.template get<J>().begin() : nth_it(x,p); unsigned m=foreign?OWN:0; Snap<C> before(c); int code=-1; int tid= !foreign&&p<n? nth_it(x,p)->id : -1;
    int ids[MAXN]; int cnt=0; int rest[MAXN]; int rn=0;
    if (op==0) { int i=sx_choose(n+1); auto it=nth_it(y,i); if (i==n) m|=DRF; else ids[cnt++]=it->id; try { x.splice(pos,y,it); } catch(const Report& r) { code=r.code; } }
    if (op==1) { int i=sx_choose(n+1),j=sx_choose(n+1); auto f=nth_it(y,i),l=nth_it(y,j); if (i>j) m|=RNG; else { bool in=false; for (int q=i;q<j;q++) { ids[cnt]=nth_it(y,q)->id; if (ids[cnt]==tid) in=true; cnt++; } if (in&&!m) m|=INS; } try { x.splice(pos,y,f,l); } catch(const Report& r) { code=r.code; } }
    if (op==2) { if (tid>=0) m|=INS; for (auto& e: y) ids[cnt++]=e.id; try { x.splice(pos,y); } catch(const Report& r) { code=r.code; } }
    if (m) { sx_check(code>=0,"misuse-not-reported"); sx_check((m>>code)&1,"misuse-reported-with-other-error"); before.same(c,"misuse-took-effect"); sx_reach("cross-misuse"); }
    else { sx_check(code<0,"correct-use-reported"); // the elements are now before tid in the order of y
      int z=0,at= cnt?posof(x,ids[0]):0; if (cnt&&!(cnt==1&&ids[0]==tid)) { for (auto& e: x) { if (z>=at&&z<at+cnt) sx_check(e.id==ids[z-at],"spliced-order"); z++; } auto nx=nth_it(x,at+cnt); sx_check(tid<0? nx==x.end() : nx!=x.end()&&nx->id==tid,"spliced-place"); } sx_reach("cross"); }
    (void)rest; (void)rn; verify(c); observe(c); } catch(const Report&) { sx_fail("correct-use-reported"); } }
SX_ENTRY(x_01){ cross<SRS,0,1>(3); }
SX_ENTRY(x_10){ cross<SRS,1,0>(3); }
SX_ENTRY(x_02){ cross<SRS,0,2>(3); }
SX_ENTRY(x_20){ cross<SRS,2,0>(3); }
SX_ENTRY_THOROUGH(x_014){ cross<SRS,0,1>(5); }
SX_ENTRY_THOROUGH(x_104){ cross<SRS,1,0>(5); }
// unequal allocators
template<class C> void alloc(){ nid=0; try { typedef typename C::allocator_type A; bool eq=sx_choose(2); C c{A(1)}; C d{A(eq?1:2)}; C e{A(1)}; auto put=[](C& c){ auto& x=c.template get<0>(); El v=fresh(); if constexpr (ix<C,0>::positional) x.push_back(v); else x.insert(v); };
    put(c); put(d); put(e); Snap<C> a(c),b(d); int op=sx_choose(4); int code=-1; auto h=e.extract(e.begin()); auto& x=d.template get<0>(); auto& y=d.template get<1>(); bool transferred=false;
    try { if (op==0) { if constexpr (ix<C,0>::positional) x.insert(x.end(),std::move(h)); else x.insert(std::move(h)); }
      if (op==1) { if constexpr (ix<C,1>::positional) y.insert(y.begin(),std::move(h)); else y.insert(std::move(h)); }
      if (op==2) { auto& w=c.template get<0>(); if constexpr (ix<C,0>::keyed) x.merge(w); else { typedef ix<C,1> X1; auto& w1=c.template get<1>(); static_assert(X1::keyed,""); y.merge(w1); } transferred=true; }
      if (op==3) { if constexpr (ix<C,0>::keyed) x.merge(c.template get<0>(),c.template get<0>().begin()); else y.merge(c.template get<1>(),c.template get<1>().begin()); transferred=true; } } catch(const Report& r) { code=r.code; }
    if (!eq) { sx_check(code==safe_mode::unequal_allocators,"unequal-allocators-not-reported"); a.same(c,"misuse-took-effect"); b.same(d,"misuse-took-effect"); if (op<2) sx_check(!h.empty(),"misuse-took-effect"); sx_reach("unequal"); } else { sx_check(code<0,"correct-use-reported"); sx_check(d.size()==2,"inserted"); if (transferred) sx_check(c.empty(),"transferred"); sx_reach("equal"); }
    typename C::node_type none; code=-1; try { if constexpr (ix<C,0>::positional) x.insert(x.end(),std::move(none)); else x.insert(std::move(none)); } catch(const Report& r) { code=r.code; } sx_check(code<0,"empty-handle-reported"); verify(c); verify(d); observe(d); } catch(const Report&) { sx_fail("correct-use-reported"); } }
SX_ENTRY(al_s){ alloc<SHt>(); }
SX_ENTRY(al_o){ alloc<ORt>(); }
// element access with any index
SX_ENTRY(acc){ nid=0; R c; int n=sx_choose(4); for (int i=0;i<n;i++) c.push_back(fresh()); const R& cc=c; uint64_t k=sx_u64(); bool in=(bool)sx_concretize((uint64_t)(k<(uint64_t)n)); int code=-1,v=-1; try { v=cc[in?sx_concretize(k):k].id; } catch(const Report& r) { code=r.code; } if (in) sx_check(code<0&&v==(int)k,"subscript"); else sx_check(code==safe_mode::out_of_bounds,"out-of-bounds-not-reported"); sx_reach("access"); }
// default constructed iterators of every kind, and iterators outliving their container
template<class C,int I> void outlive(){ typedef typename ix<C,I>::type X; nid=0; int st=sx_choose(4); typename X::iterator it,z; int code=-1; { C c; for (int i=0;i<2;i++) { if constexpr (ix<C,0>::positional) c.push_back(fresh()); else c.insert(fresh()); } auto& x=c.template get<I>(); if (st) it=nth_it(x,st-1); if (st==2) { C d(std::move(c)); } }
  int u=sx_choose(5); C d; auto& y=d.template get<I>(); try { if (u==0) (void)*it; if (u==1) ++it; if (u==2) (void)(it==y.end()); if (u==3) z=it; if (u==4) y.erase(it); } catch(const Report& r) { code=r.code; } sx_check(code==safe_mode::invalid_iterator,"dead-iterator-not-reported"); sx_reach("outlive"); }
SX_ENTRY(out_s){ outlive<SRS,0>(); outlive<SRS,1>(); }
SX_ENTRY(out_o){ typedef multi_index_container<El,indexed_by<ordered_unique<KI>,ranked_non_unique<KA>,hashed_non_unique<KB,HLow>>> Q; outlive<Q,0>(); outlive<Q,1>(); }
SX_ENTRY(out_h){ typedef multi_index_container<El,indexed_by<hashed_unique<KI,HLow>,hashed_non_unique<KB,HLow>>> Q; outlive<Q,0>(); outlive<Q,1>(); }
