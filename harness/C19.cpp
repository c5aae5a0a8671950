// BOUND: containers of 1-4 indices covering every index kind, up to 4 elements with every key and collision pattern; iterators of every index (and a pointer) to every element, plus end iterators, kept over every history of 1-2 operations of 14 kinds on any element; projection between every pair of indices, by number and by tag, member and global, const and non-const
#include "hx.h"
#include <tuple>
using namespace mi;
struct t0{}; struct t1{}; struct t2{}; struct t3{};
typedef multi_index_container<El,indexed_by<ordered_unique<tag<t0>,KI>,sequenced<tag<t1>>,hashed_non_unique<tag<t2>,KA,HSym>>> V1;
typedef multi_index_container<El,indexed_by<random_access<tag<t0>>,ranked_non_unique<tag<t1>,KA>,hashed_unique<tag<t2>,KI,HLow>,sequenced<tag<t3>>>> V2;
typedef multi_index_container<El,indexed_by<hashed_non_unique<tag<t0>,KA,HSym>,random_access<tag<t1>>,ordered_non_unique<tag<t2>,KB>>> V3;
typedef multi_index_container<El,indexed_by<ranked_unique<tag<t0>,KI>>> V4;
typedef multi_index_container<El,indexed_by<sequenced<tag<t0>>,sequenced<tag<t1>>,random_access<tag<t2>>>> V5;
template<class C> struct tags; template<int N> struct tg; template<> struct tg<0>{ typedef t0 T; }; template<> struct tg<1>{ typedef t1 T; }; template<> struct tg<2>{ typedef t2 T; }; template<> struct tg<3>{ typedef t3 T; };
static int nid, KN=2;
static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,1),0); }
template<class C,class S> struct Its_; template<class C,size_t... I> struct Its_<C,std::index_sequence<I...>> { std::tuple<typename ix<C,I>::type::iterator...> it; std::tuple<typename ix<C,I>::type::const_iterator...> ci; };
template<class C> struct Its : Its_<C,std::make_index_sequence<nidx<C>()>> {};
// it (of index I) denotes e, or is the end when e is null; projections to every index
template<class C,int I> void denotes(C& c,typename ix<C,I>::type::iterator it,const El* e){
  const C& cc=c; auto& x=c.template get<I>(); const auto& cx=cc.template get<I>(); typename ix<C,I>::type::const_iterator ci=it; int n=(int)c.size();
  if (e) { sx_check(&*it==e&&it->id==e->id,"iterator-lost-its-element"); sx_check(it==x.iterator_to(*e)&&ci==cx.iterator_to(*e),"iterator_to"); } else { sx_check(it==x.end()&&ci==cx.end(),"end-moved"); }
  int m=0,at=0; for (auto& z: x) { if (&z==e) break; at++; } for (auto k=it; k!=x.end(); ++k) { sx_check(m<n,"iterator-runs-away"); m++; } sx_check(m==n-at,"iterator-place");
  if constexpr (ix<C,I>::bidir) { m=0; for (auto k=ci; k!=cx.begin(); --k) { sx_check(m<n,"iterator-runs-away"); m++; } sx_check(m==at,"iterator-place"); }
  each<C>([&](auto K){ auto& y=c.template get<K.value>(); const auto& cy=cc.template get<K.value>(); typedef typename tg<K.value>::T T;
    auto p=c.template project<K.value>(it); auto q=cc.template project<K.value>(ci); auto r=c.template project<T>(it); auto s=cc.template project<T>(it); auto g=mi::project<K.value>(c,it); auto h=mi::project<K.value>(cc,ci); auto u=mi::project<T>(c,it);
    static_assert(std::is_same<decltype(p),typename ix<C,K.value>::type::iterator>::value&&std::is_same<decltype(q),typename ix<C,K.value>::type::const_iterator>::value,"");
    if (e) sx_check(&*p==e&&&*q==e&&p==y.iterator_to(*e)&&q==cy.iterator_to(*e),"project"); else sx_check(p==y.end()&&q==cy.end(),"project-end");
    sx_check(r==p&&s==q&&g==p&&h==q&&u==p,"project-forms");
    auto back=c.template project<I>(p); sx_check(back==it,"project-round-trip");
    // the projected iterator is a working iterator of its index
    if (!e&&n) { if constexpr (ix<C,K.value>::bidir) { auto k=p; --k; int j=0; const El* last=0; for (auto& z: y) { last=&z; j++; } sx_check(&*k==last,"project-end-decrement"); } }
    else if (e) { auto k=p; ++k; auto w=y.begin(); while (&*w!=e) ++w; ++w; sx_check(k==w,"project-increment"); } });
}
template<class C> void op(C& c,const El* e,int which){
  int n=(int)c.size(); 
  auto other=[&](auto& x,int& p){ p=sx_choose(n); auto it=nth_it(x,p); return it; };
  switch (which) {
  case 0: put(c,fresh()); break;
  case 1: { int j=sx_choose(nidx<C>()); at<C>(j,[&](auto J){ auto& x=c.template get<J.value>(); int p; auto it=other(x,p); if (&*it!=e) x.erase(it); }); break; }
  case 2: each<C>([&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); if constexpr (X::kind==HSH) x.rehash(100); else if constexpr (X::kind==RND) x.reserve(40); else if constexpr (X::kind==SEQ) x.reverse(); }); break;
  case 3: each<C>([&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); if constexpr (X::kind==HSH) { x.max_load_factor(0.02f); } else if constexpr (X::kind==RND) x.shrink_to_fit(); }); put(c,fresh()); break;
  case 4: each<C>([&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); if constexpr (X::positional) x.sort([](const El& a,const El& b){ return a.a<b.a; }); }); break;
  case 5: each<C>([&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); if constexpr (X::positional) { int p; auto it=other(x,p); x.relocate(nth_it(x,sx_choose(n+1)),it); } }); break;
  case 6: { auto& x=c.template get<0>(); int p; auto it=other(x,p); int v=sx_int(0,KN-1); x.modify(it,[&](El& z){ z.a=v; z.b=1-z.b; }); break; }
  case 7: { auto& x=c.template get<0>(); int p; auto it=other(x,p); El v=*it; v.a=sx_int(0,KN-1); v.b=0; x.replace(it,v); break; }
  case 8: each<C>([&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); if constexpr (X::positional) x.remove_if([&](const El& z){ return &z!=e&&z.b==1; }); }); break;
  case 9: { C d; put(d,fresh()); put(d,fresh()); auto& x=c.template get<0>(); auto& y=d.template get<0>(); if constexpr (ix<C,0>::positional) x.splice(x.begin(),y); else x.merge(y); break; }
  case 10: { int j=sx_choose(nidx<C>()); at<C>(j,[&](auto J){ auto& x=c.template get<J.value>(); int p; auto it=other(x,p); if (&*it==e) return; auto h=x.extract(it); h.value().a=0; if constexpr (ix<C,J.value>::positional) x.insert(x.begin(),std::move(h)); else x.insert(std::move(h)); }); break; }
  case 11: each<C>([&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); if constexpr (X::positional) { std::reference_wrapper<const El>* v[1]; (void)v; std::reference_wrapper<const El> o[8]={*x.begin(),*x.begin(),*x.begin(),*x.begin(),*x.begin(),*x.begin(),*x.begin(),*x.begin()}; int i=n; for (auto& z: x) o[--i]=std::cref(z); x.rearrange(o); } }); break;
  case 12: { C d(c); C f; f=c; d=std::move(f); break; }
  case 13: { auto& x=c.template get<0>(); for (auto it=x.begin(); it!=x.end(); ) if (&*it!=e) it=x.erase(it); else ++it; break; }
  case 14: { auto& x=c.template get<0>(); auto it=x.iterator_to(*e); int v=sx_int(0,KN-1); x.modify(it,[&](El& z){ z.a=v; z.b=1; }); break; }
  } }
enum { NOP=15 };
template<class C> void run(int n,int ops,uint32_t set=0x7fff){
  nid=1; C c; for (int i=0;i<n;i++) put(c,fresh()); n=(int)c.size(); int k=sx_choose(n); const El* e=0; { auto& x=c.template get<0>(); auto it=nth_it(x,k); e=&*it; } int id=e->id;
  Its<C> its,ends; each<C>([&](auto I){ auto& x=c.template get<I.value>(); std::get<I.value>(its.it)=x.iterator_to(*e); std::get<I.value>(ends.it)=x.end(); });
  for (int o=0;o<ops;o++) { int w=sx_choose(NOP); if (!(set>>w&1)) return; op(c,e,w); if ((int)c.size()>8) return; }
  sx_check(e->id==id,"element-changed-identity");
  each<C>([&](auto I){ denotes<C,I.value>(c,std::get<I.value>(its.it),e); denotes<C,I.value>(c,std::get<I.value>(ends.it),0); });
  verify(c); observe(c); sx_reach("kept"); }
SX_ENTRY(v1){ hx_buckets(2); run<V1>(3,1); }
SX_ENTRY(v2){ run<V2>(3,1); }
SX_ENTRY(v3){ hx_buckets(2); run<V3>(3,1); }
SX_ENTRY(v4){ run<V4>(3,2,0x76cf); }
SX_ENTRY(v5){ KN=2; run<V5>(3,1); }
SX_ENTRY(w1){ KN=1; hx_buckets(1); run<V1>(2,2); }
SX_ENTRY(w3){ KN=2; hx_buckets(2); run<V3>(2,2); }
SX_ENTRY(w2){ run<V2>(2,2); }
SX_ENTRY(w5){ run<V5>(2,2); }
SX_ENTRY_THOROUGH(x1){ hx_buckets(2); run<V1>(4,1); }
SX_ENTRY_THOROUGH(x2){ run<V2>(4,1); }
SX_ENTRY(x3){ KN=2; hx_buckets(2); run<V3>(4,1); }
SX_ENTRY_THOROUGH(x33){ KN=3; hx_buckets(3); run<V3>(4,1); }
SX_ENTRY(empty1){ V1 c; each<V1>([&](auto I){ denotes<V1,I.value>(c,c.get<I.value>().end(),0); sx_check(c.get<I.value>().begin()==c.get<I.value>().end(),"empty"); }); }
SX_ENTRY(empty2){ V2 c; each<V2>([&](auto I){ denotes<V2,I.value>(c,c.get<I.value>().end(),0); }); }
SX_ENTRY_THOROUGH(yy1){ KN=2; hx_buckets(2); run<V1>(3,2); }
SX_ENTRY_THOROUGH(yy2){ run<V2>(3,2); }
SX_ENTRY_THOROUGH(yy3){ KN=1; hx_buckets(1); run<V3>(2,3); }
