// copies, moves and swaps: stateful functors, configurations
#include "fx.h"
#include <initializer_list>
using namespace mi;
inline bool operator==(const Ef& x,const Ef& y){ return (x.id==y.id)&(x.a==y.a)&(x.b==y.b)&(x.c==y.c); } inline bool operator!=(const Ef& x,const Ef& y){ return !(x==y); }
inline bool operator<(const Ef& x,const Ef& y){ return x.id<y.id; }
struct SKey { typedef int result_type; int f; SKey(int i=0):f(i){} int operator()(const Ef& e) const { e.ok(); fx_tick(FX_KEY); return f==0? e.a : e.b; } };
struct SLess { int dir; SLess(int i=0):dir(i){} bool operator()(int x,int y) const { fx_tick(FX_CMP); return dir? y<x : x<y; } };
struct SHash { int m; SHash(int i=0):m(i){} size_t operator()(int k) const { fx_tick(FX_HASH); return HSym()(m? k>>1 : k); } };
struct SEq { int m; SEq(int i=0):m(i){} bool operator()(int x,int y) const { fx_tick(FX_EQ); return m? (x>>1)==(y>>1) : x==y; } };
template<class F> bool st(const F&,int){ return true; } static bool st(const SKey& k,int s){ return k.f==s; } static bool st(const SLess& k,int s){ return k.dir==s; } static bool st(const SHash& k,int s){ return k.m==s; } static bool st(const SEq& k,int s){ return k.m==s; }
template<class F> F fn(int s){ if constexpr (std::is_constructible<F,int>::value) return F(s); else return F(); }
// constructor arguments with functor states f (key), d (order), m (hash and equality)
template<class T> T mkargs(int f,int d,int m){ namespace bt=boost::tuples; const int n=bt::length<T>::value;
  if constexpr (n==2) return T(fn<typename bt::element<0,T>::type>(f),fn<typename bt::element<1,T>::type>(d));
  else if constexpr (n==4) return T(0,fn<typename bt::element<1,T>::type>(f),fn<typename bt::element<2,T>::type>(m),fn<typename bt::element<3,T>::type>(m));
  else return T(); }
template<class L> L mklist(int f,int d,int m){ if constexpr (std::is_same<L,boost::tuples::null_type>::value) return L(); else return L(mkargs<typename L::head_type>(f,d,m),mklist<typename L::tail_type>(f,d,m)); }
template<class C> typename C::ctor_args_list args(int f=0,int d=0,int m=0){ return mklist<typename C::ctor_args_list>(f,d,m); }
struct St { int f,d,m; };
static St anyst(){ int k=sx_choose(4); return k==0? St{0,0,0} : k==1? St{1,0,0} : k==2? St{0,1,0} : St{0,0,1}; }
// functor states of every index
template<class C> void fnstate(const C& c,St s,const char* l){ each<C>([&](auto I){ typedef ix<C,I.value> X; const auto& x=c.template get<I.value>();
  if constexpr (X::keyed) { sx_check(st(x.key_extractor(),s.f),l); if constexpr (X::ordered) sx_check(st(x.key_comp(),s.d),l); else sx_check(st(x.hash_function(),s.m)&&st(x.key_eq(),s.m),l); } }); }
template<class C> void set_mlf(C& c,float f){ each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) c.template get<I.value>().max_load_factor(f); }); }
template<class C> void check_mlf(const C& c,float f,const char* l){ each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) { const auto& x=c.template get<I.value>(); sx_check(x.max_load_factor()==f,l); } }); }
template<class C> void load_ok(const C& c){ each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) { const auto& x=c.template get<I.value>(); sx_check(x.load_factor()<=x.max_load_factor(),"load-exceeds-maximum"); } }); }
typedef SKey KY;
template<int Pr> struct cfg { typedef TA<Ef,Pr> A;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<KY,SLess>,sequenced<>>,A> D1;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<KY,SHash,SEq>,random_access<>>,A> D2;
typedef multi_index_container<Ef,indexed_by<sequenced<>,ranked_non_unique<KY,SLess>,hashed_unique<XI,FHash2,FEq>>,A> D3;
typedef multi_index_container<Ef,indexed_by<random_access<>,ordered_unique<XI,SLess>,hashed_non_unique<KY,SHash,SEq>>,A> D4;
typedef multi_index_container<Ef,indexed_by<ranked_unique<XI,SLess>,ordered_non_unique<KY,SLess>>,A> D5;
typedef multi_index_container<Ef,indexed_by<hashed_unique<KY,SHash,SEq>>,A> D6;
typedef multi_index_container<Ef,indexed_by<random_access<>>,A> D7;
typedef multi_index_container<Ef,indexed_by<sequenced<>>,A> D8;
typedef multi_index_container<Ef,indexed_by<ordered_unique<KY,SLess>>,A> D9;
typedef multi_index_container<Ef,indexed_by<ranked_non_unique<KY,SLess>,random_access<>,sequenced<>,hashed_non_unique<KY,SHash,SEq>>,A> D0; };
static int nid, KN=3;
static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,1),0); }
// a history: insertions, then possibly an erasure, relocation, modification or reinsertion
template<class C> void history(C& c,int n,int h){
  for (int i=0;i<n;i++) put(c,fresh()); int m=(int)c.size(); if (!m) return;
  if (h==1) { auto& x=c.template get<0>(); x.erase(nth_it(x,sx_choose(m))); put(c,fresh()); }
  else if (h==2) { bool done=false; each<C>([&](auto I){ if constexpr (ix<C,I.value>::positional) if (!done) { done=true; auto& x=c.template get<I.value>(); auto it=nth_it(x,sx_choose(m)); x.relocate(nth_it(x,sx_choose(m)),it); } }); }
  else if (h==3) { auto& x=c.template get<0>(); int v=sx_int(0,KN-1); x.modify(nth_it(x,sx_choose(m)),[&](Ef& e){ e.a=v; }); }
}
// y is a copy of x: same values in the same order in every index, different objects
template<class C> void copy_of(const C& y,const C& x,bool objs=true){
  sx_check(y.size()==x.size(),"copy-size"); int ok=1;
  each<C>([&](auto I){ const auto& a=x.template get<I.value>(); const auto& b=y.template get<I.value>(); auto i=a.begin(); auto j=b.begin(); 
    for (; i!=a.end(); ++i,++j) { sx_check(j!=b.end(),"copy-shorter"); sx_check(j->id==i->id,"copy-order"); ok&=(int)(i->a==j->a)&(i->b==j->b)&(i->c==j->c); sx_check(&*i!=&*j,"copy-shares-object"); } sx_check(j==b.end(),"copy-longer"); });
  sx_check(ok,"copy-value"); }
// any change through any index
template<class C> void poke(C& c){
  int k=sx_choose(5);
  if (k==0) put(c,fresh());
  else if (k==1) c.clear();
  else if (c.size()) { if (k==2) { auto& x=c.template get<0>(); x.erase(nth_it(x,sx_choose((int)c.size()))); }
    else if (k==3) { auto& x=c.template get<0>(); int v=sx_int(0,KN-1); x.modify(nth_it(x,sx_choose((int)c.size())),[&](Ef& e){ e.a=v; e.c=7; }); }
    else each<C>([&](auto I){ auto& x=c.template get<I.value>(); if constexpr (ix<C,I.value>::positional) x.reverse(); else if constexpr (ix<C,I.value>::kind==HSH) x.rehash(60); }); } }
