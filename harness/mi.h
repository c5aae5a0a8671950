// Shared harness parts: element type, index traits, an invariant checker and
// a naive reference container (per-index sequences of ids).
#pragma once
#ifndef BOOST_EXCEPTION_DISABLE
#define BOOST_EXCEPTION_DISABLE
#endif
#include "sx.h"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/identity.hpp>
#include <utility>
#include <functional>
#include <type_traits>
#include <iterator>
namespace mi = boost::multi_index;

struct El { int id,a,b,c; El(int i=0,int x=0,int y=0,int z=0):id(i),a(x),b(y),c(z){} };
template<class V> struct K { typedef mi::member<V,int,&V::id> ID; typedef mi::member<V,int,&V::a> A; typedef mi::member<V,int,&V::b> B; typedef mi::member<V,int,&V::c> Cc; };
typedef K<El>::A KA; typedef K<El>::B KB; typedef K<El>::Cc KC;
typedef K<El>::ID KI;

// user hash: few distinct values, one of them the largest
struct HLow { size_t operator()(int k) const { return (size_t)(unsigned)(k&1); } };
struct HId { size_t operator()(int k) const { return (size_t)(unsigned)k; } };
struct HWild { size_t operator()(int k) const { return (size_t)0-(size_t)(unsigned)(k&1); } };

enum { ORD, RNK, HSH, SEQ, RND };
template<class S> struct spec;
template<class A,class B,class C> struct spec<mi::ordered_unique<A,B,C>> { enum { kind=ORD, uniq=1 }; };
template<class A,class B,class C> struct spec<mi::ordered_non_unique<A,B,C>> { enum { kind=ORD, uniq=0 }; };
template<class A,class B,class C> struct spec<mi::ranked_unique<A,B,C>> { enum { kind=RNK, uniq=1 }; };
template<class A,class B,class C> struct spec<mi::ranked_non_unique<A,B,C>> { enum { kind=RNK, uniq=0 }; };
template<class A,class B,class C,class D> struct spec<mi::hashed_unique<A,B,C,D>> { enum { kind=HSH, uniq=1 }; };
template<class A,class B,class C,class D> struct spec<mi::hashed_non_unique<A,B,C,D>> { enum { kind=HSH, uniq=0 }; };
template<class T> struct spec<mi::sequenced<T>> { enum { kind=SEQ, uniq=0 }; };
template<class T> struct spec<mi::random_access<T>> { enum { kind=RND, uniq=0 }; };

template<class C> constexpr int nidx(){ return boost::mpl::size<typename C::index_type_list>::value; }
template<class C,int I> struct ix {
  typedef typename mi::nth_index<C,I>::type type;
  typedef spec<typename boost::mpl::at_c<typename C::index_specifier_type_list,I>::type> sp;
  enum { kind=sp::kind, uniq=sp::uniq, ordered=(kind==ORD||kind==RNK), keyed=(ordered||kind==HSH), bidir=(kind!=HSH), positional=(kind==SEQ||kind==RND) };
};
// static loop: f(std::integral_constant<int,I>) for each index
template<class C,class F,int I=0> void each(F f){ if constexpr (I<nidx<C>()) { f(std::integral_constant<int,I>()); each<C,F,I+1>(f); } }
// run f on index number i
template<class C,class F> void at(int i,F f){ each<C>([&](auto I){ if (I.value==i) f(I); }); }

const int MAXN=16, MAXID=32;

// ---- structural consistency of every index, from public operations only ----
// (elements are told apart by address: several may carry the same id)
template<class C> void verify(const C& c){
  const size_t n=c.size(); typedef typename C::value_type V;
  const V* first[MAXN];
  sx_check(c.empty()==(n==0),"empty-vs-size");
  each<C>([&](auto I){
    typedef ix<C,I.value> X; const typename X::type& x=c.template get<I.value>();
    sx_check(x.size()==n,"size-differs-between-indices"); sx_check(x.empty()==(n==0),"index-empty");
    const V* s[MAXN]; size_t m=0; uint32_t seen=0;
    for (auto it=x.begin(); it!=x.end(); ++it) { sx_check(m<n,"iteration-longer-than-size"); s[m]=&*it;
      if (I.value==0) { for (size_t j=0;j<m;j++) sx_check(s[j]!=s[m],"element-visited-twice"); first[m]=s[m]; }
      else { size_t j=0; while (j<n&&first[j]!=s[m]) j++; sx_check(j<n,"element-not-in-first-index"); sx_check(!((seen>>j)&1),"element-visited-twice"); seen|=1u<<j; }
      m++; }
    sx_check(m==n,"iteration-shorter-than-size");
    if constexpr (X::bidir) { size_t j=n; auto it=x.end(); while (it!=x.begin()) { sx_check(j>0,"reverse-longer"); --it; --j; sx_check(&*it==s[j],"reverse-iteration-differs"); } sx_check(j==0,"reverse-shorter");
      j=n; for (auto r=x.rbegin(); r!=x.rend(); ++r) { sx_check(j>0,"rbegin-longer"); --j; sx_check(&*r==s[j],"rbegin-differs"); } sx_check(j==0,"rbegin-shorter"); }
    if constexpr (X::keyed) { auto k=x.key_extractor(); 
      if constexpr (X::ordered) { auto cmp=x.value_comp(); int ok=1; for (size_t i=1;i<n;i++) { ok&=!cmp(*s[i],*s[i-1]); if (X::uniq) ok&=cmp(*s[i-1],*s[i]); } sx_check(ok,"key-order"); }
      else { auto eq=x.key_eq(); int ok=1; for (size_t i=0;i<n;i++) for (size_t j=i+1;j<n;j++) { int e=eq(k(*s[i]),k(*s[j])); if (X::uniq) ok&=!e; else if (j>i+1) ok&=(!e)|(int)eq(k(*s[j-1]),k(*s[j])); } sx_check(ok,"hashed-grouping"); } }
    if constexpr (X::kind==RNK) { for (size_t i=0;i<n;i++) { auto it=x.nth(i); sx_check(&*it==s[i],"nth"); sx_check(x.rank(it)==i,"rank"); } sx_check(x.nth(n)==x.end()&&x.rank(x.end())==n,"rank-end"); }
    if constexpr (X::kind==RND) { for (size_t i=0;i<n;i++) sx_check(&x[i]==s[i]&&(x.begin()+i)-x.begin()==(std::ptrdiff_t)i,"random-access-position"); sx_check(x.end()-x.begin()==(std::ptrdiff_t)n,"random-access-distance"); }
    if constexpr (X::kind==RND||X::kind==SEQ) if (n) sx_check(&x.front()==s[0]&&&x.back()==s[n-1],"front-back");
  });
}
// every element is found by its key in every keyed index
template<class C> void verify_find(const C& c){
  each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::keyed) { const typename X::type& x=c.template get<I.value>(); auto k=x.key_extractor();
    for (auto it=x.begin(); it!=x.end(); ++it) { auto r=x.equal_range(k(*it)); bool found=false; size_t m=0; for (auto j=r.first;j!=r.second;++j,++m) if (j==it) found=true; sx_check(found,"element-not-found-by-key"); sx_check(x.count(k(*it))==m,"count-differs"); } } });
}

// ---- reference container: for each index the sequence of ids --------------
template<class C> struct Ref {
  typedef typename C::value_type V; enum { N=nidx<C>() };
  int n=0; int seq[N][MAXN]; El val[MAXID]; const V* ptr[MAXID];
  template<int I> static int key(const C& c,const El& e){ return c.template get<I>().key_extractor()(reinterpret_cast<const V&>(e)); }
  Ref(){ for(int i=0;i<MAXID;i++) ptr[i]=0; }
  template<class F> static void fields(F){}
  template<class A,class B> static void cp(A& d,const B& s){ d.id=s.id; d.a=s.a; d.b=s.b; d.c=s.c; }
  // does x (as a value) collide with an element other than `except` in some unique index?
  int conflict(const C& c,const V& x,int except=-1) const { int r=0; each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::uniq) { for (int i=0;i<n;i++) { int id=seq[0][i]; if (id!=except) r|=same<I.value>(c,x,*ptr[id]); } } }); return r; }
  template<int I> static int same(const C& c,const V& x,const V& y){ typedef ix<C,I> X; const typename X::type& t=c.template get<I>(); auto k=t.key_extractor(); if constexpr (X::ordered) { auto l=t.key_comp(); return (int)!l(k(x),k(y)) & (int)!l(k(y),k(x)); } else return (int)t.key_eq()(k(x),k(y)); }
  static int pos_in(const int* s,int n,int id){ for (int i=0;i<n;i++) if (s[i]==id) return i; return n; }
  static void ins(int* s,int n,int p,int id){ for (int i=n;i>p;i--) s[i]=s[i-1]; s[p]=id; }
  static void del(int* s,int n,int p){ for (int i=p;i+1<n;i++) s[i]=s[i+1]; }
  // number of elements whose key is <= (upper) / < (lower) key of x in ordered index I, not counting `except`
  template<int I> int ub(const C& c,const V& x,int except=-1) const { const auto& t=c.template get<I>(); auto l=t.key_comp(); auto k=t.key_extractor(); int r=0; for (int i=0;i<n;i++) if (seq[I][i]!=except) r+=(int)!l(k(x),k(*ptr[seq[I][i]])); return (int)sx_concretize((unsigned)r); }
  template<int I> int lb(const C& c,const V& x,int except=-1) const { const auto& t=c.template get<I>(); auto l=t.key_comp(); auto k=t.key_extractor(); int r=0; for (int i=0;i<n;i++) if (seq[I][i]!=except) r+=(int)l(k(*ptr[seq[I][i]]),k(x)); return (int)sx_concretize((unsigned)r); }
  // record an accepted insertion of *p; at[] gives the position for positional indices (-1: end),
  // for ordered ones the hint position (-1: no hint)
  void insert(const C& c,const V* p,int idx=-1,int at=-1){
    int id=p->id; 
    each<C>([&](auto I){ typedef ix<C,I.value> X; int q=n; int h=(I.value==idx)?at:-1;
      if constexpr (X::ordered) { int lo=lb<I.value>(c,*p),hi=ub<I.value>(c,*p); q=hi; if (h>=0) q = h<lo?lo : h>hi?hi : h;
        else if (at>=0) { // hinted through another index: any place among its equivalents is right
          const auto& x=c.template get<I.value>(); int m=0; for (auto it=x.begin(); it!=x.end()&&&*it!=p; ++it) m++; sx_check(m>=lo&&m<=hi,"hinted-insertion-order"); q=m; } }
      else if constexpr (X::positional) { if (h>=0) q=h; }
      ins(seq[I.value],n,q,id); });
    ptr[id]=p; cp(val[id],*p); n++;
  }
  void erase(int id){ each<C>([&](auto I){ int p=pos_in(seq[I.value],n,id); del(seq[I.value],n,p); }); ptr[id]=0; n--; }
  void clear(){ for(int i=0;i<n;i++) ptr[seq[0][i]]=0; n=0; }
  // element id changed its value in place (already visible through ptr): re-place it in ordered
  // indices where the old value is no longer at its place. oldv is the previous value.
  // documented: elements whose key did not change keep their position
  void changed(const C& c,int id){ const V& x=*ptr[id];
    each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::ordered) { const auto& t=c.template get<I.value>(); auto l=t.key_comp(); auto k=t.key_extractor(); int p=pos_in(seq[I.value],n,id); int ok=1;
        if (p>0) { int e=!l(k(x),k(*ptr[seq[I.value][p-1]])); ok&=e; } if (p+1<n) ok&=(int)!l(k(*ptr[seq[I.value][p+1]]),k(x));
        if (!sx_concretize((unsigned)ok)) { moved[I.value]=1; del(seq[I.value],n,p); n--; int q=ub<I.value>(c,x); ins(seq[I.value],n,q,id); n++; } } });
    cp(val[id],x); }
  int moved[N+1]={};
  int pos(int I,int id) const { return pos_in(seq[I],n,id); }
  // the container shows exactly these sequences (sets for hashed indices), same objects, same values
  void compare(const C& c,bool ordpos=true) const {
    sx_check((int)c.size()==n,"ref-size");
    each<C>([&](auto I){ typedef ix<C,I.value> X; const auto& x=c.template get<I.value>(); int i=0; uint32_t mask=0,want=0; for (int j=0;j<n;j++) want|=1u<<seq[I.value][j];
      for (auto it=x.begin(); it!=x.end(); ++it,++i) { sx_check(i<n,"ref-too-many"); int id=it->id; sx_check(id>=0&&id<MAXID&&ptr[id]==&*it,"ref-other-object"); sx_check(!((mask>>id)&1),"ref-twice"); mask|=1u<<id;
        if (X::kind!=HSH && (ordpos||X::positional)) sx_check(seq[I.value][i]==id,"ref-order"); }
      sx_check(i==n&&mask==want,"ref-content"); });
    int ok=1; for (int j=0;j<n;j++) { int id=seq[0][j]; ok&=(ptr[id]->a==val[id].a)&(ptr[id]->b==val[id].b)&(ptr[id]->c==val[id].c); } sx_check(ok,"ref-value");
  }
};

// exact image of a container: per index the sequence of objects and their values
template<class C> struct Snap {
  typedef typename C::value_type V; enum { N=nidx<C>() }; int n; const V* s[N][MAXN]; El v[MAXN];
  explicit Snap(const C& c){ take(c); }
  void take(const C& c){ n=(int)c.size(); each<C>([&](auto I){ const auto& x=c.template get<I.value>(); int i=0; for (auto it=x.begin(); it!=x.end()&&i<n; ++it,++i) s[I.value][i]=&*it; sx_check(i==n,"snap-size"); }); for (int i=0;i<n;i++) { v[i].id=s[0][i]->id; v[i].a=s[0][i]->a; v[i].b=s[0][i]->b; v[i].c=s[0][i]->c; } }
  void same(const C& c,const char* label,bool hashed_order=true) const { sx_check((int)c.size()==n,label); each<C>([&](auto I){ typedef ix<C,I.value> X; const auto& x=c.template get<I.value>(); int i=0; for (auto it=x.begin(); it!=x.end(); ++it,++i) { sx_check(i<n,label); if (X::kind!=HSH||hashed_order) sx_check(s[I.value][i]==&*it,label); } sx_check(i==n,label); });
    int ok=1; for (int i=0;i<n;i++) { const V& e=*s[0][i]; ok&=(v[i].id==e.id)&(v[i].a==e.a)&(v[i].b==e.b)&(v[i].c==e.c); } sx_check(ok,label); }
};
// digest of everything visible, for comparison with the native run
template<class C> void observe(const C& c){ sx_observe(c.size()); each<C>([&](auto I){ const auto& x=c.template get<I.value>(); for (auto it=x.begin(); it!=x.end(); ++it) sx_observe((uint64_t)(unsigned)it->id); }); const auto& x=c.template get<0>(); for (auto it=x.begin();it!=x.end();++it) { sx_observe((uint64_t)(unsigned)it->a); } }
template<class X> auto nth_it(X& x,int p){ auto it=x.begin(); while (p-->0) ++it; return it; }

// plain insertion through index 0
template<class C,class E2> auto put(C& c,const E2& e){ if constexpr (ix<C,0>::positional) return c.push_back(typename C::value_type(e.id,e.a,e.b,e.c)); else return c.insert(typename C::value_type(e.id,e.a,e.b,e.c)); }
