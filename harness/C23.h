#pragma once
#include "hx.h"
#include "fx.h"
#include "ar.h"
using namespace mi;
static int nid, KN=2; static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,1),sx_any_int()); }
template<class C> auto putv(C& c,const El& e){ auto& x=c.template get<0>(); if constexpr (ix<C,0>::positional) return x.push_back(e); else return x.insert(e); }
// any permutation of a positional index
template<class X> void permute(X& x){ int n=(int)x.size(); std::reference_wrapper<const El>* v=0; (void)v; const El* e[MAXN]; int m=0; for (auto& z: x) e[m++]=&z; if (n<2) return; const El* o[MAXN]; int left=(1<<n)-1; for (int i=0;i<n;i++) { int rest=0; for (int j=0;j<n;j++) rest+=left>>j&1; int k=sx_choose(rest); int j=0; for (;;j++) if (left>>j&1) { if (k--==0) break; } left&=~(1<<j); o[i]=e[j]; }
  for (int i=0;i<n;i++) x.relocate(x.end(),x.iterator_to(*o[i])); }
// what a container shows: ids in iteration order for each index
template<class C> struct Image { enum { N=nidx<C>() }; int n; int s[N][MAXN]; El v[MAXN]; 
  explicit Image(const C& c){ n=(int)c.size(); each<C>([&](auto I){ int i=0; for (auto& e: c.template get<I.value>()) { sx_check(i<n,"image"); s[I.value][i++]=e.id; } }); int i=0; for (auto& e: c.template get<0>()) v[i++]=e; }
  // d shows the same: same order in all indices but hashed ones, same groups in those
  void restored(const C& d) const { sx_check((int)d.size()==n,"restored-size"); each<C>([&](auto I){ typedef ix<C,I.value> X; int i=0; uint32_t a=0,b=0; for (auto& e: d.template get<I.value>()) { sx_check(i<n,"restored-more"); if (X::kind!=HSH) sx_check(e.id==s[I.value][i],"restored-order"); a|=1u<<e.id; b|=1u<<s[I.value][i]; i++; } sx_check(i==n&&a==b,"restored-content"); });
    for (auto& e: d.template get<0>()) { int ok=0; for (int i=0;i<n;i++) if (v[i].id==e.id) ok=(v[i].a==e.a)&(v[i].b==e.b)&(v[i].c==e.c); sx_check(ok,"restored-value"); } } 
  void unchanged(const C& c) const { sx_check((int)c.size()==n,"saving-changed"); each<C>([&](auto I){ int i=0; for (auto& e: c.template get<I.value>()) sx_check(i<n&&e.id==s[I.value][i++],"saving-changed"); }); } };
