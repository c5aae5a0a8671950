#include "C18.h"
// merge / splice from index J of d into index I of c, equal allocators
template<class C,int I,class D,int J> void transfer(int n,int m){ begin_end([&]{
  C c; D d; fill(c,n); fill(d,m); n=(int)c.size(); m=(int)d.size(); Seqs<C> sc(c); Seqs<D> sd(d); Snap<D> vd(d);
  auto& x=c.template get<I>(); auto& y=d.template get<J>(); int form=sx_choose(3),f=0,l=m,p=-1; if (form==1) { if (!m) return; f=sx_choose(m); l=f+1; } else if (form==2) { f=sx_choose(m+1); l=f+sx_choose(m-f+1); }
  if constexpr (ix<C,I>::positional) p=sx_choose(n+1);
  // expected
  const Ef* acc[MAXN]; int na=0; for (int t=f;t<l;t++) { const Ef* e=sd.s[J][t]; int r=0; for (auto& o: x) r|=clash1(c,*e,o); for (int u=0;u<na;u++) r|=clash1(c,*e,*acc[u]); if (!sx_concretize((unsigned)r)) acc[na++]=e; }
  // iterators to the first transferred element, or the first of the range
  const Ef* w= na? acc[sx_choose(na)] : 0; int made=ef_made,gone=ef_destroyed;
  auto body=[&](auto after){
    auto pos= p>=0? nth_it(x,p) : x.end(); auto a=nth_it(y,f),b=nth_it(y,l);
    if constexpr (ix<C,I>::positional) { if (form==0) x.splice(pos,y); else if (form==1) { auto r=x.splice(pos,y,a); sx_check(r.second==(na==1),"returned-success"); if (na) sx_check(&*r.first==w,"returned-position"); else sx_check(r.first!=x.end()&&sx_concretize((unsigned)clash1(c,*sd.s[J][f],*r.first)),"blocking-element"); } else x.splice(pos,y,a,b); }
    else { if (form==0) x.merge(y); else if (form==1) { auto r=x.merge(y,a); sx_check(r.second==(na==1),"returned-success"); if (na) sx_check(&*r.first==w,"returned-position"); else sx_check(r.first!=x.end()&&sx_concretize((unsigned)clash1(c,*sd.s[J][f],*r.first)),"blocking-element"); } else x.merge(y,a,b); }
    sx_check(ef_made==made&&ef_destroyed==gone,"element-copied-or-destroyed"); 
    received(c,sc,acc,na,I,p,false); sx_check((int)d.size()==m-na,"source-size");
    each<D>([&](auto K){ int t=0; for (auto& e: d.template get<K.value>()) { for (bool go=true; go&&t<m;) { go=false; for (int u=0;u<na;u++) if (acc[u]==sd.s[K.value][t]) { t++; go=true; break; } } sx_check(t<m&&sd.s[K.value][t]==&e,"refused-not-at-its-place"); t++; } });
    int ok=1; for (int t=0;t<m;t++) { const Ef& e=*vd.s[0][t]; ok&=(int)(vd.v[t].id==e.id)&(vd.v[t].a==e.a)&(vd.v[t].b==e.b)&(vd.v[t].c==e.c); } sx_check(ok,"value-changed");
    verify(c); verify(d); after(); };
  if (!w) body([]{}); else { int k=sx_choose(nidx<D>()); at<D>(k,[&](auto K){ if constexpr (same_it<C,D,K.value>()) { auto it=d.template get<K.value>().iterator_to(*w); body([&]{ works<C,K.value>(c,it,w); }); } else body([]{}); }); }
  if (na) sx_reach("moved"); if (na<l-f) sx_reach("refused"); 
  verify_find(c); verify_find(d); put(c,fresh()); put(d,fresh()); verify(c); verify(d); observe(c); observe(d); }); }
// the same container on both sides: nothing changes for merge
template<class C,int I,int J> void selfmerge(int n){ begin_end([&]{
  C c; fill(c,n); n=(int)c.size(); Snap<C> s(c); auto& x=c.template get<I>(); auto& y=c.template get<J>(); int form=sx_choose(3); 
  if (form==0) x.merge(y); else if (form==1) { if (!n) return; auto i=nth_it(y,sx_choose(n)); auto r=x.merge(y,i); sx_check(r.second&&&*r.first==&*i,"self-merge-result"); } else { int f=sx_choose(n+1),l=f+sx_choose(n-f+1); x.merge(y,nth_it(y,f),nth_it(y,l)); }
  s.same(c,"self-merge-changed"); verify(c); sx_reach("self"); }); }
// splice within one container through another index: the designated elements, in their order, before the position
template<class C,int I,int J> void selfsplice(int n){ begin_end([&]{
  C c; fill(c,n); n=(int)c.size(); if (!n) return; Snap<C> v(c); Seqs<C> s(c); auto& x=c.template get<I>(); auto& y=c.template get<J>(); int form=sx_choose(3),f=0,l=n,p=n; if (form==1) { f=sx_choose(n); l=f+1; p=sx_choose(n+1); } else if (form==2) { f=sx_choose(n+1); l=f+sx_choose(n-f+1); p=sx_choose(n+1); }
  const Ef* mv[MAXN]; int k=0; for (int t=f;t<l;t++) mv[k++]=s.s[J][t]; 
  if (form==2&&p<n) for (int t=0;t<k;t++) if (mv[t]==s.s[I][p]) return;      // excluded: position inside the range
  const Ef* want[MAXN]; int m=0; auto in=[&](const Ef* e){ for (int t=0;t<k;t++) if (mv[t]==e) return true; return false; };
  const Ef* stop= p<n? s.s[I][p] : 0; 
  if (form==1&&stop==mv[0]) { for (int t=0;t<n;t++) want[m++]=s.s[I][t]; } else { for (int t=0;t<n;t++) { if (s.s[I][t]==stop) for (int u=0;u<k;u++) want[m++]=mv[u]; if (!in(s.s[I][t])) want[m++]=s.s[I][t]; } if (!stop) for (int u=0;u<k;u++) want[m++]=mv[u]; }
  auto pos=nth_it(x,p); auto a=nth_it(y,f),b=nth_it(y,l);
  if (form==0) x.splice(pos,y); else if (form==1) { auto r=x.splice(pos,y,a); sx_check(r.second&&&*r.first==mv[0],"self-splice-result"); } else x.splice(pos,y,a,b);
  int i=0; for (auto& e: x) { sx_check(i<m&&want[i]==&e,"self-splice-order"); i++; } sx_check(i==n,"self-splice-size");
  each<C>([&](auto K){ if constexpr (K.value!=I) s.template same<K.value>(c,"other-index-changed"); }); verify(c); observe(c); sx_reach("self"); }); }
