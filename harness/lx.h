// list model of a positional (sequenced / random access) index
#pragma once
#include "mi.h"
// does value e collide with an element in some unique index of c?
template<class C> bool clash(const C& c,const El& e,const El* except=0){ int r=0; each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::uniq) { const auto& x=c.template get<I.value>(); auto k=x.key_extractor(); for (auto& y: x) if (&y!=except) { if constexpr (X::ordered) { auto l=x.key_comp(); r|=(int)!l(k(e),k(y))&(int)!l(k(y),k(e)); } else r|=(int)x.key_eq()(k(e),k(y)); } } }); return sx_concretize((unsigned)r)!=0; }
template<class C,int I> struct LM {
  int n=0; const El* p[MAXN]; El v[MAXN];
  void take(const C& c){ n=0; for (auto& e: c.template get<I>()) { p[n]=&e; v[n]=e; n++; } }
  explicit LM(const C& c){ take(c); }
  LM(){}
  // a new element with value e, object not known yet
  void ins(int at,const El& e,const El* q=0){ for (int i=n;i>at;i--) { p[i]=p[i-1]; v[i]=v[i-1]; } p[at]=q; v[at]=e; n++; }
  void del(int at){ for (int i=at;i+1<n;i++) { p[i]=p[i+1]; v[i]=v[i+1]; } n--; }
  void move(int to,int from){ if (to==from) return; const El* q=p[from]; El e=v[from]; del(from); if (from<to) to--; ins(to,e,q); }
  int find(const El* q) const { for (int i=0;i<n;i++) if (p[i]==q) return i; return -1; }
  // the index shows exactly this sequence: same objects where known, same values; new objects are none of `old`
  void check(const C& c,const char* label){
    const auto& x=c.template get<I>(); sx_check((int)c.size()==n,label); int i=0,ok=1; const El* q[MAXN];
    for (auto it=x.begin(); it!=x.end(); ++it,++i) { sx_check(i<n,label); q[i]=&*it; if (p[i]) sx_check(p[i]==q[i],label); else for (int j=0;j<n;j++) sx_check(p[j]!=q[i],label); ok&=(q[i]->id==v[i].id)&(q[i]->a==v[i].a)&(q[i]->b==v[i].b)&(q[i]->c==v[i].c); }
    sx_check(i==n,label); sx_check(ok,label); for (i=0;i<n;i++) p[i]=q[i];
  }
};

// would value e be refused next to the elements of the model?
template<class C,int I> bool clashm(const C& c,const LM<C,I>& m,const El& e){ int r=0; each<C>([&](auto J){ typedef ix<C,J.value> X; if constexpr (X::uniq) { const auto& x=c.template get<J.value>(); auto k=x.key_extractor(); for (int i=0;i<m.n;i++) { const El& y=m.v[i]; if constexpr (X::ordered) { auto l=x.key_comp(); r|=(int)!l(k(e),k(y))&(int)!l(k(y),k(e)); } else r|=(int)x.key_eq()(k(e),k(y)); } } }); return sx_concretize((unsigned)r)!=0; }
// random access view: every positional notion agrees; sequenced: traversal both ways
template<class C,int I> void positions(const C& c,const LM<C,I>& m){
  const auto& x=c.template get<I>(); auto b=x.begin(),e=x.end(); int n=m.n;
  if (n) { sx_check(&x.front()==m.p[0],"front"); sx_check(&x.back()==m.p[n-1],"back"); }
  int i=n; for (auto r=x.rbegin(); r!=x.rend(); ++r) { i--; sx_check(i>=0&&&*r==m.p[i],"reverse-traversal"); } sx_check(i==0,"reverse-length");
  i=n; auto it=e; while (i>0) { --it; i--; sx_check(&*it==m.p[i],"backward-traversal"); } sx_check(it==b,"backward-end"); sx_check(x.cbegin()==b&&x.cend()==e,"cbegin-cend");
  for (i=0;i<n;i++) { auto t=x.iterator_to(*m.p[i]); sx_check(&*t==m.p[i],"iterator_to"); }
  if constexpr (ix<C,I>::kind==RND) {
    sx_check(x.capacity()>=(size_t)n,"capacity-below-size");
    for (i=0;i<n;i++) { sx_check(&x[i]==m.p[i],"subscript"); sx_check(&x.at(i)==m.p[i],"at"); sx_check(&*(b+i)==m.p[i],"begin+n"); sx_check(&*(e-(n-i))==m.p[i],"end-n"); sx_check(&b[i]==m.p[i],"iterator-subscript"); auto t=x.iterator_to(*m.p[i]); sx_check(t-b==i&&e-t==n-i&&b-t==-i,"difference"); sx_check((t<e)&&!(e<t)&&(t<=e)&&(e>t)&&(e>=t)&&((t==b)==(i==0))&&((b<t)==(i>0)),"iterator-order"); auto u=b; u+=i; sx_check(u==t,"plus-assign"); u-=i; sx_check(u==b,"minus-assign"); u=t; u++; u--; sx_check(u==t,"inc-dec"); }
    sx_check(e-b==n,"end-begin"); 
    for (i=n;i<n+2;i++) { bool thrown=false; try { (void)x.at(i); } catch (const std::out_of_range&) { thrown=true; } sx_check(thrown,"at-out-of-range"); } bool thrown=false; try { (void)x.at((size_t)-1); } catch (const std::out_of_range&) { thrown=true; } sx_check(thrown,"at-huge"); 
  }
}
// one arbitrary sequence operation on index I; the model predicts the outcome
static int lx_id; static int lx_keys=3;
static El lx_new(){ int i=lx_id++; return El(i,sx_int(0,lx_keys-1),sx_int(0,lx_keys-1),0); }
// input iterator over an array
struct lx_input { typedef std::input_iterator_tag iterator_category; typedef El value_type; typedef std::ptrdiff_t difference_type; typedef const El* pointer; typedef const El& reference; const El* p; const El& operator*() const { return *p; } const El* operator->() const { return p; } lx_input& operator++(){ ++p; return *this; } lx_input operator++(int){ lx_input t=*this; ++p; return t; } bool operator==(const lx_input& o) const { return p==o.p; } bool operator!=(const lx_input& o) const { return p!=o.p; } };
enum { LX_INSERT, LX_EMPLACE, LX_NCOPIES, LX_RANGE, LX_PUSH, LX_POP, LX_ERASE, LX_ERASE_RANGE, LX_RESIZE, LX_RESIZE_V, LX_ASSIGN, LX_NODE, LX_CLEAR, LX_MODIFY, LX_OTHER, LX_N };
template<class C,int I> void lx_step(C& c,LM<C,I>& m,int op){
  auto& x=c.template get<I>(); typedef typename std::remove_reference<decltype(x)>::type X; int n=m.n;
  switch (op) {
  case LX_INSERT: { int at=sx_choose(n+1); El e=lx_new(); bool ref=clashm(c,m,e); bool rv=sx_choose(2); auto r= rv? x.insert(nth_it(x,at),El(e)) : x.insert(nth_it(x,at),e); sx_check(r.second==!ref,"insert-acceptance"); if (!ref) { sx_check(r.first->id==e.id,"insert-result"); m.ins(at,e,&*r.first); } break; }
  case LX_EMPLACE: { int at=sx_choose(n+1); El e=lx_new(); bool ref=clashm(c,m,e); auto r=x.emplace(nth_it(x,at),e.id,e.a,e.b,e.c); sx_check(r.second==!ref,"emplace-acceptance"); if (!ref) m.ins(at,e,&*r.first); break; }
  case LX_NCOPIES: { int at=sx_choose(n+1); int k=sx_choose(4); El e=lx_new(); x.insert(nth_it(x,at),(typename X::size_type)k,e); for (int i=0;i<k;i++) if (!clashm(c,m,e)) m.ins(at++,e); break; }
  case LX_RANGE: { int at=sx_choose(n+1); El e[3]={lx_new(),lx_new(),lx_new()}; int k=sx_choose(4); int how=sx_choose(3); if (how==0) x.insert(nth_it(x,at),e,e+k); else if (how==1) x.insert(nth_it(x,at),lx_input{e},lx_input{e+k}); else { k=2; x.insert(nth_it(x,at),{e[0],e[1]}); } for (int i=0;i<k;i++) if (!clashm(c,m,e[i])) m.ins(at++,e[i]); break; }
  case LX_PUSH: { int how=sx_choose(6); El e=lx_new(); bool ref=clashm(c,m,e); auto r= how==0? x.push_back(e) : how==1? x.push_front(e) : how==2? x.push_back(El(e)) : how==3? x.push_front(El(e)) : how==4? x.emplace_back(e.id,e.a,e.b,e.c) : x.emplace_front(e.id,e.a,e.b,e.c); sx_check(r.second==!ref,"push-acceptance"); if (!ref) m.ins((how&1)?0:n,e,&*r.first); break; }
  case LX_POP: if (n) { if (sx_choose(2)) { x.pop_back(); m.del(n-1); } else { x.pop_front(); m.del(0); } } break;
  case LX_ERASE: if (n) { int at=sx_choose(n); auto r=x.erase(nth_it(x,at)); m.del(at); sx_check(r==nth_it(x,at),"erase-result"); } break;
  case LX_ERASE_RANGE: { int f=sx_choose(n+1),l=f+sx_choose(n-f+1); auto r=x.erase(nth_it(x,f),nth_it(x,l)); for (int i=f;i<l;i++) m.del(f); sx_check(r==nth_it(x,f),"erase-range-result"); break; }
  case LX_RESIZE: { int k=sx_choose(n+3); x.resize(k); while (m.n>k) m.del(m.n-1); El d; for (int i=n;i<k;i++) if (!clashm(c,m,d)) m.ins(m.n,d); break; }
  case LX_RESIZE_V: { int k=sx_choose(n+3); El e=lx_new(); x.resize(k,e); while (m.n>k) m.del(m.n-1); for (int i=n;i<k;i++) if (!clashm(c,m,e)) m.ins(m.n,e); break; }
  case LX_ASSIGN: { El e[2]={lx_new(),lx_new()}; int how=sx_choose(4); int k=sx_choose(3); m.n=0; if (how==0) { x.assign(e,e+k); } else if (how==1) { x.assign((typename X::size_type)k,e[0]); e[1]=e[0]; } else if (how==2) { k=2; x.assign({e[0],e[1]}); } else { k=2; x={e[0],e[1]}; } for (int i=0;i<k;i++) if (!clashm(c,m,e[i])) m.ins(m.n,e[i]); break; }
  case LX_NODE: if (n) { int f=sx_choose(n); auto nh=x.extract(nth_it(x,f)); const El* q=m.p[f]; El e=m.v[f]; m.del(f); m.check(c,"extract"); int at=sx_choose(n); auto r=x.insert(nth_it(x,at),std::move(nh)); sx_check(r.inserted&&&*r.position==q,"node-insert"); m.ins(at,e,q); } break;
  case LX_CLEAR: x.clear(); m.n=0; sx_check(x.begin()==x.end(),"clear"); break;
  case LX_MODIFY: if (n) { int f=sx_choose(n); El e=lx_new(); e.id=m.v[f].id; LM<C,I> t=m; t.del(f); bool ref=clashm(c,t,e); bool rep=sx_choose(2); bool ok= rep? x.replace(nth_it(x,f),e) : x.modify(nth_it(x,f),[&](El& z){ z.a=e.a; z.b=e.b; z.c=e.c; }); sx_check(ok==!ref,"modify-acceptance"); if (ok) m.v[f]=e; else if (!rep) m.del(f); } break;
  case LX_OTHER: if constexpr (nidx<C>()>1) { const int J= I==0?1:0; auto& y=c.template get<J>(); if (sx_choose(2)) { El e=lx_new(); bool ref=clashm(c,m,e); if constexpr (ix<C,J>::positional) { auto r=y.push_front(e); sx_check(r.second==!ref,"other-acceptance"); } else { auto r=y.insert(e); sx_check(r.second==!ref,"other-acceptance"); } if (!ref) m.ins(m.n,e); } else if (n) { auto it=nth_it(y,sx_choose(n)); int f=m.find(&*it); y.erase(it); m.del(f); } } break;
  }
}
