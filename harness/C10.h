// shared by C10.cpp (sequenced) and C10r.cpp (random access): list operations
#include "lx.h"
using namespace mi;
inline bool operator==(const El& x,const El& y){ return x.a==y.a; }
inline bool operator<(const El& x,const El& y){ return x.a<y.a; }
struct Gt { bool operator()(const El& x,const El& y) const { return x.a>y.a; } };
struct Half { bool operator()(const El& x,const El& y) const { return (x.a>>1)<(y.a>>1); } };
struct Lt { bool operator()(const El& x,const El& y) const { return x.a<y.a; } };
typedef multi_index_container<El,indexed_by<POS<>>> C1;
typedef multi_index_container<El,indexed_by<POS<>,ordered_unique<KB>>> C2;
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HLow>,POS<>,OTHER<>>> C3;
typedef multi_index_container<El,indexed_by<POS<>,ordered_non_unique<KA>,POS<>>> C5;
template<class C,int I> void fill(C& c,LM<C,I>& m,int n,int keys,bool bsym=false){ auto& x=c.template get<I>(); for (int i=0;i<n;i++) { int id=lx_id++; El e(id,sx_int(0,keys-1),bsym? sx_int(0,2*n):id,7*id); if (clashm(c,m,e)) continue; auto r=x.push_back(e); m.ins(m.n,e,&*r.first); } m.check(c,"fill"); }
// snapshot of all other indices (their order must not change)
template<class C,int I> struct Others { enum { N=nidx<C>() }; const El* s[N][MAXN]; int n; explicit Others(const C& c){ n=(int)c.size(); each<C>([&](auto J){ if (J.value!=I) { int i=0; for (auto& e: c.template get<J.value>()) s[J.value][i++]=&e; } }); }
  void same(const C& c){ sx_check((int)c.size()==n,"size-changed"); each<C>([&](auto J){ if (J.value!=I) { int i=0; for (auto& e: c.template get<J.value>()) { sx_check(s[J.value][i]==&e,"other-index-reordered"); i++; } } }); }
  // the survivors keep their relative order in the other indices
  void subset(const C& c){ each<C>([&](auto J){ if (J.value!=I&&ix<C,J.value>::kind!=HSH) { int i=0; for (auto& e: c.template get<J.value>()) { while (i<n&&s[J.value][i]!=&e) i++; sx_check(i<n,"other-index-reordered"); i++; } } }); } };
template<class C,int I> void finish(C& c,LM<C,I>& m,const char* l){ m.check(c,l); positions<C,I>(c,m); verify(c); observe(c); }

// relocate / splice inside one container / rearrange / reverse
template<class C,int I> void reorder(int n){ lx_id=1; C c; LM<C,I> m; fill(c,m,n,2); n=m.n; auto& x=c.template get<I>(); Others<C,I> o(c); int op=sx_choose(8);
  if (op==0) { int i=sx_choose(n),p=sx_choose(n+1); x.relocate(nth_it(x,p),nth_it(x,i)); m.move(p,i); }
  else if (op==1||op==2) { int f=sx_choose(n+1),l=f+sx_choose(n-f+1); int p=sx_choose(n+1); if (p>=f&&p<l) return; if (op==1) x.relocate(nth_it(x,p),nth_it(x,f),nth_it(x,l)); else x.splice(nth_it(x,p),x,nth_it(x,f),nth_it(x,l)); if (p<f) for (int i=f;i<l;i++) m.move(p+i-f,i); else for (int i=f;i<l;i++) m.move(p,f); }
  else if (op==3) { int i=sx_choose(n),p=sx_choose(n+1); auto r=x.splice(nth_it(x,p),x,nth_it(x,i)); sx_check(r.second&&&*r.first==m.p[i],"splice-result"); m.move(p,i); }
  else if (op==4) { x.reverse(); for (int i=0;i<n/2;i++) { std::swap(m.p[i],m.p[n-1-i]); std::swap(m.v[i],m.v[n-1-i]); } }
  else if (op==5) { int perm[MAXN]; int used=0; LM<C,I> t; const El* view[MAXN]; for (int i=0;i<n;i++) { int k=sx_choose(n-i); int j=0; for (;;j++) if (!((used>>j)&1)) { if (k==0) break; k--; } used|=1<<j; perm[i]=j; t.ins(i,m.v[j],m.p[j]); view[i]=m.p[j]; }
    struct It { const El* const* p; const El& operator*() const { return **p; } It& operator++(){ ++p; return *this; } It operator++(int){ It r=*this; ++p; return r; } bool operator==(const It& o) const { return p==o.p; } bool operator!=(const It& o) const { return p!=o.p; } }; x.rearrange(It{view}); m=t; }
  else if (op==6) { x.splice(x.end(),x); }
  else if constexpr (nidx<C>()>1) { const int J= I==0?1:0; auto& y=c.template get<J>(); int how=sx_choose(2);
    if (how==0) { auto it=nth_it(y,sx_choose(n)); int i=m.find(&*it),p=sx_choose(n+1); auto r=x.splice(nth_it(x,p),y,it); sx_check(r.second&&&*r.first==m.p[i],"splice-other-result"); m.move(p,i); }
    else { int f=sx_choose(n+1),l=f+sx_choose(n-f+1),p=sx_choose(n+1); auto a=nth_it(y,f),b=nth_it(y,l); const El* pe= p<n? m.p[p]:0; LM<C,I> t; const El* q[MAXN]; int k=0; for (auto it=a; it!=b; ++it) { if (&*it==pe) return; q[k++]=&*it; }
      x.splice(nth_it(x,p),y,a,b); for (int i=0;i<n;i++) { if (m.p[i]==pe) for (int j=0;j<k;j++) t.ins(t.n,m.v[m.find(q[j])],q[j]); bool in=false; for (int j=0;j<k;j++) if (q[j]==m.p[i]) in=true; if (!in) t.ins(t.n,m.v[i],m.p[i]); } if (!pe) for (int j=0;j<k;j++) t.ins(t.n,m.v[m.find(q[j])],q[j]); m=t; sx_reach("splice-other"); } }
  o.same(c); finish(c,m,"reorder"); sx_reach("reorder"); }
SX_ENTRY(reorder_1){ reorder<C1,0>(5); }
SX_ENTRY(reorder_2){ reorder<C2,0>(4); }
SX_ENTRY(reorder_3){ reorder<C3,1>(3); }
SX_ENTRY(reorder_5){ reorder<C5,2>(4); }
SX_ENTRY_THOROUGH(reorder_16){ reorder<C1,0>(6); }
SX_ENTRY_THOROUGH(reorder_35){ reorder<C3,1>(5); }

// range relocation of every length and distance (the rotation)
SX_ENTRY(rotate){ lx_id=1; C1 c; LM<C1,0> m; int n=SX_T(10,15); for (int i=0;i<n;i++) { El e(i,i,i,0); auto r=c.push_back(e); m.ins(i,e,&*r.first); } int f=sx_choose(n+1),l=f+sx_choose(n-f+1); int p=sx_choose(n+1); if (p>=f&&p<l) return; c.relocate(nth_it(c,p),nth_it(c,f),nth_it(c,l)); if (p<f) for (int i=f;i<l;i++) m.move(p+i-f,i); else for (int i=f;i<l;i++) m.move(p,f); m.check(c,"rotate"); positions(c,m); verify(c); }

// sort: permutation, order, stability
template<class C,int I,class F> void sorted(const C& c,const LM<C,I>& m,F comp,const char* label){ const auto& x=c.template get<I>(); int n=m.n,i=0,ok=1; const El* prev=0; int pi=-1; uint32_t seen=0; for (auto& e: x) { int k=m.find(&e); sx_check(k>=0&&!((seen>>k)&1),label); seen|=1u<<k; if (prev) ok&=((int)!comp(e,*prev))&((int)comp(*prev,e)|(k>pi)); prev=&e; pi=k; i++; } sx_check(i==n,label); sx_check(ok,"sort-order-or-stability"); }
template<class C,int I> void sorting(int n,int keys){ lx_id=1; C c; LM<C,I> m; fill(c,m,n,keys); auto& x=c.template get<I>(); Others<C,I> o(c); int op=sx_choose(3);
  if (op==0) { x.sort(); sorted(c,m,Lt(),"sort-loses-elements"); } else if (op==1) { x.sort(Gt()); sorted(c,m,Gt(),"sort-loses-elements"); } else { x.sort(Half()); sorted(c,m,Half(),"sort-loses-elements"); }
  o.same(c); m.take(c); positions<C,I>(c,m); verify(c); sx_reach("sort"); }
SX_ENTRY(sort_1){ sorting<C1,0>(4,4); }
SX_ENTRY(sort_0){ sorting<C1,0>(sx_choose(3),3); }
SX_ENTRY(sort_3){ sorting<C3,1>(3,3); }
SX_ENTRY(sort_5){ sorting<C5,2>(3,3); }
SX_ENTRY_THOROUGH(sort_15){ sorting<C1,0>(6,5); }
SX_ENTRY(sort_01){ lx_id=1; C1 c; LM<C1,0> m; int n=SX_T(8,10); fill(c,m,n,2); c.sort(); sorted(c,m,Lt(),"sort-loses-elements"); }
SX_ENTRY(sort_long){ lx_id=1; C1 c; LM<C1,0> m; int n=16; int w=1+sx_choose(7),s=sx_choose(4); for (int i=0;i<n;i++) { El e(i,s==0? i*w%16 : s==1? 15-i : s==2? (i*w)%5 : i/w,0,0); auto r=c.push_back(e); m.ins(i,e,&*r.first); } c.sort(); sorted(c,m,Lt(),"sort-loses-elements"); m.take(c); positions(c,m); verify(c); }

// unique / remove
template<class C,int I> void erasing(int n,int keys){ lx_id=1; C c; LM<C,I> m; fill(c,m,n,keys); auto& x=c.template get<I>(); Others<C,I> o(c); int op=sx_choose(7); LM<C,I> t;
  if (op<=3) { // unique: the first of each group stays; binary_pred(*i,*(i-1))
    if (op==0) x.unique(); else if (op==1) x.unique([](const El& p,const El& q){ return (p.a>>1)==(q.a>>1); }); else if (op==2) x.unique([](const El& i,const El& before){ return i.a>before.a; }); else x.unique([](const El& i,const El& before){ return i.a<=before.a; });
    for (int i=0;i<m.n;i++) { bool dup=false; if (t.n) { const El& l=t.v[t.n-1]; const El& e=m.v[i]; dup=sx_concretize(op==0? e.a==l.a : op==1? (e.a>>1)==(l.a>>1) : op==2? e.a>l.a : e.a<=l.a); } if (!dup) t.ins(t.n,m.v[i],m.p[i]); } }
  else { int k=sx_int(0,keys-1); 
    if (op==4) { x.remove(El(99,k,0,0)); } else if (op==5) { x.remove_if([=](const El& e){ return e.a>=k; }); } else { if (!m.n) return; int j=sx_choose(m.n); k=m.v[j].a; x.remove(*m.p[j]); }
    for (int i=0;i<m.n;i++) { bool del=sx_concretize(op==5? m.v[i].a>=k : m.v[i].a==k); if (!del) t.ins(t.n,m.v[i],m.p[i]); } }
  t.check(c,"erasing"); positions<C,I>(c,t); verify(c); o.subset(c); observe(c); sx_reach("erasing"); }
SX_ENTRY(erasing_1){ erasing<C1,0>(4,4); }
SX_ENTRY(erasing_0){ erasing<C1,0>(sx_choose(2),2); }
SX_ENTRY(erasing_2){ erasing<C2,0>(3,3); }
SX_ENTRY(erasing_3){ erasing<C3,1>(3,3); }
SX_ENTRY(erasing_5){ erasing<C5,2>(3,3); }
SX_ENTRY_THOROUGH(erasing_15){ erasing<C1,0>(6,3); }

// merge of sorted sequences; elements refused by a unique index stay in the source
template<class C,int I> void merging(int n,int k){ lx_id=1; C c,d; LM<C,I> m,s; int a=0; auto& x=c.template get<I>(); auto& y=d.template get<I>(); int dir=sx_choose(2);
  for (int i=0;i<n;i++) { a+=sx_int(0,1); El e(lx_id++,dir?a:20-a,i,0); auto r=x.push_back(e); m.ins(m.n,e,&*r.first); }
  a=0; for (int i=0;i<k;i++) { a+=sx_int(0,1); El e(lx_id++,dir?a:20-a,n-1+i,0); auto r=y.push_back(e); s.ins(s.n,e,&*r.first); }
  if (sx_choose(8)==0) { if (dir) x.merge(x); else x.merge(x,Gt()); m.check(c,"self-merge"); s.check(d,"self-merge"); return; }
  if (dir) x.merge(y); else x.merge(y,Gt());
  LM<C,I> left,all=m; for (int i=0;i<s.n;i++) { if (clashm(c,m,s.v[i])) left.ins(left.n,s.v[i],s.p[i]); else { all.ins(all.n,s.v[i],s.p[i]); } }
  sx_check(x.size()==(size_t)all.n,"merge-size"); if (dir) sorted(c,all,Lt(),"merge-content"); else sorted(c,all,Gt(),"merge-content"); left.check(d,"merge-rest"); verify(c); verify(d); all.take(c); positions<C,I>(c,all); positions<C,I>(d,left); observe(c); sx_reach("merge"); if (left.n) sx_reach("merge-refused"); }
SX_ENTRY(merging_1){ merging<C1,0>(3,3); }
SX_ENTRY(merging_2){ merging<C2,0>(3,3); }
SX_ENTRY(merging_0){ int z=sx_choose(3); merging<C1,0>(z==0?0:2,z==1?0:2); }
SX_ENTRY(merging_3){ merging<C3,1>(2,2); }
SX_ENTRY_THOROUGH(merging_15){ merging<C1,0>(5,4); }
SX_ENTRY_THOROUGH(merging_25){ merging<C2,0>(4,4); }

// splice from another container (same or other index kinds), whole, one, range; refusals
typedef multi_index_container<El,indexed_by<ordered_non_unique<KB>,OTHER<>>> S2;
template<class C,int I,class D,int J> void splicing(int n,int k){ lx_id=1; C c; D d; LM<C,I> m; LM<D,J> s; fill(c,m,n,2,true); fill(d,s,k,2,true); auto& x=c.template get<I>(); auto& y=d.template get<J>(); n=m.n; s.take(d); int p=sx_choose(n+1); int how=sx_choose(3); int f=0,l=s.n;
  if (how==1) { if (!s.n) return; f=sx_choose(s.n); l=f+1; } else if (how==2) { f=sx_choose(s.n+1); l=f+sx_choose(s.n-f+1); }
  LM<C,I> t=m; LM<D,J> u; int at=p; for (int i=0;i<s.n;i++) { if (i>=f&&i<l&&!clashm(c,t,s.v[i])) t.ins(at++,s.v[i],s.p[i]); else u.ins(u.n,s.v[i],s.p[i]); }
  if (how==0) { if (sx_choose(2)) x.splice(nth_it(x,p),y); else x.splice(nth_it(x,p),std::move(y)); } else if (how==1) { auto r=x.splice(nth_it(x,p),y,nth_it(y,f)); sx_check(r.second==(t.n==n+1),"splice-acceptance"); if (r.second) sx_check(&*r.first==s.p[f],"splice-result"); } else x.splice(nth_it(x,p),y,nth_it(y,f),nth_it(y,l));
  t.check(c,"splice-target"); u.check(d,"splice-source"); positions<C,I>(c,t); verify(c); verify(d); observe(c); observe(d); sx_reach("splice"); if (u.n>s.n-(l-f)) sx_reach("splice-refused"); }
SX_ENTRY(splice_1){ splicing<C1,0,C1,0>(3,3); }
SX_ENTRY(splice_2){ splicing<C2,0,C2,0>(2,2); }
SX_ENTRY(splice_3){ splicing<C3,1,C3,2>(1,2); }
#if 0
#endif
