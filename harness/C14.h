// faults in modify, splice, merge and bulk operations
#include "fx.h"
using namespace mi;
typedef TA<Ef> A;
struct FPred { bool operator()(const Ef& e) const { e.ok(); fx_tick(FX_CMP); return (e.a&1)!=0; } };
struct FPred2 { bool operator()(const Ef& x,const Ef& y) const { x.ok(); y.ok(); fx_tick(FX_CMP); return x.a==y.a; } };
struct FLess2 { bool operator()(const Ef& x,const Ef& y) const { x.ok(); y.ok(); fx_tick(FX_CMP); return x.a<y.a; } };
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>,ordered_non_unique<XB,FLess>>,A> S1;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash,FEq>,sequenced<>>,A> S2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>,ordered_unique<XB,FLess>>,A> S3;
typedef multi_index_container<Ef,indexed_by<sequenced<>,ranked_unique<XA,FLess>,random_access<>>,A> S4;
typedef multi_index_container<Ef,indexed_by<random_access<>,hashed_non_unique<XB,FHash2,FEq>,ordered_unique<XA,FLess>>,A> S5;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash2,FEq>,hashed_non_unique<XB,FHash2,FEq>,ranked_non_unique<XB,FLess>>,A> S6;
typedef multi_index_container<Ef,indexed_by<sequenced<>>,A> Q1;
typedef multi_index_container<Ef,indexed_by<random_access<>>,A> Q2;
static int nid, KN=3, BN=2;
static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,BN-1),0); }
static bool GRP=false; // all but the last element share a key
template<class C> void fill(C& c,int n){ if (GRP) { for (int i=0;i<n;i++) put(c,El(nid++,i<n-1?0:sx_int(0,KN-1),i,0)); return; } for (int i=0;i<n;i++) put(c,fresh()); }
template<class C> void usable(C& c){ verify(c); verify_find(c); put(c,El(nid++,0,0,0)); verify(c); }
static int eq(const El& x,const El& y){ return (int)(x.id==y.id)&(x.a==y.a)&(x.b==y.b)&(x.c==y.c); }
template<class C> uint32_t ids(const C& c){ uint32_t m=0; for (auto& e: c.template get<0>()) { sx_check(e.id>=0&&e.id<32&&!((m>>e.id)&1),"element-twice"); m|=1u<<e.id; } return m; }

static bool ANYBACK=false; // the rollback leaves any value, not just the old one
template<class C> void modifying(C& c,int budget,unsigned mask){
  int n=(int)c.size(); if (!n) return; int k=sx_choose(nidx<C>()),p=sx_choose(n); typedef typename C::value_type V;
  at<C>(k,[&](auto I){ auto& x=c.template get<I.value>(); auto it=nth_it(x,p); const V* e=&*it; El old(*e);
    bool rb=ANYBACK||sx_choose(2); El nv(e->id,sx_int(0,KN-1),sx_int(0,BN-1),5);
    El bv(old); if (ANYBACK) { bv.a=sx_int(0,KN-1); bv.b=sx_int(0,BN-1); bv.c=7; }
    V nve(nv.id,nv.a,nv.b,nv.c); int conf=0; each<C>([&](auto J){ if constexpr (ix<C,J.value>::uniq) for (auto& y: c.template get<J.value>()) if (&y!=e) conf|=Ref<C>::template same<J.value>(c,nve,y); });
    Snap<C> s(c); Seqs<C> q(c); int destr=ef_destroyed; bool ok=false,thrown=false; int which=0; 
    int backs=0,backthrew=0,modthrew=0; int at_back=-1;
    auto mod=[&](V& z){ bool half=fx_budget>0&&(fx_mask&FX_MOD)&&sx_choose(2); if (half) { z.a=nv.a; modthrew=1; fx_tick(FX_MOD); modthrew=0; } z.set(nv); };
    auto back=[&](V& z){ backs++; at_back=fx_thrown; if (fx_budget>0) { backthrew=1; fx_tick(FX_BACK); backthrew=0; } z.set(bv); };
    fx_arm(budget,mask);
    try { ok= rb? x.modify(it,mod,back) : x.modify(it,mod); } catch (const Boom& b) { thrown=true; which=b.n; }
    int faults=fx_thrown; fx_disarm();
    sx_check(thrown==(faults>0),"exception-swallowed");
    if (backthrew) sx_check(which==faults,"wrong-exception"); if (faults==1) sx_check(which==1,"wrong-exception");
    bool gone;
    if (thrown) { if (!rb||modthrew) gone=true; else { sx_check(backs==1,"rollback-not-called"); gone= backthrew||faults>at_back; if (ANYBACK&&!gone) gone=(int)c.size()!=n; } sx_reach("fault"); }
    else { gone= !ok&&!rb; sx_check(ok==!conf,"acceptance"); if (ANYBACK&&!ok) gone=(int)c.size()!=n; }
    sx_check((int)c.size()==(gone?n-1:n)&&ef_destroyed-destr==(gone?1:0),"erased-or-kept");
    for (int j=0;j<n;j++) if (s.s[0][j]!=e) sx_check(eq(s.v[j],*s.s[0][j]),"other-value-changed");
    if (!gone&&!ok&&ANYBACK) { sx_check(&*it==e&&eq(*e,bv),"rolled-back-value"); each<C>([&](auto J){ if constexpr (ix<C,J.value>::kind!=HSH) q.template same<J.value>(c,"rollback-moved-something"); else q.template members<J.value>(c,0,"rollback-members"); }); }
    else if (!gone&&!ok) { s.same(c,"rollback-not-exact"); sx_check(&*it==e,"iterator"); }
    else if (ok) sx_check(&*it==e&&eq(*e,nv),"new-value");
    else each<C>([&](auto J){ typedef ix<C,J.value> X; if constexpr (X::kind==HSH) q.template members<J.value>(c,e,"others-changed"); else q.template apart<J.value>(c,e,"others-reordered"); });
  });
}
template<class C,class F> void begin_end(F f,bool nonempty=true){ fx_reset(); nid=1; if (nonempty) f(); sx_check(ef_alive==0,"element-leaked-at-end"); sx_check(fx_live==0,"memory-leaked-at-end"); sx_check(fx_al==0,"allocator-leaked-at-end"); }
template<class C> void run_anyback(int n,int budget){ ANYBACK=true; begin_end<C>([&]{ C c; fill(c,n); modifying(c,budget,FX_ALL); verify(c); observe(c); usable(c); }); }
template<class C> void run_modify(int n,int budget,unsigned mask=FX_ALL){ begin_end<C>([&]{ C c; fill(c,n); modifying(c,budget,mask); observe(c); usable(c); }); }
// every element of before is in c or d exactly once, unless in `may` (documented as erased)
template<class C,class D> void conserved(const C& c,const D& d,uint32_t before,uint32_t may,const char* l){ uint32_t a=ids(c),b=ids(d); sx_check((a&b)==0,l); sx_check((before&~may&~(a|b))==0,l); }

// transfers between containers: merge / splice / extract+insert
template<class C,int I,class D,int J> void transfer(int n,int m,bool equal){ begin_end<C>([&]{
  C c; D d(typename D::ctor_args_list(),A(equal?0:1)); fill(c,n); fill(d,m); n=(int)c.size(); m=(int)d.size(); Snap<C> s(c); Seqs<D> sd(d); uint32_t before=ids(c)|ids(d); 
  auto& x=c.template get<I>(); auto& y=d.template get<J>(); int p=sx_choose(n+1); int form=sx_choose(3); int f=0,l=m; bool thrown=false;
  const Ef* dp[MAXN]; El dv[MAXN]; { int i=0; for (auto& e: y) { dp[i]=&e; dv[i]=e; i++; } }
  if (form==1) { if (!m) return; f=sx_choose(m); l=f+1; } else if (form==2) { f=sx_choose(m+1); l=f+sx_choose(m-f+1); }
  auto pos=nth_it(x,p); auto a=nth_it(y,f),b=nth_it(y,l); const Ef* pe= p<n? &*pos:0;
  fx_arm(1);
  try {
    if constexpr (ix<C,I>::positional) { if (form==0) x.splice(pos,y); else if (form==1) x.splice(pos,y,a); else x.splice(pos,y,a,b); }
    else { if (form==0) x.merge(y); else if (form==1) x.merge(y,a); else x.merge(y,a,b); }
  } catch (const Boom&) { thrown=true; }
  sx_check(thrown==(fx_thrown>0),"exception-swallowed"); fx_disarm();
  conserved(c,d,before,0,"element-lost");
  verify(d); verify(c);
  // elements already in c keep their place, the transferred ones sit together before the position, in source order
  each<C>([&](auto K){ typedef ix<C,K.value> X; if constexpr (X::kind!=HSH) { int i=0; for (auto& e: c.template get<K.value>()) { if (i<n&&s.s[K.value][i]==&e) i++; else { bool old=false; for (int j=0;j<n;j++) if (s.s[0][j]==&e) old=true; sx_check(!old,"target-reordered"); } } sx_check(i==n,"target-lost"); } });
  if constexpr (ix<C,I>::positional) { int i=0,last=-1; for (auto& e: x) { if (i<n&&s.s[I][i]==&e) { i++; continue; } sx_check(i==p,"spliced-elsewhere"); int j=0; while (j<m&&dv[j].id!=e.id) j++; sx_check(j>last&&j>=f&&j<l,"spliced-out-of-order"); last=j; if (equal) sx_check(&e==dp[j],"node-not-transferred"); sx_check(eq(dv[j],e),"value-changed"); } }
  { int i=0; for (auto& e: y) { while (i<m&&dp[i]!=&e) i++; sx_check(i<m&&eq(dv[i],e),"source-changed"); if (i<f||i>=l) ; i++; } if constexpr (ix<D,J>::kind!=HSH) (void)sd; }
  for (int j=0;j<m;j++) if (j<f||j>=l) sx_check((ids(d)>>dv[j].id)&1,"moved-outside-range");
  if (thrown&&form==1&&equal) { s.same(c,"single-transfer-not-strong",false); sx_check((int)d.size()==m,"single-transfer-not-strong"); }
  if (thrown) sx_reach("fault"); (void)pe; observe(c); usable(c); usable(d); }); }

// bulk operations on one container
enum { B_RANGE, B_ASSIGN, B_NCOPY, B_RESIZE, B_LIST, B_ERASEKEY, B_ERASERANGE, B_N };
template<class C,int I> void bulk(int n){ begin_end<C>([&]{
  C c; fill(c,n); n=(int)c.size(); Snap<C> s(c); Seqs<C> q(c); uint32_t before=ids(c); auto& x=c.template get<I>(); typedef ix<C,I> X; int op=sx_choose(B_N); bool thrown=false; int alive=ef_alive;
  if (op==B_ERASEKEY) { if constexpr (X::keyed) { int key=sx_int(0,KN-1); auto k=x.key_extractor(); uint32_t sel=0; for (auto& e: x) if (sx_concretize((unsigned)(k(e)==key))) sel|=1u<<e.id; size_t r=0; fx_arm(1); try { r=x.erase(key); } catch (const Boom&) { thrown=true; } sx_check(thrown==(fx_thrown>0),"exception-swallowed"); fx_disarm(); 
      uint32_t now=ids(c); sx_check((now&~before)==0&&((before&~now)&~sel)==0,"erased-another"); if (!thrown) sx_check((before&~now)==sel&&(int)r==__builtin_popcount(sel),"erase-key"); } else return; }
  else if (op==B_ERASERANGE) { int f=sx_choose(n+1),l=f+sx_choose(n-f+1); uint32_t sel=0; { int i=0; for (auto& e: x) { if (i>=f&&i<l) sel|=1u<<e.id; i++; } } fx_arm(1); try { x.erase(nth_it(x,f),nth_it(x,l)); } catch (const Boom&) { thrown=true; } fx_disarm(); sx_check(!thrown,"erase-is-nothrow"); sx_check(ids(c)==(before&~sel),"erase-range"); }
  else { El v[3]={fresh(),fresh(),fresh()}; Ef e[3]={Ef(v[0].id,v[0].a,v[0].b,0),Ef(v[1].id,v[1].a,v[1].b,0),Ef(v[2].id,v[2].a,v[2].b,0)}; int k=sx_choose(4); int p=sx_choose(n+1); uint32_t mine=(1u<<e[0].id)|(1u<<e[1].id)|(1u<<e[2].id); bool keep=true,cut=false; 
    fx_arm(1);
    try { if constexpr (X::positional) {
        if (op==B_RANGE) x.insert(nth_it(x,p),e,e+k); else if (op==B_ASSIGN) { keep=false; x.assign(e,e+k); } else if (op==B_NCOPY) { x.insert(nth_it(x,p),(size_t)k,e[0]); } else if (op==B_RESIZE) { cut=true; x.resize(k,e[0]); } else { keep=false; x={e[0],e[1]}; } }
      else { if (op==B_RANGE) x.insert(e,e+k); else if (op==B_LIST) { keep=false; x={e[0],e[1]}; } else return; } }
    catch (const Boom&) { thrown=true; }
    sx_check(thrown==(fx_thrown>0),"exception-swallowed"); fx_disarm();
    uint32_t seen=0; for (auto& y: c.template get<0>()) { bool old=(before>>y.id)&1; sx_check(old||((mine>>y.id)&1),"stranger"); if (old) seen|=1u<<y.id; }
    if (keep&&!cut) { sx_check(seen==before,"element-lost"); each<C>([&](auto K){ typedef ix<C,K.value> Y; if constexpr (Y::kind!=HSH) { int i=0; for (auto& y: c.template get<K.value>()) if (i<n&&s.s[K.value][i]==&y) i++; sx_check(i==n,"others-reordered"); } }); }
    if (cut) { int i=0; for (auto& y: x) { if (i<n&&i<k) sx_check(s.s[I][i]==&y,"resize-order"); i++; } sx_check(i>=(n<k?n:k),"resize-lost"); }
    if (op==B_RANGE&&keep) { int i=0; const El* prev=0; if constexpr (X::positional) { for (auto& y: x) { bool old=(before>>y.id)&1; if (!old) { sx_check(!prev||prev->id<y.id,"range-order"); prev=&y; sx_check(i==p,"range-place"); } else i++; } } (void)i; } 
    if (op==B_LIST&&thrown&&!X::positional) s.same(c,"list-assignment-not-strong",false); }
  if (thrown) sx_reach("fault"); (void)alive; verify(c); observe(c); usable(c); }); }

// rearrangements of a positional index
template<class C,int I> void listop(int n,int m){ begin_end<C>([&]{
  C c,d; fill(c,n); n=(int)c.size(); auto& x=c.template get<I>(); auto& y=d.template get<I>(); int op=sx_choose(4); if (op==2) { fill(d,m); x.sort(FLess2()); y.sort(FLess2()); } 
  uint32_t before=ids(c)|ids(d); const Ef* p[MAXN*2]; El v[MAXN*2]; int t=0; for (auto& e: x) { p[t]=&e; v[t++]=e; } for (auto& e: y) { p[t]=&e; v[t++]=e; }
  bool thrown=false; uint32_t may=0; fx_arm(1);
  try { if (op==0) x.sort(FLess2()); else if (op==1) x.remove_if(FPred()); else if (op==2) x.merge(y,FLess2()); else x.unique(FPred2()); } catch (const Boom&) { thrown=true; }
  sx_check(thrown==(fx_thrown>0),"exception-swallowed"); fx_disarm();
  if (op==1) { for (int i=0;i<t;i++) if (sx_concretize(v[i].a&1)) may|=1u<<v[i].id; }
  if (op==3) for (int i=1;i<t;i++) { int e=0; for (int j=0;j<i;j++) e|=v[i].a==v[j].a; if (sx_concretize((unsigned)e)) may|=1u<<v[i].id; }
  verify(c); verify(d); conserved(c,d,before,may,"element-lost"); 
  for (auto& e: x) { int j=0; while (j<t&&v[j].id!=e.id) j++; sx_check(j<t&&p[j]==&e&&eq(v[j],e),"element-object-changed"); }
  for (auto& e: y) { int j=0; while (j<t&&v[j].id!=e.id) j++; sx_check(j<t&&p[j]==&e&&eq(v[j],e),"element-object-changed"); }
  if (thrown) sx_reach("fault"); observe(c); usable(c); usable(d); }); }

// elements moved one by one: between containers with unequal allocators
template<class C> void moving(int n,int m){ begin_end<C>([&]{
  C c; fill(c,n); n=(int)c.size(); int op=sx_choose(3); uint32_t before=ids(c); bool thrown=false; El v[MAXN]; { int i=0; for (auto& e: c.template get<0>()) v[i++]=e; }
  auto after=[&]{ sx_check(thrown==(fx_thrown>0),"exception-swallowed"); fx_disarm(); verify(c); verify_find(c); sx_check((ids(c)&~before)==0,"stranger"); for (auto& e: c.template get<0>()) for (int i=0;i<n;i++) if (v[i].id==e.id) sx_check(eq(v[i],e),"moved-from-element-in-source"); if (thrown) sx_reach("fault"); };
  auto took=[&](const C& d){ verify(d); verify_find(d); sx_check((int)d.size()==n,"elements-lost"); int i=0; for (auto& e: d.template get<0>()) { sx_check(eq(v[i],e),"other-order"); i++; } };
  if (op==0) { fx_arm(1); try { C d(std::move(c),A(1)); int t=fx_thrown; fx_disarm(); fx_thrown=t; took(d); usable(d); fx_thrown=t; } catch (const Boom&) { thrown=true; } after(); }
  else { C d(typename C::ctor_args_list(),A(1)); fill(d,m); m=(int)d.size(); uint32_t dids=ids(d); fx_arm(1); 
    try { if (op==1) d=std::move(c); else { C e(c,A(1)); d=std::move(e); } } catch (const Boom&) { thrown=true; } after(); if (thrown) { verify(d); verify_find(d); sx_check((ids(d)&~(dids|before))==0,"stranger"); } else took(d); if (op==2) { sx_check(ids(c)==before,"source-changed"); } observe(d); usable(d); }
  observe(c); usable(c); }); }
