// erasure by position, range, key; clear, resize, pop
#include "fx.h"
using namespace mi;
typedef TA<Ef> A;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<XA,FLess>>,A> E1;
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>>,A> E2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>>,A> E3;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash,FEq>>,A> E4;
typedef multi_index_container<Ef,indexed_by<ranked_non_unique<XA,FLess>>,A> E5;
typedef multi_index_container<Ef,indexed_by<random_access<>>,A> E6;
typedef multi_index_container<Ef,indexed_by<sequenced<>>,A> E7;
typedef multi_index_container<Ef,indexed_by<sequenced<>,ranked_non_unique<XA,FLess>,hashed_non_unique<XB,FHash2,FEq>>,A> M1;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>,random_access<>,ordered_unique<XI,FLess>>,A> M2;
typedef multi_index_container<Ef,indexed_by<random_access<>,hashed_unique<XA,FHash,FEq>,ordered_non_unique<XB,FLess>,sequenced<>>,A> M3;
static int nid, KN=3, BN=2;
static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,BN-1),0); }
template<class C> void fill(C& c,int n){ for (int i=0;i<n;i++) put(c,fresh()); }
// c shows the sequences q without the objects gone[0..g)
template<class C> void without(const C& c,const Seqs<C>& q,const Ef* const* gone,int g){
  sx_check((int)c.size()==q.n-g,"size-after-erase"); auto rm=[&](const Ef* e){ for (int i=0;i<g;i++) if (gone[i]==e) return true; return false; };
  each<C>([&](auto K){ int t=0; for (auto& e: c.template get<K.value>()) { while (t<q.n&&rm(q.s[K.value][t])) t++; sx_check(t<q.n&&q.s[K.value][t]==&e,"others-changed-or-erased-reachable"); t++; } while (t<q.n&&rm(q.s[K.value][t])) t++; sx_check(t==q.n,"other-erased"); }); }
template<class C> void values_kept(const C& c,const Snap<C>& v,const Seqs<C>& q){ (void)q; int ok=1; for (auto& e: c.template get<0>()) for (int j=0;j<v.n;j++) if (v.s[0][j]==&e) ok&=(int)(v.v[j].id==e.id)&(v.v[j].a==e.a)&(v.v[j].b==e.b); sx_check(ok,"value-changed"); }
enum { POS=1, RANGE=2, KEY=4, CLEAR=8, RESIZE=16, POP=32, ALL=63 };
// one erasure through index j
template<class C> void erase_one(C& c,int j,int kinds){
  int n=(int)c.size(); Seqs<C> q(c); Snap<C> v(c); int alive=ef_alive, live=fx_live; const Ef* gone[MAXN]; int g=0;
  int ks[6],kn=0; for (int b=0;b<6;b++) if (kinds>>b&1) ks[kn++]=1<<b; int k=ks[sx_choose(kn)];
  at<C>(j,[&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>();
    if (k==POS) { if (!n) return; int p=sx_choose(n); gone[g++]=q.s[J.value][p]; auto r=x.erase(nth_it(x,p)); if (p+1<n) sx_check(r!=x.end()&&&*r==q.s[J.value][p+1],"returned-successor"); else sx_check(r==x.end(),"returned-successor"); sx_reach("position"); }
    else if (k==RANGE) { int f=sx_choose(n+1),l=f+sx_choose(n-f+1); for (int i=f;i<l;i++) gone[g++]=q.s[J.value][i]; auto r=x.erase(nth_it(x,f),nth_it(x,l)); if (l<n) sx_check(r!=x.end()&&&*r==q.s[J.value][l],"returned-after-range"); else sx_check(r==x.end(),"returned-after-range"); }
    else if (k==KEY) { if constexpr (X::keyed) { int key=sx_int(0,KN); auto ke=x.key_extractor(); for (int i=0;i<n;i++) if (sx_concretize((unsigned)(ke(*q.s[J.value][i])==key))) gone[g++]=q.s[J.value][i]; size_t r=x.erase(key); sx_check((int)r==g,"erased-count"); sx_check(x.find(key)==x.end()&&x.count(key)==0,"erased-key-still-found"); } }
    else if (k==CLEAR) { for (int i=0;i<n;i++) gone[g++]=q.s[0][i]; if (sx_choose(2)) x.clear(); else c.clear(); each<C>([&](auto K){ auto& y=c.template get<K.value>(); sx_check(y.begin()==y.end()&&y.empty(),"clear"); }); }
    else if (k==RESIZE) { if constexpr (X::positional) { int m=sx_choose(n+1); for (int i=m;i<n;i++) gone[g++]=q.s[J.value][i]; if (sx_choose(2)) x.resize(m); else { Ef d; x.resize(m,d); } } }
    else { if constexpr (X::positional) { if (!n) return; if (sx_choose(2)) { gone[g++]=q.s[J.value][0]; x.pop_front(); } else { gone[g++]=q.s[J.value][n-1]; x.pop_back(); } } }
  });
  sx_check(ef_alive==alive-g,"erased-element-lives"); sx_check(fx_live==live-g,"erased-memory-lives"); without(c,q,gone,g); values_kept(c,v,q); verify(c); }
template<class C> void run(int n,int rounds,int kinds,bool find=true){ fx_reset(); nid=1;
  if (n>=0) { C c; fill(c,n); int j=-1; for (int r=0;r<rounds;r++) { j=sx_choose(nidx<C>()); erase_one(c,j,kinds); } if (find) verify_find(c); 
    each<C>([&](auto K){ if constexpr (ix<C,K.value>::kind==HSH) hx_buckets_used(c.template get<K.value>()); });
    observe(c); put(c,fresh()); verify(c); if (find) verify_find(c); }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
// erase everything, one by one, in any order
template<class C> void drain(int n){ fx_reset(); nid=1; if (n>=0) { C c; fill(c,n); int r=0; while (c.size()) { if (r++>n) break; erase_one(c,sx_choose(nidx<C>()),POS); } sx_check(c.empty(),"drained"); each<C>([&](auto K){ auto& y=c.template get<K.value>(); sx_check(y.begin()==y.end(),"drained"); }); put(c,fresh()); put(c,fresh()); verify(c); verify_find(c); observe(c); }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
// structured loads: keys up, down, or from both ends; then k erasures anywhere
template<class C> void loaded(int n,int k,int kinds){ fx_reset(); nid=1; if (n>=0) { C c; int shape=sx_choose(4); for (int i=0;i<n;i++) { int a= shape==0? i : shape==1? n-i : shape==2? ((i&1)? n-i/2 : i/2) : (i*5)%n; put(c,El(nid++,a,i&1,0)); } for (int r=0;r<k;r++) erase_one(c,0,kinds); observe(c); }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
