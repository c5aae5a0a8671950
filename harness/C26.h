// concurrent read-only use of one container, and of different containers
#include "mi.h"
#include "hx.h"
using namespace mi;
#ifndef C26_TYPES
#define C26_TYPES
typedef multi_index_container<El,indexed_by<ordered_unique<KA>,hashed_non_unique<KB,HSym>,sequenced<>,random_access<>>> W1;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HSym>,ranked_non_unique<KB>>> W2;
typedef multi_index_container<El,indexed_by<random_access<>,hashed_unique<KA,HSym>,ordered_non_unique<KB>>> W3;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA>>> W4;
#endif
inline bool operator==(const El& x,const El& y){ return x.id==y.id&&x.a==y.a&&x.b==y.b; }
inline bool operator<(const El& x,const El& y){ return x.a<y.a; }
static int nid, KN=2;
template<class C> void fill(C& c,int n){ for (int i=0;i<n;i++) put(c,El(nid++,sx_int(0,KN-1),sx_int(0,1),0)); }
const int NOPS=21;
static int no_(int& r,int v){ r=(int)((unsigned)r*31u+(unsigned)v); return r; }
// one read-only operation; the result as a number
template<class C,int I> int reading(const C& c,const C& d,int op,int key){ typedef ix<C,I> X; typedef typename X::type T; const T& x=c.template get<I>(); int r=7;
  switch (op) {
    case 0: for (auto it=x.begin(); it!=x.end(); ++it) no_(r,it->id); break;
    case 1: if constexpr (X::bidir) for (auto it=x.rbegin(); it!=x.rend(); ++it) no_(r,it->id); break;
    case 2: no_(r,(int)x.size()); no_(r,x.empty()); no_(r,x.max_size()!=0); no_(r,c.get_allocator()==d.get_allocator()); break;
    case 3: if constexpr (X::keyed) { auto it=x.find(key); if (it!=x.end()) no_(r,it->id); } break;
    case 4: if constexpr (X::keyed) no_(r,(int)x.count(key)); break;
    case 5: if constexpr (X::keyed) { auto p=x.equal_range(key); for (auto it=p.first; it!=p.second; ++it) no_(r,it->id); } break;
    case 6: if constexpr (X::ordered) { auto it=x.lower_bound(key); if (it!=x.end()) no_(r,it->id); it=x.upper_bound(key); if (it!=x.end()) no_(r,it->id); } break;
    case 7: if constexpr (X::ordered) { auto p=x.range([&](int k){ return k>=key; },[&](int k){ return k<=key; }); for (auto it=p.first; it!=p.second; ++it) no_(r,it->id); } break;
    case 8: if constexpr (X::kind==HSH) { no_(r,(int)x.bucket_count()); no_(r,(int)x.bucket(key)); no_(r,x.load_factor()<=x.max_load_factor()); no_(r,x.max_bucket_count()!=0); size_t b=x.bucket(key); no_(r,(int)x.bucket_size(b)); for (auto it=x.begin(b); it!=x.end(b); ++it) no_(r,it->id); } break;
    case 9: if constexpr (X::kind==RNK) { for (size_t i=0;i<x.size();i++) { auto it=x.nth(i); no_(r,it->id); no_(r,(int)x.rank(it)); } no_(r,(int)x.find_rank(key)); no_(r,(int)x.lower_bound_rank(key)); no_(r,(int)x.upper_bound_rank(key)); } break;
    case 10: if constexpr (X::kind==RND) { for (size_t i=0;i<x.size();i++) no_(r,x[i].id+x.at(i).id); no_(r,(int)x.capacity()!=0); no_(r,(int)(x.end()-x.begin())); } break;
    case 11: if constexpr (X::positional) if (!x.empty()) no_(r,x.front().id+x.back().id); break;
    case 12: { constexpr int J=(I+1)%nidx<C>(); for (auto it=x.begin(); it!=x.end(); ++it) { auto o=c.template project<J>(it); no_(r,o->id); auto z=c.template get<J>().iterator_to(*it); no_(r,z==o); } no_(r,c.template project<J>(x.end())==c.template get<J>().end()); break; }
    case 13: if constexpr (X::kind==HSH) no_(r,x==d.template get<I>()); else { no_(r,x==d.template get<I>()); no_(r,x<d.template get<I>()); } break;
    case 14: { C e(c); const T& y=e.template get<I>(); for (auto it=y.begin(); it!=y.end(); ++it) no_(r,it->id); break; }
    case 15: if constexpr (X::keyed) { auto k=x.key_extractor(); for (auto it=x.begin(); it!=x.end(); ++it) no_(r,k(*it)); if constexpr (X::kind==HSH) { auto h=x.hash_function(); no_(r,(int)(x.key_eq()(key,key)+h(key))); } else { no_(r,x.key_comp()(key,1)); auto v=x.value_comp(); for (auto it=x.begin(); it!=x.end(); ++it) no_(r,v(*it,*it)); } } break;
    case 16: { typename T::const_iterator a=x.begin(),b=a,z=x.end(); std::swap(a,z); a=b; no_(r,a==b); no_(r,z==x.end()); if (b!=z) { ++b; no_(r,a!=b); } break; }
    case 17: { typename T::const_iterator a; { auto b=x.begin(); a=b; } a=d.template get<I>().begin(); a=x.end(); no_(r,a==x.end()); break; }
    case 18: if constexpr (X::bidir) { auto it=x.end(); while (it!=x.begin()) { --it; no_(r,it->id); } } break;
    case 19: { for (auto it=d.template get<I>().begin(); it!=d.template get<I>().end(); ++it) no_(r,it->id); for (auto& e: x) no_(r,e.a); break; }
    case 20: { typename C::ctor_args_list a; (void)a; auto it=x.cbegin(); no_(r,it==x.begin()); no_(r,x.cend()==x.end()); break; }
  }
  return r; }
template<class C> int reading(const C& c,const C& d,int k,int op,int key){ int r=0; at<C>(k,[&](auto I){ r=reading<C,I.value>(c,d,op,key); }); return r; }
template<class C> struct Job { const C* c; const C* d; int n,k[2],op[2],key[2],res[2]; };
template<class C> void job(void* p){ Job<C>& j=*(Job<C>*)p; for (int i=0;i<j.n;i++) j.res[i]=reading<C>(*j.c,*j.d,j.k[i],j.op[i],j.key[i]); }
template<class C> void draw(Job<C>& j,const C& c,const C& d,int n){ j.c=&c; j.d=&d; j.n=n; for (int i=0;i<n;i++) { j.k[i]=sx_choose(nidx<C>()); j.op[i]=sx_choose(NOPS); j.key[i]=sx_int(-1,KN); } }
template<class C> void settle(Job<C>* js,int m){ for (int t=0;t<m;t++) { Job<C>& j=js[t]; for (int i=0;i<j.n;i++) sx_check(j.res[i]==reading<C>(*j.c,*j.d,j.k[i],j.op[i],j.key[i]),"concurrent-result-differs"); } }
// each of two threads reads c (and d)
template<class C> void readers(int n,int ops){ nid=0; C c,d; fill(c,n); fill(d,n?1:0); Snap<C> s(c); Job<C> j[2]; draw(j[0],c,d,ops); draw(j[1],c,d,ops);
  sx_spawn(&job<C>,&j[0]); sx_spawn(&job<C>,&j[1]); sx_join_all(); sx_reach("joined");
  settle(j,2); s.same(c,"reading-changed-container"); verify(c); observe(c); sx_observe((uint64_t)(unsigned)j[0].res[0]); sx_observe((uint64_t)(unsigned)j[1].res[0]); }
template<class C> void readers3(int n){ nid=0; C c,d; fill(c,n); Job<C> j[3]; int op=sx_choose(NOPS),k=sx_choose(nidx<C>()); for (int t=0;t<3;t++) { j[t].c=&c; j[t].d=&d; j[t].n=1; j[t].k[0]=k; j[t].op[0]= t==2? sx_choose(NOPS) : op; j[t].key[0]=0; }
  for (int t=0;t<3;t++) sx_spawn(&job<C>,&j[t]); sx_join_all(); settle(j,3); observe(c); }
// each thread works on a container of its own
struct Own { int n,a[4],b[4],op,p,out; };
template<class C> void own(void* q){ Own& o=*(Own*)q; C c; for (int i=0;i<o.n;i++) put(c,El(i,o.a[i],o.b[i],0)); 
  switch (o.op) {
    case 0: if (!c.empty()) c.erase(nth_it(c,o.p<(int)c.size()?o.p:0)); break;
    case 1: { C d(c); d=c; swap(c,d); d.clear(); break; }
    case 2: each<C>([&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>(); if constexpr (X::kind==HSH) { x.rehash(100); x.reserve(60); } if constexpr (X::kind==SEQ) { x.reverse(); x.sort([](const El& p,const El& q){ return p.a<q.a; }); } if constexpr (X::kind==RND) { x.reserve(20); x.shrink_to_fit(); x.reverse(); x.sort([](const El& p,const El& q){ return p.a<q.a; }); } }); break;
    case 3: if (!c.empty()) c.modify(c.begin(),[&](El& e){ e.a=o.a[o.n]; }); break;
    case 4: { C d; while (!c.empty()) { auto h=c.extract(c.begin()); if constexpr (ix<C,0>::positional) d.insert(d.end(),std::move(h)); else d.insert(std::move(h)); } c=std::move(d); break; }
    case 5: if (!c.empty()) c.replace(c.begin(),El(9,o.a[o.n],o.b[o.n],1)); break; }
  verify(c); int r=0; for (auto& e: c.template get<0>()) r=(int)((unsigned)r*31u+(unsigned)e.id); o.out=r; }
template<class C> void owners(int n){ Own o[2]; for (int t=0;t<2;t++) { o[t].n=n; for (int i=0;i<=n;i++) { o[t].a[i]= t? i : sx_int(0,KN-1); o[t].b[i]= t? 0 : sx_int(0,1); } o[t].op=sx_choose(6); o[t].p=sx_choose(n); o[t].out=0; }
  sx_spawn(&own<C>,&o[0]); sx_spawn(&own<C>,&o[1]); sx_join_all(); Own e[2]={o[0],o[1]}; own<C>(&e[0]); own<C>(&e[1]); sx_check(e[0].out==o[0].out&&e[1].out==o[1].out,"concurrent-result-differs"); sx_reach("owners-joined"); sx_observe((uint64_t)(unsigned)o[0].out); sx_observe((uint64_t)(unsigned)o[1].out); }
