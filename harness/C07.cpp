// BOUND: hashed indices (unique, non-unique, two in one container) of up to 5 elements over up to 4 key values in any collision pattern; initial bucket counts 0,53,97,200; requested counts from {0,1,53,54,97,98,193,400}; max_load_factor from {0.01,0.02,0.05,0.5,1,8}; up to 2 rehash/reserve/mlf/insert/erase operations; growth by insertion up to 56 elements; bucket() for every 64-bit hash value with 53..6151 buckets
#include "hx.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HSym>>> CU;
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HSym>>> CN;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HSym>,hashed_non_unique<KB,HSym>,sequenced<>>> C3;
static int nid;
static int key(int k){ return sx_int(0,k-1); }
template<class C> void fill(C& c,int n,int k){ for (int i=0;i<n;i++) put(c,El(nid++,key(k),key(k),0)); }
static const size_t NB[]={0,1,53,54,97,98,193,400};
static const float ML[]={0.01f,0.02f,0.05f,0.5f,1.0f,8.0f};
template<class X> void load_ok(const X& x){ float lf=x.load_factor(); sx_check(lf<=x.max_load_factor(),"load_factor-above-max"); float e=(float)x.size()/(float)x.bucket_count(); sx_check(lf==e,"load_factor-value"); }
// group-order image: the elements of each index as a set plus equivalence adjacency (rehash may reorder groups)
template<class C> struct Content { typedef typename C::value_type V; int n; const V* p[MAXN]; El v[MAXN];
  explicit Content(const C& c){ n=0; for (auto it=c.template get<0>().begin(); it!=c.template get<0>().end(); ++it) { p[n]=&*it; v[n].id=it->id; v[n].a=it->a; v[n].b=it->b; n++; } }
  void same(const C& c) const { sx_check((int)c.size()==n,"content-size"); int m=0; for (auto it=c.template get<0>().begin(); it!=c.template get<0>().end(); ++it,++m) { sx_check(m<n,"content-more"); bool f=false; for (int i=0;i<n;i++) if (p[i]==&*it) f=true; sx_check(f,"content-object"); } sx_check(m==n,"content-less"); int ok=1; for (int i=0;i<n;i++) ok&=(p[i]->id==v[i].id)&(p[i]->a==v[i].a)&(p[i]->b==v[i].b); sx_check(ok,"content-value"); } };
template<class C> void hall(const C& c,int k){ verify(c); each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::kind==HSH) { auto& x=c.template get<I.value>(); auto ke=x.key_extractor(); for (int q=0;q<=k&&q<HK;q++) hx_lookup(x,q,[&](const El& e){ return ke(e); },X::uniq); hx_buckets_used(x); } }); }

template<class C,int I> void op(C& c,int k){ auto& x=c.template get<I>(); typedef ix<C,I> XT; int o=sx_choose(8); Content<C> before(c);
  if (o==0) { size_t n=NB[sx_choose(8)]; x.rehash(n); sx_check(x.bucket_count()>=n,"rehash-bucket-count"); load_ok(x); before.same(c); sx_reach("rehash"); }
  else if (o==1) { size_t n=NB[sx_choose(8)]; x.reserve(n); float need=(float)n/x.max_load_factor(); sx_check((float)x.bucket_count()>=need,"reserve-bucket-count"); load_ok(x); before.same(c); sx_reach("reserve"); }
  else if (o==2) { float z=ML[sx_choose(6)]; x.max_load_factor(z); sx_check(x.max_load_factor()==z,"max_load_factor"); before.same(c); x.rehash(0); load_ok(x); before.same(c); sx_reach("mlf"); }
  else if (o==3) { float z=ML[sx_choose(6)]; x.max_load_factor(z); size_t bc=x.bucket_count(); El e(nid++,key(k),key(k),0); auto p=x.insert(e); sx_check(c.size()==before.n+(size_t)p.second,"insert-size"); if (p.second) load_ok(x); sx_check(x.bucket_count()>=bc,"insert-shrinks"); for (int i=0;i<before.n;i++) { bool f=false; for (auto& y: x) if (&y==before.p[i]) f=true; sx_check(f,"growth-loses-element"); } sx_reach("grow"); }
  else if (o==4) { size_t bc=x.bucket_count(); float ml=x.max_load_factor(); c.clear(); sx_check(x.bucket_count()==bc&&x.max_load_factor()==ml,"clear-keeps-buckets"); for (int i=0;i<2;i++) put(c,El(nid++,key(k),key(k),0)); }
  else if (o==5) { C d(c); auto& y=d.template get<I>(); sx_check(y.max_load_factor()==x.max_load_factor(),"copied-mlf"); sx_check(y.bucket_count()>=x.size()/x.max_load_factor(),"copied-buckets"); hall(d,k); y.rehash(97); hall(d,k); before.same(c); }
  else if (o==6) { C d; d.template get<I>().max_load_factor(2.0f); d.template get<I>().rehash(300); size_t bc=d.template get<I>().bucket_count(),bx=x.bucket_count(); float ml=x.max_load_factor(); c.swap(d); sx_check(x.bucket_count()==bc&&d.template get<I>().bucket_count()==bx&&d.template get<I>().max_load_factor()==ml&&x.max_load_factor()==2.0f,"swap-buckets"); before.same(d); hall(d,k); put(c,El(nid++,0,0,0)); hall(c,k); c.swap(d); before.same(c); }
  else { if (!c.size()) return; int p=sx_choose((int)c.size()); if (sx_choose(2)) x.erase(nth_it(x,p)); else { int a=key(k),b=key(k); x.modify(nth_it(x,p),[=](El& e){ e.a=a; e.b=b; }); } }
}
template<class C,int I> void run(int n,int k,int len){ nid=0; { hx_buckets(k); C c; fill(c,n,k); for (int i=0;i<len;i++) { op<C,I>(c,k); hall(c,k); } observe(c); sx_reach("end"); } }
SX_ENTRY(run_u){ run<CU,0>(3,3,1); }
SX_ENTRY(run_n){ run<CN,0>(4,2,1); }
SX_ENTRY(run_n3){ run<CN,0>(3,3,1); }
SX_ENTRY(run_3){ run<C3,0>(2,2,1); }
SX_ENTRY(run_3b){ run<C3,1>(2,2,1); }
SX_ENTRY(two_n){ run<CN,0>(2,1,2); }
SX_ENTRY(two_u){ run<CU,0>(1,2,2); }
SX_ENTRY_THOROUGH(run_u4){ run<CU,0>(4,4,1); }
SX_ENTRY_THOROUGH(run_n5){ run<CN,0>(5,3,1); }
SX_ENTRY_THOROUGH(two_n3){ run<CN,0>(3,2,2); }
// initial bucket count
template<class C,class CT> void initial(){ nid=0; hx_buckets(3); size_t n=NB[sx_choose(8)]; C c{CT(typename CT::head_type(n,KA(),HSym(),std::equal_to<int>()),typename CT::tail_type())}; sx_check(c.bucket_count()>=n,"initial-bucket-count"); load_ok(c); fill(c,2,2); hall(c,3); hx_buckets_ok(c); sx_check(c.bucket_count()>=n,"initial-bucket-count-kept"); }
SX_ENTRY(init_u){ initial<CU,CU::ctor_args_list>(); }
SX_ENTRY(init_n){ initial<CN,CN::ctor_args_list>(); }
// all buckets enumerated
SX_ENTRY(bucketwalk_n){ nid=0; hx_buckets(3,sx_choose(2)); CN c; fill(c,4,3); hx_buckets_ok(c); if (sx_choose(2)) { c.rehash(98); hx_buckets_ok(c); } observe(c); }
SX_ENTRY(bucketwalk_u){ nid=0; hx_buckets(3,sx_choose(2)); CU c; fill(c,3,3); hx_buckets_ok(c); if (sx_choose(2)) { c.rehash(98); hx_buckets_ok(c); } observe(c); }
// growth by insertion past the 53-bucket limit, dense and colliding keys
struct HDiv { static size_t div; size_t operator()(int k) const { return (size_t)(k/(int)div)*53; } }; size_t HDiv::div=1;
template<class C> void growth(int n){ HDiv::div=1+sx_choose(3); int rep=1+sx_choose(2); C c; size_t last=c.bucket_count(); for (int i=0;i<n;i++) { c.insert(El(i,i/rep,0,0)); sx_check(c.load_factor()<=c.max_load_factor(),"growth-load"); sx_check(c.bucket_count()>=last,"growth-shrinks"); last=c.bucket_count(); } size_t m=0; uint64_t sum=0; for (auto& e: c) { m++; sum+=(unsigned)e.id; sx_check(m<=c.size(),"growth-chain"); } sx_check(m==c.size(),"growth-iteration"); if (spec<typename boost::mpl::at_c<typename C::index_specifier_type_list,0>::type>::uniq==0||rep==1) sx_check(m==(size_t)n&&sum==(uint64_t)n*(n-1)/2,"growth-content"); for (int i=0;i<n;i++) { size_t k=c.count(i/rep); auto r=c.equal_range(i/rep); size_t d=0; for (auto j=r.first;j!=r.second;++j) d++; sx_check(k==d&&k>=1,"growth-find"); } 
  while (c.size()>(size_t)n/2) c.erase(c.begin()); c.rehash(0); sx_check(c.load_factor()<=c.max_load_factor(),"shrink-load"); m=0; for (auto& e: c) m++; sx_check(m==(size_t)n/2,"shrink-content"); sx_reach("growth"); }
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HDiv>>> GU; typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HDiv>>> GN;
SX_ENTRY(growth_u){ growth<GU>(56); }
SX_ENTRY(growth_n){ growth<GN>(56); }
SX_ENTRY_THOROUGH(growth_n2){ growth<GN>(100); }
// every hash value maps below bucket_count, equal hashes to equal buckets
static uint64_t any_h; struct HAny { size_t operator()(int) const { return any_h; } };
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HAny>>> AU; typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HAny>>> AN;
template<class C> void anyhash(){ C c; int s=sx_choose(SX_T(8,11)); size_t n=53; for (int i=0;i<s;i++) n=n*2; c.rehash(n); any_h=sx_u64(); sx_check(c.bucket(0)<c.bucket_count(),"hash-out-of-range"); sx_check(c.bucket(0)==c.bucket(1),"hash-unstable"); sx_reach("anyhash"); }
SX_ENTRY(anyhash_u){ anyhash<AU>(); }
SX_ENTRY(anyhash_n){ anyhash<AN>(); }
// elements with extreme hash values are stored and found
SX_ENTRY(extreme){ static const uint64_t H[]={0,(uint64_t)-1,(uint64_t)-2,1ull<<63,(1ull<<63)-1,1ull<<32,0xffffffffull,52,53,(uint64_t)-53}; any_h=H[sx_choose(10)]; AN c; c.rehash(NB[sx_choose(8)]); c.insert(El(0,1,0,0)); c.insert(El(1,2,0,0)); c.insert(El(2,1,0,0)); sx_check(c.count(1)==2&&c.count(2)==1&&c.count(3)==0,"extreme-count"); sx_check(c.bucket(1)<c.bucket_count()&&c.bucket_size(c.bucket(1))==3,"extreme-bucket"); c.rehash(500); sx_check(c.count(1)==2&&c.count(2)==1,"extreme-count-after-rehash"); hx_buckets_used(c); }
