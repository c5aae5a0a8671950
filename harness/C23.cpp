// BOUND: containers of 1-4 indices covering every index kind, 0-4 elements (5 for a single sequence); every permutation of every positional index, every relative order of equivalent elements in ordered and ranked non-unique indices, every bucket-collision pattern, (arena entries) every relative order of node addresses on either side; loading into empty and non-empty containers
// ASSUME: a minimal archive pair of the harness (object tracking by address and type, reset_object_address) stands for Boost.Serialization's archives
#include "C23.h"
typedef multi_index_container<El,indexed_by<sequenced<>>> S1;
typedef multi_index_container<El,indexed_by<random_access<>>> R1;
typedef multi_index_container<El,indexed_by<sequenced<>,random_access<>>> SR;
typedef multi_index_container<El,indexed_by<random_access<>,sequenced<>,ordered_non_unique<KA>>> RSO;
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HSym>,sequenced<>,random_access<>>> HSR;
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA>,sequenced<>>> OS;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_non_unique<KA,std::greater<int>>>> SK;
typedef multi_index_container<El,indexed_by<ordered_unique<KI>,ordered_non_unique<KA>,ranked_non_unique<KB>,hashed_unique<KI,HLow>>> OOK;
typedef multi_index_container<El,indexed_by<random_access<>,random_access<>>,TA<El,0>> RRt;
typedef multi_index_container<El,indexed_by<sequenced<>,ordered_non_unique<KA>>,TA<El,0>> SOt;
typedef multi_index_container<El,indexed_by<random_access<>,sequenced<>>,TA<El,0>> RSt;
static bool nonempty=false;
// put equivalent elements of ordered index I in any relative order: reinsert with hints
template<class C,int I> void shuffle_equal(C& c,int times){ auto& x=c.template get<I>(); for (int t=0;t<times;t++) { int p=sx_choose((int)x.size()); auto it=nth_it(x,p); El e=*it; if constexpr (ix<C,0>::positional) { auto h=x.extract(it); x.insert(nth_it(x,sx_choose((int)x.size()+1)),std::move(h)); } else { auto h=x.extract(it); x.insert(nth_it(x,sx_choose((int)x.size()+1)),std::move(h)); } } }
template<class C> void roundtrip(C& c){
  Image<C> im(c); Words w; OA o(w); const C& cc=c; o<<boost::make_nvp("c",cc); im.unchanged(c); verify(c);
  C d; int keep=nid; if (nonempty) { putv(d,El(20,0,0,0)); putv(d,El(21,1,1,1)); } (void)keep; IA i(w); i>>boost::make_nvp("c",d); sx_check(i.at==w.n,"archive-not-consumed"); im.restored(d); verify(d); 
  // the restored container works
  sx_check(putv(d,El(30,1,0,0)).second,"insert-after-load"); sx_check(d.size()==c.size()+1,"insert-after-load"); verify(d); verify_find(d); each<C>([&](auto I){ typedef ix<C,I.value> X; auto& x=d.template get<I.value>(); if constexpr (X::positional) sx_check(x.back().id==30,"insert-after-load"); });
  observe(d); sx_reach("restored"); }
template<class C> void fillc(C& c,int n){ for (int i=0;i<n;i++) putv(c,fresh()); }
template<class C> void perms(int n,int eq=0){ nid=0; C c; fillc(c,n); each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::positional&&I.value>0) permute(c.template get<I.value>()); }); if (nidx<C>()==1) { if constexpr (ix<C,0>::positional) permute(c.template get<0>()); }
  if (eq) each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::ordered&&!X::uniq) shuffle_equal<C,I.value>(c,eq); }); roundtrip(c); }
SX_ENTRY(s4){ KN=1; perms<S1>(4); }
SX_ENTRY(r4){ KN=1; perms<R1>(4); }
SX_ENTRY(sr4){ KN=1; perms<SR>(4); }
SX_ENTRY(sr5){ KN=1; nid=0; SR c; for (int i=0;i<5;i++) c.push_back(El(nid++,0,0,0)); permute(c.get<1>()); roundtrip(c); }
SX_ENTRY(rso3){ perms<RSO>(3); }
SX_ENTRY(rso4){ KN=1; nid=0; RSO c; for (int i=0;i<4;i++) c.push_back(El(nid++,0,0,0)); permute(c.get<1>()); roundtrip(c); }
SX_ENTRY(hsr3){ hx_buckets(2); perms<HSR>(3); }
SX_ENTRY(os3){ perms<OS>(3); }
SX_ENTRY(os4){ KN=1; perms<OS>(4); }
SX_ENTRY(os3e){ perms<OS>(3,1); }
SX_ENTRY(sk3){ perms<SK>(3,1); }
SX_ENTRY(sk4){ KN=1; perms<SK>(4,2); }
SX_ENTRY(ook3){ perms<OOK>(3); }
SX_ENTRY(ook3e){ KN=1; perms<OOK>(3,1); }
SX_ENTRY(none){ nonempty=sx_choose(2); S1 a; roundtrip(a); R1 b; roundtrip(b); HSR c; roundtrip(c); OOK d; roundtrip(d); }
SX_ENTRY(onto_r){ KN=1; nonempty=true; perms<SR>(3); }
SX_ENTRY(onto_h){ hx_buckets(2); nonempty=true; perms<HSR>(2); }
SX_ENTRY(onto_o){ nonempty=true; perms<OOK>(2); }
// every relative order of the addresses of the nodes
template<class C> void arena(int n,bool permuted){ fx_reset(); nid=0; C c; fx_arena=n; for (int i=0;i<n;i++) { int k=sx_int(0,KN-1); El e(nid++,k,0,0); c.push_back(e); } fx_arena=0; if constexpr (ix<C,1>::positional) { if (permuted) permute(c.template get<1>()); } Image<C> im(c); Words w; OA o(w); const C& cc=c; o<<boost::make_nvp("c",cc); im.unchanged(c); 
  c.clear(); C d; fx_arena=n; IA i(w); i>>boost::make_nvp("c",d); fx_arena=0; im.restored(d); verify(d); sx_reach("arena"); }
SX_ENTRY(ar_rr){ KN=1; arena<RRt>(3,true); }
SX_ENTRY(ar_rs){ KN=1; arena<RSt>(3,true); }
SX_ENTRY(ar_so){ arena<SOt>(3,false); }
SX_ENTRY_THOROUGH(t_sr5){ KN=1; perms<SR>(5); }
SX_ENTRY_THOROUGH(t_s6){ KN=1; nid=0; S1 c; for (int i=0;i<6;i++) c.push_back(El(nid++,0,0,0)); permute(c); roundtrip(c); }
SX_ENTRY_THOROUGH(t_sr6){ KN=1; nid=0; SR c; for (int i=0;i<6;i++) c.push_back(El(nid++,0,0,0)); permute(c.get<1>()); roundtrip(c); }
SX_ENTRY_THOROUGH(t_rso4){ perms<RSO>(4); }
SX_ENTRY_THOROUGH(t_hsr4){ KN=1; hx_buckets(1); perms<HSR>(4); }
SX_ENTRY_THOROUGH(t_os4){ perms<OS>(4,1); }
SX_ENTRY_THOROUGH(t_sk4){ perms<SK>(4,2); }
SX_ENTRY_THOROUGH(t_sk5){ KN=1; perms<SK>(5,3); }
SX_ENTRY_THOROUGH(t_ook3){ perms<OOK>(3,1); }
SX_ENTRY_THOROUGH(t_ar4){ KN=1; arena<RRt>(4,true); }
