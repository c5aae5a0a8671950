// BOUND: containers of 1-4 indices covering every index kind, unique and not; up to 5 elements with every equality/order pattern of keys and every hash-bucket collision pattern; modify and modify_key through every index at every position, without rollback, with a restoring rollback and with one that writes an arbitrary value; up to 2 successive modifications
#include "fx.h"
using namespace mi;
typedef mi::member<El,int,&El::a> MA; typedef mi::member<El,int,&El::b> MB;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<MA>>> R1;
typedef multi_index_container<Ef,indexed_by<ordered_unique<MA,std::greater<int>>>> R2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<MA,HSym>>> R3;
typedef multi_index_container<Ef,indexed_by<hashed_unique<MA,HSym>>> R4;
typedef multi_index_container<Ef,indexed_by<ordered_unique<MA>,ordered_non_unique<MB>,sequenced<>>> R5;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<MB>,hashed_non_unique<MA,HSym>,ordered_unique<MA>>> R6;
typedef multi_index_container<Ef,indexed_by<hashed_unique<MA,HSym>,random_access<>,hashed_unique<MB,HLow>>> R7;
typedef multi_index_container<Ef,indexed_by<sequenced<>,hashed_non_unique<MB,HLow>,ranked_unique<MA>>> R8;
typedef multi_index_container<Ef,indexed_by<ranked_non_unique<MB>,hashed_non_unique<MA,HLow>,random_access<>,hashed_unique<MA,HWild>>> R9;
typedef multi_index_container<Ef,indexed_by<random_access<>,ranked_unique<MA>,ordered_unique<MB>>> R10;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<MA,HSym>,ordered_unique<MB>>> RG;
static bool GRP=false; // all but the last element share a key
static int nid, KN=3, BN=2;
template<class C> void fill(C& c,int n){ if (GRP) { for (int i=0;i<n;i++) put(c,El(nid++,i<n-1?0:sx_int(0,KN-1),i,0)); return; } for (int i=0;i<n;i++) put(c,El(nid++,sx_int(0,KN-1),sx_int(0,BN-1),0)); }
template<class C,int I> bool equiv(const C& c,const Ef& x,const Ef& y){ return sx_concretize((unsigned)Ref<C>::template same<I>(c,x,y))!=0; }
static int eq(const El& x,const El& y){ return (int)(x.id==y.id)&(x.a==y.a)&(x.b==y.b)&(x.c==y.c); }
template<class C> void one(C& c){
  int n=(int)c.size(); if (!n) return; int k=sx_choose(nidx<C>()),p=sx_choose(n);
  at<C>(k,[&](auto I){ auto& x=c.template get<I.value>(); typedef ix<C,I.value> XT; auto it=nth_it(x,p); const Ef* e=&*it; Ef old(*e);
    bool bykey=false; if constexpr (XT::keyed) bykey=sx_choose(2);
    int rb=sx_choose(3); // 0 none, 1 restoring rollback, 2 arbitrary rollback
    El nv(e->id,sx_int(0,KN-1),sx_int(0,BN-1),5),bv(e->id,0,0,6);
    if (rb==2) { bv.a=sx_int(0,KN-1); bv.b=sx_int(0,BN-1); }
    if (rb==1) bv=old;
    int mods=0,backs=0; bool target=true; const int* kp=0;
    bool isA=false;
    if (bykey) if constexpr (XT::keyed) { kp=&x.key_extractor()(*e); isA= kp==&e->a; El t=old; if (isA) { t.a=nv.a; } else { t.b=nv.b; } nv=t; t=old; if (isA) { t.a=bv.a; } else { t.b=bv.b; } bv= rb==0? El(old) : bv; if (rb) { t=nv; if (isA) t.a=bv.a; else t.b=bv.b; bv=t; } }
    Ef nve(nv.id,nv.a,nv.b,nv.c),bve(bv.id,bv.a,bv.b,bv.c);
    int conf=0; each<C>([&](auto J){ if constexpr (ix<C,J.value>::uniq) for (auto& y: c.template get<J.value>()) if (&y!=e) conf|=Ref<C>::template same<J.value>(c,nve,y); });
    Snap<C> s(c); Seqs<C> q(c); int made=ef_made,destr=ef_destroyed; bool ok;
    auto mod=[&](Ef& z){ mods++; target&= &z==e; z.set(nv); }; auto back=[&](Ef& z){ backs++; target&= &z==e; z.set(bv); };
    auto kmod=[&](int& z){ mods++; target&= &z==kp; z=isA?nv.a:nv.b; }; auto kback=[&](int& z){ backs++; target&= &z==kp; z=isA?bv.a:bv.b; };
    if (!bykey) ok= rb? x.modify(it,mod,back) : x.modify(it,mod);
    else { ok=false; if constexpr (XT::keyed) ok= rb? x.modify_key(it,kmod,kback) : x.modify_key(it,kmod); }
    sx_check(ok==!conf,"acceptance"); sx_check(mods==1&&backs==(rb&&!ok)&&target,"modifier-calls");
    sx_check(ef_made==made,"element-created");
    bool kept=ok;
    if (!ok&&rb) { kept=(int)c.size()==n; }
    sx_check((int)c.size()==(kept?n:n-1)&&ef_destroyed-destr==(kept?0:1),"size-or-lifetime");
    for (int j=0;j<n;j++) if (s.s[0][j]!=e) { const Ef* o=s.s[0][j]; sx_check(eq(s.v[j],*o),"other-value-changed"); }
    if (kept) { int f=0; for (auto& y: c.template get<0>()) f|= &y==e; sx_check(f,"element-object-changed"); sx_check(&*it==e,"iterator-invalid"); }
    if (ok) { sx_check(eq(*e,nv),"new-value"); 
      each<C>([&](auto J){ typedef ix<C,J.value> X; 
        if constexpr (X::keyed) { if (equiv<C,J.value>(c,old,nve)) q.template same<J.value>(c,"equal-key-moved"); else if constexpr (X::kind==HSH) q.template members<J.value>(c,e,"others-changed"); else q.template apart<J.value>(c,e,"others-reordered"); }
        else q.template same<J.value>(c,"position-changed"); }); sx_reach("modified"); }
    else if (!kept) { each<C>([&](auto J){ typedef ix<C,J.value> X; if constexpr (X::kind==HSH) q.template members<J.value>(c,e,"others-changed"); else q.template apart<J.value>(c,e,"others-reordered"); for (auto& y: c.template get<J.value>()) sx_check(&y!=e,"erased-element-reachable"); }); sx_reach("erased"); }
    else { sx_check(eq(*e,bv),"rolled-back-value"); each<C>([&](auto J){ if constexpr (ix<C,J.value>::kind!=HSH) q.template same<J.value>(c,"rollback-moved-something"); else q.template members<J.value>(c,0,"rollback-members"); }); sx_reach("rolled-back"); }
    if (rb==1&&!ok&&!bykey) { sx_check(kept,"rollback-erased"); s.same(c,"rollback-not-exact"); }
    if (rb&&!ok) { // may or must the element stay?
      int stay=1,go=0; each<C>([&](auto J){ typedef ix<C,J.value> X; const auto& y=c.template get<J.value>(); if constexpr (X::ordered) { auto l=y.key_comp(); auto kx=y.key_extractor(); int j=0; while (q.s[J.value][j]!=e) j++; int good=1; if (j>0) good&= X::uniq? (int)l(kx(*q.s[J.value][j-1]),kx(bve)) : (int)!l(kx(bve),kx(*q.s[J.value][j-1])); if (j+1<n) good&= X::uniq? (int)l(kx(bve),kx(*q.s[J.value][j+1])) : (int)!l(kx(*q.s[J.value][j+1]),kx(bve)); stay&=good; go|=!good; }
        else if constexpr (X::kind==HSH) { auto kx=y.key_extractor(); auto eqf=y.key_eq(); stay&=(int)eqf(kx(old),kx(bve)); if (X::uniq) for (int i=0;i<n;i++) if (q.s[J.value][i]!=e) go|=(int)eqf(kx(*q.s[J.value][i]),kx(bve)); } });
      if (kept) sx_check(!go,"inconsistent-rollback-kept"); else sx_check(!stay,"consistent-rollback-erased"); }
  });
}
template<class C> void run(int n,int rounds){ fx_reset(); nid=1; if (rounds) { C c; fill(c,n); for (int i=0;i<rounds;i++) one(c); verify(c); verify_find(c); observe(c); put(c,El(nid++,0,0,0)); verify(c); c.clear(); verify(c); } sx_check(ef_alive==0,"element-leaked"); }
SX_ENTRY(ord_n){ run<R1>(SX_T(4,5),1); }
SX_ENTRY(ord_u){ KN=4; BN=1; run<R2>(SX_T(3,4),1); }
SX_ENTRY(hash_n){ BN=1; hx_buckets(3); run<R3>(4,1); }
SX_ENTRY(hash_n5){ BN=1; hx_buckets(2); KN=2; run<R3>(SX_T(5,6),1); }
SX_ENTRY(hash_u){ BN=1; hx_buckets(3); KN=3; run<R4>(3,1); }
SX_ENTRY(group4){ GRP=true; KN=2; hx_buckets(2); run<RG>(5,1); }
SX_ENTRY(group5){ GRP=true; KN=2; hx_buckets(2); run<RG>(6,1); }
SX_ENTRY(m5){ run<R5>(3,1); }
SX_ENTRY(m6){ hx_buckets(3); run<R6>(SX_T(2,3),1); }
SX_ENTRY_QUICK(m6_3){ hx_buckets(2); KN=2; run<R6>(3,1); }
SX_ENTRY(m7){ hx_buckets(2); KN=2; run<R7>(2,1); }
SX_ENTRY(m7_3){ hx_buckets(3); run<R7>(3,1); }
SX_ENTRY(m8){ run<R8>(2,1); }
SX_ENTRY(m9){ run<R9>(2,1); }
SX_ENTRY(m10){ run<R10>(2,1); }
SX_ENTRY(twice_1){ BN=1; run<R1>(3,2); }
SX_ENTRY(twice_3){ BN=1; hx_buckets(2); KN=2; run<R3>(3,2); }
SX_ENTRY_THOROUGH(hash_u4){ BN=1; hx_buckets(4); KN=4; run<R4>(4,1); }
SX_ENTRY_THOROUGH(m5_4){ run<R5>(4,1); }
SX_ENTRY(m8_3){ run<R8>(3,1); }
SX_ENTRY(m9_3){ run<R9>(3,1); }
SX_ENTRY(m10_3){ run<R10>(3,1); }
SX_ENTRY_THOROUGH(twice_5){ run<R5>(2,2); }
