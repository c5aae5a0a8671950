// BOUND: containers of 1-4 indices covering every index kind, unique and not; up to 5 elements with every equality/order pattern of keys and every hash-bucket collision pattern; replacement through every index at every position, by copy or move, also with a value aliasing an element of the container; up to 2 successive replacements; at most one fault, at any user-operation (assignment, comparison, hash, equality, key extraction)
#include "fx.h"
using namespace mi;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<XA,FLess>>> R1;
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>>> R2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>>> R3;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash,FEq>>> R4;
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>,ordered_non_unique<XB,FLess>,sequenced<>>> R5;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<XB,FLess>,hashed_non_unique<XA,FHash,FEq>,ordered_unique<XA,FLess>>> R6;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash,FEq>,random_access<>,hashed_unique<XB,FHash2,FEq>>> R7;
typedef multi_index_container<Ef,indexed_by<sequenced<>,hashed_non_unique<XB,FHash2,FEq>,ranked_unique<XA,FLess>>> R8;
typedef multi_index_container<Ef,indexed_by<ranked_non_unique<XB,FLess>,hashed_non_unique<XA,FHash2,FEq>,random_access<>,hashed_unique<XA,FHash2,FEq>>> R9;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>,ordered_unique<XB,FLess>>> RG;
static bool GRP=false; // all but the last element share a key
static int nid, KN=3;
template<class C> void fill(C& c,int n){ if (GRP) { for (int i=0;i<n;i++) put(c,El(nid++,i<n-1?0:sx_int(0,KN-1),i,0)); return; } for (int i=0;i<n;i++) put(c,El(nid++,sx_int(0,KN-1),sx_int(0,1),0)); }
template<class C,int I> bool equiv(const C& c,const Ef& x,const Ef& y){ return sx_concretize((unsigned)Ref<C>::template same<I>(c,x,y))!=0; }
template<class C> void one(C& c,int faults){
  int n=(int)c.size(); if (!n) return; int k=sx_choose(nidx<C>()),p=sx_choose(n);
  at<C>(k,[&](auto I){ auto& x=c.template get<I.value>(); auto it=nth_it(x,p); const Ef* e=&*it; Ef old(*e);
    int how=sx_choose(3); const Ef* src=0; Ef nv(e->id,sx_int(0,KN-1),sx_int(0,1),5);
    if (how==2) { src=&*nth_it(c.template get<0>(),sx_choose(n)); nv.set(*src); }
    int conf=0; each<C>([&](auto J){ typedef ix<C,J.value> X; if constexpr (X::uniq) for (auto& y: c.template get<J.value>()) if (&y!=e) conf|=Ref<C>::template same<J.value>(c,nv,y); });
    Snap<C> s(c); Seqs<C> q(c); int made=ef_made; bool ok=false,thrown=false;
    Ef tmp(nv); made++; fx_arm(faults);
    try { ok= how==0? x.replace(it,nv) : how==1? x.replace(it,std::move(tmp)) : x.replace(it,*src); } catch (const Boom&) { thrown=true; }
    int budget=fx_budget; fx_disarm();
    sx_check(&*it==e,"position-invalidated"); sx_check(ef_made==made||nidx<C>()==0,"element-created");
    if (thrown) { sx_check(faults&&!budget,"exception"); s.same(c,"fault-changed-container"); sx_reach("fault"); }
    else { sx_check(!faults||budget>0,"exception-swallowed"); sx_check(ok==!conf,"acceptance");
      if (!ok) { s.same(c,"refusal-changed-container"); sx_reach("refused"); }
      else { sx_check((int)(e->id==nv.id)&(e->a==nv.a)&(e->b==nv.b)&(e->c==nv.c),"new-value"); 
        for (int j=0;j<n;j++) if (s.s[0][j]!=e) sx_check((int)(s.v[j].id==s.s[0][j]->id)&(s.v[j].a==s.s[0][j]->a)&(s.v[j].b==s.s[0][j]->b)&(s.v[j].c==s.s[0][j]->c),"other-value-changed");
        each<C>([&](auto J){ typedef ix<C,J.value> X; 
          if constexpr (X::keyed) { if (equiv<C,J.value>(c,old,*e)) { q.template same<J.value>(c,"equal-key-moved"); sx_reach("key-kept"); } else { if constexpr (X::kind==HSH) q.template members<J.value>(c,e,"others-changed"); else q.template apart<J.value>(c,e,"others-reordered"); sx_reach("key-changed"); } }
          else q.template same<J.value>(c,"position-changed"); });
        auto w=x.iterator_to(*e); sx_check(w==it,"iterator_to"); } } });
}
template<class C> void run(int n,int rounds,int faults,bool find=true){ fx_reset(); nid=1; if (rounds>=0) { C c; fill(c,n); for (int i=0;i<rounds;i++) one(c,i==rounds-1?faults:0); verify(c); if (find) verify_find(c); observe(c); put(c,El(nid++,0,0,0)); verify(c); c.clear(); verify(c); } sx_check(ef_alive==0,"element-leaked"); }
SX_ENTRY(ord_n){ run<R1>(SX_T(4,5),1,0); }
SX_ENTRY(ord_u){ KN=4; run<R2>(4,1,0); }
SX_ENTRY(hash_n){ hx_buckets(3); run<R3>(4,1,0); }
SX_ENTRY(hash_n5){ hx_buckets(2); KN=2; run<R3>(SX_T(5,6),1,0); }
SX_ENTRY(hash_u){ hx_buckets(4); KN=4; run<R4>(4,1,0); }
SX_ENTRY(group4){ GRP=true; KN=2; hx_buckets(2); run<RG>(5,1,0); }
SX_ENTRY(group5){ GRP=true; KN=2; hx_buckets(2); run<RG>(6,1,0); }
SX_ENTRY(m5){ run<R5>(SX_T(3,4),1,0); }
SX_ENTRY(m6){ hx_buckets(3); run<R6>(3,1,0); }
SX_ENTRY(m7){ hx_buckets(3); run<R7>(3,1,0); }
SX_ENTRY(m8){ run<R8>(3,1,0); }
SX_ENTRY(m9){ run<R9>(3,1,0); }
SX_ENTRY(twice_1){ run<R1>(3,2,0); }
SX_ENTRY(twice_3){ hx_buckets(2); KN=2; run<R3>(3,2,0); }
SX_ENTRY(twice_5){ run<R5>(2,2,0); }
SX_ENTRY(f_ord){ run<R1>(3,1,1); }
SX_ENTRY(f_hash){ hx_buckets(2); KN=2; run<R3>(3,1,1); }
SX_ENTRY(f_m5){ run<R5>(2,1,1); }
SX_ENTRY(f_m6){ hx_buckets(3); run<R6>(2,1,1); }
SX_ENTRY(f_m7){ hx_buckets(2); run<R7>(2,1,1); }
SX_ENTRY(f_m9){ run<R9>(2,1,1); }
SX_ENTRY_THOROUGH(f_m53){ run<R5>(3,1,1); }
SX_ENTRY_THOROUGH(f_m63){ hx_buckets(3); run<R6>(3,1,1); }
SX_ENTRY_THOROUGH(f_m93){ run<R9>(3,1,1); }
