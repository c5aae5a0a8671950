// BOUND: containers of 1-4 indices covering every index kind, unique and not, over a tracking allocator; 0-3 elements with every equality/order pattern of keys and hash-bucket collisions; every form of insertion (copy, move, emplace, hinted, push), node handle insertion, replacement, rehash, reserve, shrink_to_fit, copy construction, allocator-extended copy, range and list construction, copy and list assignment; exactly one fault at any point where an element operation, predicate, hash, key extraction or allocation runs
#include "fx.h"
using namespace mi;
typedef TA<Ef> A;
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>,ordered_non_unique<XB,FLess>>,A> S1;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash,FEq>>,A> S2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>>,A> S3;
typedef multi_index_container<Ef,indexed_by<sequenced<>,ranked_unique<XA,FLess>,random_access<>>,A> S4;
typedef multi_index_container<Ef,indexed_by<random_access<>,hashed_non_unique<XB,FHash2,FEq>,ordered_unique<XA,FLess>>,A> S5;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash2,FEq>,hashed_non_unique<XB,FHash2,FEq>,ranked_non_unique<XB,FLess>>,A> S6;
static int nid, KN=3, BN=2;
static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,BN-1),0); }
template<class C> void fill(C& c,int n){ for (int i=0;i<n;i++) put(c,fresh()); }
template<class C> void usable(C& c){ verify(c); verify_find(c); put(c,El(nid++,0,0,0)); verify(c); }
enum { INSERT, HINT, EMPLACE, NODE, REPLACE, REHASH, COPY, ASSIGN, LIST, RANGE, MODIFY_OTHER, NOPS };
// bucket counts and positions tell whether a hashed index grew
template<class C> bool grew(const C& c,const size_t* b){ bool r=false; each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) r|= c.template get<I.value>().bucket_count()!=b[I.value]; }); return r; }
template<class C> void op(C& c,int which){
  int n=(int)c.size(); typedef typename C::value_type V;
  size_t bc[8]={}; each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) bc[I.value]=c.template get<I.value>().bucket_count(); });
  Snap<C> s(c); bool thrown=false; int live=fx_live,alive=ef_alive; bool checklive=true; 
  auto end=[&](bool t){ fx_disarm(); if (t) { s.same(c,"fault-changed-container",!grew(c,bc)); sx_reach("fault"); } };
  if (which<=EMPLACE) { int k=sx_choose(nidx<C>()); El v=fresh(); V e(v.id,v.a,v.b,v.c); int form=sx_choose(2); int p=which==HINT?sx_choose(n+1):0; alive=ef_alive;
    at<C>(k,[&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>(); auto hint=nth_it(x,p); fx_arm(1);
      try {
        if constexpr (X::positional) { if (which==INSERT) { form? x.push_back(e) : x.push_front(std::move(e)); } else if (which==HINT) { form? x.insert(hint,e) : x.insert(hint,std::move(e)); } else { form? x.emplace_back(v.id,v.a,v.b,v.c) : x.emplace(hint,v.id,v.a,v.b,v.c); } }
        else { if (which==INSERT) { form? x.insert(e) : x.insert(std::move(e)); } else if (which==HINT) { form? x.insert(hint,e) : x.insert(hint,std::move(e)); } else { if (form) x.emplace(v.id,v.a,v.b,v.c); else x.emplace_hint(hint,v.id,v.a,v.b,v.c); } }
      } catch (const Boom&) { thrown=true; } }); end(thrown); if (thrown) sx_check(ef_alive==alive,"element-leaked"); }
  else if (which==NODE) { C d(c.get_allocator()); put(d,fresh()); int k=sx_choose(nidx<C>()); int p=sx_choose(n+1),form=sx_choose(2);
    auto nh=d.extract(d.begin()); const V* q=&nh.value(); El qv(*q); alive=ef_alive; live=fx_live;
    at<C>(k,[&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>(); auto hint=nth_it(x,p); if (!form&&p) return; fx_arm(1);
      try { if constexpr (X::positional) { if (!form) { auto r=x.insert(x.begin(),std::move(nh)); fx_disarm(); if (!r.inserted) nh=std::move(r.node); } else { auto r=x.insert(hint,std::move(nh)); fx_disarm(); if (!r.inserted) nh=std::move(r.node); } }
        else { if (!form) { auto r=x.insert(std::move(nh)); fx_disarm(); if (!r.inserted) nh=std::move(r.node); } else x.insert(hint,std::move(nh)); } }
      catch (const Boom&) { thrown=true; } }); end(thrown); if (thrown) { sx_check(ef_alive==alive&&!nh.empty()&&&nh.value()==q,"handle-lost-element"); sx_check((int)(q->a==qv.a)&(q->b==qv.b),"handle-value"); } }
  else if (which==REPLACE) { if (!n) return; int k=sx_choose(nidx<C>()),p=sx_choose(n); El v=fresh(); V e(v.id,v.a,v.b,v.c); alive=ef_alive; at<C>(k,[&](auto I){ auto& x=c.template get<I.value>(); auto it=nth_it(x,p); fx_arm(1); try { x.replace(it,e); } catch (const Boom&) { thrown=true; } }); end(thrown); sx_check(ef_alive==alive,"element-leaked"); }
  else if (which==REHASH) { int k=sx_choose(nidx<C>()),form=sx_choose(3); at<C>(k,[&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>();
      if constexpr (X::kind==HSH) { fx_arm(1); try { if (form==0) x.rehash(60); else if (form==1) x.reserve(3000); else { x.rehash(1); } } catch (const Boom&) { thrown=true; } fx_disarm(); if (thrown) { s.same(c,"rehash-fault-changed-container",true); sx_check(x.bucket_count()==bc[I.value],"bucket-count-after-fault"); sx_reach("fault"); } }
      else if constexpr (X::kind==RND) { size_t cap=x.capacity(); fx_arm(1); try { if (form==0) x.reserve(40); else if (form==1) x.reserve(1); else x.shrink_to_fit(); } catch (const Boom&) { thrown=true; } fx_disarm(); if (thrown) { s.same(c,"reserve-fault-changed-container",true); sx_check(x.capacity()==cap,"capacity-after-fault"); sx_reach("fault"); } } }); sx_check(ef_alive==alive,"element-leaked"); if (thrown) sx_check(fx_live==live,"memory-leaked"); }
  else if (which==COPY) { int form=sx_choose(2); fx_arm(1); try { if (form==0) { C d(c); fx_disarm(); verify(d); } else { C d(c,A(7)); fx_disarm(); verify(d); } } catch (const Boom&) { thrown=true; } end(thrown); sx_check(ef_alive==alive&&fx_live==live,"leaked"); }
  else if (which==ASSIGN) { C d(typename C::ctor_args_list(),A(sx_choose(2))); fill(d,sx_choose(2)); each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) bc[I.value]=c.template get<I.value>().bucket_count(); }); Snap<C> sd(d); alive=ef_alive; live=fx_live; fx_arm(1); try { c=d; } catch (const Boom&) { thrown=true; } end(thrown); sd.same(d,"source-changed"); if (thrown) sx_check(ef_alive==alive&&fx_live==live,"leaked"); }
  else if (which==LIST) { El u=fresh(),w=fresh(); V e[2]={V(u.id,u.a,u.b,u.c),V(w.id,w.a,w.b,w.c)}; alive=ef_alive; fx_arm(1); try { c={e[0],e[1]}; } catch (const Boom&) { thrown=true; } end(thrown); if (thrown) sx_check(ef_alive==alive&&fx_live==live,"leaked"); }
  else if (which==RANGE) { El u=fresh(),w=fresh(); V e[2]={V(u.id,u.a,u.b,u.c),V(w.id,w.a,w.b,w.c)}; alive=ef_alive; int form=sx_choose(2); fx_arm(1); try { if (form==0) { C d(e,e+2); fx_disarm(); verify(d); } else { C d({e[0],e[1]},typename C::ctor_args_list(),A(3)); fx_disarm(); verify(d); } } catch (const Boom&) { thrown=true; } end(thrown); sx_check(ef_alive==alive&&fx_live==live,"leaked"); }
  else { C d; fx_arm(1); bool got=false; try { C e2(c.get_allocator()); got=true; } catch (const Boom&) { thrown=true; } end(thrown); sx_check(got!=thrown,"ctor"); }
}
template<class C> void run(int n,unsigned ops,float mlf=0){ fx_reset(); nid=1; int which=sx_choose(NOPS); if (!((ops>>which)&1)) return; if (n>=0) { C c; if (mlf>0) each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind==HSH) c.template get<I.value>().max_load_factor(mlf); }); fill(c,n); op(c,which); observe(c); usable(c); c.clear(); verify(c); } sx_check(ef_alive==0,"element-leaked-at-end"); sx_check(fx_live==0,"memory-leaked-at-end"); sx_check(fx_al==0,"allocator-leaked-at-end"); }
const unsigned ALL=(1u<<NOPS)-1, SMALL=ALL&~((1u<<INSERT)|(1u<<HINT));
SX_ENTRY(s1){ run<S1>(2,ALL); }
SX_ENTRY(s2){ hx_buckets(2); KN=2; run<S2>(2,ALL); }
SX_ENTRY(s2g){ hx_buckets(3); BN=1; run<S2>(2,ALL,0.02f); }
SX_ENTRY(s3){ hx_buckets(2); KN=2; BN=1; run<S3>(3,ALL); }
SX_ENTRY(s3g){ hx_buckets(2); KN=2; BN=1; run<S3>(3,ALL,0.02f); }
SX_ENTRY(s4){ BN=1; run<S4>(2,ALL); }
SX_ENTRY(s5){ run<S5>(1,ALL,0.02f); }
SX_ENTRY(s5b){ KN=2; run<S5>(2,ALL); }
SX_ENTRY(s6){ KN=2; run<S6>(2,ALL,0.02f); }
// rehash of several groups in several buckets: fault in the middle, everything put back
SX_ENTRY(rehash_n){ hx_buckets(3); BN=1; run<S3>(SX_T(4,5),1u<<REHASH); }
SX_ENTRY(rehash_n6){ hx_buckets(2); KN=2; BN=1; run<S3>(SX_T(6,7),1u<<REHASH); }
SX_ENTRY(rehash_u){ hx_buckets(4); KN=4; BN=1; run<S2>(4,1u<<REHASH); }
SX_ENTRY_THOROUGH(s1_3){ run<S1>(3,ALL); }
SX_ENTRY_THOROUGH(s4_3){ run<S4>(3,ALL); }
SX_ENTRY_THOROUGH(s6_3){ run<S6>(3,ALL,0.04f); }
