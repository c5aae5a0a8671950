// BOUND: modification (plain, with rollback, of the key) through every index of containers of 2-4 indices covering every kind and every position of a kind, 2-3 elements with every key and bucket-collision pattern, a fault in the modifier, rollback, comparison, hashing, equality or key extraction at any point, or refusal: iterators of every index to every element afterwards
#include "C24.h"
#include "fx.h"
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>,hashed_non_unique<XB,FHash2,FEq>,sequenced<>>> F1;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XB,FHash2,FEq>,random_access<>,ranked_non_unique<XA,FLess>>> F2;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash2,FEq>,ordered_non_unique<XB,FLess>>> F3;
typedef multi_index_container<Ef,indexed_by<sequenced<>,random_access<>,ordered_unique<XA,FLess>,hashed_unique<XB,FHash2,FEq>>> F4;
typedef multi_index_container<Ef,indexed_by<ranked_unique<XA,FLess>,ranked_non_unique<XB,FLess>,random_access<>,hashed_non_unique<XA,FHash2,FEq>>> F5;
static int KN=3;
template<class It> int use_code(It& it,const Ef*& e){ try { e=&*it; } catch(const Report& r) { return r.code; } return -1; }
template<class C,int I> struct Kept { typename ix<C,I>::type::iterator t[3]; };
template<class C,int... I> struct KeptAll : Kept<C,I>... {};
template<class C,int... I> KeptAll<C,I...> kept_(std::integer_sequence<int,I...>);
template<class C> void modf(int n,int budget){ fx_reset(); nid=0; typedef typename C::value_type V; typedef decltype(kept_<C>(std::make_integer_sequence<int,nidx<C>()>())) KA_;
 try { { C c; for (int i=0;i<n;i++) put(c,El(nid++,sx_int(0,KN-1),sx_int(0,1),0)); n=(int)c.size(); 
  KA_ kk; const V* el[3]; int id[3]; { int i=0; for (auto& e: c.template get<0>()) { el[i]=&e; id[i]=e.id; i++; } }
  each<C>([&](auto J){ auto& x=c.template get<J.value>(); for (int i=0;i<n;i++) static_cast<Kept<C,J.value>&>(kk).t[i]=x.iterator_to(*el[i]); });
  int k=sx_choose(nidx<C>()),p=sx_choose(n); int rb=sx_choose(3); El nv(0,sx_int(0,KN-1),sx_int(0,1),5); bool thrown=false; 
  at<C>(k,[&](auto I){ auto& x=c.template get<I.value>(); auto it=x.iterator_to(*el[p]); El old(*el[p]); nv.id=old.id; 
    auto mod=[&](V& z){ if (fx_budget>0) fx_tick(FX_MOD); z.set(nv); }; auto back=[&](V& z){ if (fx_budget>0) fx_tick(FX_BACK); z.set(old); };
    fx_arm(budget); try { if (rb==0) x.modify(it,mod); else if (rb==1) x.modify(it,mod,back); else x.replace(it,V(nv.id,nv.a,nv.b,nv.c)); } catch(const Boom&) { thrown=true; } fx_disarm(); });
  if (thrown) sx_reach("fault-in-safe-mode");
  for (int i=0;i<n;i++) { bool in=false; for (auto& e: c.template get<0>()) in|= e.id==id[i]; if (!in) sx_reach("fault-erased");
    each<C>([&](auto J){ typedef typename ix<C,J.value>::type X; X& x=c.template get<J.value>(); auto& t=static_cast<Kept<C,J.value>&>(kk).t[i]; const V* e=0; int r=use_code(t,e);
      if (in) { sx_check(r<0&&e==el[i],"valid-iterator-reported"); sx_check(t==x.iterator_to(*el[i]),"iterator-differs"); }
      else { sx_check(r==safe_mode::invalid_iterator,"invalidated-iterator-not-reported"); int r2=-1; auto m=c.size(); try { x.erase(t); } catch(const Report& q) { r2=q.code; } sx_check(r2==safe_mode::invalid_iterator&&c.size()==m,"use-of-invalidated-iterator"); } }); }
  verify(c); observe(c); } } catch(const Report&) { sx_fail("correct-use-reported"); } 
 sx_check(ef_alive==0,"element-leaked"); }
SX_ENTRY(modf_1){ modf<F1>(2,1); }
SX_ENTRY(modf_2){ modf<F2>(2,1); }
SX_ENTRY(modf_3){ modf<F3>(2,1); }
SX_ENTRY(modf_4){ KN=2; modf<F4>(2,1); }
SX_ENTRY(modf_5){ KN=2; modf<F5>(2,1); }
SX_ENTRY_THOROUGH(modf_13){ modf<F1>(3,1); }
SX_ENTRY_THOROUGH(modf_23){ modf<F2>(3,1); }
SX_ENTRY_THOROUGH(modf_33){ modf<F3>(3,1); }
SX_ENTRY_THOROUGH(modf_32){ modf<F3>(2,2); }
