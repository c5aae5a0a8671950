// BOUND: containers of objects, pointers, smart pointers, pointers to pointers and reference wrappers keyed by each kind of extractor, up to 3 elements of full-width keys; ordering, uniqueness, lookup for any key, and key modification through read/write extractors
#include "C21.h"
struct Z { int id,k; short t; int kc() const { return k; } int& kr() { return k; } const int& kcr() const { return k; } };
inline int zk(const Z& z){ return z.k; } inline int zv(Z z){ return z.k; } inline int& zr(Z& z){ return z.k; }
static Z zs[4]; static const Z* addr(const Z& z){ return &z; } template<class T> const Z* addr(const T& p){ return addr(*p); } template<class T> const Z* addr(const boost::reference_wrapper<T>& r){ return &r.get(); }
// V: the element type made from the object; C: container with an ordered_unique index 0 and a hashed_non_unique index 1 by the same extractor
template<class V,class E> struct cont { typedef multi_index_container<V,indexed_by<ordered_unique<E>,hashed_non_unique<E,HLow>,sequenced<>,ranked_non_unique<E,std::greater<int>>>> T; };
template<class V> struct mk; template<> struct mk<Z>{ static const Z& of(Z& z){ return z; } }; template<> struct mk<Z*>{ static Z* of(Z& z){ return &z; } }; template<> struct mk<const Z*>{ static const Z* of(Z& z){ return &z; } }; template<class T> struct mk<SP<T>>{ static SP<T> of(Z& z){ return SP<T>(&z); } }; template<class T> struct mk<boost::reference_wrapper<T>>{ static boost::reference_wrapper<T> of(Z& z){ return boost::reference_wrapper<T>(z); } }; template<class T> struct mk<SR<T>>{ static SR<T> of(Z& z){ return SR<T>(&z); } };
static Z* zp[4]; template<> struct mk<Z**>{ static Z** of(Z& z){ zp[&z-zs]=&z; return &zp[&z-zs]; } };
inline const Z* addr(const SR<Z>& r){ return r.p; }
template<class V,class E> void run(int n=3){ typedef typename cont<V,E>::T C; C c; int m=0; int have[4];
  for (int i=0;i<n;i++) { zs[i].id=i; zs[i].k=sx_any_int(); zs[i].t=0; int dup=0; for (int j=0;j<m;j++) dup|=have[j]==zs[i].k; auto r=c.insert(mk<V>::of(zs[i])); sx_check(r.second==!dup,"unique-by-part"); if (r.second) have[m++]=zs[i].k; }
  sx_check((int)c.size()==m,"size"); const Z* p=0; for (auto& v: c) { const Z* z=addr(v); if (p) sx_check(p->k<z->k,"order-by-part"); p=z; }
  p=0; for (auto& v: c.template get<3>()) { const Z* z=addr(v); if (p) sx_check(p->k>z->k,"order-by-part"); p=z; }
  int q=sx_any_int(); int want=0; for (int j=0;j<m;j++) want|=have[j]==q; auto it=c.find(q); sx_check((it!=c.end())==want,"find"); if (it!=c.end()) sx_check(addr(*it)->k==q,"found-other"); sx_check((int)c.template get<1>().count(q)==want,"hashed-count"); auto h=c.template get<1>().find(q); sx_check((h!=c.template get<1>().end())==want,"hashed-find"); sx_check((int)c.template get<3>().count(q)==want,"ranked-count"); sx_reach(want?"found":"absent"); sx_observe(m); }
// modify_key through a read/write extractor
template<class V,class E> void modk(int n=2){ typedef typename cont<V,E>::T C; C c; for (int i=0;i<n;i++) { zs[i].id=i; zs[i].k=i*10; zs[i].t=7; c.insert(mk<V>::of(zs[i])); } int v=sx_any_int(); int p=sx_choose(n); auto it=nth_it(c,p); const Z* z=addr(*it); int dup=0; for (int i=0;i<n;i++) if (i!=p) dup|=v==i*10; int id=z->id;
  bool ok=c.modify_key(it,[&](int& k){ sx_check(&k==&z->k,"modify_key-other-part"); k=v; },[&](int& k){ sx_check(&k==&z->k,"rollback-other-part"); k=p*10; }); sx_check(ok==!dup,"modify_key"); sx_check(addr(*it)==z&&z->id==id&&z->t==7&&z->k==(ok?v:p*10),"modify_key-value"); sx_check((int)c.size()==n,"modify_key-size"); const Z* q=0; for (auto& e: c) { if (q) sx_check(q->k<addr(e)->k,"order-by-part"); q=addr(e); } sx_check(c.find(z->k)==it,"find-modified"); sx_check(c.template get<1>().count(z->k)==1,"hashed-modified"); sx_reach(ok?"modified":"refused"); }
typedef member<Z,int,&Z::k> EM; typedef member<Z,const int,&Z::k> EMC; typedef const_mem_fun<Z,int,&Z::kc> EF; typedef const_mem_fun<Z,const int&,&Z::kcr> EFR; typedef global_fun<const Z&,int,&zk> EG; typedef global_fun<Z,int,&zv> EV; typedef mem_fun<Z,int&,&Z::kr> ER; typedef global_fun<Z&,int&,&zr> EGR;
SX_ENTRY(v_m){ run<Z,EM>(); }
SX_ENTRY(v_f){ run<Z,EF>(); }
SX_ENTRY(v_fr){ run<Z,EFR>(2); }
SX_ENTRY(v_g){ run<Z,EG>(2); }
SX_ENTRY(v_v){ run<Z,EV>(2); }
SX_ENTRY(p_m){ run<Z*,EM>(); }
SX_ENTRY(p_r){ run<Z*,ER>(2); }
SX_ENTRY(p_gr){ run<Z*,EGR>(2); }
SX_ENTRY(cp_m){ run<const Z*,EMC>(2); }
SX_ENTRY(cp_f){ run<const Z*,EF>(2); }
SX_ENTRY(pp_m){ run<Z**,EM>(2); }
SX_ENTRY(sp_g){ run<SP<Z>,EG>(2); }
SX_ENTRY(sp_r){ run<SP<Z>,ER>(2); }
SX_ENTRY(scp_v){ run<SP<const Z>,EV>(2); }
SX_ENTRY(sr_m){ run<SR<Z>,EM>(2); }
SX_ENTRY(rw_m){ run<boost::reference_wrapper<Z>,EM>(2); }
SX_ENTRY(rw_f){ run<boost::reference_wrapper<Z>,EF>(2); }
SX_ENTRY(rw_r){ run<boost::reference_wrapper<Z>,ER>(2); }
SX_ENTRY(crw_g){ run<boost::reference_wrapper<const Z>,EG>(2); }
SX_ENTRY(k_m){ run<Z*,key<&Z::k>>(2); }
SX_ENTRY(k_f){ run<SP<const Z>,key<&Z::kc>>(2); }
SX_ENTRY(m_v){ modk<Z,EM>(); }
SX_ENTRY(m_p){ modk<Z*,EM>(); }
SX_ENTRY(m_pr){ modk<Z*,ER>(); }
SX_ENTRY(m_pp){ modk<Z**,EM>(); }
SX_ENTRY(m_sp){ modk<SP<Z>,EGR>(); }
SX_ENTRY(m_rw){ modk<boost::reference_wrapper<Z>,EM>(); }
SX_ENTRY(m_rr){ modk<boost::reference_wrapper<Z>,ER>(3); }
SX_ENTRY(m_k){ modk<Z,key<&Z::k>>(3); }
SX_ENTRY(id_int){ multi_index_container<int,indexed_by<ordered_unique<identity<int>>,hashed_unique<identity<int>,HLow>>> c; int v[3]; for (int& x: v) { x=sx_any_int(); c.insert(x); } int q=sx_any_int(); int w=(q==v[0])|(q==v[1])|(q==v[2]); sx_check((int)c.count(q)==w&&(int)c.get<1>().count(q)==w,"identity-find"); int p=0,f=1; for (int x: c) { if (!f) sx_check(p<x,"identity-order"); p=x; f=0; } 
  int nv=sx_any_int(); int dup=0; bool first=true; for (int x: c) { if (!first) dup|=x==nv; first=false; } bool ok=c.modify_key(c.begin(),[&](int& k){ k=nv; }); sx_check(ok==!dup,"identity-modify_key"); sx_check(c.size()==c.get<1>().size(),"identity-size"); }
SX_ENTRY_THOROUGH(t_pp){ run<Z**,EM>(); }
SX_ENTRY_THOROUGH(t_rw){ run<boost::reference_wrapper<const Z>,EV>(); }
SX_ENTRY_THOROUGH(t_sr){ run<SR<Z>,ER>(); }
SX_ENTRY_THOROUGH(t_4){ run<Z*,EM>(4); }
// composite keys over pointers and wrappers
template<class V,class E> void ckc(int n){ typedef multi_index_container<V,indexed_by<ordered_non_unique<E>,hashed_non_unique<E,composite_key_hash<HLow,HLow>>>> C; C c; for (int i=0;i<n;i++) { zs[i].id=i; zs[i].k=sx_any_int(); zs[i].t=(short)sx_int(0,1); c.insert(mk<V>::of(zs[i])); }
  const Z* p=0; for (auto& v: c) { const Z* z=addr(v); if (p) sx_check((p->k<z->k)|((p->k==z->k)&(p->t<=z->t)),"composite-order"); p=z; } int q=sx_choose(n); int want=0,w1=0; for (int i=0;i<n;i++) { want+=(zs[i].k==zs[q].k)&(zs[i].t==zs[q].t); w1+=zs[i].k==zs[q].k; } sx_check((int)c.count(std::make_tuple(zs[q].k,zs[q].t))==want,"composite-count"); sx_check((int)c.count(zs[q].k)==w1,"prefix-count"); sx_check((int)c.template get<1>().count(std::make_tuple(zs[q].k,zs[q].t))==want,"hashed-composite-count"); }
SX_ENTRY(c_p){ ckc<Z*,key<&Z::kc,&Z::t>>(2); }
SX_ENTRY(c_cp){ ckc<const Z*,composite_key<Z,EMC,member<Z,const short,&Z::t>>>(2); }
SX_ENTRY(c_rw){ ckc<boost::reference_wrapper<Z>,composite_key<Z,EG,member<Z,short,&Z::t>>>(2); }
SX_ENTRY(c_sp){ ckc<SP<Z>,composite_key<Z,EFR,member<Z,short,&Z::t>>>(2); }
