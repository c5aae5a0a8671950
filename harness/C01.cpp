// BOUND: containers of 3-5 indices (ordered, ranked, hashed, sequenced, random access; unique and not); up to 4 elements; int keys over all order/equality patterns of the values 0..3; histories of up to 5 operations
#include "mi.h"
using namespace mi;
#ifndef C01_TYPES
typedef multi_index_container<El,indexed_by<ordered_unique<KA>,ordered_non_unique<KB>,sequenced<>>> C1;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HLow>,hashed_non_unique<KB,HLow>,random_access<>>> C2;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA>,hashed_unique<KB,HLow>,random_access<>,ranked_non_unique<KB>>> C3;
typedef multi_index_container<El,indexed_by<random_access<>,ordered_non_unique<KB>,hashed_unique<KB,HWild>,ordered_unique<KA,std::greater<int>>>> C4;
#endif

static int nid;
// one insertion through index k, in one of the available forms
template<class C> void do_insert(C& c,Ref<C>& r,const El& e){
  int k=sx_choose(nidx<C>());
  at<C>(k,[&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>();
    int conf=r.conflict(c,e); int n=(int)c.size(); const El* res; bool ok; int hint=-1; 
    Snap<C> s(c);
    int form=sx_choose(X::positional?3:3);
    if (form==1||X::positional) hint=sx_choose(n+1);
    if constexpr (X::positional) {
      if (form==2) { auto p= sx_choose(2)? x.emplace_back(e.id,e.a,e.b,e.c) : x.push_back(e); res=&*p.first; ok=p.second; hint=-1; }
      else { auto p= form==0? x.insert(nth_it(x,hint),e) : x.emplace(nth_it(x,hint),e.id,e.a,e.b,e.c); res=&*p.first; ok=p.second; } }
    else {
      if (form==0) { auto p=x.insert(e); res=&*p.first; ok=p.second; }
      else if (form==1) { auto it=x.insert(nth_it(x,hint),e); res=&*it; ok=res->id==e.id; if (X::kind==HSH) hint=-1; }
      else { auto p=x.emplace(e.id,e.a,e.b,e.c); res=&*p.first; ok=p.second; } }
    sx_check(ok==!conf,"acceptance");
    if (ok) { sx_check(res->id==e.id,"inserted-element"); r.insert(c,res,I.value,hint); }
    else { s.same(c,"refused-insertion-changed-something"); int cf=0; each<C>([&](auto J){ if constexpr (ix<C,J.value>::uniq) cf|=Ref<C>::template same<J.value>(c,e,*res); }); sx_check(cf,"reported-element-does-not-conflict"); sx_reach("refused"); }
  });
}
static El fresh(){ int id=nid++; return El(id,sx_int(0,3),sx_int(0,3),0); }
template<class C> void step(C& c,Ref<C>& r,int op){
  int n=(int)c.size();
  if (op==0) { El e=fresh(); do_insert(c,r,e); return; }
  if (n==0) return;
  int k=sx_choose(nidx<C>()),p=sx_choose(n);
  at<C>(k,[&](auto I){ auto& x=c.template get<I.value>(); auto it=nth_it(x,p); int id=it->id;
    if (op==1) { x.erase(it); r.erase(id); }
    else if (op==2) { auto nh=x.extract(it); sx_check(!nh.empty()&&nh.value().id==id,"extract-handle"); r.erase(id); }
    else if (op==3) { El e(id,sx_int(0,3),sx_int(0,3),0); int conf=r.conflict(c,e,id); bool ok=x.replace(it,e); sx_check(ok==!conf,"replace-acceptance"); if (ok) r.changed(c,id); }
    else if (op==4) { int a=sx_int(0,3),b=sx_int(0,3); El e(id,a,b,0); int conf=r.conflict(c,e,id); bool ok=x.modify(it,[&](El& z){ z.a=a; z.b=b; }); sx_check(ok==!conf,"modify-acceptance"); if (ok) r.changed(c,id); else r.erase(id); }
    else if (op==5) { c.clear(); r.clear(); }
  });
}
template<class C> void history(int init,int len,int nops){
  nid=0; { C c; Ref<C> r;
  for (int i=0;i<init;i++) { El e(nid++,sx_int(0,3),sx_int(0,3),0); int conf=r.conflict(c,e); auto p=put(c,e); sx_check(p.second==!conf,"acceptance"); if (p.second) r.insert(c,&*p.first); }
  for (int i=0;i<len;i++) { step(c,r,sx_choose(nops)); r.compare(c,true); }
  verify(c); verify_find(c); observe(c); sx_reach("end"); }
}






SX_ENTRY(h1){ history<C1>(3,1,6); }
SX_ENTRY(h2){ history<C2>(3,1,6); }
SX_ENTRY(h3){ history<C3>(SX_T(2,3),1,6); }
SX_ENTRY(h4){ history<C4>(SX_T(2,3),1,6); }
SX_ENTRY(g1){ history<C1>(1,2,5); }
SX_ENTRY(g2){ history<C2>(1,2,5); }
SX_ENTRY(g3){ history<C3>(SX_T(0,1),2,5); }
SX_ENTRY(g4){ history<C4>(1,2,5); }
SX_ENTRY_THOROUGH(d1){ history<C1>(2,2,6); }
SX_ENTRY_THOROUGH(d2){ history<C2>(2,2,6); }
SX_ENTRY_THOROUGH(d4){ history<C4>(2,2,5); }
