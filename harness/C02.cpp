// BOUND: ordered indices of up to 7 elements with every order and equality pattern of keys (values 0..6; full 32-bit int keys up to 4 elements); up to 2 erasures, 1 modification or replacement; monotone and zigzag loads of 12 elements followed by up to 3 arbitrary erasures
#include "mi.h"
using namespace mi;
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA>>> CN;
typedef multi_index_container<El,indexed_by<ordered_unique<KA>>> CU;
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA,std::greater<int>>,ordered_unique<KB>>> CG;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA>>> CR;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA>,ordered_non_unique<KB>>> C3;

template<class C> void add(C& c,Ref<C>& r,const El& e){ int conf=r.conflict(c,e); auto p=put(c,e); sx_check(p.second==!conf,"acceptance"); if (p.second) r.insert(c,&*p.first); }
template<class C> void fill(C& c,Ref<C>& r,int n,int hi){ for (int i=0;i<n;i++) add(c,r,El(i,sx_int(0,hi),i,0)); }
template<class C> void done(C& c,Ref<C>& r){ r.compare(c); verify(c); observe(c); sx_reach("end"); }

// unhinted insertion, every order pattern
template<class C> void ins(int n){ C c; Ref<C> r; fill(c,r,n,n-1); done(c,r); }
SX_ENTRY(ins_n){ ins<CN>(6); }
SX_ENTRY(ins_u){ ins<CU>(6); }
SX_ENTRY(ins_g){ ins<CG>(5); }
SX_ENTRY(ins_r){ ins<CR>(5); }
SX_ENTRY_THOROUGH(ins_n7){ ins<CN>(7); }
SX_ENTRY_THOROUGH(ins_u7){ ins<CU>(7); }
// full-width keys
SX_ENTRY(wide){ CN c; Ref<CN> r; for (int i=0;i<4;i++) add(c,r,El(i,sx_any_int(),0,0)); done(c,r); }
SX_ENTRY(wide_u){ CU c; Ref<CU> r; for (int i=0;i<4;i++) add(c,r,El(i,sx_any_int(),0,0)); done(c,r); }

// hinted insertion / emplacement at every position
template<class C,int I> void hinted(int n,int hi){
  C c; Ref<C> r; fill(c,r,n,hi); int m=(int)c.size(); El e(20,sx_int(0,hi),20,0); int conf=r.conflict(c,e);
  auto& x=c.template get<I>(); int p=sx_choose(m+1); auto h=nth_it(x,p); int form=sx_choose(4);
  typename ix<C,I>::type::iterator it;
  if (form==0) it=x.insert(h,e); else if (form==1) it=x.insert(h,El(e)); else if (form==2) it=x.emplace_hint(h,e.id,e.a,e.b,e.c);
  else { const typename C::value_type& ce=e; it=x.insert(h,ce); }
  sx_check((it->id==20)==!conf,"hinted-acceptance");
  if (!conf) r.insert(c,&*it,I,p);
  done(c,r);
}
SX_ENTRY(hint_n){ hinted<CN,0>(4,3); }
SX_ENTRY(hint_u){ hinted<CU,0>(4,4); }
SX_ENTRY(hint_g){ hinted<CG,0>(3,2); }
SX_ENTRY(hint_r){ hinted<CR,0>(4,3); }
SX_ENTRY(hint_3){ hinted<C3,1>(3,3); }
SX_ENTRY_THOROUGH(hint_n5){ hinted<CN,0>(5,4); }
SX_ENTRY_THOROUGH(hint_u6){ hinted<CU,0>(6,6); }
// hints in sequence: a second insertion at an arbitrary hint after the first
template<class C> void hinted2(int n,int hi){ C c; Ref<C> r; fill(c,r,n,hi);
  for (int k=0;k<2;k++) { int m=(int)c.size(); El e(20+k,sx_int(0,hi),20+k,0); int conf=r.conflict(c,e); int p=sx_choose(m+1); auto it=c.insert(nth_it(c,p),e); sx_check((it->id==20+k)==!conf,"hinted-acceptance"); if (!conf) r.insert(c,&*it,0,p); }
  done(c,r); }
SX_ENTRY(hint2_n){ hinted2<CN>(3,3); }
SX_ENTRY(hint2_u){ hinted2<CU>(3,4); }
SX_ENTRY(hint2_r){ hinted2<CR>(2,3); }

// range and initializer-list insertion, construction
template<class C> void ranges(int n0,int n,int hi){ 
  C c; Ref<C> r; fill(c,r,n0,hi); El v[4]; for (int i=0;i<n;i++) v[i]=El(10+i,sx_int(0,hi),10+i,0);
  if (sx_choose(2)) c.insert(v,v+n); else c.insert({v[0],v[1]}), n=2;
  // every element of the range is inserted in turn; equivalent ones go after existing ones
  for (int i=0;i<n;i++) { int conf=r.conflict(c,v[i]); const El* p=0; for (auto it=c.begin();it!=c.end();++it) if (it->id==10+i) p=&*it; sx_check((p!=0)==!conf,"range-acceptance"); if (p) r.insert(c,p); }
  done(c,r); }
SX_ENTRY(range_n){ ranges<CN>(2,3,4); }
SX_ENTRY(range_u){ ranges<CU>(2,3,4); }
SX_ENTRY(range_r){ ranges<CR>(2,2,3); }
SX_ENTRY(construct){ El v[4]; for (int i=0;i<4;i++) v[i]=El(i,sx_int(0,3),i,0); { CN c(v,v+4); sx_check(c.size()==4,"construction-size"); verify(c); CN d({v[0],v[1],v[2]}); sx_check(d.size()==3,"construction-size"); verify(d); observe(c); }
  CU u(v,v+4); uint32_t in=0; for (int i=0;i<4;i++) { int conf=0; for (int j=0;j<i;j++) if ((in>>j)&1) conf|=v[j].a==v[i].a; bool p=false; for (auto it=u.begin();it!=u.end();++it) if (it->id==i) p=true; sx_check(p==!conf,"construction-acceptance"); if (p) in|=1u<<i; } verify(u); observe(u); }

// erasure in trees of every shape reachable by n insertions
template<class C> void erasing(int n,int k,int hi){ C c; Ref<C> r; fill(c,r,n,hi); for (int i=0;i<k&&c.size();i++) { int p=sx_choose((int)c.size()); auto it=nth_it(c,p); int id=it->id; c.erase(it); r.erase(id); } done(c,r); }
SX_ENTRY(erase_n){ erasing<CN>(5,2,4); }
SX_ENTRY(erase_u){ erasing<CU>(6,1,5); }
SX_ENTRY(erase_r){ erasing<CR>(4,2,3); }
SX_ENTRY_THOROUGH(erase_n6){ erasing<CN>(6,3,5); }
SX_ENTRY_THOROUGH(erase_u7){ erasing<CU>(7,2,6); }
// larger trees: structured loads, arbitrary erasures, then one arbitrary insertion
template<class C> void big(int n,int k){ C c; Ref<C> r; int shape=sx_choose(3); for (int i=0;i<n;i++) { int key= shape==0? i : shape==1? n-i : (i&1)? n-i/2 : i/2; add(c,r,El(i,2*key,i,0)); }
  for (int i=0;i<k;i++) { int p=sx_choose((int)c.size()); auto it=nth_it(c,p); int id=it->id; c.erase(it); r.erase(id); } add(c,r,El(30,sx_int(0,2*n+1),30,0)); done(c,r); }
SX_ENTRY(big_n){ big<CN>(12,2); }
SX_ENTRY(big_u){ big<CU>(12,2); }
SX_ENTRY(big_r){ big<CR>(11,2); }
SX_ENTRY_THOROUGH(big_n3){ big<CN>(14,3); }
// modification and replacement keep the order
template<class C,int I> void changing(int n,int hi){ C c; Ref<C> r; fill(c,r,n,hi); auto& x=c.template get<I>(); int m=(int)c.size(); int p=sx_choose(m); auto it=nth_it(x,p); int id=it->id; int a=sx_int(0,hi); int how=sx_choose(3);
  El e(*it); e.a=a; int conf=r.conflict(c,e,id); bool ok= how==0? x.replace(it,e) : how==1? x.modify(it,[&](El& z){ z.a=a; }) : x.modify_key(it,[&](int& k){ k=a; });
  sx_check(ok==!conf,"change-acceptance"); if (ok) r.changed(c,id); else if (how) r.erase(id);
  done(c,r); }
SX_ENTRY(change_n){ changing<CN,0>(5,4); }
SX_ENTRY(change_u){ changing<CU,0>(5,5); }
SX_ENTRY(change_g){ changing<CG,0>(4,3); }
SX_ENTRY(change_r){ changing<CR,0>(4,4); }
SX_ENTRY(change_3){ changing<C3,1>(4,4); }
