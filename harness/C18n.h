#include "C18.h"
// extract, edit, hand around, insert elsewhere
template<class C,class D> void nodes(int n,int m,int edit=1){ begin_end([&]{
  C c; D d; fill(c,n); fill(d,m); n=(int)c.size(); m=(int)d.size(); if (!n) return; typedef typename C::node_type H; static_assert(std::is_same<H,typename D::node_type>::value,"");
  Seqs<C> sc(c); Snap<C> vc(c); Seqs<D> sd(d); int made=ef_made,gone=ef_destroyed; const Ef* e=0; H h; sx_check(h.empty()&&!h,"default-handle");
  int j=sx_choose(nidx<C>()); bool bykey=sx_choose(2);
  at<C>(j,[&](auto J){ typedef ix<C,J.value> X; auto& x=c.template get<J.value>(); 
    if (!bykey) { auto it=nth_it(x,sx_choose(n)); e=&*it; h=x.extract(it); }
    else if constexpr (X::keyed) { int key=sx_int(0,X::kind==HSH?KN-1:KN); auto k=x.key_extractor(); for (auto& z: x) if (!e&&sx_concretize((unsigned)(k(z)==key))) e=&z; h=x.extract(key); if (!e) { sx_check(h.empty(),"extract-absent-key"); vc.same(c,"failed-extract-changed"); } }
    else return; });
  if (!e) { sx_check((int)c.size()==n,"extract-none"); return; }
  sx_check(!h.empty()&&bool(h)&&&h.value()==e&&h.get_allocator().id==0,"handle"); sx_check(ef_made==made&&ef_destroyed==gone,"element-copied-or-destroyed");
  sx_check((int)c.size()==n-1,"size-after-extract"); each<C>([&](auto K){ sc.template apart<K.value>(c,e,"extract-reordered"); for (auto& z: c.template get<K.value>()) sx_check(&z!=e,"extracted-still-there"); }); verify(c);
  El was(*e); if (edit&&sx_choose(2)) { int v=sx_int(0,KN-1); h.value().a=v; was.a=v; }
  int mv=sx_choose(4); H g; if (mv==1) { H t(std::move(h)); sx_check(h.empty(),"moved-from-handle"); g=std::move(t); sx_check(t.empty(),"moved-from-handle"); } else if (mv==2) { g.swap(h); sx_check(h.empty(),"swapped-handle"); } else if (mv==3) { using std::swap; swap(h,g); swap(h,g); g=std::move(h); } else g=std::move(h);
  sx_check(!g.empty()&&&g.value()==e&&h.empty(),"handle-lost");
  bool bad=clash(d,*e); int i=sx_choose(nidx<D>()+1); if (i==nidx<D>()) { g=H(); sx_check(g.empty()&&ef_destroyed==gone+1,"dropped"); sx_reach("dropped"); return; }
  const Ef* acc[1]={e}; 
  at<D>(i,[&](auto I){ typedef ix<D,I.value> X; auto& y=d.template get<I.value>(); auto r=y.end(); bool ins=false; int p=-1; bool hint=false;
    if constexpr (X::positional) { p=sx_choose(m+1); auto q=y.insert(nth_it(y,p),std::move(g)); r=q.position; ins=q.inserted; sx_check(q.node.empty()==ins,"returned-node"); sx_check(g.empty(),"argument-handle-not-empty"); g=std::move(q.node); }
    else if (sx_choose(2)) { hint=true; auto q=y.insert(nth_it(y,sx_choose(m+1)),std::move(g)); r=q; ins=&*r==e; sx_check(g.empty()==ins,"hinted-handle"); }
    else { auto q=y.insert(std::move(g)); r=q.position; ins=q.inserted; sx_check(q.node.empty()==ins,"returned-node"); sx_check(g.empty(),"argument-handle-not-empty"); g=std::move(q.node); }
    sx_check(ins==!bad,"acceptance"); sx_check(ef_made==made&&ef_destroyed==gone,"element-copied-or-destroyed"); sx_check(eq(was,*e),"value-changed");
    if (ins) { sx_check(&*r==e,"position"); received(d,sd,acc,1,I.value,p,hint); works<D,I.value>(d,r,e); sx_reach("inserted"); }
    else { sx_check(!g.empty()&&&g.value()==e,"refused-node-lost"); sx_check(r!=y.end()&&sx_concretize((unsigned)clash1(d,*e,*r)),"blocking-element"); received(d,sd,acc,0,0,-1,true); sx_reach("refused"); } 
    // an empty handle inserts nothing
    H no; if constexpr (X::positional) { auto q=y.insert(y.begin(),std::move(no)); sx_check(!q.inserted&&q.position==y.end()&&q.node.empty(),"empty-handle"); } else { auto q=y.insert(std::move(no)); sx_check(!q.inserted&&q.position==y.end()&&q.node.empty(),"empty-handle"); } });
  verify(c); verify(d); verify_find(d); verify_find(c);
  if (!g.empty()) { bool b2=clash(c,*e); auto& x=c.template get<0>(); if constexpr (ix<C,0>::positional) { auto q=x.insert(x.begin(),std::move(g)); sx_check(q.inserted==!b2,"reinsert"); } else { auto q=x.insert(std::move(g)); sx_check(q.inserted==!b2,"reinsert"); } verify(c); verify_find(c); }
  put(c,fresh()); put(d,fresh()); verify(c); verify(d); observe(c); observe(d); }); }

