// BOUND: node handles on their own: three handles, two containers of up to 2 elements with equal or different stateful allocators of each propagation kind, every sequence of up to 4 steps (extract, move construct, move assign incl. onto itself and non-empty onto non-empty, swap incl. with itself, reset, insert back, refused insert, destruction of a container before its handles)
#include "C18.h"
template<class C> void handles(int steps,bool two){ begin_end([&]{ typedef typename C::node_type H; typedef typename C::allocator_type B;
  enum { POCMA=B::propagate_on_container_move_assignment::value, POCS=B::propagate_on_container_swap::value };
  int id2=1+(two?sx_choose(2):1); const Ef* own[3]={0,0,0}; int al[3]={0,0,0}; int live=0;
  { C *x=0,*y=0; struct G { C *&a,*&b; ~G(){ delete a; delete b; } } guard={x,y}; H h[3];
    x=new C(typename C::ctor_args_list(),B(1)); y=new C(typename C::ctor_args_list(),B(id2)); for (int i=0;i<2;i++) { put(*x,El(nid,i,nid&1,0)); nid++; put(*y,El(nid,i,nid&1,0)); nid++; } int nx=2,ny=2; live=4; int made=ef_made;
    sx_check(ef_alive==4,"setup");
    for (int s=0;s<steps;s++) { int op=sx_choose(7), i=sx_choose(3);
      if (op==0) { bool fx=sx_choose(2); C& c= fx? *x : *y; int& n= fx? nx : ny; if (!n) return; auto it=c.begin(); const Ef* e=&*it; if (h[i]) live--; bool ok= own[i]==0||POCMA||al[i]==(fx?1:id2); if (!ok) return; h[i]=c.extract(it); n--; own[i]=e; al[i]=fx?1:id2; }
      else if (op==1) { H t(std::move(h[i])); sx_check(h[i].empty()&&!h[i],"moved-from-handle"); sx_check(t.empty()==(own[i]==0),"move-constructed"); if (own[i]) sx_check(&t.value()==own[i]&&t.get_allocator().id==al[i],"move-constructed"); h[i]=std::move(t); sx_check(t.empty(),"moved-from-handle"); }
      else if (op==2) { int j=sx_choose(3); if (own[i]&&own[j]&&i!=j&&!POCMA&&al[i]!=al[j]) return; if (i!=j) { if (own[i]) live--; H& r=(h[i]=std::move(h[j])); sx_check(&r==&h[i],"assignment-result"); own[i]=own[j]; al[i]=al[j]; own[j]=0; sx_reach("assigned"); } else { H& r=h[j]; h[i]=std::move(r); } }
      else if (op==3) { int j=sx_choose(3); if (own[i]&&own[j]&&!POCS&&al[i]!=al[j]) return; if (s&1) h[i].swap(h[j]); else swap(h[i],h[j]); std::swap(own[i],own[j]); std::swap(al[i],al[j]); sx_reach("swapped"); }
      else if (op==4) { if (own[i]) live--; h[i]=H(); own[i]=0; }
      else if (op==5) { bool fx=sx_choose(2); C& c= fx? *x : *y; if (own[i]&&al[i]!=(fx?1:id2)) return; auto& p=c.template get<0>(); bool bad= own[i]&&clash(c,*own[i]); int& n= fx? nx : ny; 
        if constexpr (ix<C,0>::positional) { auto r=p.insert(p.begin(),std::move(h[i])); sx_check(r.inserted==(own[i]&&!bad)&&r.node.empty()==!bad,"insert"); if (r.inserted) { sx_check(&*r.position==own[i],"insert-position"); own[i]=0; n++; } else if (own[i]) h[i]=std::move(r.node); else sx_check(r.position==p.end(),"insert-empty"); }
        else { auto r=p.insert(std::move(h[i])); sx_check(r.inserted==(own[i]&&!bad)&&r.node.empty()==!bad,"insert"); if (r.inserted) { sx_check(&*r.position==own[i],"insert-position"); own[i]=0; n++; sx_reach("inserted"); } else if (own[i]) h[i]=std::move(r.node); else sx_check(r.position==p.end(),"insert-empty"); } }
      else { bool fx=sx_choose(2); if (s+1<steps) return; if (fx) { live-=nx; delete x; x=0; } else { live-=ny; delete y; y=0; } sx_reach("outlives"); }
      for (int k=0;k<3;k++) { sx_check(h[k].empty()==(own[k]==0)&&bool(h[k])==(own[k]!=0),"handle-state"); if (own[k]) sx_check(&h[k].value()==own[k]&&h[k].get_allocator().id==al[k],"handle-content"); }
      sx_check(ef_alive==live&&ef_made==made,"elements-alive"); if (x) sx_check((int)x->size()==nx,"size"); if (y) sx_check((int)y->size()==ny,"size"); }
    if (x) verify(*x); if (y) verify(*y); }
  sx_reach("end"); }); }
template<int Pr> struct HT { typedef TA<Ef,Pr> A;
  typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>>,A> U;
  typedef multi_index_container<Ef,indexed_by<sequenced<>,hashed_unique<XA,FHash,FEq>>,A> S; };
SX_ENTRY(h0){ handles<HT<0>::U>(SX_T(3,4),true); }
SX_ENTRY(h2){ handles<HT<2>::U>(SX_T(3,4),true); }
SX_ENTRY(h4){ handles<HT<4>::U>(SX_T(3,4),true); }
SX_ENTRY(h6){ handles<HT<6>::U>(SX_T(3,4),true); }
SX_ENTRY(hs){ handles<HT<2>::S>(SX_T(3,4),true); }
