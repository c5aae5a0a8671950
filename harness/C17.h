// accounting of memory and element lifetimes over histories of two or three containers
#include "C15.h"
struct ById { bool operator()(const Ef& a,const Ef& b) const { return a.id<b.id; } };
static int swaps_ok;                // swapping is allowed (equal or propagating allocators)
enum { O_PUT, O_ERASE, O_GROW, O_COPYAS, O_MOVEAS, O_SWAP, O_COPYCTOR, O_MOVECTOR, O_TRANSFER, O_NODE, O_LIST, O_CLEAR, O_RANGE, O_N };
template<class C> int& idof(C& c){ static int dummy; dummy=c.get_allocator().id; return dummy; }
// every index re-allocates its array
template<class C> void grow(C& c){ each<C>([&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>(); if constexpr (X::kind==HSH) { x.rehash(sx_choose(2)? 60 : 1); } else if constexpr (X::kind==RND) { if (sx_choose(2)) x.reserve(c.size()+20); else x.shrink_to_fit(); } }); }
template<class C,int Pr> void step(C& x,C& y,int op){
  typedef typename C::allocator_type A; int ix_=x.get_allocator().id, iy=y.get_allocator().id; bool equal= ix_==iy; int nx=(int)x.size(),ny=(int)y.size(); int made=ef_made,alive=ef_alive;
  switch (op) {
  case O_PUT: put(x,fresh()); sx_check(ef_alive==alive+(int)x.size()-nx,"refused-element-lives"); break;
  case O_ERASE: if (nx) { auto& i=x.template get<0>(); i.erase(nth_it(i,sx_choose(nx))); sx_check(ef_alive==alive-1,"erased-element-lives"); } break;
  case O_GROW: grow(x); sx_check(ef_made==made,"element-made"); break;
  case O_COPYAS: x=y; sx_check(x.get_allocator().id==((Pr&1)?iy:ix_),"allocator"); break;
  case O_MOVEAS: x=std::move(y); sx_check(x.get_allocator().id==((Pr&2)?iy:ix_),"allocator"); if (equal||(Pr&2)) sx_check(ef_made==made,"element-made"); break;
  case O_SWAP: if (equal||(Pr&4)) { x.swap(y); sx_check(ef_made==made&&ef_alive==alive,"element-made"); } break;
  case O_COPYCTOR: { C z(x,A(sx_choose(2)?iy:ix_+5)); put(z,fresh()); grow(z); if (z.get_allocator().id==iy&&sx_choose(2)) y=std::move(z); break; }
  case O_MOVECTOR: { if (sx_choose(2)) { C z(std::move(x)); grow(z); put(z,fresh()); grow(x); if (sx_choose(2)) x=z; } else { C z(std::move(x),A(iy)); grow(z); put(z,fresh()); grow(x); y=std::move(z); } break; }
  case O_TRANSFER: { bool done=false; each<C>([&](auto I){ typedef ix<C,I.value> X; if (done) return; auto& a=x.template get<I.value>(); auto& b=y.template get<I.value>(); if constexpr (X::positional) { done=true; int k=sx_choose(3); if (k==0) a.splice(a.begin(),b); else if (k==1) { if (ny) a.splice(a.end(),b,b.begin()); } else { a.sort(ById()); b.sort(ById()); a.merge(b,ById()); } if (equal) sx_check(ef_made==made,"element-made"); } });
      if (!done&&equal) { x.merge(y); sx_check(ef_made==made,"element-made"); } sx_check(ef_alive==alive,"transfer-count"); break; }
  case O_NODE: { if (!ny) break; auto& b=y.template get<0>(); auto nh=b.extract(b.begin()); sx_check(ef_alive==alive&&nh.get_allocator().id==iy,"extract"); int k=sx_choose(3); if (k==0||!equal) { typename C::node_type h2; h2=std::move(nh); } else if (k==1) { auto& a=x.template get<nidx<C>()-1>(); if constexpr (ix<C,nidx<C>()-1>::positional) { auto r=a.insert(a.begin(),std::move(nh)); typename C::node_type h2(std::move(r.node)); sx_check(h2.empty()==r.inserted,"node-insert"); } else { auto r=a.insert(std::move(nh)); typename C::node_type h2(std::move(r.node)); sx_check(h2.empty()==r.inserted,"node-insert"); } sx_check(ef_made==made,"element-made"); } else { typename C::node_type h2; h2.swap(nh); if (ny>1) { auto h3=b.extract(b.begin()); h3.swap(h2); h3=std::move(h2); } } break; }
  case O_LIST: { Ef a,b; El f=fresh(); a.set(f); b.set(fresh()); x={a,b}; break; }
  case O_CLEAR: x.clear(); sx_check(ef_alive==alive-nx,"cleared-element-lives"); break;
  case O_RANGE: { Ef v[2]; v[0].set(fresh()); v[1].set(fresh()); auto& a=x.template get<0>(); if constexpr (ix<C,0>::positional) { if (sx_choose(2)) a.insert(a.begin(),v,v+2); else { a.assign(v,v+1); a.resize(2); a.resize(1); } } else a.insert(v,v+2); break; }
  }
  sx_check(ef_alive==(int)x.size()+(int)y.size(),"elements-alive");
  // only the two containers own memory now, each through its own allocator
  int own=0; own+=fx_owned(x.get_allocator().id); if (x.get_allocator().id!=y.get_allocator().id) own+=fx_owned(y.get_allocator().id); sx_check(own==fx_live,"memory-of-another-allocator");
}
template<class C,int Pr> void run(int n,int m,int steps,unsigned skip=0){
  fx_reset(); nid=1; typedef typename C::allocator_type A;
  { int e=sx_choose(2); C x(args<C>(),A(1)),y(args<C>(),A(e?1:2)); for (int i=0;i<n;i++) put(x,fresh()); for (int i=0;i<m;i++) put(y,fresh());
    for (int s=0;s<steps;s++) { int op=sx_choose(O_N); if (skip>>op&1) return; if (sx_choose(2)) step<C,Pr>(x,y,op); else step<C,Pr>(y,x,op); }
    verify(x); verify(y); observe(x); observe(y); sx_reach("end"); }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
