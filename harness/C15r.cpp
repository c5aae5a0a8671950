// BOUND: construction from a range (forward and single-pass) and from an initializer list, and initializer-list assignment over previous content, of 0-4 elements with every key and collision pattern, all functor states, ten containers of 1-4 indices
#include "C15.h"
// single-pass iterator over values, deref by value
struct In1 { typedef std::input_iterator_tag iterator_category; typedef Ef value_type; typedef std::ptrdiff_t difference_type; typedef const Ef* pointer; typedef Ef reference; struct Src { const Ef* v; int i; }; Src* s; int at; 
  Ef operator*() const { sx_check(s->i==at,"input-iterator-reread"); return s->v[at]; } In1& operator++(){ s->i=++at; return *this; } bool operator==(const In1& o) const { return at==o.at; } bool operator!=(const In1& o) const { return at!=o.at; } };
// acceptance by every unique index, in order; positional order; copied values
template<class C> void expect(const C& c,const Ef* v,int n,St s,int id){
  fnstate(c,s,"functors"); sx_check(c.get_allocator().id==id,"allocator");
  int acc[8],m=0; for (int i=0;i<n;i++) { int conf=0; for (int j=0;j<m;j++) each<C>([&](auto I){ if constexpr (ix<C,I.value>::uniq) conf|=Ref<C>::template same<I.value>(c,v[i],v[acc[j]]); }); if (!sx_concretize((unsigned)conf)) acc[m++]=i; }
  sx_check((int)c.size()==m,"accepted-count"); verify(c); verify_find(c); load_ok(c);
  each<C>([&](auto I){ typedef ix<C,I.value> X; const auto& x=c.template get<I.value>(); int k=0; uint32_t seen=0; int ok=1; for (auto& e: x) { sx_check(k<m,"too-many"); int w=-1; if constexpr (X::positional) w=acc[k]; else for (int j=0;j<m;j++) if (v[acc[j]].id==e.id) w=acc[j]; sx_check(w>=0&&v[w].id==e.id,"which-elements"); sx_check(!((seen>>w)&1),"twice"); seen|=1u<<w; ok&=e==v[w]; sx_check(&e<v||&e>=v+n,"not-copied"); k++; } sx_check(k==m&&ok,"content"); });
  if (m<n) sx_reach("refused"); else sx_reach("all-accepted"); observe(c); }
template<class C> void run(int n){
  fx_reset(); nid=1; St s=anyst(); 
  { n=sx_choose(n+1); Ef v[4]; for (int i=0;i<n;i++) v[i].set(fresh()); typedef typename C::allocator_type A; int k=sx_choose(4);
    if (k==0) { C c(v,v+n,args<C>(s.f,s.d,s.m),A(3)); expect(c,v,n,s,3); put(c,El(nid++,0,0,0)); verify(c); }
    else if (k==1) { In1::Src r{v,0}; C c(In1{&r,0},In1{&r,n},args<C>(s.f,s.d,s.m),A(3)); expect(c,v,n,s,3); }
    else if (k==2) { if (n==0) { C c(std::initializer_list<Ef>{},args<C>(s.f,s.d,s.m),A(3)); expect(c,v,n,s,3); } else if (n<3) { C c(std::initializer_list<Ef>{v[0],v[1]},args<C>(s.f,s.d,s.m),A(3)); if (n==2) expect(c,v,n,s,3); } else { C c({v[0],v[1],v[2]},args<C>(s.f,s.d,s.m),A(3)); if (n==3) expect(c,v,n,s,3); } }
    else { C c(args<C>(s.f,s.d,s.m),A(3)); put(c,fresh()); put(c,fresh()); if (n==0) c=std::initializer_list<Ef>{}; else if (n==1) c={v[0]}; else if (n==2) c={v[0],v[1]}; else { n=3; c={v[0],v[1],v[2]}; } sx_check(ef_alive==4+(int)c.size(),"old-content"); expect(c,v,n,s,3); put(c,El(nid++,0,0,0)); verify(c); }
    Ef lit(0); }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
SX_ENTRY(r1){ run<cfg<0>::D1>(SX_T(3,4)); }
SX_ENTRY(r2){ hx_buckets(2); KN=2; run<cfg<0>::D2>(3); }
SX_ENTRY(r4){ hx_buckets(2); KN=2; run<cfg<0>::D4>(3); }
SX_ENTRY(r6){ hx_buckets(2); KN=4; run<cfg<0>::D6>(3); }
SX_ENTRY(r9){ run<cfg<0>::D9>(SX_T(3,4)); }
SX_ENTRY(r0){ KN=2; hx_buckets(1); run<cfg<0>::D0>(3); }
