// BOUND: range insertion and range construction from objects that are not elements (constant and non-constant references, objects returned by value, elements moved from, elements returned by value), on containers of 1-3 indices of every kind with 0-2 elements: 1 or 2 of them, every equality/order pattern, at most one fault at any point
// SX-ONLY: f_1 f_1b f_2 f_3 f_4 f_4q f_4r f_5 f_5h f_6
#include "C13.cpp"
// iterators over Src that yield constant references, references, values; and elements by value
template<class R,class V> struct It { typedef std::input_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef V* pointer; typedef R reference; Src* p; R operator*() const { return R(*p); } It& operator++(){ ++p; return *this; } It operator++(int){ It r=*this; ++p; return r; } bool operator==(const It& o) const { return p==o.p; } bool operator!=(const It& o) const { return p!=o.p; } };
template<class F> void source(Src* s,int k,int kind,F f){
  if (kind==0) f(It<const Src&,Src>{s},It<const Src&,Src>{s+k}); else if (kind==1) f(It<Src&,Src>{s},It<Src&,Src>{s+k}); else if (kind==2) f(It<Src,Src>{s},It<Src,Src>{s+k}); else if (kind==3) f(It<Ef,Ef>{s},It<Ef,Ef>{s+k});
  else { int b=fx_budget; fx_budget=0; Ef e[2]={Ef(s[0]),Ef(s[k-1])}; fx_budget=b; f(std::make_move_iterator(e),std::make_move_iterator(e+k)); } }
template<class C,int I> void foreign(int n,int most){ fx_reset(); nid=1; {
  C c; fill(c,n); n=(int)c.size(); int form=sx_choose(2),k=1+sx_choose(most),kind=sx_choose(5),p=0; Src s[2]; for (int i=0;i<2;i++) { El e=fresh(); s[i]=Src{e.id,e.a,e.b,0}; }
  size_t bc[8]={}; each<C>([&](auto J){ if constexpr (ix<C,J.value>::kind==HSH) bc[J.value]=c.template get<J.value>().bucket_count(); });
  Snap<C> sn(c); int live=fx_live,alive=ef_alive; bool thrown=false; auto& x=c.template get<I>();
  if (form==0) {
    if constexpr (ix<C,I>::positional) p=sx_choose(n+1);
    // what a container holding the same elements does with the elements one by one
    C d(c); int m=0; bool acc[2]; for (int i=0;i<k;i++) { Ef e(s[i]); size_t z=d.size(); if constexpr (ix<C,I>::positional) { auto q=nth_it(d.template get<I>(),p+m); d.template get<I>().insert(q,e); } else d.template get<I>().insert(e); acc[i]=d.size()>z; m+=acc[i]; }
    live=fx_live; alive=ef_alive;
    auto pos=nth_it(x,p); (void)pos; fx_arm(1);
    try { source(s,k,kind,[&](auto f,auto l){ if constexpr (ix<C,I>::positional) x.insert(pos,f,l); else x.insert(f,l); }); } catch (const Boom&) { thrown=true; }
    sx_check(thrown==(fx_thrown>0),"exception-swallowed"); fx_disarm(); int grown=(int)c.size()-n;
    sx_check(ef_alive-alive==grown,"element-leaked");
    if (!thrown) { sx_check(grown==m,"acceptance"); each<C>([&](auto J){ if constexpr (ix<C,J.value>::kind!=HSH) { auto y=d.template get<J.value>().begin(); for (auto& e: c.template get<J.value>()) { sx_check(e.id==y->id,"order"); ++y; } } }); }
    else { sx_check(grown<=m,"acceptance"); if (grown==0) sn.same(c,"fault-changed-container",!grew(c,bc)); sx_reach("fault"); }
    uint32_t in=0; for (auto& e: c.template get<0>()) for (int i=0;i<k;i++) if (e.id==s[i].id) { sx_check(acc[i],"refused-element-inserted"); sx_check((int)(e.a==s[i].a)&(e.b==s[i].b),"value"); in|=1u<<i; }
    { int g=grown; for (int i=0;i<k;i++) if (acc[i]) { sx_check(((in>>i)&1)==(unsigned)(g>0),"prefix"); g--; } }
    verify(d); }
  else { fx_arm(1); bool got=false; try { source(s,k,kind,[&](auto f,auto l){ C d(f,l); got=true; fx_disarm(); verify(d); C e; for (int i=0;i<k;i++) { Ef w(s[i]); if constexpr (ix<C,0>::positional) e.push_back(w); else e.insert(w); } sx_check(d.size()==e.size(),"constructed-size"); for (auto& w: d) { int q=0; for (auto& u: e) q|=u.id==w.id; sx_check(q,"constructed-elements"); } }); } catch (const Boom&) { thrown=true; } fx_disarm(); sx_check(got!=thrown,"ctor"); if (thrown) { sx_check(ef_alive==alive,"element-leaked"); sx_check(fx_live==live,"memory-leaked"); sx_reach("fault"); } }
  verify(c); observe(c); usable(c); }
  sx_check(ef_alive==0,"element-leaked-at-end"); sx_check(fx_live==0,"memory-leaked-at-end"); sx_check(fx_al==0,"allocator-leaked-at-end"); }
SX_ENTRY(f_1){ KN=2; foreign<S1,0>(1,2); }
SX_ENTRY(f_1b){ BN=1; foreign<S1,1>(2,1); }
SX_ENTRY(f_2){ hx_buckets(2); KN=2; BN=1; foreign<S2,0>(1,2); }
SX_ENTRY(f_3){ hx_buckets(2); KN=2; BN=1; foreign<S3,0>(1,2); }
SX_ENTRY(f_4){ BN=1; KN=2; foreign<S4,1>(1,1); }
SX_ENTRY(f_4q){ BN=1; KN=2; foreign<S4,0>(1,2); }
SX_ENTRY(f_4r){ BN=1; KN=2; foreign<S4,2>(1,2); }
SX_ENTRY(f_5){ BN=1; KN=2; foreign<S5,0>(1,1); }
SX_ENTRY(f_5h){ BN=1; KN=2; foreign<S5,1>(1,1); }
SX_ENTRY(f_6){ BN=1; KN=2; foreign<S6,2>(1,1); }
