// BOUND: identity, member (const and non-const), member_offset, the eight member function extractors, the deprecated explicit ones, global_fun over five signatures, key<> over every kind of argument, and composites; arguments: object, const object, reference wrappers, raw pointers, pointers to pointers, smart pointers, smart pointers to pointers, pointers to wrappers, pointer-like objects yielding wrappers by value; objects of full-width contents, any of three neighbouring objects
#include "C21a.h"
template<class E,bool ptc=true,class O=M,class P> void ref_part(P part){ M o[3]; int i=sx_choose(3); E e; const E ce(e); const_args<ptc>(static_cast<O&>(o[i]),[&](const auto& a){ auto& r=ce(a); static_assert(std::is_same<typename std::remove_const<typename std::remove_reference<decltype(r)>::type>::type,typename std::remove_const<typename E::result_type>::type>::value,""); sx_check((const void*)&r==(const void*)part(o[i]),"other-part"); sx_observe((uint64_t)(const char*)&r-(uint64_t)(const char*)o); }); }
template<class E,class P> void write_part(P part){ M o[3]; Img<M> b,a; b.take(o); int i=sx_choose(3); E e; auto nv=(typename std::remove_reference<decltype(*part(o[0]))>::type)sx_u32(); mut_args(o[i],[&](auto& x){ auto& r=e(x); static_assert(!std::is_const<typename std::remove_reference<decltype(r)>::type>::value,""); sx_check((void*)&r==(void*)part(o[i]),"other-part"); r=nv; }); sx_check(*part(o[i])==nv,"write-lost"); auto old=nv; int ch=0,ok=1; a.take(o); for (int j=0;j<3;j++) for (int m=0;m<8;m++) { int d=(a.v[j][m]!=b.v[j][m]); ch+=d; ok&=(!d)|(int)(j==i); } sx_check(ok,"wrote-another-object"); sx_check(ch<=1,"wrote-more-than-the-part"); (void)old; }
template<class E,class G> void value_part(G expected){ M o[3]; int i=sx_choose(3); E e; const E ce(e); const_args(o[i],[&](const auto& a){ auto r=ce(a); sx_check(r==expected(o[i]),"other-value"); sx_observe((uint64_t)(long long)r); }); }
template<class E,class G> void value_mut(G expected){ M o[3]; Img<M> b,a; b.take(o); int i=sx_choose(3); E e; mut_args(o[i],[&](auto& x){ auto r=e(x); sx_check(r==expected(o[i]),"other-value"); sx_observe((uint64_t)(long long)r); }); a.take(o); int ok=1; for (int j=0;j<3;j++) for (int m=0;m<8;m++) ok&=a.v[j][m]==b.v[j][m]; sx_check(ok,"extraction-wrote"); }
#define P(m) [](auto& o){ return &o.m; }
SX_ENTRY(mem_y){ ref_part<member<M,int,&M::y>,false>(P(y)); }
SX_ENTRY(mem_arr){ ref_part<member<M,int,&M::arr>,false>(P(arr)); }
SX_ENTRY(mem_ch){ ref_part<member<M,unsigned char,&M::ch>,false>(P(ch)); }
SX_ENTRY(mem_yc){ ref_part<member<M,const int,&M::y>>(P(y)); }
SX_ENTRY(mem_bc){ ref_part<member<B0,const int,&B0::x>,true,B0>(P(x)); }
SX_ENTRY(mem_offc){ ref_part<member_offset<M,const int,offsetof(M,arr)>>(P(arr)); }
SX_ENTRY(mem_derived){ M o[3]; int i=sx_choose(3); const M& c=o[i]; const M* p=&c; const M* const* pp=&p; SP<const M> sp(p); SP<SP<const M>> ss(&sp); member<B0,const int,&B0::x> e; const_mem_fun<M,int,&M::fc> f; sx_check(&e(c)==&o[i].x&&&e(p)==&o[i].x&&&e(pp)==&o[i].x&&&e(sp)==&o[i].x&&&e(ss)==&o[i].x,"base-part"); (void)f; M* q=&o[i]; M** qq=&q; member<B0,int,&B0::x> g; int v=sx_any_int(); g(qq)=v; sx_check(o[i].x==v&&&g(q)==&o[i].x&&&g(c)==&o[i].x,"base-part"); }
SX_ENTRY(mem_k){ ref_part<member<M,const int,&M::k>>(P(k)); }
SX_ENTRY(mem_base){ ref_part<member<B0,int,&B0::x>,false,B0>(P(x)); }
SX_ENTRY(mem_base_s){ ref_part<member<B0,short,&B0::s>,false,B0>(P(s)); }
SX_ENTRY(mem_w){ write_part<member<M,int,&M::y>>(P(y)); }
SX_ENTRY(mem_wch){ write_part<member<M,unsigned char,&M::ch>>(P(ch)); }
SX_ENTRY(mem_wb){ M o; member<B0,int,&B0::x> e; B0& b=o; int v=sx_any_int(); e(b)=v; sx_check(o.x==v&&&e(o)==&o.x,"base-part"); }
SX_ENTRY(mem_macro){ ref_part<BOOST_MULTI_INDEX_MEMBER(M,int,arr),false>(P(arr)); }
SX_ENTRY(mem_off){ ref_part<member_offset<M,int,offsetof(M,y)>,false>(P(y)); }
SX_ENTRY(mem_offk){ ref_part<member_offset<M,const int,offsetof(M,k)>>(P(k)); }
SX_ENTRY(mem_offw){ write_part<member_offset<M,int,offsetof(M,arr)>>(P(arr)); }
SX_ENTRY(ident){ M o[3]; int i=sx_choose(3); identity<M> e; const_args<false>(o[i],[&](const auto& a){ auto& r=e(a); sx_check((const void*)&r==(const void*)&o[i],"other-object"); }); }
SX_ENTRY(ident_c){ M o[3]; int i=sx_choose(3); identity<const M> e; const_args(o[i],[&](const auto& a){ auto& r=e(a); sx_check((const void*)&r==(const void*)&o[i],"other-object"); }); }
SX_ENTRY(ident_w){ M o[3]; int i=sx_choose(3); int v=sx_any_int(); identity<M> e; mut_args(o[i],[&](auto& a){ M& r=e(a); sx_check(&r==&o[i],"other-object"); r.y=v; }); sx_check(o[i].y==v,"write-lost"); }
SX_ENTRY(ident_int){ int o[3]; for (int& x: o) x=sx_any_int(); int i=sx_choose(3); identity<int> e; const_args<false>(o[i],[&](const auto& a){ auto& r=e(a); sx_check(&r==&o[i],"other-object"); }); }
SX_ENTRY(cmf){ value_part<const_mem_fun<M,int,&M::fc>>([](M& o){ return o.x^o.y; }); }
SX_ENTRY(cvmf){ value_part<cv_mem_fun<M,int,&M::fcv>>([](M& o){ return o.y+1; }); }
SX_ENTRY(clmf){ value_part<cref_mem_fun<M,int,&M::fcl>>([](M& o){ return o.y-2; }); }
SX_ENTRY(cvlmf){ value_part<cvref_mem_fun<M,int,&M::fcvl>>([](M& o){ return o.y^5; }); }
SX_ENTRY(cmf_macro){ value_part<BOOST_MULTI_INDEX_CONST_MEM_FUN(M,int,fc)>([](M& o){ return o.x^o.y; }); }
SX_ENTRY(cmf_expl){ value_part<const_mem_fun_explicit<M,int,int (M::*)()const,&M::fc>>([](M& o){ return o.x^o.y; }); }
SX_ENTRY(cmf_ref){ ref_part<const_mem_fun<M,const int&,&M::rc>>(P(y)); }
SX_ENTRY(cmf_rw){ write_part<const_mem_fun<M,int&,&M::rw>>(P(mu)); }
SX_ENTRY(mf){ value_mut<mem_fun<M,int,&M::f>>([](M& o){ return o.x; }); }
SX_ENTRY(mf_w){ write_part<mem_fun<M,int&,&M::rf>>(P(y)); }
SX_ENTRY(mf_expl){ write_part<mem_fun_explicit<M,int&,int& (M::*)(),&M::rf>>(P(y)); }
SX_ENTRY(mf_macro){ value_mut<BOOST_MULTI_INDEX_MEM_FUN(M,int,f)>([](M& o){ return o.x; }); }
SX_ENTRY(vmf){ value_mut<volatile_mem_fun<M,int,&M::fv>>([](M& o){ return o.y^9; }); }
SX_ENTRY(lmf){ write_part<ref_mem_fun<M,int&,&M::fl>>(P(x)); }
SX_ENTRY(vlmf){ value_mut<vref_mem_fun<M,int,&M::fvl>>([](M& o){ return o.y+3; }); }
SX_ENTRY(gcr){ value_part<global_fun<const M&,int,&g_cr>>([](M& o){ return o.y^11; }); }
SX_ENTRY(gcrr){ ref_part<global_fun<const M&,const int&,&g_crr>>(P(y)); }
SX_ENTRY(gr){ write_part<global_fun<M&,int&,&g_r>>(P(x)); }
SX_ENTRY(gri){ value_mut<global_fun<M&,int,&g_ri>>([](M& o){ return o.y^12; }); }
SX_ENTRY(gst){ value_part<global_fun<const M&,int,&M::st>>([](M& o){ return o.x^o.k; }); }
SX_ENTRY(gv){ Val o[3]; for (Val& z: o) { z.v=sx_any_int(); z.w=(short)sx_u32(); } int i=sx_choose(3); int f=sx_choose(4); const_args(o[i],[&](const auto& a){ if (f==0) sx_check(global_fun<Val,int,&g_v>()(a)==(o[i].v^13),"other-value"); else if (f==1) sx_check(global_fun<const Val,int,&g_vc>()(a)==(o[i].v^14),"other-value"); else if (f==2) { auto& r=global_fun<const Val&,const int&,&g_vr>()(a); sx_check((const void*)&r==(const void*)&o[i].v,"other-part"); } else sx_check(global_fun<Val,int,&g_v>()(const_cast<const typename std::remove_reference<decltype(a)>::type&>(a))==(o[i].v^13),"other-value"); }); }
// key<>: the same extractors, chosen by the kind of its arguments
SX_ENTRY(key_m){ ref_part<key<&M::y>,false>(P(y)); }
SX_ENTRY(key_mw){ write_part<key<&M::arr>>(P(arr)); }
SX_ENTRY(key_mk){ ref_part<key<&M::k>>(P(k)); }
SX_ENTRY(key_c){ int f=sx_choose(5); if (f==0) value_part<key<&M::fc>>([](M& o){ return o.x^o.y; }); else if (f==1) value_part<key<&M::fcv>>([](M& o){ return o.y+1; }); else if (f==2) value_part<key<&M::fcl>>([](M& o){ return o.y-2; }); else if (f==3) value_part<key<&M::fcvl>>([](M& o){ return o.y^5; }); else value_part<key<&M::fn>>([](M& o){ return o.y^77; }); }
SX_ENTRY(key_n){ int f=sx_choose(4); if (f==0) value_mut<key<&M::f>>([](M& o){ return o.x; }); else if (f==1) value_mut<key<&M::fv>>([](M& o){ return o.y^9; }); else if (f==2) value_mut<key<&M::fvl>>([](M& o){ return o.y+3; }); else value_mut<key<&M::fnn>>([](M& o){ return o.y^78; }); }
SX_ENTRY(key_nw){ int f=sx_choose(3); if (f==0) write_part<key<&M::rf>>(P(y)); else if (f==1) write_part<key<&M::fl>>(P(x)); else write_part<key<&g_r>>(P(x)); }
SX_ENTRY(key_g){ int f=sx_choose(3); if (f==0) value_part<key<&g_cr>>([](M& o){ return o.y^11; }); else if (f==1) value_part<key<&M::st>>([](M& o){ return o.x^o.k; }); else value_part<key<&M::stn>>([](M& o){ return o.x^3; }); }
SX_ENTRY(key_base){ typedef key<&B0::x> E; ref_part<E,false,B0>(P(x)); }
// composites: the result refers to the element, components in the given places
template<class C> void comp(){ M o[3]; int i=sx_choose(3); C e; const_args(o[i],[&](const auto& a){ auto r=e(a); sx_check((const void*)&r.value==(const void*)static_cast<const typename C::value_type*>(&o[i]),"composite-of-other-object"); int d=sx_choose(3); M t; int u[3]={o[i].y,o[i].x,o[i].x^o[i].y}; if (d) u[d-1]=sx_any_int(); int same=(u[0]==o[i].y)&(u[1]==o[i].x)&(u[2]==(o[i].x^o[i].y)); sx_check((r==std::make_tuple(u[0],u[1],u[2]))==same,"composite-parts"); }); }
SX_ENTRY(ckey){ comp<composite_key<M,member<M,int,&M::y>,member<B0,int,&B0::x>,const_mem_fun<M,int,&M::fc>>>(); }
SX_ENTRY(ckey_k){ comp<key<&M::y,&B0::x,&M::fc>>(); }
SX_ENTRY(ckey_k2){ M o; typedef key<&B0::x,&M::y> C; static_assert(std::is_same<C::value_type,M>::value,"the most derived class"); auto r=C()(o); int a=sx_any_int(),b=sx_any_int(); sx_check((r==std::make_tuple(a,b))==((a==o.x)&(b==o.y)),"composite-parts"); M* p=&o; sx_check(&C()(&p).value==&o,"composite-of-other-object"); }
// copies of an extractor extract the same; wrappers follow reseating
SX_ENTRY(reseat){ M o[2]; boost::reference_wrapper<const M> w(o[0]); member<M,const int,&M::y> e; const M* p=&o[0]; const M** pp=&p; if (sx_choose(2)) { w=boost::cref(o[1]); p=&o[1]; } sx_check(&e(w)==&w.get().y&&&e(pp)==&p->y,"reseated"); }
