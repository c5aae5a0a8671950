// BOUND: composite keys of 1-3 components (int, unsigned, signed char through member, member function and function extractors) and of 10 components, every component any value of its full width; tuples (boost and std, by value and of references, of wider component types) and other composite keys of every length 1..3 on either side; component orders ascending, descending, coarser than equality and stateful, in every combination
#include "C20.h"
// all the relations against the oracle's verdict r (-1,0,1)
template<class X,class Y> void rel_lt(const X& x,const Y& y,int r){
  sx_check((x<y)==(r<0),"less"); sx_check((x>y)==(r>0),"greater"); sx_check((x<=y)==(r<=0),"less-equal"); sx_check((x>=y)==(r>=0),"greater-equal");
  sx_check((y<x)==(r>0),"less-rev"); sx_check((y>x)==(r<0),"greater-rev"); sx_check((y<=x)==(r>=0),"less-equal-rev"); sx_check((y>=x)==(r<=0),"greater-equal-rev"); }
template<class X,class Y> void rel_eq(const X& x,const Y& y,int r){ sx_check((x==y)==(r==0),"equal"); sx_check((x!=y)==(r!=0),"unequal"); sx_check((y==x)==(r==0),"equal-rev"); sx_check((y!=x)==(r!=0),"unequal-rev"); }
template<class P,class X,class Y> void rel_cmp(const P& p,const X& x,const Y& y,int r){ sx_check(p(x,y)==(r<0),"compare"); sx_check(p(y,x)==(r>0),"compare-rev"); }
template<class P,class X,class Y> void rel_same(const P& p,const X& x,const Y& y,int r){ sx_check(p(x,y)==(r!=0),"equal_to"); sx_check(p(y,x)==(r!=0),"equal_to-rev"); }
template<int N> struct qn; template<> struct qn<1>{ typedef Q1 T; }; template<> struct qn<2>{ typedef Q2 T; }; template<> struct qn<3>{ typedef Q3 T; };
template<int N> auto bt(const W& w){ if constexpr (N==1) return boost::make_tuple(w.a); else if constexpr (N==2) return boost::make_tuple(w.a,w.b); else return boost::make_tuple(w.a,w.b,w.c); }
template<int N> auto br(const W& w){ if constexpr (N==1) return boost::tie(w.a); else if constexpr (N==2) return boost::tie(w.a,w.b); else return boost::tie(w.a,w.b,w.c); }
template<int N> auto st(const W& w){ if constexpr (N==1) return std::make_tuple(w.a); else if constexpr (N==2) return std::make_tuple(w.a,w.b); else return std::make_tuple(w.a,w.b,w.c); }
template<int N> auto sr(const W& w){ if constexpr (N==1) return std::tie(w.a); else if constexpr (N==2) return std::tie(w.a,w.b); else return std::tie(w.a,w.b,w.c); }
template<int N> auto wd(const W& w){ typedef long long L; if constexpr (N==1) return boost::make_tuple((L)w.a); else if constexpr (N==2) return boost::make_tuple((L)w.a,(L)w.b); else return boost::make_tuple((L)w.a,(L)w.b,(L)w.c); }
template<int M,int N> void ops(){ W v=any(),w=any(); typename qn<M>::T q; typename qn<N>::T p; auto x=q(v); auto y=p(w); const int L=M<N?M:N; int r=lex(vec(v),vec(w),L);
  int k=sx_choose(5);
  if (k==0) { rel_lt(x,y,r); if constexpr (M==N) rel_eq(x,y,r); }
  else if (k==1) { rel_lt(x,bt<N>(w),r); if constexpr (M==N) rel_eq(x,bt<N>(w),r); }
  else if (k==2) { rel_lt(x,sr<N>(w),r); if constexpr (M==N) rel_eq(x,sr<N>(w),r); }
  else if (k==3) { rel_lt(x,st<N>(w),r); if constexpr (M==N) rel_eq(x,st<N>(w),r); }
  else { rel_lt(x,wd<N>(w),r); if constexpr (M==N) rel_eq(x,wd<N>(w),r); rel_lt(x,br<N>(w),r); if constexpr (M==N) rel_eq(x,br<N>(w),r); }
  sx_reach(r<0?"before":r>0?"after":"tie"); sx_observe(r+1); }
SX_ENTRY(o11){ ops<1,1>(); }
SX_ENTRY(o12){ ops<1,2>(); }
SX_ENTRY(o13){ ops<1,3>(); }
SX_ENTRY(o21){ ops<2,1>(); }
SX_ENTRY(o22){ ops<2,2>(); }
SX_ENTRY(o23){ ops<2,3>(); }
SX_ENTRY(o31){ ops<3,1>(); }
SX_ENTRY(o32){ ops<3,2>(); }
SX_ENTRY(o33){ ops<3,3>(); }
// composite keys of different element types
SX_ENTRY(other_type){ W v=any(),w=any(); U u={w.c,w.a,w.b}; Q3 q; QU p; Q2 q2; rel_lt(q(v),p(u),lex(vec(v),vec(w),3)); rel_eq(q(v),p(u),lex(vec(v),vec(w),3)); rel_lt(q2(v),p(u),lex(vec(v),vec(w),2));
  rel_cmp(composite_key_compare<Down,Half,Up>(),q(v),p(u),lex(vec(v,DOWN,HALF,UP),vec(w,DOWN,HALF,UP),3)); rel_same(composite_key_equal_to<std::equal_to<int>,HalfEq,std::equal_to<signed char>>(),q(v),p(u),eqn(vec(v,UP,HALF,UP),vec(w,UP,HALF,UP),3)); }
// composite_key_compare with every combination of component orders
template<class A,class B,class C,int M,int N> void cmp1(const W& v,const W& w,int o0,int o1,int o2,int k){
  composite_key_compare<A,B,C> p; typename qn<M>::T q; typename qn<N>::T s; const int L=M<N?M:N; int r=lex(vec(v,o0,o1,o2),vec(w,o0,o1,o2),L);
  if (k==0) rel_cmp(p,q(v),s(w),r); else if (k==1) rel_cmp(p,q(v),br<N>(w),r); else if (k==2) rel_cmp(p,q(v),st<N>(w),r); else if (k==3) rel_cmp(p,q(v),bt<N>(w),r); 
  else if constexpr (N==1) { rel_cmp(p,q(v),w.a,r); } sx_reach(r<0?"cbefore":r>0?"cafter":"ctie"); }
template<int M,int N> void cmps(){ W v=any(),w=any(); int k=sx_choose(N==1?5:4); int o=sx_choose(8);
  switch (o) { case 0: cmp1<Up,Up,Up,M,N>(v,w,UP,UP,UP,k); break; case 1: cmp1<Up,Down,Up,M,N>(v,w,UP,DOWN,UP,k); break; case 2: cmp1<Down,Up,Down,M,N>(v,w,DOWN,UP,DOWN,k); break; case 3: cmp1<Down,Down,Down,M,N>(v,w,DOWN,DOWN,DOWN,k); break;
    case 4: cmp1<Half,Up,Down,M,N>(v,w,HALF,UP,DOWN,k); break; case 5: cmp1<Up,Half,Half,M,N>(v,w,UP,HALF,HALF,k); break; case 6: cmp1<Half,Half,Up,M,N>(v,w,HALF,HALF,UP,k); break; default: cmp1<Down,Half,Down,M,N>(v,w,DOWN,HALF,DOWN,k); } }
SX_ENTRY(c11){ cmps<1,1>(); }
SX_ENTRY(c21){ cmps<2,1>(); }
SX_ENTRY(c12){ cmps<1,2>(); }
SX_ENTRY(c31){ cmps<3,1>(); }
SX_ENTRY(c13){ cmps<1,3>(); }
SX_ENTRY(c32){ cmps<3,2>(); }
SX_ENTRY(c23){ cmps<2,3>(); }
SX_ENTRY(c22){ cmps<2,2>(); }
SX_ENTRY(c33){ cmps<3,3>(); }
// stateful component comparisons are used in their places; fewer comparisons than components
SX_ENTRY(stateful){ W v=any(),w=any(); int d[3]; for (int i=0;i<3;i++) d[i]=sx_choose(2); typedef composite_key_compare<Dir,Dir,Dir> P; P p=sx_choose(2)?P(Dir(d[0]),Dir(d[1]),Dir(d[2])):P(boost::make_tuple(Dir(d[0]),Dir(d[1]),Dir(d[2]))); Q3 q; int o[3]; for (int i=0;i<3;i++) o[i]=d[i]?DOWN:UP;
  sx_check(boost::get<0>(p.key_comps()).d==d[0]&&boost::get<1>(p.key_comps()).d==d[1]&&boost::get<2>(p.key_comps()).d==d[2],"key_comps");
  rel_cmp(p,q(v),q(w),lex(vec(v,o[0],o[1],o[2]),vec(w,o[0],o[1],o[2]),3)); rel_cmp(p,q(v),st<3>(w),lex(vec(v,o[0],o[1],o[2]),vec(w,o[0],o[1],o[2]),3)); rel_cmp(p,q(v),bt<2>(w),lex(vec(v,o[0],o[1],o[2]),vec(w,o[0],o[1],o[2]),2)); rel_cmp(p,q(v),w.a,lex(vec(v,o[0]),vec(w,o[0]),1)); }
SX_ENTRY(fewer){ W v=any(),w=any(); composite_key_compare<Down,Up> p; Q3 q; Q2 q2; rel_cmp(p,q(v),bt<2>(w),lex(vec(v,DOWN),vec(w,DOWN),2)); rel_cmp(p,q(v),st<1>(w),lex(vec(v,DOWN),vec(w,DOWN),1)); rel_cmp(p,q(v),q2(w),lex(vec(v,DOWN),vec(w,DOWN),2)); rel_cmp(p,q(v),w.a,lex(vec(v,DOWN),vec(w,DOWN),1)); }
// extractors carrying state keep their places
struct Off { typedef int result_type; int m; explicit Off(int m_=0):m(m_){} int operator()(const W& w) const { return w.a^m; } };
SX_ENTRY(state_extract){ typedef composite_key<W,Off,Off,EB> S; W v=any(),w=any(); int m0=sx_any_int(),m1=sx_any_int(); S s=sx_choose(2)?S(Off(m0),Off(m1)):S(boost::make_tuple(Off(m0),Off(m1),EB())); 
  sx_check(boost::get<0>(s.key_extractors()).m==m0&&boost::get<1>(s.key_extractors()).m==m1,"key_extractors"); Vec x={{key(v.a^m0),key(v.a^m1),v.b}}, y={{key(w.a^m0),key(w.a^m1),w.b}}; int r=lex(x,y,3); rel_lt(s(v),s(w),r); rel_eq(s(v),s(w),r); rel_lt(s(v),std::make_tuple(w.a^m0,w.a^m1,w.b),r); rel_eq(s(v),boost::make_tuple(w.a^m0,w.a^m1,w.b),r); 
  sx_check(s(v).composite_key.key_extractors().get<0>().m==m0&&&s(v).value==&v,"result-parts"); }
// equality and hash predicates
template<class P,class H,class X,class Y> void eqh(const P& p,const H& h,const X& x,const Y& y,int r){ rel_same(p,x,y,r); if (sx_concretize((unsigned)r)) { sx_check(h(x)==h(y),"equal-keys-hash-equally"); sx_reach("same"); } else sx_reach("differ"); }
template<class P,class H,int N> void eqs(int o0,int o1,int o2){ W v=any(),w=any(); typename qn<N>::T q; P p; H h; int r=eqn(vec(v,o0,o1,o2),vec(w,o0,o1,o2),N); int k=sx_choose(6);
  if (k==0) eqh(p,h,q(v),q(w),r); else if (k==1) eqh(p,h,q(v),bt<N>(w),r); else if (k==2) eqh(p,h,q(v),br<N>(w),r); else if (k==3) eqh(p,h,q(v),st<N>(w),r); else if (k==4) eqh(p,h,q(v),sr<N>(w),r);
  else { sx_check(h(bt<N>(v))==h(q(v))&&h(br<N>(v))==h(q(v))&&h(st<N>(v))==h(q(v))&&h(sr<N>(v))==h(q(v)),"hash-of-tuple"); } }
SX_ENTRY(e3){ eqs<composite_key_equal_to<std::equal_to<int>,std::equal_to<unsigned>,std::equal_to<signed char>>,composite_key_hash<boost::hash<int>,boost::hash<unsigned>,boost::hash<signed char>>,3>(UP,UP,UP); }
SX_ENTRY(e3h){ eqs<composite_key_equal_to<HalfEq,std::equal_to<unsigned>,HalfEq>,composite_key_hash<HalfHash,std::hash<unsigned>,HalfHash>,3>(HALF,UP,HALF); }
SX_ENTRY(e2){ eqs<composite_key_equal_to<std::equal_to<int>,HalfEq>,composite_key_hash<boost::hash<int>,HalfHash>,2>(UP,HALF,UP); }
SX_ENTRY(e1){ eqs<composite_key_equal_to<HalfEq>,composite_key_hash<HalfHash>,1>(HALF,HALF,UP); }
SX_ENTRY(eres){ eqs<composite_key_result_equal_to<Q3::result_type>,composite_key_result_hash<Q3::result_type>,3>(UP,UP,UP); }
SX_ENTRY(estd){ W v=any(),w=any(); Q3 q; typedef Q3::result_type R; eqh(std::equal_to<R>(),boost::hash<R>(),q(v),q(w),eqn(vec(v),vec(w),3)); sx_check(boost::hash<R>()(q(v))==composite_key_result_hash<R>()(q(v))&&boost::hash<R>()(sr<3>(v))==boost::hash<R>()(q(v)),"boost-hash"); }
SX_ENTRY(ustd){ W v=any(),w=any(); Q3 q; typedef Q3::result_type R; int r=lex(vec(v),vec(w),3); rel_cmp(std::less<R>(),q(v),q(w),r); rel_cmp(std::greater<R>(),q(v),q(w),-r); }
SX_ENTRY(ures){ W v=any(),w=any(); Q3 q; typedef Q3::result_type R; int r=lex(vec(v),vec(w),3); int s=lex(vec(v),vec(w),2),t=lex(vec(v),vec(w),1); int k=sx_choose(3); if (k==0) { rel_cmp(composite_key_result_less<R>(),q(v),sr<3>(w),r); rel_cmp(composite_key_result_greater<R>(),q(v),bt<3>(w),-r); } else if (k==1) { rel_cmp(std::less<R>(),q(v),sr<2>(w),s); rel_cmp(std::greater<R>(),q(v),bt<2>(w),-s); } else { rel_cmp(std::less<R>(),q(v),w.a,t); rel_cmp(std::greater<R>(),q(v),w.a,-t); } }
// ten components: the first difference decides, whatever follows
struct X10 { int v[10]; };
template<int I> struct G { typedef int result_type; int operator()(const X10& x) const { return x.v[I]; } };
typedef composite_key<X10,G<0>,G<1>,G<2>,G<3>,G<4>,G<5>,G<6>,G<7>,G<8>,G<9>> Q10;
SX_ENTRY(ten){ X10 x,y; Vec s,t; for (int i=0;i<10;i++) { x.v[i]=sx_any_int(); y.v[i]=sx_any_int(); s.v[i]=key(x.v[i]); t.v[i]=key(y.v[i]); } Q10 q; int r=lex(s,t,10); int k=sx_choose(4);
  if (k==0) { sx_check((q(x)<q(y))==(r<0),"ten-less"); sx_check((q(x)==q(y))==(r==0),"ten-equal"); sx_check((q(x)>=q(y))==(r>=0),"ten-greater-equal"); }
  else if (k==1) { auto u=std::tie(y.v[0],y.v[1],y.v[2],y.v[3],y.v[4],y.v[5],y.v[6],y.v[7],y.v[8],y.v[9]); sx_check((q(x)<u)==(r<0),"ten-less"); sx_check((u<q(x))==(r>0),"ten-less"); sx_check((q(x)==u)==(r==0),"ten-equal"); auto same=std::make_tuple(x.v[0],x.v[1],x.v[2],x.v[3],x.v[4],x.v[5],x.v[6],x.v[7],x.v[8],x.v[9]); sx_check(composite_key_result_hash<Q10::result_type>()(same)==composite_key_result_hash<Q10::result_type>()(q(x)),"ten-hash"); }
  else if (k==2) { auto u=boost::tie(y.v[0],y.v[1],y.v[2],y.v[3],y.v[4],y.v[5],y.v[6],y.v[7],y.v[8],y.v[9]); sx_check((q(x)<u)==(r<0),"ten-less"); sx_check((u<q(x))==(r>0),"ten-less"); sx_check((q(x)==u)==(r==0),"ten-equal"); }
  else { auto u=boost::tie(y.v[0],y.v[1],y.v[2],y.v[3],y.v[4],y.v[5],y.v[6]); int z=lex(s,t,7); typedef composite_key_compare<Dir,Dir,Dir,Dir,Dir,Dir,Dir,Dir,Dir,Dir> P; P p; sx_check(p(q(x),u)==(z<0),"ten-prefix"); sx_check(p(u,q(x))==(z>0),"ten-prefix"); sx_check((q(x)<u)==(z<0),"ten-prefix"); } 
  sx_reach("ten"); }
