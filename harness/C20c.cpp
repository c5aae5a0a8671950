// BOUND: ordered, ranked and hashed indices (unique and not) over composite keys, up to 4 elements with every content of small component ranges or 2 with full-width components; every lookup by full tuple, prefix tuple, single value and composite key (of the query's full range including absent values)
#include "C20.h"
typedef composite_key<W,EA,EB,EC> Q;
typedef multi_index_container<W,indexed_by<ordered_non_unique<Q>>> O1;
typedef multi_index_container<W,indexed_by<ordered_unique<Q,composite_key_compare<std::greater<int>,std::less<unsigned>,std::greater<signed char>>>>> O2;
typedef multi_index_container<W,indexed_by<ranked_non_unique<Q,composite_key_compare<std::less<int>,std::greater<unsigned>,std::less<signed char>>>>> O3;
typedef multi_index_container<W,indexed_by<ordered_non_unique<Q,composite_key_compare<Half,Down,Up>>>> O4;
typedef multi_index_container<W,indexed_by<ranked_unique<Q,composite_key_result_greater<Q::result_type>>>> O5;
typedef multi_index_container<W,indexed_by<ordered_non_unique<Q,std::greater<Q::result_type>>>> O6;
static int R=2; static bool full=false; static signed char cc=0;
static W el(int id){ if (full) return any(id); int a=sx_int(0,R-1); unsigned b=(unsigned)sx_int(0,R-1); return W(id,a,b,(signed char)sx_int(0,1)); }
// the matching elements of x for a query comparing equal to the first n components of w; lookups through key t
template<class X,class T> void lookup(X& x,const T& t,const W& w,int n,int o0,int o1,int o2){
  int before=0,same=0,i=0; auto f=x.end(); const W* first=0; for (auto& e: x) { int r=lex(vec(e,o0,o1,o2),vec(w,o0,o1,o2),n); r=(int)sx_concretize((unsigned)(r+1))-1; if (r<0) { sx_check(before==i,"order-broken"); before++; } else if (r==0) { sx_check(before+same==i,"order-broken"); if (!same) first=&e; same++; } i++; }
  auto lo=nth_it(x,before), hi=nth_it(x,before+same);
  sx_check(x.lower_bound(t)==lo,"lower_bound"); sx_check(x.upper_bound(t)==hi,"upper_bound"); auto er=x.equal_range(t); sx_check(er.first==lo&&er.second==hi,"equal_range"); sx_check((int)x.count(t)==same,"count"); sx_check(x.contains(t)==(same>0),"contains");
  f=x.find(t); if (same) sx_check(f==lo&&&*f==first,"find"); else sx_check(f==x.end(),"find-absent"); sx_reach(same>1?"several":same?"one":"none");
  if constexpr (X::kind_ranked) { sx_check((int)x.x->find_rank(t)==(same?before:i),"find_rank"); sx_check((int)x.x->lower_bound_rank(t)==before&&(int)x.x->upper_bound_rank(t)==before+same,"bound_rank"); auto rr=x.x->equal_range_rank(t); sx_check((int)rr.first==before&&(int)rr.second==before+same,"equal_range_rank"); } }
template<class I,bool RK> struct Px { enum { kind_ranked=RK }; I* x; auto begin(){ return x->begin(); } auto end(){ return x->end(); } template<class T> auto lower_bound(const T& t){ return x->lower_bound(t); } template<class T> auto upper_bound(const T& t){ return x->upper_bound(t); } template<class T> auto equal_range(const T& t){ return x->equal_range(t); } template<class T> size_t count(const T& t){ return x->count(t); } template<class T> bool contains(const T& t){ return x->contains(t); } template<class T> auto find(const T& t){ return x->find(t); } };
template<class C> void ord(int n,int o0,int o1,int o2,bool uniq,bool single=true){
  C c; Vec seen[MAXN]; int m=0; for (int i=0;i<n;i++) { W w=el(i); Vec v=vec(w,o0,o1,o2); int dup=0; for (int j=0;j<m;j++) dup|=eqn(seen[j],v,3); auto r=c.insert(w); if (uniq) sx_check(r.second==!dup,"unique-composite"); else sx_check(r.second,"insert"); if (r.second) seen[m++]=v; }
  sx_check((int)c.size()==m,"size"); const W* p=0; int q=0; for (auto& e: c) { if (p) { int l=lex(vec(*p,o0,o1,o2),vec(e,o0,o1,o2),3); sx_check(uniq?l<0:l<=0,"composite-order"); if (!uniq) sx_check((l!=0)|(p->id<e.id),"insertion-order-of-ties"); } p=&e; q++; } sx_check(q==m,"iteration");
  W w=full?any(9):W(9,sx_int(-1,R),(unsigned)sx_int(0,R),(signed char)sx_int(-1,1)); Px<C,ix<C,0>::kind==RNK> x={&c}; Q k; int f=sx_choose(8); 
  switch (f) {
  case 0: lookup(x,k(w),w,3,o0,o1,o2); break;
  case 1: lookup(x,boost::make_tuple(w.a,w.b,w.c),w,3,o0,o1,o2); break;
  case 2: lookup(x,std::make_tuple(w.a,w.b,w.c),w,3,o0,o1,o2); break;
  case 3: lookup(x,boost::make_tuple(w.a,w.b),w,2,o0,o1,o2); break;
  case 4: lookup(x,std::tie(w.a,w.b),w,2,o0,o1,o2); break;
  case 5: lookup(x,boost::make_tuple(w.a),w,1,o0,o1,o2); break;
  case 6: lookup(x,std::make_tuple(w.a),w,1,o0,o1,o2); break;
  case 7: lookup(x,w.a,w,1,o0,o1,o2); break; }
  sx_observe(m); for (auto& e: c) sx_observe((uint64_t)(unsigned)e.id); }
SX_ENTRY(p1){ ord<O1>(3,UP,UP,UP,false); }
SX_ENTRY(p2){ ord<O2>(3,DOWN,UP,DOWN,true); }
SX_ENTRY(p3){ ord<O3>(3,UP,DOWN,UP,false); }
SX_ENTRY(p4){ R=3; ord<O4>(2,HALF,DOWN,UP,false); }
SX_ENTRY(p5){ ord<O5>(3,DOWN,DOWN,DOWN,true); }
SX_ENTRY(p6){ ord<O6>(2,DOWN,DOWN,DOWN,false); }
SX_ENTRY(f1){ full=true; ord<O1>(2,UP,UP,UP,false); }
SX_ENTRY(f2){ full=true; ord<O2>(2,DOWN,UP,DOWN,true); }
SX_ENTRY(f4){ full=true; ord<O4>(2,HALF,DOWN,UP,false); }
SX_ENTRY_THOROUGH(r1){ full=true; ord<O1>(3,UP,UP,UP,false); }
SX_ENTRY_THOROUGH(r3){ full=true; ord<O3>(3,UP,DOWN,UP,false); }
SX_ENTRY_THOROUGH(r2){ ord<O2>(4,DOWN,UP,DOWN,true); }
// range() with bounds on prefixes; erasing and modifying by composite key
SX_ENTRY(range){ O1 c; for (int i=0;i<3;i++) c.insert(el(i)); int lo=sx_int(-1,2),hi=sx_int(-1,2); sx_assume(lo<=hi); auto r=c.range([&](const Q::result_type& k){ return k>=std::make_tuple(lo); },[&](const Q::result_type& k){ return k<=boost::make_tuple(hi); });
  int n=0; for (auto it=r.first; it!=r.second; ++it) { sx_check((it->a>=lo)&(it->a<=hi),"range-content"); n++; } int want=0; for (auto& e: c) want+=(e.a>=lo)&(e.a<=hi); sx_check(n==want,"range-complete"); sx_reach("range"); }
SX_ENTRY(erase_by_prefix){ O3 c; for (int i=0;i<3;i++) c.insert(el(i)); int a=sx_int(0,1); unsigned b=(unsigned)sx_int(0,1); int n2=0; for (auto& e: c) n2+=(e.a==a)&(e.b==b); auto er=c.equal_range(boost::make_tuple(a,b)); auto nx=c.erase(er.first,er.second); sx_check(nx==er.second,"erase-by-prefix"); for (auto& e: c) sx_check(!((e.a==a)&(e.b==b)),"erase-left-one"); sx_check((int)c.size()==3-n2,"erase-size"); }
SX_ENTRY(modified){ O2 c; for (int i=0;i<3;i++) c.insert(el(i)); int p=sx_choose((int)c.size()); auto it=nth_it(c,p); W z=el(7); int dup=0; for (auto& e: c) if (&e!=&*it) dup|=eqn(vec(e),vec(z),3); bool ok=c.modify(it,[&](W& w){ w.a=z.a; w.b=z.b; w.c=z.c; }); sx_check(ok==!dup,"modify-unique"); const W* q=0; for (auto& e: c) { if (q) sx_check(lex(vec(*q,DOWN,UP,DOWN),vec(e,DOWN,UP,DOWN),3)<0,"composite-order"); q=&e; } if (ok) sx_check(c.find(std::tie(z.a,z.b,z.c))==it,"find-modified"); }
// hashed: only full keys and tuples
struct HA { size_t operator()(int k) const { return (size_t)(unsigned)(k&1); } };
struct HB { size_t operator()(unsigned k) const { return k; } };
struct HC { size_t operator()(signed char) const { return 5; } };
typedef multi_index_container<W,indexed_by<hashed_non_unique<Q,composite_key_hash<HA,HB,HC>>>> S1;
typedef multi_index_container<W,indexed_by<hashed_unique<Q,composite_key_hash<HalfHash,HB,HC>,composite_key_equal_to<HalfEq,std::equal_to<unsigned>,std::equal_to<signed char>>>>> S2;
typedef multi_index_container<W,indexed_by<hashed_unique<Q>>> S3;
template<class C> void hsh(int n,int o0,bool uniq){
  C c; int m=0; for (int i=0;i<n;i++) { W w=el(i); int dup=0; for (auto& e: c) dup|=eqn(vec(e,o0),vec(w,o0),3); auto r=c.insert(w); sx_check(r.second==!(uniq&&dup),"hashed-insert"); m+=r.second; }
  W w(9,sx_int(0,R),(unsigned)sx_int(0,R-1),(signed char)sx_int(0,1)); Q k; int f=sx_choose(5); int same=0,first=-1,last=-1,i=0; for (auto& e: c) { if (sx_concretize(eqn(vec(e,o0),vec(w,o0),3))) { if (first<0) first=i; sx_check(last<0||last==i-1,"group-split"); last=i; same++; } i++; } sx_check(i==m,"iteration");
  auto look=[&](const auto& t){ sx_check((int)c.count(t)==same,"count"); auto it=c.find(t); auto r=c.equal_range(t); if (!same) sx_check(it==c.end()&&r.first==c.end()&&r.second==c.end(),"absent"); else { sx_check(it!=c.end()&&eqn(vec(*it,o0),vec(w,o0),3),"find"); sx_check(r.first==nth_it(c,first)&&r.second==nth_it(c,last+1),"equal_range"); } sx_check(c.contains(t)==(same>0),"contains"); sx_reach(same?"hfound":"habsent"); };
  switch (f) { case 0: look(k(w)); break; case 1: look(boost::make_tuple(w.a,w.b,w.c)); break; case 2: look(std::make_tuple(w.a,w.b,w.c)); break; case 3: look(boost::tie(w.a,w.b,w.c)); break; case 4: look(std::tie(w.a,w.b,w.c)); break; } 
  if (same) { sx_check((int)c.erase(k(w))==same,"erase"); sx_check((int)c.size()==m-same,"erase-size"); for (auto& e: c) sx_check(!eqn(vec(e,o0),vec(w,o0),3),"erase-left-one"); } }
SX_ENTRY(h1){ hsh<S1>(3,UP,false); }
SX_ENTRY(h2){ R=3; hsh<S2>(2,HALF,true); }
SX_ENTRY(h3){ hsh<S3>(2,UP,true); }
SX_ENTRY_THOROUGH(h2t){ R=3; hsh<S2>(3,HALF,true); }
SX_ENTRY_THOROUGH(h3t){ hsh<S3>(3,UP,true); }
