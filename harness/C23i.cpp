// BOUND: iterators, const iterators and local iterators of every index of containers covering every index kind, at every position including end, and pointers to elements, saved after 0-3 elements with every permutation of positional indices; two containers in one archive; archives of every former container version; elements without default constructor
// ASSUME: a minimal archive pair of the harness (object tracking by address and type, reset_object_address) stands for Boost.Serialization's archives
#include "C23.h"
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA>,sequenced<>,random_access<>,hashed_non_unique<KA,HSym>>> A1;
typedef multi_index_container<El,indexed_by<ranked_unique<KI>,hashed_unique<KI,HLow>>> B1;
typedef multi_index_container<El,indexed_by<hashed_unique<KI,HLow>,ordered_unique<KI>,ranked_non_unique<KA>>> C1;
template<class C> void fillc(C& c,int n){ for (int i=0;i<n;i++) putv(c,fresh()); each<C>([&](auto I){ typedef ix<C,I.value> X; if constexpr (X::positional) permute(c.template get<I.value>()); }); }
template<class C> void iters(int n){ nid=0; C c; fillc(c,n); Image<C> im(c); Words w; OA o(w); const C& cc=c; o<<boost::make_nvp("c",cc);
  int i=sx_choose(nidx<C>()); at<C>(i,[&](auto I){ typedef ix<C,I.value> X; auto& x=c.template get<I.value>(); int p=sx_choose(n+1); auto it=nth_it(x,p); int id=p<n?it->id:-1; typename X::type::const_iterator ci=it;
    { const auto& s=it; o<<boost::make_nvp("i",s); const auto& t=ci; o<<boost::make_nvp("ci",t); }
    const El* ep=p<n?&*it:0; o<<boost::make_nvp("p",ep); 
    C d; IA a(w); a>>boost::make_nvp("c",d); typename X::type::iterator j; typename X::type::const_iterator cj; const El* q; a>>boost::make_nvp("i",j); a>>boost::make_nvp("ci",cj); a>>boost::make_nvp("p",q); sx_check(a.at==w.n,"archive-not-consumed"); im.restored(d); auto& y=d.template get<I.value>(); const auto& cy=y;
    if (p==n) { sx_check(j==y.end()&&cj==cy.end()&&!q,"end-iterator"); sx_reach("end"); } else { sx_check(j!=y.end()&&j->id==id&&&*j==&*cj&&j==y.iterator_to(*j)&&cj==cy.iterator_to(*j),"restored-iterator"); sx_check(q==&*j,"restored-pointer"); auto k=y.begin(); while (k->id!=id) ++k; sx_check(k==j,"restored-iterator"); sx_reach("element"); }
    // walking on from the restored iterator visits the rest of the index
    int m=0; for (auto k=j; k!=y.end(); ++k) { sx_check(m<=n,"walk"); m++; } if (X::kind!=HSH) sx_check(m==n-p,"walk");
    sx_observe(p); }); verify(c); }
template<class C,int I> void locals(int n){ nid=0; C c; fillc(c,n); Words w; OA o(w); const C& cc=c; o<<boost::make_nvp("c",cc); auto& x=c.template get<I>(); int p=sx_choose(n+1); auto k=x.key_extractor();
  typename ix<C,I>::type::local_iterator l; int id=-1; size_t b=0; if (p<n) { auto it=nth_it(x,p); l=x.local_iterator_to(*it); id=it->id; } else { b=n?sx_concretize(x.bucket(k(*x.begin()))):3; l=x.end(b); } const auto& cl=l; o<<boost::make_nvp("l",cl);
  C d; IA a(w); a>>boost::make_nvp("c",d); auto& y=d.template get<I>(); typename ix<C,I>::type::local_iterator m; a>>boost::make_nvp("l",m); if (id>=0) { sx_check(m->id==id&&m==y.local_iterator_to(*m),"restored-local-iterator"); size_t bb=sx_concretize(y.bucket(k(*m))); int r=0; for (auto z=m; z!=y.end(bb); ++z) { sx_check(r<=n,"walk"); r++; } } else sx_check(m==y.end(b),"end-local-iterator"); sx_reach("local"); }
SX_ENTRY(i_a){ hx_buckets(2); iters<A1>(2); }
SX_ENTRY(i_b){ iters<B1>(2); }
SX_ENTRY(i_b0){ iters<B1>(0); iters<A1>(0); }
SX_ENTRY(i_c){ iters<C1>(3); }
SX_ENTRY(l_a){ hx_buckets(2); locals<A1,3>(2); }
SX_ENTRY(l_b){ locals<B1,1>(2); }
SX_ENTRY(l_0){ locals<B1,1>(0); }
// two containers in one archive, iterators of both
SX_ENTRY(two){ nid=0; A1 c; B1 d; hx_buckets(2); fillc(c,2); fillc(d,2); Image<A1> ic(c); Image<B1> id(d); Words w; OA o(w); const A1& cc=c; const B1& cd=d; o<<cc; o<<cd; int p=sx_choose(3),q=sx_choose(3); auto i=nth_it(c.get<1>(),p); auto j=nth_it(d.get<0>(),q); { const auto& ci=i; const auto& cj=j; o<<cj; o<<ci; }
  A1 e; B1 f; IA a(w); a>>e; a>>f; A1::nth_index<1>::type::iterator k; B1::iterator l; a>>l; a>>k; ic.restored(e); id.restored(f); sx_check(p==2?k==e.get<1>().end():k->id==i->id&&k==e.get<1>().iterator_to(*k),"first-container"); sx_check(q==2?l==f.end():l->id==j->id&&l==f.iterator_to(*l),"second-container"); sx_reach("two"); }
// the same container twice: the second load replaces everything
SX_ENTRY(again){ nid=0; KN=2; A1 c; hx_buckets(2); fillc(c,2); Image<A1> ic(c); Words w; { OA o(w); const A1& cc=c; o<<cc; } A1 d; putv(d,El(25,1,1,1)); { IA a(w); a>>d; } ic.restored(d); { IA a(w); a>>d; } ic.restored(d); verify(d); sx_reach("again"); }
// archives of former versions
SX_ENTRY(versions){ nid=0; A1 c; hx_buckets(2); fillc(c,2); Image<A1> im(c); int v=sx_choose(5); Words w; OA o(w); o.old=v; const A1& cc=c; o<<boost::make_nvp("c",cc); A1 d; IA a(w); a.old=v; a>>boost::make_nvp("c",d); sx_check(a.at==w.n,"archive-not-consumed"); im.restored(d); verify(d); sx_reach("version"); }
// elements without default constructor, saved with their construct data
struct N { int id; const int k; N(int i,int q):id(i),k(q){} N(const N& o):id(o.id),k(o.k){} };
template<class Ar> void serialize(Ar& ar,N& e,const unsigned){ ar&e.id; }
template<class Ar> void save_construct_data(Ar& ar,const N* e,const unsigned){ int k=e->k; ar<<boost::make_nvp("k",k); }
template<class Ar> void load_construct_data(Ar& ar,N* e,const unsigned){ int k; ar>>boost::make_nvp("k",k); ::new(e) N(-1,k); }
typedef multi_index_container<N,indexed_by<sequenced<>,ordered_non_unique<member<N,const int,&N::k>>>> CN;
SX_ENTRY(construct){ CN c; for (int i=0;i<3;i++) c.push_back(N(i,sx_any_int())); if (sx_choose(2)) c.reverse(); Words w; OA o(w); const CN& cc=c; o<<boost::make_nvp("c",cc); CN d; IA a(w); a>>boost::make_nvp("c",d); sx_check(d.size()==3,"construct-size"); auto j=d.begin(); for (auto& e: c) { sx_check(j->id==e.id&&j->k==e.k,"construct-order"); ++j; } auto k=d.get<1>().begin(); for (auto& e: c.get<1>()) { sx_check(k->id==e.id&&k->k==e.k,"construct-ordered"); ++k; } sx_reach("construct"); }
SX_ENTRY_THOROUGH(t_a){ hx_buckets(2); iters<A1>(3); }
SX_ENTRY_THOROUGH(t_l){ hx_buckets(2); locals<A1,3>(3); }
