// node handles, merge and transfer splices
#include "fx.h"
using namespace mi;
typedef TA<Ef> A;
typedef multi_index_container<Ef,indexed_by<ordered_unique<XA,FLess>,hashed_non_unique<XB,FHash2,FEq>>,A> P1;
typedef multi_index_container<Ef,indexed_by<ordered_non_unique<XB,FLess>,hashed_unique<XA,FHash,FEq>>,A> P1b;
typedef multi_index_container<Ef,indexed_by<hashed_unique<XA,FHash,FEq>,sequenced<>>,A> P2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XB,FHash2,FEq>,sequenced<>>,A> P2b;
typedef multi_index_container<Ef,indexed_by<sequenced<>,ranked_unique<XA,FLess>,random_access<>>,A> P3;
typedef multi_index_container<Ef,indexed_by<sequenced<>,ranked_non_unique<XB,FLess>,random_access<>>,A> P3b;
typedef multi_index_container<Ef,indexed_by<random_access<>,ordered_unique<XA,FLess>,hashed_unique<XB,FHash2,FEq>>,A> P4;
typedef multi_index_container<Ef,indexed_by<random_access<>,ordered_non_unique<XB,FLess>,hashed_non_unique<XA,FHash,FEq>>,A> P4b;
typedef multi_index_container<Ef,indexed_by<ordered_unique<XB,FLess>,hashed_unique<XA,FHash,FEq>,random_access<>>,A> P5;
typedef multi_index_container<Ef,indexed_by<sequenced<>>,A> Q1;
typedef multi_index_container<Ef,indexed_by<random_access<>>,A> Q2;
typedef multi_index_container<Ef,indexed_by<hashed_non_unique<XA,FHash,FEq>>,A> Q3;
typedef multi_index_container<Ef,indexed_by<ranked_non_unique<XA,FLess>>,A> Q4;
static int nid, KN=3, BN=2;
static El fresh(){ int i=nid++; return El(i,sx_int(0,KN-1),sx_int(0,BN-1),0); }
template<class C> void fill(C& c,int n){ for (int i=0;i<n;i++) put(c,fresh()); }
static int eq(const El& x,const El& y){ return (int)(x.id==y.id)&(x.a==y.a)&(x.b==y.b)&(x.c==y.c); }
template<class C> int clash1(const C& c,const Ef& v,const Ef& o){ int r=0; each<C>([&](auto K){ if constexpr (ix<C,K.value>::uniq) r|=Ref<C>::template same<K.value>(c,v,o); }); return r; }
// does v clash with some element of c?
template<class C> bool clash(const C& c,const Ef& v){ int r=0; for (auto& o: c.template get<0>()) r|=clash1(c,v,o); return sx_concretize((unsigned)r)!=0; }
// container d, which held the sequences q, has received the objects acc[0..m) through index I at position p (-1: none; hint: an ordered or hashed hint was given)
template<class D> void received(const D& d,const Seqs<D>& q,const Ef* const* acc,int m,int I,int p,bool hint){
  sx_check((int)d.size()==q.n+m,"target-size");
  each<D>([&](auto K){ typedef ix<D,K.value> X; const auto& x=d.template get<K.value>(); int i=0,j=0; const Ef* prev=0; int pr=0; uint32_t mo=0,mn=0;
    for (auto& e: x) { int o=-1,w=-1; for (int t=0;t<q.n;t++) if (q.s[K.value][t]==&e) o=t; for (int t=0;t<m;t++) if (acc[t]==&e) w=t; sx_check((o>=0)!=(w>=0),"target-stranger");
      if (o>=0) { sx_check(!((mo>>o)&1),"twice"); mo|=1u<<o; } else { sx_check(!((mn>>w)&1),"twice"); mn|=1u<<w; }
      if (X::kind!=HSH) { if (o>=0) { sx_check(o==i,"target-reordered"); i++; } else if (X::positional) { sx_check(w==j,"transferred-order"); sx_check(i==(K.value==I&&p>=0? p : q.n),"transferred-place"); j++; } }
      if constexpr (X::ordered) { int r= o>=0? o : q.n+w; if (prev&&!hint&&r<pr) { auto k=x.key_extractor(); sx_check(x.key_comp()(k(*prev),k(e)),"equivalents-order"); } prev=&e; pr=r; } }
  }); }
// iterators of c kept over a transfer must work in d
template<class C,class D,int K,int L=K> constexpr bool same_it(){ return std::is_same<typename ix<C,K>::type::iterator,typename ix<D,L>::type::iterator>::value; }
template<class D,int K,class It> void works(const D& dc,It it,const Ef* e){ D& d=const_cast<D&>(dc); auto& x=d.template get<K>(); sx_check(&*it==e,"iterator-lost"); sx_check(it==x.iterator_to(*e),"iterator-not-of-target"); int n=(int)d.size(),m=0,at=0; for (auto& z: x) { if (&z==e) break; at++; } for (auto k=it; k!=x.end(); ++k) { sx_check(m<n,"iterator-runs-away"); m++; } sx_check(m==n-at,"iterator-distance"); }
template<class F> void begin_end(F f,bool run=true){ fx_reset(); nid=1; if (run) f(); sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }

