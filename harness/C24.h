// safe mode: every report is an exception carrying its code
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#include <boost/multi_index/safe_mode_errors.hpp>
struct Report { int code; };
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,ec) do { if (!(expr)) throw Report{(int)(ec)}; } while(0)
#include "mi.h"
using namespace mi;
enum { INV=1u<<safe_mode::invalid_iterator, DRF=1u<<safe_mode::not_dereferenceable_iterator, INC=1u<<safe_mode::not_incrementable_iterator, DEC=1u<<safe_mode::not_decrementable_iterator, OWN=1u<<safe_mode::not_owner, SAM=1u<<safe_mode::not_same_owner, RNG=1u<<safe_mode::invalid_range, INS=1u<<safe_mode::inside_range, OOB=1u<<safe_mode::out_of_bounds, ALC=1u<<safe_mode::unequal_allocators };
struct ById { bool operator()(const El& x,const El& y) const { return x.id<y.id; } };
static int nid; static El fresh(int a=-1){ int i=nid++; return El(i,a<0?2*i:a,0,0); }
const int NT=3; enum { DEAD=-1, UNSPEC=-2 };
// Two containers and iterators of index J with, for each, what the
// documentation says about it: owner, and element (id, -1: end).
template<class C,int J> struct World {
  typedef typename ix<C,J>::type X; typedef typename X::iterator It; typedef ix<C,J> D;
  C c[2]; It t[NT]; int own[NT],id[NT]; bool copied=false;
  World(){ for (int i=0;i<NT;i++) { own[i]=DEAD; id[i]=-1; } }
  X& x(int k){ return c[k].template get<J>(); }
  void set(int i,int k,int p){ t[i]=nth_it(x(k),p); own[i]=k; id[i]= t[i]==x(k).end()? -1 : t[i]->id; }
  bool has(int k,int e){ for (auto& v: c[k].template get<0>()) if (v.id==e) return true; return false; }
  int pos(int i){ int p=0; for (auto& v: x(own[i])) { if (v.id==id[i]) return p; p++; } return p; }
  int size(int k){ return (int)c[k].size(); }
  void kill(int e){ for (int i=0;i<NT;i++) if (own[i]>=0&&id[i]==e) own[i]=DEAD; }
  void gone(){ for (int i=0;i<NT;i++) if (own[i]>=0&&id[i]>=0&&!has(own[i],id[i])) own[i]=DEAD; }         // elements erased
  void moved(){ for (int i=0;i<NT;i++) if (own[i]>=0&&id[i]>=0&&!has(own[i],id[i])) own[i]=has(1-own[i],id[i])?1-own[i]:DEAD; }  // erased or transferred
  void swapped(){ for (int i=0;i<NT;i++) if (own[i]>=0) own[i]= id[i]<0? UNSPEC : 1-own[i]; }
  bool known(int i) const { return own[i]!=UNSPEC; }
  // every tracked iterator is in the state the model says
  void probe(){ for (int i=0;i<NT;i++) { if (own[i]==UNSPEC) continue; int code=-1,v=-2; bool e=false,b=false,o=false; 
      if (own[i]==DEAD) { try { v=t[i]->id; } catch(const Report& r) { code=r.code; } sx_check(code==safe_mode::invalid_iterator,"invalidated-iterator-not-reported"); code=-1; try { It z; z=t[i]; } catch(const Report& r) { code=r.code; } sx_check(code==safe_mode::invalid_iterator,"invalidated-iterator-not-reported"); }
      else { try { e= t[i]==x(own[i]).end(); if (!e) v=t[i]->id; It z; z=t[i]; It y(z); b= y==t[i]; if (!e) { o= &*x(own[i]).iterator_to(*t[i])==&*t[i]; ++y; } else o=true; } catch(const Report& r) { code=r.code; } sx_check(code<0,"valid-iterator-reported"); sx_check(b&&o&&e==(id[i]<0)&&(e||v==id[i]),"iterator-denotes-other"); 
        code=-1; try { (void)(t[i]==x(1-own[i]).end()); } catch(const Report& r) { code=r.code; } sx_check(code==safe_mode::not_same_owner,"foreign-comparison-not-reported"); } } }
  // run f; mask: the errors the documentation gives for it (0: correct use). Whether it ran.
  template<class F> bool use(unsigned mask,F f){ Snap<C> a(c[0]),b(c[1]); int code=-1; try { f(); } catch(const Report& r) { code=r.code; }
    if (mask) { sx_check(code>=0,"misuse-not-reported"); sx_check((mask>>code)&1,"misuse-reported-with-other-error"); a.same(c[0],"misuse-took-effect"); b.same(c[1],"misuse-took-effect"); return false; }
    sx_check(code<0,"correct-use-reported"); return true; }
  // faults of iterator i as a position in container k (dr: must be dereferenceable)
  unsigned at(int i,int k,bool dr=false){ if (own[i]==DEAD) return INV; unsigned m=0; if (own[i]!=k) m|=OWN; if (dr&&id[i]<0) m|=DRF; return m; }
  unsigned range(int i,int j,int k){ unsigned m=at(i,k)|at(j,k); if (m) return (m&INV)?INV|(m&OWN):m|SAM|RNG; return pos(i)<=pos(j)?0:RNG; }
};
