// hashed containers with any bucket array and load limit, after moves, swaps and copies: both sides
// keep growing as they should, find everything, and stay within the load limit
#include "hx.h"
using namespace mi;
namespace hm {
struct HI { size_t operator()(int k) const { return (size_t)k*7; } };
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HI>>> U;
typedef multi_index_container<El,indexed_by<sequenced<>,hashed_non_unique<KA,HI>>> N;
template<class C> auto& hi(C& c){ return c.template get<nidx<C>()-1>(); }
template<class C> void setup(C& c,int& n,int base,float& ml,bool small){ auto& x=hi(c); int w=sx_choose(small?2:3); ml= w==0? 0.04f : w==1? 1.0f : 0.02f; x.max_load_factor(ml); int b=sx_choose(3); if (b) x.rehash(b==1? 97 : 389); n= sx_choose(2)? 4 : small? 0 : 9; for (int i=0;i<n;i++) put(c,El(base+i,base+i,0,0)); sx_check((int)c.size()==n,"setup"); }
template<class C> void ok(C& c,int n,int base,float ml){ auto& x=hi(c); sx_check((int)c.size()==n,"size"); sx_check(x.max_load_factor()==ml,"max_load_factor"); sx_check(x.load_factor()<=ml,"load_factor-above-max"); sx_check(x.load_factor()==(float)n/(float)x.bucket_count(),"load_factor-value");
  for (int i=-1;i<=n;i++) { auto f=x.find(base+i); bool in= i>=0&&i<n; sx_check((f!=x.end())==in,"find"); if (in) sx_check(f->a==base+i,"find"); } int m=0; for (auto it=x.begin();it!=x.end();++it) { sx_check(m<n,"iteration"); m++; } sx_check(m==n,"iteration"); }
template<class C> void grow(C& c,int n,int base,float ml){ ok(c,n,base,ml); int k= ml==1.0f? 56-n : 6; for (int i=0;i<k;i++) { size_t bc=hi(c).bucket_count(); put(c,El(base+n,base+n,0,0)); n++; sx_check(hi(c).load_factor()<=ml,"load_factor-above-max"); if (i<2||i==5||i==k-1) ok(c,n,base,ml); sx_check(hi(c).bucket_count()>=bc,"insert-shrinks"); } hi(c).erase(hi(c).begin()); hi(c).rehash(0); sx_check(hi(c).load_factor()<=ml,"load_factor-after-rehash"); }
template<class C> void run(){ C c; int n; float ml; setup(c,n,0,ml,false); int how=sx_choose(7);
  if (how==0) { C d(std::move(c)); grow(d,n,0,ml); grow(c,0,500,hi(c).max_load_factor()); }
  else if (how==1||how==2) { C d; int m; float md; setup(d,m,100,md,true); if (how==1) c.swap(d); else hi(c).swap(hi(d)); grow(d,n,0,ml); grow(c,m,100,md); }
  else if (how==3) { C d; int m; float md; setup(d,m,100,md,true); d=std::move(c); grow(d,n,0,ml); c.clear(); grow(c,0,500,hi(c).max_load_factor()); }
  else if (how==4) { C d(c); grow(d,n,0,ml); grow(c,n,0,ml); }
  else if (how==5) { C d; int m; float md; setup(d,m,100,md,true); d=c; grow(d,n,0,ml); grow(c,n,0,ml); }
  else { C d; int m; float md; setup(d,m,100,md,true); hi(c).merge(hi(d)); ok(d,0,100,md); sx_check((int)c.size()==n+m&&hi(c).load_factor()<=ml,"merged-load"); for (int i=0;i<m;i++) sx_check(hi(c).find(100+i)!=hi(c).end(),"merged-find"); grow(d,0,100,md); }
  sx_reach("grown"); }
}
