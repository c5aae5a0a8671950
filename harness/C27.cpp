// BOUND: trees of every size up to 20 built in ascending, descending, zigzag, strided and hinted order, with every pair of erasures (every triple in trees of 9), followed by insertions; hashed indices with groups of up to 6 equivalent elements in shared buckets and every sequence of 3 erasures, replacements and insertions; the library's own invariant checks decide after each
#include "C27.h"
#include "hx.h"
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
using namespace mi;
typedef multi_index_container<El,indexed_by<ordered_non_unique<KA>>> CN;
typedef multi_index_container<El,indexed_by<ordered_unique<KA>>> CU;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA>>> CR;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA>,random_access<>>> CM;
template<class C> auto& oi(C& c){ if constexpr (nidx<C>()==1) return c.template get<0>(); else return c.template get<1>(); }
template<class C> int load(C& c,int n,int shape){
  for (int i=0;i<n;i++) { int k= shape==0? i : shape==1? n-i : shape==2? ((i&1)? n-i/2 : i/2) : shape==3? i*7%n : i;
    if (shape==4) { if constexpr (nidx<C>()==1) { c.insert(c.end(),El(i,k,0,0)); continue; } } put(c,El(i,k,0,0)); }
  sx_check((int)c.size()<=n,"size"); return (int)c.size();
}
template<class C> void two(int n,int er){ C c; int m=load(c,n,sx_choose(5)); auto& x=oi(c);
  for (int e=0;e<er&&m>0;e++,m--) x.erase(nth_it(x,sx_choose(m)));
  sx_check((int)c.size()==m,"size"); put(c,El(90,sx_choose(2)?-1:50,0,0)); sx_check((int)c.size()==m+1,"size"); 
  int k=-5,cnt=0; for (auto it=x.begin();it!=x.end();++it,++cnt) { sx_check(it->a>=k,"order"); k=it->a; } sx_check(cnt==m+1,"iteration"); sx_reach("tree"); }
SX_ENTRY(two_n){ two<CN>(SX_T(18,22),2); }
SX_ENTRY(two_u){ two<CU>(SX_T(16,20),2); }
SX_ENTRY(two_r){ two<CR>(SX_T(16,20),2); }
SX_ENTRY(two_m){ two<CM>(SX_T(12,16),2); }
SX_ENTRY(three_n){ two<CN>(SX_T(9,12),3); }
SX_ENTRY(three_r){ two<CR>(SX_T(9,11),3); }
template<class C> void drain(int n,int step){ C c; int m=load(c,n,sx_choose(5)); auto& x=oi(c); int p=sx_choose(n),s=sx_choose(step);
  while (m>0) { p=(p+s)%m; x.erase(nth_it(x,p)); m--; sx_check((int)c.size()==m,"size"); } put(c,El(1,1,0,0)); sx_check(c.size()==1,"size"); sx_reach("drained"); }
SX_ENTRY(drain_n){ drain<CN>(SX_T(32,40),SX_T(8,12)); }
SX_ENTRY(drain_r){ drain<CR>(SX_T(26,36),SX_T(6,12)); }
SX_ENTRY(drain_u){ drain<CU>(SX_T(26,36),SX_T(6,12)); }
// equivalent insertions into trees of any shape
template<class C> void runs(int n,int k){ C c; for (int i=0;i<n;i++) put(c,El(i,sx_int(0,k-1),0,0)); auto& x=oi(c); int m=(int)x.size(); x.erase(nth_it(x,sx_choose(m))); sx_check((int)c.size()==m-1,"size"); sx_reach("runs"); }
SX_ENTRY(runs_n){ runs<CN>(SX_T(5,7),5); }
SX_ENTRY(runs_r){ runs<CR>(SX_T(5,6),5); }
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HSym>>> HN;
typedef multi_index_container<El,indexed_by<hashed_non_unique<KA,HSym>,ordered_non_unique<KB>,hashed_unique<KI>>> HM;
// groups g0,g1,g2 of 0-6 elements in buckets chosen freely, then three steps
template<class C> void groups(int maxg,int steps,int tot){ hx_buckets(3); C c; int id=0; int g[3]; for (int k=0;k<3;k++) { g[k]=sx_choose(maxg+1); if (id+g[k]>tot) return; for (int i=0;i<g[k];i++,id++) put(c,El(id,k,0,0)); }
  auto& x=c.template get<0>();
  for (int s=0;s<steps;s++) { int n=(int)x.size(); int op=sx_choose(n?5:1);
    if (op==0) { int k=sx_choose(3); put(c,El(id++,k,0,0)); g[k]++; }
    else if (op==1) { auto it=nth_it(x,sx_choose(n)); g[it->a]--; x.erase(it); }
    else if (op==2) { auto it=nth_it(x,sx_choose(n)); El e=*it; g[e.a]--; e.a=sx_choose(3); g[e.a]++; sx_check(x.replace(it,e),"replace-refused"); }
    else if (op==3) { auto it=nth_it(x,sx_choose(n)); g[it->a]--; int k=sx_choose(3); g[k]++; sx_check(x.modify(it,[k](El& e){ e.a=k; }),"modify-refused"); }
    else { x.rehash(s==0?100:500); }
    for (int k=0;k<3;k++) { sx_check((int)x.count(k)==g[k],"group-count"); auto r=x.equal_range(k); int m=0; for (auto it=r.first;it!=r.second;++it,++m) { sx_check(m<g[k],"group-longer"); sx_check(it->a==k,"group-key"); } sx_check(m==g[k],"group-range"); } }
  sx_reach("groups"); }
SX_ENTRY(groups_n){ groups<HN>(SX_T(3,4),2,SX_T(6,7)); }
SX_ENTRY(groups_6){ groups<HN>(6,1,9); }
SX_ENTRY(groups_m){ groups<HM>(SX_T(2,3),SX_T(1,2),6); }
SX_ENTRY_THOROUGH(groups_n3){ groups<HN>(3,3,6); }
