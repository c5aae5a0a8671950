// hashed-index helpers: hash functions whose bucket assignment is a symbolic choice
#pragma once
#include "mi.h"
const int HK=5;                   // key values 0..HK-1 have a table entry
static size_t hx_tab[HK];
struct HSym { size_t operator()(int k) const { size_t h=0; for (int v=0;v<HK;v++) h|= k==v? hx_tab[v]:(size_t)0; return h; } };
// hx_buckets(n): any assignment of key values 0..n-1 to buckets of a 53-bucket
// table (up to renaming); keys of one bucket have different hash values (they
// separate when the table grows) unless `same` picks equal hashes.
static void hx_buckets(int n,bool equal=false){
  static const size_t rep[HK]={52,0,1,30,17}; int used=0;
  for (int v=0;v<n;v++) { int c=sx_choose(used<n-1?used+1:used?used:1); if (c==used) used++; hx_tab[v]=rep[c]+(equal?0:53*(size_t)v); }
  for (int v=n;v<HK;v++) hx_tab[v]=rep[0]+53*(size_t)v;
}
// lookups, grouping, iteration and buckets of hashed index x against a linear scan; keys 0..kmax
template<class X,class F> void hx_lookup(const X& x,int q,F key,bool uniq){
  int n=0,m=0,first=-1,last=-1; 
  for (auto it=x.begin(); it!=x.end(); ++it,++n) { sx_check(n<(int)x.size(),"iteration-longer"); if (sx_concretize(key(*it)==q)) { if (m==0) first=n; sx_check(m==0||last==n-1,"equivalent-elements-not-adjacent"); last=n; m++; } }
  sx_check(n==(int)x.size(),"iteration-shorter"); sx_check(!uniq||m<=1,"two-equivalent-in-unique");
  sx_check((int)x.count(q)==m,"count"); sx_check(x.contains(q)==(m>0),"contains");
  auto f=x.find(q); auto r=x.equal_range(q);
  if (!m) { sx_check(f==x.end(),"find-absent"); sx_check(r.first==x.end()&&r.second==x.end(),"equal_range-absent"); sx_reach("absent"); }
  else { sx_check(f!=x.end()&&(int)(key(*f)==q),"find-present"); auto it=x.begin(); for (int i=0;i<first;i++) ++it; sx_check(r.first==it,"equal_range-first"); sx_check(f==it||!uniq,"find-first"); for (int i=0;i<m;i++) ++it; sx_check(r.second==it,"equal_range-second"); sx_reach("present"); }
}
template<class X> void hx_buckets_ok(const X& x){
  size_t bc=x.bucket_count(),total=0; auto k=x.key_extractor(); size_t nb=0; size_t bs[MAXN]; 
  for (auto it=x.begin(); it!=x.end(); ++it) { size_t b=sx_concretize(x.bucket(k(*it))); sx_check(b<bc,"bucket-out-of-range"); bool seen=false; for (size_t i=0;i<nb;i++) if (bs[i]==b) seen=true; if (!seen) bs[nb++]=b; 
    bool in=false; int cnt=0; for (auto l=x.begin(b); l!=x.end(b); ++l) { sx_check(cnt<=(int)x.size(),"bucket-chain"); cnt++; if (&*l==&*it) in=true; } sx_check(in,"element-missing-in-its-bucket"); }
  for (size_t b=0;b<bc;b++) { size_t s=x.bucket_size(b),m=0; for (auto l=x.begin(b); l!=x.end(b); ++l) { sx_check(m<x.size(),"bucket-chain"); sx_check(x.bucket(k(*l))==b,"element-in-wrong-bucket"); auto t=x.local_iterator_to(*l); sx_check(t==l,"local_iterator_to"); m++; } sx_check(s==m,"bucket_size"); total+=m; }
  sx_check(total==x.size(),"buckets-do-not-cover");
}
// cheaper: only buckets that hold elements plus the total of all bucket sizes
template<class X> void hx_buckets_used(const X& x){
  auto k=x.key_extractor(); size_t total=0; 
  for (auto it=x.begin(); it!=x.end(); ++it) { size_t b=sx_concretize(x.bucket(k(*it))); sx_check(b<x.bucket_count(),"bucket-out-of-range"); bool in=false,firstseen=true; size_t m=0; for (auto l=x.begin(b); l!=x.end(b); ++l) { sx_check(m<x.size(),"bucket-chain"); m++; if (&*l==&*it) in=true; sx_check(x.bucket(k(*l))==b,"element-in-wrong-bucket"); } sx_check(in,"element-missing-in-its-bucket"); sx_check(x.bucket_size(b)==m,"bucket_size");
    for (auto j=x.begin(); j!=it; ++j) if (sx_concretize(x.bucket(k(*j)))==b) firstseen=false; if (firstseen) total+=m; }
  sx_check(total==x.size(),"buckets-do-not-cover");
}
