// BOUND: as above in safe mode (every iterator operation is a mutex operation): two threads with 1 operation each on a shared container of up to 1-2 elements; two threads copying, reassigning and destroying iterators of two shared containers in every crossing
#include "C24sm.h"
#include "C26.h"
typedef multi_index_container<El,indexed_by<ordered_unique<KA>,hashed_non_unique<KB,HLow>>> T1;
typedef multi_index_container<El,indexed_by<random_access<>,sequenced<>>> T2;
typedef multi_index_container<El,indexed_by<ranked_non_unique<KA>,sequenced<>>> T3;
// iterators of two containers, handed over within and between them by both threads
template<class C> struct Its { C* c[2]; typename C::iterator own[2]; int op,a,b,ok; };
template<class C> void its_job(void* p){ Its<C>& j=*(Its<C>*)p; typedef typename C::iterator It; C& x=*j.c[j.a]; C& y=*j.c[j.b]; j.ok=1;
  switch (j.op) {
    case 0: { It i=x.begin(); It k=y.end(); i=k; j.ok&= i==y.end(); break; }
    case 1: { It i=x.begin(),k(i); j.ok&= i==k; It z; z=k; break; }
    case 2: { j.own[0]=y.begin(); j.own[1]=j.own[0]; j.own[0]=x.end(); break; }
    case 3: { It i(j.own[0]); j.own[1]=i; j.ok&= j.own[1]==i; break; }
    case 4: { typename C::const_iterator q=x.begin(); q=y.cend(); j.ok&= q==y.end(); break; }
    case 5: { int n=0; for (auto it=y.begin(); it!=y.end(); ++it) n+=it->id; j.ok&= n==n; break; } } }
template<class C> void its(int n){ nid=0; { C c,d; fill(c,n); fill(d,n); Its<C> j[2]; for (int t=0;t<2;t++) { j[t].c[0]=&c; j[t].c[1]=&d; j[t].own[0]=c.begin(); j[t].own[1]=d.end(); j[t].op=sx_choose(6); j[t].a=sx_choose(2); j[t].b=sx_choose(2); }
  sx_spawn(&its_job<C>,&j[0]); sx_spawn(&its_job<C>,&j[1]); sx_join_all(); sx_check(j[0].ok&&j[1].ok,"concurrent-result-differs"); sx_reach("iterators-handed-over"); 
  // the containers still know all their iterators: erasing detaches exactly those
  int e0=0; for (int t=0;t<2;t++) for (int i=0;i<2;i++) { auto z=j[t].own[i]; e0+= z==z; } sx_observe((uint64_t)e0); verify(c); verify(d); c.clear(); d.clear(); sx_observe(c.size()); } }
SX_ENTRY(srd_1){ readers<T1>(1,1); }
SX_ENTRY(srd_2){ readers<T2>(1,1); }
SX_ENTRY(srd_3){ readers<T3>(1,1); }
SX_ENTRY(its_1){ its<T1>(1); }
SX_ENTRY(its_2){ its<T2>(1); }
SX_ENTRY(its_3){ its<T3>(0); }
SX_ENTRY(sown_1){ owners<T1>(1); }
SX_ENTRY(sown_2){ owners<T2>(1); }
SX_ENTRY_THOROUGH(srd_12){ readers<T1>(2,1); }
SX_ENTRY_THOROUGH(srd_32){ readers<T3>(2,1); }
SX_ENTRY_THOROUGH(its_13){ its<T1>(2); }
