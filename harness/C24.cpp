// BOUND: two containers of 3 types (2-3 indices, every index kind), 0-3 elements each; three iterators of one index over all positions including end and singular ones; one history step (two in thorough) of every kind that invalidates, moves or preserves iterators; then every operation taking iterators, with any of the three iterators in each place
// ASSUME: iterators to the end of a container that was moved from, moved to, swapped or assigned to are not used (their validity is not documented)
#include "C24.h"
typedef multi_index_container<El,indexed_by<ordered_unique<KA>,sequenced<>>> OS;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HId>,ranked_non_unique<KB>,random_access<>>> HKR;
typedef multi_index_container<El,indexed_by<random_access<>,hashed_non_unique<KB,HLow>>> RH;
typedef multi_index_container<El,indexed_by<sequenced<>,random_access<>,ordered_non_unique<KB>>> SRO;
template<class C> auto addv(C& c,const El& e){ auto& x=c.template get<0>(); if constexpr (ix<C,0>::positional) return x.push_back(e).first; else return x.insert(e).first; }
enum { NOP, ERASE, ERASERG, CLEAR, EXTRACT, TRANSFER, MODIFY, SWAP, MOVEA, MOVEC, MERGE, MERGE1, COPYA, INSERTS, ITERS, SCOPE, ASSIGNV, REHASH, SORTS, BIN, POPS, REMOVES, NOPS };
// one history step through index K
template<int K,class W,class C> void step(W& w,C*,int op){ typedef ix<C,K> X; int k=sx_choose(2); C& c=w.c[k]; C& d=w.c[1-k]; auto& x=c.template get<K>(); auto& y=d.template get<K>(); int n=(int)c.size();
  if (op==ERASE) { if (!n) return; x.erase(nth_it(x,sx_choose(n))); w.gone(); }
  if (op==ERASERG) { int p=sx_choose(n+1),q=p+sx_choose(n-p+1); x.erase(nth_it(x,p),nth_it(x,q)); w.gone(); }
  if (op==CLEAR) { x.clear(); w.gone(); }
  if (op==EXTRACT) { if (!n) return; auto it=nth_it(x,sx_choose(n)); int e=it->id; auto h=x.extract(it); w.kill(e); sx_check(!h.empty(),"extract"); if (sx_choose(2)) { if constexpr (X::positional) x.insert(x.begin(),std::move(h)); else x.insert(std::move(h)); } }
  if (op==TRANSFER) { if (!n) return; auto it=nth_it(x,sx_choose(n)); int e=it->id; auto h=x.extract(it); w.kill(e); if constexpr (X::positional) y.insert(y.end(),std::move(h)); else y.insert(std::move(h)); }
  if (op==MODIFY) { if (!n) return; auto it=nth_it(x,sx_choose(n)); int to=sx_choose(2)?100:c.template get<0>().begin()->a; bool rb=sx_choose(2); int f=it->a; if (rb) x.modify(it,[to](El& e){ e.a=to; },[f](El& e){ e.a=f; }); else x.modify(it,[to](El& e){ e.a=to; }); w.gone(); }
  if (op==SWAP) { if (sx_choose(2)) x.swap(y); else c.swap(d); w.swapped(); }
  if (op==MOVEA) { d=std::move(c); c.clear(); for (int i=0;i<NT;i++) if (w.own[i]>=0) { if (w.id[i]<0) w.own[i]=UNSPEC; else w.own[i]= w.own[i]==k? 1-k : DEAD; } }
  if (op==MOVEC) { C t(std::move(c)); for (int i=0;i<NT;i++) if (w.own[i]==k) { if (w.id[i]<0) { w.own[i]=UNSPEC; } else { int code=-1,v=-1; try { v=w.t[i]->id; typename W::It u=t.template project<W::J_>(w.t[i]); v= u->id; } catch(const Report& r) { code=r.code; } sx_check(code<0,"moved-iterator-reported"); sx_check(v==w.id[i],"moved-iterator"); } }
    c.swap(t); for (int i=0;i<NT;i++) if (w.own[i]==UNSPEC) w.own[i]=UNSPEC; }
  if (op==MERGE) { if constexpr (X::positional) x.splice(x.end(),y); else x.merge(y); w.moved(); }
  if (op==MERGE1) { if (!d.size()) return; auto it=nth_it(y,sx_choose((int)d.size())); if constexpr (X::positional) x.splice(nth_it(x,sx_choose(n+1)),y,it); else x.merge(y,it); w.moved(); }
  if (op==COPYA) { c=d; for (int i=0;i<NT;i++) if (w.own[i]==k) w.own[i]= w.id[i]<0? UNSPEC : DEAD; }
  if (op==INSERTS) { addv(c,fresh()); addv(c,fresh(c.template get<0>().begin()->a)); if constexpr (X::positional) { x.push_front(fresh()); x.insert(x.begin(),2,fresh()); } else x.insert(x.end(),fresh()); }
  if (op==ITERS) { int i=sx_choose(NT),j=sx_choose(NT); if (w.own[j]<0) return; w.t[i]=w.t[j]; w.own[i]=w.own[j]; w.id[i]=w.id[j]; }
  if (op==SCOPE) { int i=sx_choose(NT); { C t(c); auto& z=t.template get<W::J_>(); w.t[i]=nth_it(z,sx_choose((int)t.size()+1)); } w.own[i]=DEAD; }
  if (op==ASSIGNV) { if constexpr (X::positional) { El v[2]={fresh(),fresh()}; if (sx_choose(2)) { x.assign(v,v+2); w.gone(); } else { int m=sx_choose(n+1); if (m<n) x.resize(m); else x.resize(n+1,fresh()); w.gone(); } } }
  if (op==REHASH) { if constexpr (X::kind==HSH) { if (sx_choose(2)) x.rehash(100); else x.reserve(200); } if constexpr (X::kind==RND) { x.reserve(100); x.shrink_to_fit(); } }
  if (op==SORTS) { if constexpr (X::positional) { int q=sx_choose(4); if (q==0) x.sort(ById()); if (q==1) x.reverse(); if (q==2&&n) x.relocate(x.begin(),nth_it(x,sx_choose(n))); if (q==3) { const El* v[MAXN]; int m=0; for (auto& e: x) v[m++]=&e; struct R { const El* const* p; const El& operator*() const { return **p; } R& operator++(){ ++p; return *this; } bool operator==(const R& o) const { return p==o.p; } bool operator!=(const R& o) const { return p!=o.p; } }; const El* r[MAXN]; for (int i=0;i<m;i++) r[i]=v[m-1-i]; x.rearrange(reinterpret_cast<std::reference_wrapper<const El>*>(r)); } } }
  if (op==BIN) { if constexpr (X::keyed) { auto ke=x.key_extractor(); if (!n) return; x.erase(ke(*nth_it(x,sx_choose(n)))); w.gone(); } }
  if (op==POPS) { if constexpr (X::positional) { if (!n) return; if (sx_choose(2)) x.pop_back(); else x.pop_front(); w.gone(); } }
  if (op==REMOVES) { if constexpr (X::positional) { if (sx_choose(2)) { int e=sx_choose(nid); x.remove_if([e](const El& v){ return v.id==e; }); } else x.unique([](const El& p,const El& q){ return p.b==q.b; }); w.gone(); } }
}
// operations with the tracked iterators i, j and container k, through index J
enum { U_DEREF, U_INC, U_DEC, U_EQ, U_ASSIGN, U_ERASE, U_ERANGE, U_HINT, U_EXTRACT, U_REPLACE, U_MODIFY, U_PROJECT, U_REHINT, U_SPL1, U_SPLR, U_SPLALL, U_RELOC, U_RELOCR, U_ADV, U_MOREIT, NUSES };
template<int J,class W,class C> void use(W& w,C*,int u){ typedef ix<C,J> X; int i=sx_choose(NT),j=0,k=0; if (!w.known(i)) return; C& c=w.c[0]; (void)c;
  if (u==U_DEREF) { w.use(w.own[i]==DEAD?INV:w.id[i]<0?DRF:0,[&]{ int v=(*w.t[i]).id; sx_check(v==w.id[i],"dereferenced-other"); }); return; }
  if (u==U_INC) { typename W::It z(w.t[i]); if (sx_choose(2)) w.use(w.own[i]==DEAD?INV:w.id[i]<0?INC:0,[&]{ ++z; }); else w.use(w.own[i]==DEAD?INV:w.id[i]<0?INC:0,[&]{ z++; }); if (w.own[i]>=0&&w.id[i]>=0) sx_check(z==nth_it(w.x(w.own[i]),w.pos(i)+1),"incremented-other"); return; }
  if (u==U_DEC) { if constexpr (X::bidir) { typename W::It z(w.t[i]); bool beg=w.own[i]>=0&&w.pos(i)==0; if (w.use(w.own[i]==DEAD?INV:beg?DEC:0,[&]{ --z; })) sx_check(z==nth_it(w.x(w.own[i]),w.pos(i)-1),"decremented-other"); else if (beg) sx_check(z==w.x(w.own[i]).begin(),"misuse-took-effect"); } return; }
  if (u==U_ASSIGN) { typename W::It z; w.use(w.own[i]==DEAD?INV:0,[&]{ z=w.t[i]; sx_check(z==w.t[i],"assigned-other"); }); return; }
  if (u==U_ADV) { if constexpr (X::kind==RND) { int n=sx_int(-4,4); if (w.own[i]==DEAD) { w.use(INV|OOB,[&]{ w.t[i]+=n; }); return; } int p=w.pos(i),q=p+n,m=w.size(w.own[i]); int bad=(q<0)|(q>m); bad=(int)sx_concretize(bad); int f=sx_choose(4); typename W::It z(w.t[i]); w.use(bad?OOB:0,[&]{ if (f==0) z+=n; else if (f==1) z-=-n; else if (f==2) z=w.t[i]+n; else z=w.t[i]-(-n); }); sx_check(z-w.x(w.own[i]).begin()==(bad?p:q),"advanced-other");
      auto& x=w.x(w.own[i]); w.use((bad||(int)sx_concretize(q==m))?OOB|DRF:0,[&]{ sx_check(&w.t[i][n]==&x[q],"subscript"); }); } return; }
  j=sx_choose(NT); k=sx_choose(2); if (!w.known(j)) return; auto& x=w.x(k); auto& y=w.x(1-k); int n=w.size(k);
  if (u==U_EQ) { unsigned m= w.own[i]==DEAD||w.own[j]==DEAD? INV : w.own[i]!=w.own[j]? SAM : 0; bool s=false; if (w.use(m,[&]{ s= w.t[i]==w.t[j]; sx_check(s==!(w.t[i]!=w.t[j]),"inequality"); })) sx_check(s==(w.id[i]==w.id[j]),"equality"); if constexpr (X::kind==RND) w.use(m,[&]{ auto dd=w.t[i]-w.t[j]; sx_check(dd==w.pos(i)-w.pos(j),"distance"); sx_check((w.t[i]<w.t[j])==(dd<0),"less"); }); return; }
  if (u==U_ERASE) { if (w.use(w.at(i,k,true),[&]{ x.erase(w.t[i]); })) { sx_check(w.size(k)==n-1&&!w.has(k,w.id[i]),"erased-other"); w.gone(); } return; }
  if (u==U_ERANGE) { unsigned m=w.range(i,j,k); int len=m?0:w.pos(j)-w.pos(i); if (w.use(m,[&]{ x.erase(w.t[i],w.t[j]); })) { sx_check(w.size(k)==n-len,"erased-other"); w.gone(); } return; }
  if (u==U_HINT) { int f=sx_choose(3); El e=fresh(); int cnt=1; bool one=true; if (w.use(w.at(i,k),[&]{ if (f==0) x.insert(w.t[i],e); else if (f==1) { if constexpr (X::positional) x.emplace(w.t[i],e); else x.emplace_hint(w.t[i],e); } else if constexpr (X::positional) { El v[2]={e,fresh()}; x.insert(w.t[i],v,v+2); cnt=2; one=false; } else x.insert(w.t[i],El(e)); })) { sx_check(w.size(k)==n+cnt&&w.has(k,e.id),"inserted-other"); if constexpr (X::positional) if (one) { auto z=w.t[i]; --z; sx_check(z->id==e.id,"inserted-elsewhere"); } } return; }
  if (u==U_EXTRACT) { if (w.use(w.at(i,k,true),[&]{ auto h=x.extract(w.t[i]); sx_check(h.value().id==w.id[i],"extracted-other"); })) w.gone(); return; }
  if (u==U_REPLACE) { El e=fresh(); bool ok=false; if (w.use(w.at(i,k,true),[&]{ ok=x.replace(w.t[i],e); })) { sx_check(ok,"replaced"); int old=w.id[i]; for (int z=0;z<NT;z++) if (w.own[z]==k&&w.id[z]==old) w.id[z]=e.id; } return; }
  if (u==U_MODIFY) { int f=sx_choose(3); auto md=[](El& e){ e.c=5; }; if constexpr (X::keyed) if (f==2) { w.use(w.at(i,k,true),[&]{ x.modify_key(w.t[i],[](int& q){ q+=1000; }); }); return; } w.use(w.at(i,k,true),[&]{ if (f==0) x.modify(w.t[i],md); else x.modify(w.t[i],md,md); }); return; }
  if (u==U_PROJECT) { const int P=(J+1)%nidx<C>(); w.use(w.at(i,k),[&]{ auto z=w.c[k].template project<P>(w.t[i]); if (w.id[i]<0) sx_check(z==w.c[k].template get<P>().end(),"projected-other"); else sx_check(z->id==w.id[i],"projected-other"); });
     w.use(w.at(i,k),[&]{ const C& cc=w.c[k]; auto z=mi::project<P>(cc,w.t[i]); if (w.id[i]<0) sx_check(z==cc.template get<P>().end(),"projected-other"); else sx_check(z->id==w.id[i],"projected-other"); }); return; }
  if (u==U_REHINT) { // node handle with a hint, and merging single elements by iterator
     int f=sx_choose(2); if (f==0) { C s; auto it=addv(s,fresh()); auto h=s.extract(it); if (w.use(w.at(i,k),[&]{ x.insert(w.t[i],std::move(h)); })) sx_check(h.empty()&&w.size(k)==n+1,"node-inserted"); else sx_check(!h.empty(),"misuse-took-effect"); }
     else if constexpr (X::keyed) { if (w.use(w.at(i,1-k,true),[&]{ x.merge(y,w.t[i]); })) w.moved(); } return; }
  if (u==U_MOREIT) { if constexpr (X::keyed) { unsigned m=w.range(i,j,1-k); if (w.use(m,[&]{ x.merge(y,w.t[i],w.t[j]); })) w.moved(); if constexpr (X::kind==RNK) { for (int z=0;z<NT;z++) if (w.known(z)) w.use(w.at(z,k),[&]{ sx_check((int)x.rank(w.t[z])==w.pos(z),"rank"); }); } } return; }
  if constexpr (X::positional) { int h=sx_choose(NT); if (!w.known(h)) return; bool same=sx_choose(2); auto& src=same?x:y; int sk=same?k:1-k;
    if (u==U_SPL1) { unsigned m=w.at(h,k)|w.at(i,sk,true); if (w.use(m,[&]{ x.splice(w.t[h],src,w.t[i]); })) { w.moved(); } return; }
    if (u==U_SPLR) { unsigned m=w.range(i,j,sk)|w.at(h,k); if (!m&&same&&w.pos(h)>=w.pos(i)&&w.pos(h)<w.pos(j)) m=INS; if (m&INV) m|=OWN|RNG|SAM; if (w.use(m,[&]{ x.splice(w.t[h],src,w.t[i],w.t[j]); })) w.moved(); return; }
    if (u==U_SPLALL) { unsigned m=w.at(h,k); if (!m&&same&&w.id[h]>=0) m=INS; if (w.use(m,[&]{ x.splice(w.t[h],src); })) w.moved(); return; }
    if (u==U_RELOC) { unsigned m=w.at(h,k)|w.at(i,k,true); w.use(m,[&]{ x.relocate(w.t[h],w.t[i]); }); return; }
    if (u==U_RELOCR) { unsigned m=w.range(i,j,k)|w.at(h,k); if (!m&&w.pos(h)>=w.pos(i)&&w.pos(h)<w.pos(j)) m=INS; if (m&INV) m|=OWN|RNG|SAM; w.use(m,[&]{ x.relocate(w.t[h],w.t[i],w.t[j]); }); return; } }
}
template<class C,int J> struct WJ: World<C,J> { enum { J_=J }; };
template<class C,int J> void run(int n0,int n1,int steps,bool uses){ nid=0; try { WJ<C,J> w; for (int i=0;i<n0;i++) addv(w.c[0],fresh()); for (int i=0;i<n1;i++) addv(w.c[1],fresh());
    // iterators: any position of container 0, any of container 1, singular or end of 0
    if (n0) w.set(0,0,sx_choose(n0+1)); else w.set(0,0,0); w.set(1,sx_choose(2),0); if (w.size(w.own[1])) w.set(1,w.own[1],sx_choose(w.size(w.own[1])+1)); if (sx_choose(2)) w.set(2,0,n0);
    for (int s=0;s<steps;s++) { int K=sx_choose(nidx<C>()); int op=sx_choose(NOPS); at<C>(K,[&](auto Kc){ step<Kc.value>(w,(C*)0,op); }); }
    w.probe(); if (uses) { use<J>(w,(C*)0,sx_choose(NUSES)); w.probe(); } verify(w.c[0]); verify(w.c[1]); for (int i=0;i<2;i++) observe(w.c[i]); sx_reach("end"); } catch(const Report&) { sx_fail("correct-use-reported"); } }
SX_ENTRY(os_0){ run<OS,0>(2,1,0,true); }
SX_ENTRY(h_os_0){ run<OS,0>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_os_0){ run<OS,0>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_os_0){ run<OS,0>(2,1,2,false); }
SX_ENTRY(os_1){ run<OS,1>(2,1,0,true); }
SX_ENTRY(h_os_1){ run<OS,1>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_os_1){ run<OS,1>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_os_1){ run<OS,1>(2,1,2,false); }
SX_ENTRY(hk_0){ run<HKR,0>(2,1,0,true); }
SX_ENTRY(h_hk_0){ run<HKR,0>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_hk_0){ run<HKR,0>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_hk_0){ run<HKR,0>(2,1,2,false); }
SX_ENTRY(hk_1){ run<HKR,1>(2,1,0,true); }
SX_ENTRY(h_hk_1){ run<HKR,1>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_hk_1){ run<HKR,1>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_hk_1){ run<HKR,1>(2,1,2,false); }
SX_ENTRY(hk_2){ run<HKR,2>(2,1,0,true); }
SX_ENTRY(h_hk_2){ run<HKR,2>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_hk_2){ run<HKR,2>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_hk_2){ run<HKR,2>(2,1,2,false); }
SX_ENTRY(rh_0){ run<RH,0>(2,1,0,true); }
SX_ENTRY(h_rh_0){ run<RH,0>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_rh_0){ run<RH,0>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_rh_0){ run<RH,0>(2,1,2,false); }
SX_ENTRY(rh_1){ run<RH,1>(2,1,0,true); }
SX_ENTRY(h_rh_1){ run<RH,1>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_rh_1){ run<RH,1>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_rh_1){ run<RH,1>(2,1,2,false); }
SX_ENTRY(sr_0){ run<SRO,0>(2,1,0,true); }
SX_ENTRY(h_sr_0){ run<SRO,0>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_sr_0){ run<SRO,0>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_sr_0){ run<SRO,0>(2,1,2,false); }
SX_ENTRY(sr_1){ run<SRO,1>(2,1,0,true); }
SX_ENTRY(h_sr_1){ run<SRO,1>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_sr_1){ run<SRO,1>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_sr_1){ run<SRO,1>(2,1,2,false); }
SX_ENTRY(sr_2){ run<SRO,2>(2,1,0,true); }
SX_ENTRY(h_sr_2){ run<SRO,2>(2,1,1,false); }
SX_ENTRY_THOROUGH(t_sr_2){ run<SRO,2>(3,2,0,true); }
SX_ENTRY_THOROUGH(th_sr_2){ run<SRO,2>(2,1,2,false); }
