// moves and swaps
#include "C15.h"
enum { SWAP=1, MOVE=2, ASSIGN=4, EXTEND=8, SWSELF=16, ALLK=31 };
// the sequences of objects of a container, and iterators kept through every index
template<class C> struct Keep { Seqs<C> q; St s; float f; int bc[Seqs<C>::N]; const El* dummy=0;
  Keep(const C& c,St st,float mf):q(c),s(st),f(mf){ each<C>([&](auto I){ bc[I.value]=0; if constexpr (ix<C,I.value>::kind==HSH) bc[I.value]=(int)c.template get<I.value>().bucket_count(); }); }
  // now found in c, unchanged
  void in(C& c) const { sx_check((int)c.size()==q.n,"size"); each<C>([&](auto I){ q.template same<I.value>(c,"objects-or-order"); if constexpr (ix<C,I.value>::kind==HSH) sx_check((int)c.template get<I.value>().bucket_count()==bc[I.value],"bucket_count"); }); fnstate(c,s,"functors"); check_mlf(c,f,"max_load_factor"); load_ok(c); verify(c); verify_find(c); } };
// an iterator into index J at position p follows the content; used in the new owner
template<class C,int J> void follow(C& c,typename ix<C,J>::type::iterator it,int p,const Ef* e,int n){
  auto& x=c.template get<J>(); sx_check(&*it==e,"iterator-lost-its-element"); auto k=it; int m=0; for (; k!=x.end(); ++k) { sx_check(m<n,"iterator-runs-away"); m++; } sx_check(m==n-p,"iterator-distance-to-end");
  if constexpr (ix<C,J>::bidir) { k=it; for (m=0; k!=x.begin(); --k) { sx_check(m<n,"iterator-runs-away"); m++; } sx_check(m==p,"iterator-distance-to-begin"); }
  sx_check(it==x.iterator_to(*e),"iterator_to"); auto r=x.erase(it); sx_check((int)c.size()==n-1,"erase"); if (p==n-1) sx_check(r==x.end(),"erase-last"); verify(c); verify_find(c); }
template<class C> void usable(C& c){ verify(c); put(c,fresh()); put(c,fresh()); verify(c); verify_find(c); }
template<class C> void emptied(C& c){ sx_check(c.empty()&&c.size()==0,"moved-from-not-empty"); usable(c); sx_check(c.size()>=1,"moved-from-unusable"); c.clear(); verify(c); }
template<class C,int Pr> void run(int n1,int n2,int kinds,int hist=0,bool states=true){
  fx_reset(); nid=1; St s1= states? anyst() : St{0,0,0}, s2{0,0,0}; if (states) s2= sx_choose(2)? St{1,1,0} : St{0,0,0}; float f1= states&&s1.f? 0.04f : 1.0f, f2=1.0f; typedef typename C::allocator_type A;
  { n1=sx_choose(n1+1); int big=0; 
    int ks[6],kn=0; for (int b=0;b<5;b++) if (kinds>>b&1) ks[kn++]=1<<b; int k=ks[sx_choose(kn)]; bool equal= k==SWAP&&!(Pr&4)? true : k==MOVE||k==SWSELF? true : sx_choose(2); int id2= equal? 1 : 2;
    C x(args<C>(s1.f,s1.d,s1.m),A(1)); set_mlf(x,f1); if (hist) history(x,n1,sx_choose(hist)); else for (int i=0;i<n1;i++) put(x,fresh()); int n=(int)x.size();
    bool extra= n>0; int J= extra? sx_choose(nidx<C>()) : 0, p= extra? sx_choose(n) : 0;
    at<C>(J,[&](auto I){ auto it= x.template get<I.value>().end(); const Ef* e=0; if (n) { it=nth_it(x.template get<I.value>(),p); e=&*it; }
      if (k==SWSELF) { Keep<C> K(x,s1,f1); x.swap(x); K.in(x); if (e) follow<C,I.value>(x,it,p,e,n); usable(x); }
      else if (k==MOVE) { Keep<C> K(x,s1,f1); int made=ef_made,gone=ef_destroyed; C y(std::move(x)); sx_check(ef_made==made&&ef_destroyed==gone,"element-touched"); K.in(y); sx_check(y.get_allocator().id==1,"allocator"); sx_check(x.get_allocator().id==1,"allocator"); if (e) follow<C,I.value>(y,it,p,e,n); emptied(x); usable(y); observe(y); sx_reach("transferred"); }
      else if (k==EXTEND) { Keep<C> K(x,s1,f1); int made=ef_made,gone=ef_destroyed,mv=ef_moved; 
        int ids[nidx<C>()][8]; each<C>([&](auto L){ int i=0; for (auto& z: x.template get<L.value>()) ids[L.value][i++]=z.id; }); int v[16]; for (auto& z: x.template get<0>()) v[z.id]=z.a;
        C y(std::move(x),A(id2)); sx_check(y.get_allocator().id==id2,"allocator"); 
        if (equal) { sx_check(ef_made==made&&ef_destroyed==gone,"element-touched"); K.in(y); if (e) follow<C,I.value>(y,it,p,e,n); }
        else { sx_check(ef_moved==mv+n&&ef_made==made+n,"moves-made"); sx_check((int)y.size()==n,"size"); int ok=1; each<C>([&](auto L){ int i=0; for (auto& z: y.template get<L.value>()) { sx_check(i<n&&ids[L.value][i]==z.id,"moved-order"); ok&=z.a==v[z.id]; i++; } sx_check(i==n,"moved-size"); }); sx_check(ok,"moved-value"); fnstate(y,s1,"functors"); check_mlf(y,f1,"max_load_factor"); load_ok(y); verify(y); verify_find(y); }
        emptied(x); usable(y); observe(y); }
      else { C y(args<C>(s2.f,s2.d,s2.m),A(id2)); int n2c=sx_choose(n2+1); for (int i=0;i<n2c;i++) put(y,fresh()); int my=(int)y.size(); Keep<C> K(x,s1,f1),L(y,s2,f2); int made=ef_made,gone=ef_destroyed,mv=ef_moved,al=fx_allocs;
        if (k==SWAP) { 
          if (p==0) x.swap(y); else if (p==1) { using std::swap; swap(x,y); } else x.template get<I.value>().swap(y.template get<I.value>());
          sx_check(ef_made==made&&ef_destroyed==gone&&fx_allocs==al,"element-touched"); K.in(y); L.in(x); sx_check(y.get_allocator().id==((Pr&4)?1:id2)&&x.get_allocator().id==((Pr&4)?id2:1),"allocator"); if (e) follow<C,I.value>(y,it,p,e,n); usable(x); usable(y); observe(x); sx_reach("swapped"); }
        else { // move assignment
          int ids[nidx<C>()][8]; each<C>([&](auto M){ int i=0; for (auto& z: x.template get<M.value>()) ids[M.value][i++]=z.id; }); int v[16]; for (auto& z: x.template get<0>()) v[z.id]=z.a;
          C& r=(y=std::move(x)); sx_check(&r==&y,"assignment-result"); sx_check(y.get_allocator().id==((Pr&2)?1:id2),"allocator");
          if (equal||(Pr&2)) { sx_check(ef_made==made,"element-touched"); K.in(y); if (e) follow<C,I.value>(y,it,p,e,n); }
          else { sx_check(ef_moved==mv+n&&ef_made==made+n,"moves-made"); sx_check((int)y.size()==n,"size"); int ok=1; each<C>([&](auto M){ int i=0; for (auto& z: y.template get<M.value>()) { sx_check(i<n&&ids[M.value][i]==z.id,"moved-order"); ok&=z.a==v[z.id]; i++; } sx_check(i==n,"moved-size"); }); sx_check(ok,"moved-value"); fnstate(y,s1,"functors"); check_mlf(y,f1,"max_load_factor"); load_ok(y); verify(y); verify_find(y); sx_check(x.empty(),"moved-from-not-empty"); }
          usable(x); usable(y); observe(y); sx_reach("assigned"); } } });
  }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
