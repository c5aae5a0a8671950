// copying entries
#include "C15.h"
enum { CC=1, CA=2, AS=4, SELF=8, EMPTYAS=16 };
template<class C> void after(C& x,C& y,int id,St s,float f,bool same){
  copy_of(y,x,!same); fnstate(y,s,"functors"); check_mlf(y,f,"max_load_factor"); load_ok(y); sx_check(y.get_allocator().id==id,"allocator");
  sx_check(x==y&&y==x&&!(x!=y),"copy-not-equal"); each<C>([&](auto I){ sx_check(x.template get<I.value>()==y.template get<I.value>(),"copy-index-not-equal"); });
  verify(y); verify_find(y);
  int k=sx_choose(2); if (k==0) { Snap<C> q(x); poke(y); q.same(x,"source-affected"); verify(y); verify_find(y); } else { Snap<C> q(y); poke(x); q.same(y,"copy-affected"); verify(x); verify_find(y); }
  put(y,El(nid++,0,0,0)); verify(y); observe(y); }
template<class C,int Pr> void run(int n,int hist,int kinds,bool arena=false,bool states=false){
  fx_reset(); nid=1; float f= states&&sx_choose(2)? 0.04f : 1.0f; St s= states? anyst() : St{0,0,0};
  { C x(args<C>(s.f,s.d,s.m),typename C::allocator_type(1)); set_mlf(x,f); if (arena) fx_arena=n; history(x,n,hist? sx_choose(hist) : 0); fx_arena=0;
    Snap<C> q(x); int made=ef_made,cp=ef_copied;
    int ks[6],kn=0; for (int b=0;b<5;b++) if (kinds>>b&1) ks[kn++]=1<<b; int k=ks[sx_choose(kn)];
    if (k==CC) { C y(x); sx_check(ef_copied-cp==(int)x.size()&&ef_made-made==(int)x.size(),"copies-made"); q.same(x,"source-changed"); after(x,y,(Pr&8)?101:1,s,f,true); sx_reach("copied"); }
    else if (k==CA) { int id=1+sx_choose(2); C y(x,typename C::allocator_type(id)); sx_check(ef_copied-cp==(int)x.size(),"copies-made"); q.same(x,"source-changed"); after(x,y,id,s,f,true); }
    else if (k==SELF) { const C& r=x; x=r; sx_check((int)x.size()==q.n,"self-assignment"); for (int i=0;i<q.n;i++) q.v[i].a=q.v[i].a; each<C>([&](auto I){ sx_check(x.template get<I.value>().size()==(size_t)q.n,"self-assignment"); }); fnstate(x,s,"functors"); check_mlf(x,f,"max_load_factor"); verify(x); verify_find(x); 
      int ok=1,i=0; for (auto& e: x) { ok&=(int)(e.id==q.v[i].id)&(e.a==q.v[i].a)&(e.b==q.v[i].b)&(e.c==q.v[i].c); i++; } sx_check(ok,"self-assignment-content"); sx_check(x.get_allocator().id==1,"allocator"); }
    else { int id=1+sx_choose(2); C y(args<C>(1,1,0),typename C::allocator_type(id)); if (k==AS) { put(y,fresh()); put(y,fresh()); } q.same(x,"source-changed"); y=x; q.same(x,"source-changed"); sx_check(ef_alive==2*(int)x.size(),"old-content-kept"); after(x,y,(Pr&1)?1:id,s,f,true); sx_reach("copied"); }
  }
  sx_check(ef_alive==0,"element-leaked"); sx_check(fx_live==0,"memory-leaked"); sx_check(fx_al==0,"allocator-leaked"); }
