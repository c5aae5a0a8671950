// argument categories
#pragma once
#include "C21.h"
// bytes of an object, to see that nothing else changed
template<class T> struct Img { int v[3][8]; void take(const T* o){ for (int i=0;i<3;i++) { const M& m=o[i]; v[i][0]=m.pad; v[i][1]=m.x; v[i][2]=m.s; v[i][3]=m.y; v[i][4]=m.k; v[i][5]=m.arr; v[i][6]=m.ch; v[i][7]=m.mu; } } };
// every argument category from which a const part is extracted. F: f(argument)
// (extractors of a non-const Type do not take chained pointers to const: pass ptc=false)
template<bool ptc=true,class T,class F> void const_args(T& o,F f){ const T& co=o; int k=sx_choose(16); T* const* qq=nullptr; T* q0=&o; qq=&q0;
  const T* p=&o; const T* const* pp=&p; SP<const T> sp(&o); SP<SP<const T>> ssp(&sp); boost::reference_wrapper<const T> w(o); boost::reference_wrapper<const T>* pw=&w; SP<boost::reference_wrapper<const T>> spw(&w); SR<const T> sr(&o); SR<const T>* psr=&sr; T* q=&o; SP<T> sq(&o); boost::reference_wrapper<T> u(o); const SP<const T*> sppp(&p); std::unique_ptr<const T*> up(new const T*(&o));
  switch (k) { case 0: f(co); break; case 5: f(w); break; case 10: f(q); break; case 11: f(sq); break; case 12: f(u); break; case 15: f(qq); break; 
    default: if constexpr (ptc) switch (k) { case 1: f(p); break; case 2: f(pp); break; case 3: f(sp); break; case 4: f(ssp); break; case 6: f(pw); break; case 7: f(spw); break; case 8: f(sr); break; case 9: f(psr); break; case 13: f(sppp); break; case 14: f(up); break; } } sx_reach("const-args"); }
// every argument category from which a writable part is extracted (the object itself is passed as `o`)
template<class T,class F> void mut_args(T& o,F f){ int k=sx_choose(12);
  T* p=&o; T* const cp=&o; T** pp=&p; SP<T> sp(&o); SP<SP<T>> ssp(&sp); boost::reference_wrapper<T> w(o); const boost::reference_wrapper<T> cw(o); boost::reference_wrapper<T>* pw=&w; SR<T> sr(&o); SP<SR<T>> ssr(&sr); std::unique_ptr<T*> up(new T*(&o)); 
  switch (k) { case 0: f(o); break; case 1: f(p); break; case 2: f(cp); break; case 3: f(pp); break; case 4: f(sp); break; case 5: f(ssp); break; case 6: f(w); break; case 7: f(cw); break; case 8: f(pw); break; case 9: f(sr); break; case 10: f(ssr); break; case 11: f(up); break; } sx_reach("mut-args"); }
