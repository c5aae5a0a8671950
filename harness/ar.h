// A minimal pair of archives for Boost.Serialization-style classes: a vector of
// 64-bit words, object tracking by (address, type) like the library's archives.
#pragma once
#include "mi.h"
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/version.hpp>
#include <boost/mpl/bool.hpp>
const int ARN=1024, ARO=96;
template<class T> struct ar_ty { static char c; }; template<class T> char ar_ty<T>::c;
struct Words { uint64_t w[ARN]; int n=0; };
struct Track { const void* p[ARO]; const void* ty[ARO]; int n=0; 
  int find(const void* q,const void* t) const { for (int i=0;i<n;i++) if (p[i]==q&&ty[i]==t) return i+1; return 0; }
  void add(const void* q,const void* t){ sx_check(n<ARO,"harness: too many objects"); p[n]=q; ty[n]=t; n++; } };
static inline bool ar_is(const char* a,const char* b){ while (*a&&*a==*b) { a++; b++; } return *a==*b; }
struct OA { typedef boost::mpl::true_ is_saving; typedef boost::mpl::false_ is_loading; Words& d; Track t; int old=-1;
  explicit OA(Words& w):d(w){} 
  void word(uint64_t x){ sx_check(d.n<ARN,"harness: archive full"); d.w[d.n++]=x; }
  template<class T> void one(const T& x){ if constexpr (std::is_arithmetic<T>::value) word((uint64_t)x);
    else if constexpr (std::is_pointer<T>::value) { typedef typename std::remove_const<typename std::remove_pointer<T>::type>::type P; if (!x) word(0); else { int i=t.find(x,&ar_ty<P>::c); sx_check(i>0,"saved-pointer-to-unsaved-object"); word((uint64_t)i); } }
    else { t.add(&x,&ar_ty<T>::c); boost::serialization::serialize_adl(*this,const_cast<T&>(x),(unsigned)boost::serialization::version<T>::value); } }
  template<class T> OA& operator<<(const boost::nvp<T>& p){ if (old>=0&&old<2&&ar_is(p.name(),"value_version")) return *this; one(p.const_value()); return *this; }
  template<class T> OA& operator<<(const T& x){ one(x); return *this; } template<class T> OA& operator&(const T& x){ return *this<<x; } };
struct IA { typedef boost::mpl::false_ is_saving; typedef boost::mpl::true_ is_loading; const Words& d; int at=0; Track t; int old=-1;   // old: version given to the container
  explicit IA(const Words& w):d(w){} 
  uint64_t word(){ sx_check(at<d.n,"load-reads-past-the-archive"); return at<d.n?d.w[at++]:0; }
  template<class T> unsigned ver(const T&){ return (unsigned)boost::serialization::version<T>::value; }
  template<class V,class I,class A> unsigned ver(const boost::multi_index_container<V,I,A>&){ return old>=0?(unsigned)old:(unsigned)boost::serialization::version<boost::multi_index_container<V,I,A>>::value; }
  template<class T> void one(T& x){ if constexpr (std::is_arithmetic<T>::value) x=(T)word();
    else if constexpr (std::is_pointer<T>::value) { typedef typename std::remove_const<typename std::remove_pointer<T>::type>::type P; uint64_t i=word(); if (!i) x=0; else { sx_check(i<=(uint64_t)t.n,"pointer-to-object-not-loaded-yet"); sx_check(t.ty[i-1]==&ar_ty<P>::c,"pointer-of-other-type"); x=(T)const_cast<void*>(t.p[i-1]); } }
    else { t.add(&x,&ar_ty<T>::c); boost::serialization::serialize_adl(*this,x,ver(x)); } }
  template<class T> IA& operator>>(const boost::nvp<T>& p){ one(p.value()); return *this; }
  template<class T> IA& operator>>(T& x){ one(x); return *this; } template<class T> IA& operator&(T& x){ return *this>>x; }
  template<class T> void reset_object_address(const T* n,const T* o){ for (int i=0;i<t.n;i++) if (t.p[i]==o&&t.ty[i]==&ar_ty<typename std::remove_const<T>::type>::c) t.p[i]=n; } };
template<class Ar> void serialize(Ar& ar,El& e,const unsigned){ ar&e.id; ar&e.a; ar&e.b; ar&e.c; }
