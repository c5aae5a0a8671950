// key extraction: element types with every kind of part, argument categories
#pragma once
#include "hx.h"
#include <boost/multi_index/key_extractors.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/ref.hpp>
#include <tuple>
#include <memory>
using namespace mi;
struct B0 { int pad; int x; short s; };
struct M : B0 { int y; const int k; int arr; unsigned char ch; mutable int mu;
  M():k(sx_any_int()) { pad=sx_any_int(); x=sx_any_int(); s=(short)sx_u32(); y=sx_any_int(); arr=sx_any_int(); ch=(unsigned char)sx_u32(); mu=sx_any_int(); }
  int fc() const { return x^y; } int fcv() const volatile { return y+1; } int fcl() const & { return y-2; } int fcvl() const volatile & { return y^5; }
  const int& rc() const { return y; } int& rw() const { return mu; }
  int f() { return x; } int& rf() { return y; } int fv() volatile { return y^9; } int& fl() & { return x; } int fvl() volatile & { return y+3; }
  int fn() const noexcept { return y^77; } int fnn() noexcept { return y^78; } static int st(const M& m){ return m.x^m.k; } static int stn(const M& m) noexcept { return m.x^3; } };
inline int g_cr(const M& m){ return m.y^11; } inline const int& g_crr(const M& m){ return m.y; } inline int& g_r(M& m){ return m.x; } inline int g_ri(M& m){ return m.y^12; }
struct Val { int v; short w; }; inline int g_v(Val z){ return z.v^13; } inline int g_vc(const Val z){ return z.v^14; } inline const int& g_vr(const Val& z){ return z.v; } inline int g_r2(Val& z){ return z.v; }
// pointer-like types
template<class T> struct SP { T* p; explicit SP(T* q=0):p(q){} T& operator*() const { return *p; } T* operator->() const { return p; } };
template<class T> struct SR { T* p; explicit SR(T* q=0):p(q){} boost::reference_wrapper<T> operator*() const { return boost::ref(*p); } };   // yields a wrapper by value
