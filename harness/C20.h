// composite keys: element, extractors, component orders and the hand-written
// lexicographic comparison used as oracle
#pragma once
#include "hx.h"
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/tuple/tuple.hpp>
#include <tuple>
#include <limits>
using namespace mi;
struct W { int id,a; unsigned b; signed char c; W(int i=0,int x=0,unsigned y=0,signed char z=0):id(i),a(x),b(y),c(z){} unsigned getb() const { return b; } };
inline signed char getc_(const W& w){ return w.c; }
typedef member<W,int,&W::a> EA; typedef const_mem_fun<W,unsigned,&W::getb> EB; typedef global_fun<const W&,signed char,&getc_> EC;
typedef composite_key<W,EA> Q1; typedef composite_key<W,EA,EB> Q2; typedef composite_key<W,EA,EB,EC> Q3;
struct U { signed char z; int x; unsigned y; };       // another type, same component types in another layout
typedef composite_key<U,member<U,int,&U::x>,member<U,unsigned,&U::y>,member<U,signed char,&U::z>> QU;
static W any(int id=0){ int a=sx_any_int(); unsigned b=sx_u32(); signed char c=(signed char)sx_u32(); return W(id,a,b,c); }
// component orders
struct Up { template<class T> bool operator()(const T& x,const T& y) const { return x<y; } };
struct Down { template<class T> bool operator()(const T& x,const T& y) const { return y<x; } };
struct Half { template<class T> bool operator()(const T& x,const T& y) const { return (T)(x>>1)<(T)(y>>1); } };
struct HalfEq { template<class T> bool operator()(const T& x,const T& y) const { return (T)(x>>1)==(T)(y>>1); } };
struct HalfHash { template<class T> size_t operator()(const T& x) const { return (size_t)(T)(x>>1); } };
struct Dir { int d; explicit Dir(int d_=0):d(d_){} template<class T> bool operator()(const T& x,const T& y) const { return d?y<x:x<y; } };   // stateful
// 0 equal, -1 before, 1 after; the first n components, each mapped to an unsigned value of the same order
struct Vec { uint32_t v[10]; };
static int lex(const Vec& x,const Vec& y,int n){ int r=0; for (int i=n;i-->0;) { int lt=x.v[i]<y.v[i], gt=x.v[i]>y.v[i]; r = lt?-1:gt?1:r; } return r; }
static int eqn(const Vec& x,const Vec& y,int n){ int r=1; for (int i=0;i<n;i++) r&=(int)(x.v[i]==y.v[i]); return r; }
enum { UP, DOWN, HALF };
static uint32_t key(int v){ return (uint32_t)v^0x80000000u; }
static uint32_t mapi(int v,int o){ return o==DOWN?~key(v):key(o==HALF?v>>1:v); }
static uint32_t mapu(unsigned v,int o){ return o==DOWN?~v:o==HALF?v>>1:v; }
static Vec vec(const W& w,int o0=UP,int o1=UP,int o2=UP){ Vec r={{mapi(w.a,o0),mapu(w.b,o1),mapi(w.c,o2)}}; return r; }
