// Hash-consed bit-vector expressions with local simplification, evaluation
// under a model and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <time.h>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_NOT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT
};

struct Expr {
  Op op; bool taint; uint16_t w; uint32_t id;
  const Expr *a, *b, *c;
  u128 k;                       // constant value / var index / extract offset
  u128 vm = 0; bool vmbig = false;  // variables occurring in it
  mutable Z3_ast zbv = nullptr, zbool = nullptr;
  mutable uint32_t ep = 0; mutable u128 ev = 0;   // evaluation memo
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sxt(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1); v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct Model { std::vector<uint64_t> v; };   // by var index; missing = 0

class ExprPool {
  struct Key { Op op; uint16_t w; E a, b, c; u128 k;
    bool operator==(const Key& o) const { return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&k==o.k; } };
  struct H { size_t operator()(const Key& x) const {
    uint64_t h = x.op*0x9E3779B97F4A7C15ull ^ x.w;
    auto mix=[&](uint64_t v){ h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h>>32; };
    mix(x.a?x.a->id:0); mix(x.b?x.b->id+7:0); mix(x.c?x.c->id+13:0); mix((uint64_t)x.k); mix((uint64_t)(x.k>>64));
    return h; } };
  std::unordered_map<Key, E, H> tab;
  uint32_t nid = 1, epoch = 1;
  E raw(Op op, unsigned w, E a=nullptr, E b=nullptr, E c=nullptr, u128 k=0, bool t=false) {
    Key key{op,(uint16_t)w,a,b,c,k};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    Expr* e = new Expr; e->op=op; e->w=w; e->a=a; e->b=b; e->c=c; e->k=k; e->id=nid++;
    e->taint = t || (a&&a->taint) || (b&&b->taint) || (c&&c->taint);
    for (E x: {a,b,c}) if (x) { e->vm|=x->vm; e->vmbig|=x->vmbig; }
    if (op==O_VAR) { if (k<128) e->vm=(u128)1<<(unsigned)k; else e->vmbig=true; }
    tab.emplace(key, e); return e;
  }
public:
  size_t size() const { return tab.size(); }
  static bool isc(E e) { return e->op == O_CONST; }
  E cst(u128 v, unsigned w) { return raw(O_CONST, w, 0,0,0, v & maskw(w)); }
  E var(unsigned idx, unsigned w, bool taint=false) { return raw(O_VAR, w, 0,0,0, idx, taint); }
  E tru() { return cst(1,1); } E fls() { return cst(0,1); }

  static u128 fold(Op op, unsigned w, u128 x, u128 y) {
    u128 m = maskw(w);
    switch (op) {
      case O_ADD: return (x+y)&m; case O_SUB: return (x-y)&m; case O_MUL: return (x*y)&m;
      case O_UDIV: return y? (x/y)&m : m; case O_UREM: return y? (x%y)&m : x;
      case O_SDIV: { i128 a=sxt(x,w), b=sxt(y,w); return b==0? (a<0?1:m) : (u128)(b==-1? -(u128)a : (u128)(a/b))&m; }
      case O_SREM: { i128 a=sxt(x,w), b=sxt(y,w); return b==0? x : (b==-1? 0 : (u128)(a%b)&m); }
      case O_AND: return x&y; case O_OR: return x|y; case O_XOR: return (x^y)&m;
      case O_SHL: return y>=w?0:(x<<(unsigned)y)&m; case O_LSHR: return y>=w?0:(x>>(unsigned)y);
      case O_ASHR: { i128 a=sxt(x,w); return (u128)(a >> (y>=w?w-1:(unsigned)y)) & m; }
      case O_EQ: return x==y; case O_ULT: return x<y; case O_ULE: return x<=y;
      case O_SLT: return sxt(x,w)<sxt(y,w); case O_SLE: return sxt(x,w)<=sxt(y,w);
      default: return 0;
    }
  }
  E bin(Op op, E a, E b) {
    unsigned w = a->w;
    if (op>=O_EQ && op<=O_SLE) return cmp(op,a,b);
    if (isc(a)&&isc(b)) return cst(fold(op,w,a->k,b->k),w);
    switch (op) {
      case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR:
        if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a,b); break;
      default: break;
    }
    u128 m = maskw(w);
    bool bc = isc(b); u128 k = b->k;
    switch (op) {
      case O_ADD: if (bc) { if (k==0) return a; if (a->op==O_ADD && isc(a->b)) return bin(O_ADD,a->a,cst(a->b->k+k,w)); } break;
      case O_SUB: if (bc) return bin(O_ADD,a,cst(-k,w)); if (a==b) return cst(0,w); break;
      case O_MUL: if (bc) { if (k==0) return b; if (k==1) return a; } break;
      case O_UDIV: case O_SDIV: if (bc && k==1) return a; break;
      case O_UREM: if (bc && k==1) return cst(0,w); break;
      case O_AND: if (bc) { if (k==0) return b; if (k==m) return a;
                    if (a->op==O_ZEXT && (k & maskw(a->a->w))==maskw(a->a->w)) return a;
                    if (a->op==O_ZEXT) return zext(bin(O_AND,a->a,cst(k,a->a->w)),w);
                    if (a->op==O_AND&&isc(a->b)) return bin(O_AND,a->a,cst(k&a->b->k,w));
                    if (a->op==O_OR&&isc(a->b)) return bin(O_OR,bin(O_AND,a->a,b),cst(k&a->b->k,w));
                    if (a->op==O_CONCAT) return concat(bin(O_AND,a->a,cst(k>>a->b->w,a->a->w)),bin(O_AND,a->b,cst(k,a->b->w))); }
                  if (a==b) return a; if (w==1) { if (isnotof(a,b)) return cst(0,1);} break;
      case O_OR: if (bc) { if (k==0) return a; if (k==m) return b;
                    if (a->op==O_OR&&isc(a->b)) return bin(O_OR,a->a,cst(k|a->b->k,w));
                    if (a->op==O_ZEXT) { unsigned n=a->a->w; return concat(cst(k>>n,w-n),bin(O_OR,a->a,cst(k,n))); }
                    if (a->op==O_CONCAT) return concat(bin(O_OR,a->a,cst(k>>a->b->w,a->a->w)),bin(O_OR,a->b,cst(k,a->b->w))); } if (a==b) return a; if (w==1&&isnotof(a,b)) return cst(1,1); break;
      case O_XOR: if (bc) { if (k==0) return a; if (k==m) return bnot(a); } if (a==b) return cst(0,w); break;
      case O_SHL: case O_LSHR: if (bc) { if (k==0) return a; if (k>=w) return cst(0,w);
                    if (op==O_LSHR) return zext(extract(a,(unsigned)k,w-(unsigned)k),w); 
                    if (a->op==O_ZEXT && a->a->w<=w-(unsigned)k) {} } break;
      case O_ASHR: if (bc && k==0) return a; break;
      default: break;
    }
    return raw(op,w,a,b);
  }
  bool isnotof(E a,E b){ return bnot(a)==b; }
  E bnot(E a) {
    if (isc(a)) return cst(~a->k,a->w);
    if (a->op==O_NOT) return a->a;
    if (a->op==O_ULT&&!isc(a->a)&&!isc(a->b)) return cmp(O_ULE,a->b,a->a);
    if (a->op==O_ULE&&!isc(a->a)&&!isc(a->b)) return cmp(O_ULT,a->b,a->a);
    if (a->op==O_SLT) return cmp(O_SLE,a->b,a->a);
    if (a->op==O_SLE) return cmp(O_SLT,a->b,a->a);
    return raw(O_NOT,a->w,a);
  }
  E cmp(Op op, E a, E b) {
    unsigned w=a->w;
    if (isc(a)&&isc(b)) return cst(fold(op,w,a->k,b->k),1);
    if (a==b) return cst(op==O_EQ||op==O_ULE||op==O_SLE,1);
    // signed comparisons of zero-extended operands are unsigned
    if (op==O_SLT||op==O_SLE) {
      auto nn=[&](E e){ return e->op==O_ZEXT || (isc(e) && !((e->k>>(w-1))&1)); };
      if (nn(a)&&nn(b)) op = op==O_SLT?O_ULT:O_ULE;
      else if (a->op==O_SEXT&&b->op==O_SEXT&&a->a->w==b->a->w) return cmp(op,a->a,b->a);
    }
    if (op==O_EQ) {
      if (isc(a)) std::swap(a,b);
      if (isc(b)) {
        u128 k=b->k;
        if (w==1) return k? a : bnot(a);
        if (a->op==O_ZEXT) { if (k>>a->a->w) return fls(); return cmp(O_EQ,a->a,cst(k,a->a->w)); }
        if (a->op==O_SEXT) { unsigned n=a->a->w; if (((u128)sxt(k,n)&maskw(w))!=k) return fls(); return cmp(O_EQ,a->a,cst(k,n)); }
        if (a->op==O_ADD&&isc(a->b)) return cmp(O_EQ,a->a,cst(k-a->b->k,w));
        if (a->op==O_NOT) return cmp(O_EQ,a->a,cst(~k,w));
        if (a->op==O_CONCAT) return bin(O_AND,cmp(O_EQ,a->a,cst(k>>a->b->w,a->a->w)),cmp(O_EQ,a->b,cst(k,a->b->w)));
        if (a->op==O_ITE&&isc(a->b)&&isc(a->c)) {
          bool t=a->b->k==k,f=a->c->k==k;
          return t? (f?tru():a->a) : (f?bnot(a->a):fls()); }
      } else {
        if (a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return cmp(O_EQ,a->a,b->a);
        if (a->op==O_ADD&&b->op==O_ADD&&isc(a->b)&&a->b==b->b) return cmp(O_EQ,a->a,b->a);
        if (a->id>b->id) std::swap(a,b);
      }
      return raw(O_EQ,1,a,b);
    }
    if (op==O_ULT||op==O_ULE) {
      if (a->op==O_ZEXT&&b->op==O_ZEXT) {
        unsigned n=std::max(a->a->w,b->a->w); if (n<w) return cmp(op,zext(a->a,n),zext(b->a,n)); }
      if (a->op==O_ZEXT&&isc(b)) { unsigned n=a->a->w; if (b->k>>n) return tru(); return cmp(op,a->a,cst(b->k,n)); }
      if (b->op==O_ZEXT&&isc(a)) { unsigned n=b->a->w; if (a->k>>n) return fls(); return cmp(op,cst(a->k,n),b->a); }
      if (op==O_ULT) { if (isc(b)) { if (b->k==0) return fls(); if (b->k==1) return cmp(O_EQ,a,cst(0,w)); }
                       if (isc(a)&&a->k==maskw(w)) return fls();
                       if (isc(a)) return bnot(cmpUleC(b,a)); }
      else { if (isc(a)&&a->k==0) return tru(); if (isc(b)&&b->k==maskw(w)) return tru();
             if (isc(b)) return cmpUleC(a,b);
             if (isc(a)) return bnot(cmp(O_ULT,b,a)); }
    }
    return raw(op,1,a,b);
  }
  E cmpUleC(E a,E b){ // a <= const b (b < max)  ->  a < b+1
    return cmp(O_ULT,a,cst(b->k+1,b->w)); }
  E ite(E c, E a, E b) {
    if (isc(c)) return c->k?a:b; if (a==b) return a;
    if (a->w==1) { if (isc(a)&&isc(b)) return a->k? c : bnot(c);
      if (isc(a)) return a->k? bin(O_OR,c,b) : bin(O_AND,bnot(c),b);
      if (isc(b)) return b->k? bin(O_OR,bnot(c),a) : bin(O_AND,c,a); }
    if (c->op==O_NOT) return ite(c->a,b,a);
    if (isc(a)&&isc(b)&&a->k==1&&b->k==0) return zext(c,a->w);
    return raw(O_ITE,a->w,c,a,b);
  }
  E zext(E a, unsigned w) { if (a->w==w) return a; if (isc(a)) return cst(a->k,w); if (a->op==O_ZEXT) return zext(a->a,w); return raw(O_ZEXT,w,a); }
  E sext(E a, unsigned w) { if (a->w==w) return a; if (isc(a)) return cst((u128)sxt(a->k,a->w),w); if (a->op==O_ZEXT) return zext(a->a,w); if (a->op==O_SEXT) return sext(a->a,w); return raw(O_SEXT,w,a); }
  E extract(E a, unsigned off, unsigned w) {
    if (off==0&&w==a->w) return a;
    if (isc(a)) return cst(a->k>>off,w);
    if (a->op==O_ZEXT) { unsigned n=a->a->w; if (off>=n) return cst(0,w);
      if (off+w<=n) return extract(a->a,off,w); return zext(extract(a->a,off,n-off),w); }
    if (a->op==O_SEXT && off+w<=a->a->w) return extract(a->a,off,w);
    if (a->op==O_EXTRACT) return extract(a->a,(unsigned)a->k+off,w);
    if (a->op==O_CONCAT) { unsigned lo=a->b->w; if (off+w<=lo) return extract(a->b,off,w); if (off>=lo) return extract(a->a,off-lo,w); }
    if (a->op==O_ITE && isc(a->b) && isc(a->c)) return ite(a->a,extract(a->b,off,w),extract(a->c,off,w));
    if (off==0 && (a->op==O_AND||a->op==O_OR||a->op==O_XOR||a->op==O_ADD||a->op==O_MUL)) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w));
    return raw(O_EXTRACT,w,a,0,0,off);
  }
  E concat(E hi, E lo) {
    unsigned w=hi->w+lo->w;
    if (isc(hi)&&isc(lo)) return cst((hi->k<<lo->w)|lo->k,w);
    if (isc(hi)&&hi->k==0) return zext(lo,w);
    if (hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->a==lo->a&&hi->k==lo->k+lo->w) return extract(hi->a,(unsigned)lo->k,w);
    return raw(O_CONCAT,w,hi,lo);
  }
  u128 eval(E e, const Model& m) { epoch++; return ev(e,m); }
  u128 evalMore(E e, const Model& m) { return ev(e,m); }
private:
  u128 ev(E e, const Model& m) {
    if (e->op==O_CONST) return e->k;
    if (e->ep==epoch) return e->ev;
    u128 r=0;
    switch (e->op) {
      case O_VAR: r = e->k<m.v.size()? m.v[(size_t)e->k] & maskw(e->w) : 0; break;
      case O_NOT: r = ~ev(e->a,m)&maskw(e->w); break;
      case O_ITE: r = ev(e->a,m)? ev(e->b,m):ev(e->c,m); break;
      case O_ZEXT: r = ev(e->a,m); break;
      case O_SEXT: r = (u128)sxt(ev(e->a,m),e->a->w)&maskw(e->w); break;
      case O_EXTRACT: r = (ev(e->a,m)>>(unsigned)e->k)&maskw(e->w); break;
      case O_CONCAT: r = (ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
      default: r = fold(e->op,e->a->w,ev(e->a,m),ev(e->b,m)); break;
    }
    e->ep=epoch; e->ev=r; return r;
  }
};

// ---- Z3 -------------------------------------------------------------
class Z3Solver {
  Z3_context c = nullptr; Z3_solver s = nullptr;
  std::vector<E> pushed;
public:
  uint64_t queries=0, nsat=0, nunsat=0, nunknown=0; double secs=0;
  std::vector<std::pair<E,Z3_ast>> vars; std::unordered_map<E,Z3_ast> varmap;
  unsigned timeout2=120000; uint64_t nsecond=0;
  void init(unsigned timeout_ms) {
    Z3_config cfg=Z3_mk_config(); c=Z3_mk_context(cfg); Z3_del_config(cfg);
    s=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,s);
    Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p);
    Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),timeout_ms);
    Z3_solver_set_params(c,s,p); Z3_params_dec_ref(c,p);
  }
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(c,a); return a; }
  Z3_ast num(u128 v, unsigned w) {
    char buf[48]; int i=47; buf[i]=0; if(!v) buf[--i]='0'; while(v){ buf[--i]='0'+(int)(v%10); v/=10; }
    return Z3_mk_numeral(c,buf+i,Z3_mk_bv_sort(c,w)); }
  Z3_ast toBool(E e) {
    if (e->zbool) return e->zbool;
    Z3_ast r;
    switch (e->op) {
      case O_CONST: r = e->k? Z3_mk_true(c):Z3_mk_false(c); break;
      case O_EQ: r = e->a->w==1? Z3_mk_iff(c,toBool(e->a),toBool(e->b)) : Z3_mk_eq(c,toBV(e->a),toBV(e->b)); break;
      case O_ULT: r = Z3_mk_bvult(c,toBV(e->a),toBV(e->b)); break;
      case O_ULE: r = Z3_mk_bvule(c,toBV(e->a),toBV(e->b)); break;
      case O_SLT: r = Z3_mk_bvslt(c,toBV(e->a),toBV(e->b)); break;
      case O_SLE: r = Z3_mk_bvsle(c,toBV(e->a),toBV(e->b)); break;
      case O_NOT: r = Z3_mk_not(c,toBool(e->a)); break;
      case O_AND: { Z3_ast x[2]={toBool(e->a),toBool(e->b)}; r=Z3_mk_and(c,2,x); break; }
      case O_OR: { Z3_ast x[2]={toBool(e->a),toBool(e->b)}; r=Z3_mk_or(c,2,x); break; }
      case O_XOR: r = Z3_mk_xor(c,toBool(e->a),toBool(e->b)); break;
      case O_ITE: r = Z3_mk_ite(c,toBool(e->a),toBool(e->b),toBool(e->c)); break;
      default: r = Z3_mk_eq(c,toBV(e),num(1,1)); break;
    }
    return e->zbool = keep(r);
  }
  Z3_ast toBV(E e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    auto A=[&]{return toBV(e->a);}; auto B=[&]{return toBV(e->b);};
    switch (e->op) {
      case O_CONST: r=num(e->k,e->w); break;
      case O_VAR: { char n[32]; snprintf(n,32,"v%u_%u",(unsigned)e->k,e->w);
        r=Z3_mk_const(c,Z3_mk_string_symbol(c,n),Z3_mk_bv_sort(c,e->w)); vars.push_back({e,r}); break; }
      case O_ADD: r=Z3_mk_bvadd(c,A(),B()); break; case O_SUB: r=Z3_mk_bvsub(c,A(),B()); break;
      case O_MUL: r=Z3_mk_bvmul(c,A(),B()); break; case O_UDIV: r=Z3_mk_bvudiv(c,A(),B()); break;
      case O_SDIV: r=Z3_mk_bvsdiv(c,A(),B()); break; case O_UREM: r=Z3_mk_bvurem(c,A(),B()); break;
      case O_SREM: r=Z3_mk_bvsrem(c,A(),B()); break;
      case O_SHL: r=Z3_mk_bvshl(c,A(),B()); break; case O_LSHR: r=Z3_mk_bvlshr(c,A(),B()); break;
      case O_ASHR: r=Z3_mk_bvashr(c,A(),B()); break;
      case O_AND: if(e->w==1) goto viab; r=Z3_mk_bvand(c,A(),B()); break;
      case O_OR: if(e->w==1) goto viab; r=Z3_mk_bvor(c,A(),B()); break;
      case O_XOR: if(e->w==1) goto viab; r=Z3_mk_bvxor(c,A(),B()); break;
      case O_NOT: if(e->w==1) goto viab; r=Z3_mk_bvnot(c,A()); break;
      case O_ITE: r=Z3_mk_ite(c,toBool(e->a),B(),toBV(e->c)); break;
      case O_ZEXT: r=Z3_mk_zero_ext(c,e->w-e->a->w,A()); break;
      case O_SEXT: r=Z3_mk_sign_ext(c,e->w-e->a->w,A()); break;
      case O_EXTRACT: r=Z3_mk_extract(c,(unsigned)e->k+e->w-1,(unsigned)e->k,A()); break;
      case O_CONCAT: r=Z3_mk_concat(c,A(),B()); break;
      default: viab: r=Z3_mk_ite(c,toBool(e),num(1,1),num(0,1)); break;
    }
    return e->zbv = keep(r);
  }
  // is cons && cond satisfiable, given that `cur` satisfies cons? Only the constraints sharing
  // variables with cond (transitively) matter; answers are cached on exactly that slice.
  struct SHash { size_t operator()(const std::string& x) const { uint64_t h=1469598103934665603ull; for (size_t i=0;i<x.size();i+=4) { uint32_t v; memcpy(&v,&x[i],4); h^=v; h*=0xff51afd7ed558ccdull; h^=h>>32; } return h; } };
  struct Ans { int r; std::vector<std::pair<uint32_t,uint64_t>> vals; };
  std::unordered_map<std::string,Ans,SHash> cache; uint64_t hits=0;
  std::vector<E> slice; std::vector<char> in_; std::string key_;
  int checkSliced(const std::vector<E>& cons, E cond, const Model& cur, Model* out) {
    if (cond->vmbig) return check(cons,cond,out);
    u128 m=cond->vm; in_.assign(cons.size(),0); bool more=true;
    while (more) { more=false; for (size_t i=0;i<cons.size();i++) if (!in_[i]) { E e=cons[i]; if (e->vmbig) return check(cons,cond,out); if (e->vm&m) { in_[i]=1; if (e->vm&~m) { m|=e->vm; more=true; } } } }
    slice.clear(); key_.clear(); for (size_t i=0;i<cons.size();i++) if (in_[i]) { slice.push_back(cons[i]); key_.append((const char*)&cons[i]->id,4); }
    key_.append((const char*)&cond->id,4);
    auto it=cache.find(key_);
    if (it==cache.end()) { Model t; int r=check(slice,cond,&t); Ans a; a.r=r; if (r==1) for (unsigned i=0;i<128;i++) if ((m>>i)&1) a.vals.push_back({i,i<t.v.size()?t.v[i]:0}); if (r<0) return r; if (cache.size()>1500000) cache.clear(); it=cache.emplace(key_,std::move(a)).first; }
    else hits++;
    if (it->second.r==1&&out) { *out=cur; for (auto& v: it->second.vals) { if (out->v.size()<=v.first) out->v.resize(v.first+1,0); out->v[v.first]=v.second; } }
    return it->second.r;
  }
  // is cons && extra satisfiable? 1 sat (model filled), 0 unsat, -1 unknown
  int check(const std::vector<E>& cons, E extra, Model* out) {
    size_t n=0; while (n<pushed.size()&&n<cons.size()&&pushed[n]==cons[n]) n++;
    if (pushed.size()>n) { Z3_solver_pop(c,s,pushed.size()-n); pushed.resize(n); }
    for (;n<cons.size();n++) { Z3_solver_push(c,s); Z3_solver_assert(c,s,toBool(cons[n])); pushed.push_back(cons[n]); }
    struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0);
    bool p=false;
    if (extra) { Z3_ast x=toBool(extra); Z3_solver_push(c,s); p=true; Z3_solver_assert(c,s,x); }
    queries++; Z3_solver used=s; Z3_solver s2=nullptr;
    Z3_lbool r=Z3_solver_check(c,s);
    if (r==Z3_L_UNDEF) { // second opinion: a fresh solver with full preprocessing
      Z3_tactic t=Z3_mk_tactic(c,"qfbv"); Z3_tactic_inc_ref(c,t); s2=Z3_mk_solver_from_tactic(c,t); Z3_solver_inc_ref(c,s2); Z3_tactic_dec_ref(c,t); used=s2;
      Z3_params q=Z3_mk_params(c); Z3_params_inc_ref(c,q); Z3_params_set_uint(c,q,Z3_mk_string_symbol(c,"timeout"),timeout2); Z3_solver_set_params(c,s2,q); Z3_params_dec_ref(c,q);
      for (auto e: cons) Z3_solver_assert(c,s2,toBool(e)); if (extra) Z3_solver_assert(c,s2,toBool(extra));
      r=Z3_solver_check(c,s2); nsecond++; }
    int res = r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
    if (res==1) { nsat++; if (out) {
        Z3_model m=Z3_solver_get_model(c,used); Z3_model_inc_ref(c,m);
        for (auto& v: vars) { Z3_ast val=nullptr;
          Z3_func_decl d=Z3_get_app_decl(c,Z3_to_app(c,v.second));
          val=Z3_model_get_const_interp(c,m,d);
          uint64_t x=0; if (val) Z3_get_numeral_uint64(c,val,&x);
          size_t i=(size_t)v.first->k; 
          if (val) { if (out->v.size()<=i) out->v.resize(i+1,0); out->v[i]=x; } }
        Z3_model_dec_ref(c,m); } }
    else if (res==0) nunsat++; else nunknown++;
    if (s2) Z3_solver_dec_ref(c,s2);
    if (p) Z3_solver_pop(c,s,1);
    clock_gettime(CLOCK_MONOTONIC,&t1); secs+=(t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)*1e-9;
    return res;
  }
};
