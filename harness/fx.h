// Faulting and accounting user types: element, key extractors, predicates,
// hash and allocator. Every user-provided operation and every allocation is a
// point at which the solver may choose to throw (fx_budget faults per run).
#pragma once
#include "hx.h"
struct Boom { int n; };
static int fx_budget=0, fx_thrown=0, fx_ticks=0; static unsigned fx_mask=0;
enum { FX_EL=1, FX_CMP=2, FX_HASH=4, FX_EQ=8, FX_KEY=16, FX_ALLOC=32, FX_MOD=64, FX_BACK=128, FX_ALL=255 };
static void fx_tick(unsigned kind){ if (fx_budget>0&&(fx_mask&kind)) { fx_ticks++; if (sx_choose(2)) { fx_budget--; fx_thrown++; throw Boom{fx_thrown}; } } }
static void fx_arm(int budget,unsigned mask=FX_ALL){ fx_budget=budget; fx_mask=mask; fx_thrown=0; fx_ticks=0; }
static void fx_disarm(){ fx_budget=0; }
// element: counts constructions and destructions, knows where it lives
static int ef_alive=0, ef_made=0, ef_copied=0, ef_moved=0, ef_destroyed=0;
struct Src { int id,a,b,c; };   // not an element, but one can be made from it
struct Ef : El {
  const Ef* self;
  Ef(const Src& s):El(s.id,s.a,s.b,s.c){ fx_tick(FX_EL); born(); }
  Ef(int i=0,int x=0,int y=0,int z=0):El(i,x,y,z){ fx_tick(FX_EL); born(); }
  Ef(const Ef& o):El(o){ o.ok(); fx_tick(FX_EL); ef_copied++; born(); }
  Ef(Ef&& o):El(o){ o.ok(); fx_tick(FX_EL); ef_moved++; born(); o.a=o.b=o.c=99; }
  Ef& operator=(const Ef& o){ ok(); o.ok(); fx_tick(FX_EL); set(o); return *this; }
  Ef& operator=(Ef&& o){ ok(); o.ok(); fx_tick(FX_EL); if (&o!=this) { set(o); o.a=o.b=o.c=99; } return *this; }
  ~Ef(){ ok(); self=0; ef_alive--; ef_destroyed++; }
  void set(const El& o){ id=o.id; a=o.a; b=o.b; c=o.c; }
  void born(){ self=this; ef_alive++; ef_made++; }
  void ok() const { sx_check(self==this,"element-not-alive"); }
};
struct XI { typedef int result_type; int operator()(const Ef& e) const { e.ok(); fx_tick(FX_KEY); return e.id; } };
struct XA { typedef int result_type; int operator()(const Ef& e) const { e.ok(); fx_tick(FX_KEY); return e.a; } };
struct XB { typedef int result_type; int operator()(const Ef& e) const { e.ok(); fx_tick(FX_KEY); return e.b; } };
struct XC { typedef int result_type; int operator()(const Ef& e) const { e.ok(); fx_tick(FX_KEY); return e.c; } };
struct FLess { bool operator()(int x,int y) const { fx_tick(FX_CMP); return x<y; } };
struct FEq { bool operator()(int x,int y) const { fx_tick(FX_EQ); return x==y; } };
struct FHash { size_t operator()(int k) const { fx_tick(FX_HASH); return HSym()(k); } };       // buckets chosen by hx_buckets
struct FHash2 { size_t operator()(int k) const { fx_tick(FX_HASH); return (size_t)(unsigned)(k&1); } };
// arena for single objects: while fx_arena>0, the solver chooses among the first fx_arena free slots,
// so that node addresses take every relative order
const int AAN=10, AAB=224; alignas(16) static char aa_mem[AAN*AAB]; static bool aa_used[AAN]; static int fx_arena=0;
static void* aa_get(size_t bytes){ if (!fx_arena||bytes>AAB) return 0; int f=0; for (int i=0;i<fx_arena;i++) f+=!aa_used[i]; if (!f) return 0; int k=sx_choose(f); for (int i=0;i<fx_arena;i++) if (!aa_used[i]&&k--==0) { aa_used[i]=true; return aa_mem+i*AAB; } return 0; }
static bool aa_put(const void* p){ for (int i=0;i<AAN;i++) if (p==aa_mem+i*AAB) { sx_check(aa_used[i],"deallocate-unknown-block"); aa_used[i]=false; return true; } return false; }
// tracking allocator
const int FXB=192; static const void* fx_ptr[FXB]; static size_t fx_bytes[FXB]; static int fx_own[FXB]; static int fx_n=0, fx_live=0, fx_allocs=0; static int fx_al=0;   // allocator objects alive
static void fx_reset(){ fx_arena=0; for (int i=0;i<AAN;i++) aa_used[i]=false; fx_n=fx_live=fx_allocs=fx_al=0; ef_alive=ef_made=ef_copied=ef_moved=ef_destroyed=0; fx_disarm(); }
static void fx_note(const void* p,size_t bytes,int own){ fx_allocs++; fx_live++; for (int i=0;i<fx_n;i++) if (!fx_ptr[i]) { fx_ptr[i]=p; fx_bytes[i]=bytes; fx_own[i]=own; return; } sx_check(fx_n<FXB,"harness: too many blocks"); fx_ptr[fx_n]=p; fx_bytes[fx_n]=bytes; fx_own[fx_n]=own; fx_n++; }
static void fx_drop(const void* p,size_t bytes,int own){ for (int i=0;i<fx_n;i++) if (fx_ptr[i]==p) { sx_check(fx_bytes[i]==bytes,"deallocate-size-differs"); sx_check(fx_own[i]==own,"deallocate-with-unequal-allocator"); fx_ptr[i]=0; fx_live--; return; } sx_fail("deallocate-unknown-block"); }
static int fx_owned(int own){ int r=0; for (int i=0;i<fx_n;i++) r+= fx_ptr[i]&&fx_own[i]==own; return r; }
// Pr: bit 0 propagates on copy assignment, 1 on move assignment, 2 on swap; 3 select_on_container_copy_construction gives id+100

template<class T,int Pr=0> struct TA {
  typedef T value_type; int id;
  explicit TA(int i=0):id(i){ ++fx_al; } TA(const TA& o):id(o.id){ ++fx_al; } template<class U> TA(const TA<U,Pr>& o):id(o.id){ ++fx_al; } TA& operator=(const TA&)=default; ~TA(){ --fx_al; id=-77; }
  template<class U> struct rebind { typedef TA<U,Pr> other; };
  typedef std::integral_constant<bool,(Pr&1)!=0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,(Pr&2)!=0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,(Pr&4)!=0> propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  T* allocate(size_t n){ fx_tick(FX_ALLOC); T* p= n==1? (T*)aa_get(sizeof(T)) : 0; if (!p) p=(T*)::operator new(n*sizeof(T)); fx_note(p,n*sizeof(T),id); return p; }
  void deallocate(T* p,size_t n){ fx_drop(p,n*sizeof(T),id); if (!aa_put(p)) ::operator delete(p); }
  TA select_on_container_copy_construction() const { return TA((Pr&8)?id+100:id); }
  template<class U> bool operator==(const TA<U,Pr>& o) const { return id==o.id; }
  template<class U> bool operator!=(const TA<U,Pr>& o) const { return id!=o.id; }
};
// per index: the sequence of objects; comparisons that disregard one element
template<class C> struct Seqs { typedef typename C::value_type V; enum { N=nidx<C>() }; int n; const V* s[N][MAXN];
  explicit Seqs(const C& c){ n=(int)c.size(); each<C>([&](auto I){ int i=0; for (auto& e: c.template get<I.value>()) { if (i<n) s[I.value][i]=&e; i++; } sx_check(i==n,"snap-size"); }); }
  // index J of c shows exactly this sequence
  template<int J> void same(const C& c,const char* l) const { const auto& x=c.template get<J>(); int i=0; for (auto& e: x) { sx_check(i<n&&s[J][i]==&e,l); i++; } sx_check(i==n,l); }
  // ... apart from element v, which may be anywhere or nowhere
  template<int J> void apart(const C& c,const V* v,const char* l) const { const auto& x=c.template get<J>(); int i=0; for (auto& e: x) { if (&e==v) continue; while (i<n&&s[J][i]==v) i++; sx_check(i<n&&s[J][i]==&e,l); i++; } while (i<n&&s[J][i]==v) i++; sx_check(i==n,l); }
  // the same objects in any order, apart from v
  template<int J> void members(const C& c,const V* v,const char* l) const { const auto& x=c.template get<J>(); uint32_t m=0; for (auto& e: x) { if (&e==v) continue; int j=0; while (j<n&&s[J][j]!=&e) j++; sx_check(j<n&&!((m>>j)&1),l); m|=1u<<j; } for (int j=0;j<n;j++) sx_check(((m>>j)&1)||s[J][j]==v,l); } };
