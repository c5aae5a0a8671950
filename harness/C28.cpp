// BOUND: containers of 3-5 indices of every kind over an allocator with self-relative pointers, living with all their memory in one segment; up to 4 elements, every pattern of keys 0..3; histories of up to 2 operations (insertion in every form, erasure, extraction, replacement, modification, clear; sort, reverse, merge, relocation of elements, rehash, reserve, shrink_to_fit; copy, move, swap, assignment between containers of the segment), the segment being moved to another address before, between and after them
// SX-ONLY: m_1 m_2 m_3 m_4 mm_1 mm_2 mm_4 r_1 r_2 r_3 r_4 g_2 p_1 p_2 p_3 p_4
// SX-ONLY-THOROUGH: m_14 m_24 m_44 mm_12 mm_22 mm_42
#define C01_TYPES
#include "mi.h"
#include <type_traits>
#include <new>
#include <cstring>
using namespace mi;
// two places for a segment; memory is handed out in the current one and never reused
const size_t SEGN=32768; alignas(64) static unsigned char seg[2][SEGN]; static int cur; static size_t top;
// a pointer that stores its distance to the pointee (1: null), as those of shared memory do
template<class T> struct RP { typedef T element_type; typedef T value_type; typedef T* pointer; typedef std::ptrdiff_t difference_type; typedef std::random_access_iterator_tag iterator_category; typedef typename std::conditional<std::is_void<T>::value,int,T>::type TT; typedef typename std::add_lvalue_reference<T>::type reference; template<class U> using rebind=RP<U>;
  std::ptrdiff_t d; struct nat {};
  void set(const volatile void* p){ p=(const volatile void*)sx_concretize((uint64_t)p); d=p? (const volatile char*)p-(char*)this : 1; }
  T* get() const { return d==1? (T*)0 : (T*)((char*)this+d); }
  RP():d(1){} RP(T* p){ set(p); } RP(const RP& x){ set(x.get()); } 
  template<class U,typename std::enable_if<std::is_convertible<U*,T*>::value,int>::type=0> RP(const RP<U>& x){ T* p=x.get(); set(p); }
  template<class U,typename std::enable_if<!std::is_convertible<U*,T*>::value&&!std::is_same<U,T>::value,long>::type=0> explicit RP(const RP<U>& x){ T* p=static_cast<T*>(x.get()); set(p); }
  RP& operator=(const RP& x){ set(x.get()); return *this; } RP& operator=(T* p){ set(p); return *this; } 
  reference operator*() const { return *get(); } T* operator->() const { return get(); } reference operator[](std::ptrdiff_t n) const { return get()[n]; }
  explicit operator bool() const { return d!=1; } bool operator!() const { return d==1; }
  RP& operator++(){ set(get()+1); return *this; } RP operator++(int){ RP t(*this); ++*this; return t; } RP& operator--(){ set(get()-1); return *this; } RP operator--(int){ RP t(*this); --*this; return t; }
  RP& operator+=(std::ptrdiff_t n){ set(get()+n); return *this; } RP& operator-=(std::ptrdiff_t n){ set(get()-n); return *this; }
  friend RP operator+(const RP& x,std::ptrdiff_t n){ return RP(x.get()+n); } friend RP operator+(std::ptrdiff_t n,const RP& x){ return RP(x.get()+n); } friend RP operator-(const RP& x,std::ptrdiff_t n){ return RP(x.get()-n); } friend std::ptrdiff_t operator-(const RP& x,const RP& y){ return x.get()-y.get(); }
  friend bool operator==(const RP& x,const RP& y){ return x.get()==y.get(); } friend bool operator!=(const RP& x,const RP& y){ return x.get()!=y.get(); } friend bool operator<(const RP& x,const RP& y){ return x.get()<y.get(); } friend bool operator>(const RP& x,const RP& y){ return x.get()>y.get(); } friend bool operator<=(const RP& x,const RP& y){ return x.get()<=y.get(); } friend bool operator>=(const RP& x,const RP& y){ return x.get()>=y.get(); }
  static RP pointer_to(TT& r){ return RP((T*)&r); } };
template<class T> struct FA { typedef T value_type; typedef RP<T> pointer; typedef RP<const T> const_pointer; typedef RP<void> void_pointer; typedef RP<const void> const_void_pointer; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  FA(){} template<class U> FA(const FA<U>&){} template<class U> struct rebind { typedef FA<U> other; };
  pointer allocate(size_t n){ size_t b=(n*sizeof(T)+15)&~(size_t)15; sx_check(top+b<=SEGN,"harness: segment full"); void* p=seg[cur]+top; top+=b; return pointer((T*)p); }
  void deallocate(pointer p,size_t n){ unsigned char* q=(unsigned char*)p.get(); sx_check(q>=seg[cur]&&q+n*sizeof(T)<=seg[cur]+top,"deallocate-outside-segment"); memset(q,0xDD,n*sizeof(T)); }
  template<class U> bool operator==(const FA<U>&) const { return true; } template<class U> bool operator!=(const FA<U>&) const { return false; } };
typedef FA<El> FE;
typedef multi_index_container<El,indexed_by<ordered_unique<KA>,ordered_non_unique<KB>,sequenced<>>,FE> C1;
typedef multi_index_container<El,indexed_by<hashed_unique<KA,HLow>,hashed_non_unique<KB,HLow>,random_access<>>,FE> C2;
typedef multi_index_container<El,indexed_by<sequenced<>,ranked_unique<KA>,hashed_unique<KB,HLow>,random_access<>,ranked_non_unique<KB>>,FE> C3;
typedef multi_index_container<El,indexed_by<random_access<>,ordered_non_unique<KB>,hashed_unique<KB,HWild>,ordered_unique<KA,std::greater<int>>>,FE> C4;
#include "C01.cpp"
static void seg_start(){ cur=0; top=0; memset(seg[0],0xEE,SEGN); memset(seg[1],0xEE,SEGN); nid=0; }
template<class C> C* seg_make(){ size_t b=(sizeof(C)+15)&~(size_t)15; void* p=seg[cur]+top; top+=b; return new (p) C; }
// the place that was left holds only junk, and nothing is written there any more
static void seg_left(){ int bad=0; for (size_t i=0;i<top;i+=8) { unsigned long long v; memcpy(&v,seg[1-cur]+i,8); bad|=v!=0xEEEEEEEEEEEEEEEEull; } sx_check(!bad,"written-outside-segment"); }
template<class T> T* shifted(T* p){ return p? (T*)(seg[cur]+((unsigned char*)p-seg[1-cur])) : p; }
static void seg_move(){ seg_left(); memcpy(seg[1-cur],seg[cur],top); memset(seg[cur],0xEE,top); cur=1-cur; }
template<class C> void seg_move(C*& c,Ref<C>& r){ seg_move(); c=shifted(c); for (int i=0;i<MAXID;i++) r.ptr[i]=shifted(r.ptr[i]); r.compare(*c,true); }
template<class C> void init(C* c,Ref<C>& r,int n){ for (int i=0;i<n;i++) { El e(nid++,sx_int(0,3),sx_int(0,3),0); int conf=r.conflict(*c,e); auto p=put(*c,e); sx_check(p.second==!conf,"acceptance"); if (p.second) r.insert(*c,&*p.first); } }
template<class C> void finish(C* c){ verify(*c); verify_find(*c); observe(*c); seg_left(); c->~C(); seg_left(); sx_reach("end"); }
template<class C> void moving(int n,int len){ seg_start(); C* c=seg_make<C>(); Ref<C> r; init(c,r,n); seg_move(c,r); for (int i=0;i<len;i++) { step(*c,r,sx_choose(6)); r.compare(*c,true); seg_move(c,r); } finish(c); }
SX_ENTRY(m_1){ moving<C1>(2,1); }
SX_ENTRY(m_2){ moving<C2>(2,1); }
SX_ENTRY(m_3){ moving<C3>(1,1); }
SX_ENTRY(m_4){ moving<C4>(2,1); }
SX_ENTRY(mm_1){ moving<C1>(0,2); }
SX_ENTRY(mm_2){ moving<C2>(0,2); }
SX_ENTRY(mm_4){ moving<C4>(0,2); }
SX_ENTRY_THOROUGH(m_14){ moving<C1>(3,1); }
SX_ENTRY_THOROUGH(m_24){ moving<C2>(3,1); }
SX_ENTRY_THOROUGH(m_44){ moving<C4>(3,1); }
SX_ENTRY_THOROUGH(mm_12){ moving<C1>(1,2); }
SX_ENTRY_THOROUGH(mm_22){ moving<C2>(1,2); }
SX_ENTRY_THOROUGH(mm_42){ moving<C4>(1,2); }
// operations of one index on all elements; contents and the order of the others stay
template<class C> void whole(int n){ seg_start(); C* c=seg_make<C>(); Ref<C> r; init(c,r,n); seg_move(c,r); int m=(int)c->size(); int k=sx_choose(nidx<C>()),op=sx_choose(5);
  at<C>(k,[&](auto I){ typedef ix<C,I.value> X; auto& x=c->template get<I.value>(); auto* q=r.seq[I.value];
    auto rev=[&]{ for (int i=0;i<m/2;i++) { int t=q[i]; q[i]=q[m-1-i]; q[m-1-i]=t; } };
    if constexpr (X::positional) {
      if (op==0) { x.reverse(); rev(); }
      else if (op==1) { auto by=[](const El& u,const El& v){ return u.b<v.b; }; x.sort(by); for (int i=1;i<m;i++) for (int j=i;j>0&&sx_concretize(r.val[q[j]].b<r.val[q[j-1]].b);j--) { int t=q[j]; q[j]=q[j-1]; q[j-1]=t; } }
      else if (op==2) { if (!m) return; int f=sx_choose(m),p=sx_choose(m+1); x.relocate(nth_it(x,p),nth_it(x,f)); int id=q[f]; Ref<C>::del(q,m,f); Ref<C>::ins(q,m-1,p>f?p-1:p,id); }
      else if (op==3) { if constexpr (X::kind==RND) { x.reserve(20); seg_move(c,r); c->template get<I.value>().shrink_to_fit(); } else x.splice(x.end(),x); }
      else { x.remove_if([](const El& e){ return e.a==1; }); for (int i=0;i<m;) { int id=q[i]; if (sx_concretize(r.val[id].a==1)) { r.erase(id); m--; } else i++; } } }
    else if constexpr (X::kind==HSH) { if (op==0) x.rehash(60); else if (op==1) x.reserve(100); else if (op==2) { x.max_load_factor(0.02f); x.rehash(0); } else return; }
    else { if (op==0) { auto p=x.equal_range(1); x.erase(p.first,p.second); for (int i=0;i<(int)m;) { int id=q[i]; if (sx_concretize(x.key_extractor()(r.val[id])==1)) { r.erase(id); m--; } else i++; } } else return; } });
  verify(*c); verify_find(*c); if (op!=0||true) { each<C>([&](auto I){ if constexpr (ix<C,I.value>::kind!=HSH) { int i=0; for (auto& e: c->template get<I.value>()) { sx_check(i<r.n&&e.id==r.seq[I.value][i],"order"); i++; } } }); sx_check((int)c->size()==r.n,"size"); }
  seg_move(); c=shifted(c); finish(c); }
SX_ENTRY(r_1){ whole<C1>(3); }
SX_ENTRY(r_2){ whole<C2>(2); }
SX_ENTRY(r_3){ whole<C3>(2); }
SX_ENTRY(r_4){ whole<C4>(2); }
// growth
SX_ENTRY(g_2){ seg_start(); C2* c=seg_make<C2>(); c->get<0>().max_load_factor(0.1f); for (int i=0;i<8;i++) { c->get<0>().insert(El(i,i*7,i/3,0)); seg_move(); c=shifted(c); verify(*c); } verify_find(*c); finish(c); }
// two containers of one segment
template<class C> void pairs(int n,int m){ seg_start(); C* c=seg_make<C>(); C* d=seg_make<C>(); Ref<C> r; init(c,r,n); { Ref<C> t; init(d,t,m); } seg_move(); c=shifted(c); d=shifted(d); 
  int ic[8],id[8],nc=0,nd=0; for (auto& e: c->template get<0>()) ic[nc++]=e.id; for (auto& e: d->template get<0>()) id[nd++]=e.id; int op=sx_choose(7); C* e=0; 
  auto shows=[&](const C& z,const int* s,int k,const char* l){ verify(z); verify_find(z); int i=0; for (auto& w: z.template get<0>()) { sx_check(i<k&&w.id==s[i],l); i++; } sx_check(i==k,l); };
  if (op==0) { c->swap(*d); } else if (op==1) { *c=*d; } else if (op==2) { *c=std::move(*d); } else if (op==3) { top=(top+15)&~(size_t)15; void* p=seg[cur]+top; top+=(sizeof(C)+15)&~(size_t)15; e=new (p) C(*c); } else if (op==4) { void* p=seg[cur]+top; top+=(sizeof(C)+15)&~(size_t)15; e=new (p) C(std::move(*c)); }
  else if (op==5) { if (!nc) return; auto nh=c->extract(c->begin()); if constexpr (ix<C,0>::positional) { auto q=d->insert(d->begin(),std::move(nh)); (void)q; } else d->insert(std::move(nh)); } 
  else { if constexpr (ix<C,0>::positional) c->splice(c->begin(),*d); else c->merge(*d); }
  seg_move(); c=shifted(c); d=shifted(d); e=shifted(e);
  if (op==0) { shows(*c,id,nd,"swapped"); shows(*d,ic,nc,"swapped"); } else if (op==1) { shows(*c,id,nd,"assigned"); shows(*d,id,nd,"source"); } else if (op==2) { shows(*c,id,nd,"move-assigned"); verify(*d); } else if (op==3) { shows(*e,ic,nc,"copy"); shows(*c,ic,nc,"source"); } else if (op==4) { shows(*e,ic,nc,"moved"); shows(*c,ic,0,"moved-from"); }
  else { verify(*c); verify(*d); verify_find(*c); verify_find(*d); if (op==6) sx_check((int)(c->size()+d->size())==nc+nd,"merge-loses"); }
  put(*d,El(nid++,5,5,0)); verify(*d); seg_move(); c=shifted(c); d=shifted(d); e=shifted(e); if (e) { verify(*e); e->~C(); } d->~C(); finish(c); }
SX_ENTRY(p_1){ pairs<C1>(2,1); }
SX_ENTRY(p_2){ pairs<C2>(2,1); }
SX_ENTRY(p_3){ pairs<C3>(1,1); }
SX_ENTRY(p_4){ pairs<C4>(2,1); }
