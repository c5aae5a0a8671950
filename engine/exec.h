// The interpreter proper, exploration and the worker pool. Included by symex.cpp.
#include <float.h>

struct Stop { int kind; string label, detail; };  // 1 violation, 2 infeasible path

static volatile int* stopFlag=nullptr; static vector<int64_t> pinned; // debugging: fixed values for the first inputs
static std::map<uint64_t,string> strCache;

struct Exec {
  State* S=nullptr; std::deque<State*>* dfs=nullptr; EStats* st=nullptr;
  // per-instruction decision bookkeeping
  bool atomicAcc=false; DecP mark; size_t consMark=0; vector<FDec> idecs; vector<std::pair<int,State::KE>> kundo; bool marked=false;

  [[noreturn]] void viol(const string& l,const string& d=""){ throw Stop{1,l,d}; }
  void beginInst(){ atomicAcc=false; marked=false; idecs.clear(); kundo.clear(); }
  void touch(){ if(!marked){ marked=true; mark=S->trail; consMark=S->cons.size(); } }
  void setKnown(E c,bool v){ int i=c->id&127; kundo.push_back({i,S->known[i]}); S->known[i]={c,v}; }
  void ensureModel(){ if(!S->model){ auto m=std::make_shared<Model>(); int r=Z.check(S->cons,nullptr,m.get()); if(r<0) throw EngineError{"solver gave no answer"}; if(r==0) throw Stop{2,"",""}; S->model=m; } }
  struct FD { uint64_t v; int kind; };
  bool popForced(FD& d){ if(S->forced.empty()) return false; if (S->forced.front().fp!=(uint32_t)S->steps) throw EngineError{"replay desynchronised"}; d={S->forced.front().v,(int)S->forced.front().kind}; S->forced.pop_front(); return true; }
  State* fork(uint64_t v,int kind,std::shared_ptr<Model> m,E extra){
    State* a=new State(*S); a->trail=mark; a->cons.resize(consMark); a->forced.clear();
    for (auto& d: idecs) a->forced.push_back(d); a->forced.push_back({v,(uint8_t)kind,(uint32_t)S->steps});
    for (size_t i=kundo.size();i-->0;) a->known[kundo[i].first]=kundo[i].second;
    a->model=m; a->forks++; S->forks++; st->forks++; (void)extra; dfs->push_back(a); return a; }
  void rec(uint64_t v,int kind){ S->trail.add(v,(uint8_t)kind,(uint32_t)S->steps); idecs.push_back({v,(uint8_t)kind,(uint32_t)S->steps}); }

  bool branch(E cond){
    if (cond->op==O_CONST) return cond->k!=0;
    bool neg=false; E c=cond; if (c->op==O_NOT) { c=c->a; neg=true; }
    // the cache of decided conditions is worker specific, so hits are recorded in the trail too
    State::KE& k=S->known[c->id&127]; if (k.e==c&&S->forced.empty()) { touch(); rec(k.v,0); return k.v^neg; }
    if (c->taint) viol("uninitialised-value","control flow depends on uninitialised memory");
    touch(); FD d;
    if (popForced(d)) { rec(d.v,d.kind); if(d.kind) S->cons.push_back(d.v?c:X.bnot(c)); setKnown(c,d.v); return (d.v!=0)^neg; }
    ensureModel(); st->branches++;
    bool mv=X.eval(c,*S->model)!=0;
    auto m2=std::make_shared<Model>(); int r=Z.checkSliced(S->cons,mv?X.bnot(c):c,*S->model,m2.get());
    if (r<0) throw EngineError{"solver gave no answer"};
    if (r==0) { rec(mv,0); setKnown(c,mv); return mv^neg; }
    fork(!mv,1,m2,nullptr);
    rec(mv,1); S->cons.push_back(mv?c:X.bnot(c)); setKnown(c,mv); return mv^neg;
  }
  void assume(E c){
    if (c->op==O_CONST) { if(!c->k) throw Stop{2,"",""}; return; }
    if (c->taint) viol("uninitialised-value","assumption on uninitialised memory");
    touch(); FD d;
    if (popForced(d)) { rec(d.v,d.kind); S->cons.push_back(c); return; }
    ensureModel();
    if (!X.eval(c,*S->model)) { auto m2=std::make_shared<Model>(); int r=Z.checkSliced(S->cons,c,*S->model,m2.get()); if(r<0) throw EngineError{"solver gave no answer"}; if(r==0) throw Stop{2,"",""}; S->model=m2; }
    rec(1,1); S->cons.push_back(c);
  }
  uint64_t concretize(E e){
    if (e->op==O_CONST) return (uint64_t)e->k;
    if (e->taint) viol("uninitialised-value","address, size or floating value depends on uninitialised memory");
    touch(); FD d; int excl=0;
    while (true) {
      if (popForced(d)) { rec(d.v,d.kind); E q=X.cmp(O_EQ,e,X.cst(d.v,e->w)); if (d.kind==2) { S->cons.push_back(X.bnot(q)); excl++; continue; } if (d.kind==1) S->cons.push_back(q); return d.v; }
      ensureModel(); st->concretizations++;
      if (++excl>5000) throw EngineError{"more than 5000 values for one concretised expression"};
      uint64_t v=(uint64_t)X.eval(e,*S->model); E q=X.cmp(O_EQ,e,X.cst(v,e->w));
      auto m2=std::make_shared<Model>(); int r=Z.checkSliced(S->cons,X.bnot(q),*S->model,m2.get()); if(r<0) throw EngineError{"solver gave no answer"};
      if (r==0) { rec(v,0); return v; }
      fork(v,2,m2,nullptr); rec(v,1); S->cons.push_back(q); return v;
    }
  }
  // ---- values ----
  static Val mk(E e){ if (e->op==O_CONST && e->w<=64) return {(uint64_t)e->k,nullptr}; return {0,e}; }
  static E ex(const Val& v,unsigned w){ return v.e? v.e : X.cst(v.c,w); }
  uint64_t conc(const Val& v){ return v.e? concretize(v.e) : v.c; }
  const Val& get(int o){ return o>=0? S->regs[S->fr.back().rbase+o] : pool[~o]; }
  Val& reg(int o){ return S->regs[S->fr.back().rbase+o]; }

  // ---- threads ----
  vector<ObjP>& stackOf(uint64_t a){ if (S->th.empty()) return S->stk; int t=(int)((a-ST_BASE)>>30); return t==S->cur||t>=(int)S->th.size()? S->stk : S->th[t].stk; }
  void race(uint64_t a,uint64_t n,bool write){
    if (S->shadow.use_count()>1) S->shadow=std::make_shared<Shadow>(*S->shadow);
    int t=S->cur; const VC& vc=S->th[t].vc;
    for (uint64_t i=0;i<n;i++) { Shd& h=(*S->shadow)[a+i]; int o=-1;
      if (h.wc && h.wt!=t && h.wc>vc.c[h.wt]) o=h.wt;
      if (write) for (int k=0;k<MAXT;k++) if (k!=t && h.r[k]>vc.c[k]) o=k;
      if (o>=0) { char b[120]; snprintf(b,120,"%s by thread %d is unordered with an access by thread %d (%s)",write?"write":"read",t,o,a+i>=HP_BASE?"heap":a+i>=ST_BASE?"stack":"global"); viol("data-race",b); }
      if (write) { h.wt=(uint8_t)t; h.wc=vc.c[t]; } else h.r[t]=vc.c[t]; }
  }
  Mx* mutex(uint64_t a,bool make){ for (auto& m: S->mx) if (m.a==a) return &m; if (!make) return nullptr; S->mx.push_back(Mx{a,-1,VC()}); return &S->mx.back(); }
  void acq(uint64_t a){ if (!S->th.empty()) if (Mx* m=mutex(a,false)) S->th[S->cur].vc.join(m->vc); }
  void rel(uint64_t a){ if (!S->th.empty()) { Mx* m=mutex(a,true); VC& v=S->th[S->cur].vc; m->vc.join(v); v.c[S->cur]++; } }
  bool enabled(int t){ Ctx& c=S->th[t]; if (c.done) return false; if (c.joining) { for (int i=1;i<(int)S->th.size();i++) if (!S->th[i].done) return false; } if (c.wait) { Mx* m=mutex(c.wait,false); if (m&&m->owner>=0) return false; } return true; }
  // the next thread to run, or -1 when a schedule variable was introduced and the instruction has to be repeated
  int schedule(){
    vector<int> en; bool self=enabled(S->cur); if (self) en.push_back(S->cur); for (int t=0;t<(int)S->th.size();t++) if (t!=S->cur&&enabled(t)) en.push_back(t);
    if (en.empty()) viol("deadlock","no thread can proceed");
    int pick=en[0];
    if (en.size()>1&&!(self&&S->preempt>=preemptBound)) {
      uint64_t n=en.size()-1; unsigned vw=1; while (n>>vw) vw++;
      if (S->schedVar<0) { unsigned idx=S->ins.size(); S->ins.push_back({(uint16_t)vw,0,n}); st->inputs=std::max<uint64_t>(st->inputs,idx+1);
        if (S->model && S->model->v.size()>idx && S->model->v[idx]) { auto m=std::make_shared<Model>(*S->model); if (S->forced.empty()) m->v[idx]=0; S->model=m; }
        E v=X.var(idx,vw); if (n!=(uint64_t)maskw(vw)) S->cons.push_back(X.cmp(O_ULE,v,X.cst(n,vw))); S->schedVar=idx; return -1; }
      uint64_t k= (size_t)S->schedVar<pinned.size()? (uint64_t)pinned[S->schedVar] : concretize(X.var(S->schedVar,vw)); S->schedVar=-1; pick=en[k];
    }
    if (self&&pick!=S->cur) S->preempt++;
    return pick; }
  void swapCtx(Ctx& c){ c.regs.swap(S->regs); c.fr.swap(S->fr); c.stk.swap(S->stk); std::swap(c.stTop,S->stTop); c.excs.swap(S->excs); c.caught.swap(S->caught); }
  void switchTo(int t){ if (t==S->cur) return; swapCtx(S->th[S->cur]); S->cur=t; swapCtx(S->th[t]); }
  void spawn(uint64_t fn,Val arg){
    if (S->th.empty()) { S->th.resize(1); S->th[0].vc.c[0]=1; S->shadow=std::make_shared<Shadow>(); S->preempt=0; for (auto& m: S->mx) m.vc=VC(); }
    int t=S->th.size(); if (t>=MAXT) throw EngineError{"too many threads"}; int me=S->cur;
    S->th.emplace_back(); Ctx& c=S->th[t]; c.stTop=ST_BASE+((uint64_t)t<<30); c.vc=S->th[me].vc; c.vc.c[t]=1; S->th[me].vc.c[me]++;
    switchTo(t); pushFrame(fnByIdx.at((fn-FN_BASE)/16),{arg},true); switchTo(me); }
  // false: the thread gave way and repeats the instruction later
  bool lock(uint64_t a){
    atomicAcc=true; find(a,1,false,"mutex lock"); atomicAcc=false; Mx* m=mutex(a,true);
    if (S->th.empty()) { if (m->owner>=0) viol("deadlock","a thread locks a mutex it already holds"); m->owner=0; return true; }
    if (m->owner==S->cur) viol("deadlock","a thread locks a mutex it already holds");
    Ctx& c=S->th[S->cur]; c.wait=a;
    if (!c.atLock) { int p=schedule(); if (p<0) return false; c.atLock=true; if (p!=S->cur) { switchTo(p); return false; } }
    m=mutex(a,true); if (m->owner>=0) throw EngineError{"a blocked thread was scheduled"}; m->owner=S->cur; c.atLock=false; c.wait=0; c.vc.join(m->vc); return true; }
  void unlock(uint64_t a){ atomicAcc=true; find(a,1,false,"mutex unlock"); atomicAcc=false; Mx* m=mutex(a,false); if (!m||m->owner!=S->cur) viol("mutex-misuse","unlock of a mutex the thread does not hold"); m->owner=-1; rel(a); }

  // ---- memory ----
  ObjP* find(uint64_t a,uint64_t n,bool write,const char* what){
    vector<ObjP>& v = a>=HP_BASE? S->heap : a>=ST_BASE? stackOf(a) : S->glob;
    size_t lo=0,hi=v.size(); while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->base<=a) lo=m+1; else hi=m; }
    if (lo) { Obj* o=v[lo-1].o; if (a>=o->base && a+n<=o->base+o->size) { if (write) { if (o->ro) viol("memory-safety","write to read-only memory"); if (o->rc>1) { Obj* c=new Obj(*o); c->rc=0; v[lo-1]=ObjP(c); } } if (!S->th.empty()&&!atomicAcc) race(a,n,write); return &v[lo-1]; }
      if (a<=o->base+o->size && a>=o->base) { char b[160]; snprintf(b,160,"%s of %llu bytes at offset %llu of a %llu-byte object",what,(unsigned long long)n,(unsigned long long)(a-o->base),(unsigned long long)o->size); viol("memory-safety",b); } }
    char b[160]; snprintf(b,160,"%s of %llu bytes at %s address 0x%llx",what,(unsigned long long)n,a<4096?"null":(a>=FN_BASE&&a<GL_BASE)?"code":"freed or invalid",(unsigned long long)a); viol("memory-safety",b);
  }
  static void initSym(Obj* o){ if (o->s.empty()) o->s.resize(o->size); }
  Val loadBits(Obj* o,uint64_t off,unsigned bits){
    unsigned n=(bits+7)/8; bool all=true; for(unsigned i=0;i<n;i++) if (o->st[off+i]!=1) { all=false; break; }
    if (all) { if (n<=8) { uint64_t x=0; memcpy(&x,&o->d[off],n); return {bits<64? x&((1ull<<bits)-1):x,nullptr}; } u128 x=0; memcpy(&x,&o->d[off],n); return {0,X.cst(x,bits)}; }
    // whole-expression fast path
    if (o->st[off]==2) { E e=o->s[off].e; if (o->s[off].i==0 && e->w==n*8) { bool same=true; for(unsigned i=1;i<n&&same;i++) same = o->st[off+i]==2 && o->s[off+i].e==e && o->s[off+i].i==i; if (same) { if (bits<n*8) e=X.extract(e,0,bits); return mk(e); } } }
    E r=nullptr; for (unsigned i=0;i<n;i++) { E b; uint8_t t=o->st[off+i]; if (t==1) b=X.cst(o->d[off+i],8); else if (t==2) b=X.extract(o->s[off+i].e,8*o->s[off+i].i,8); else b=X.var(100000+(S->nuninit++%1000),8,true); r = r? X.concat(b,r) : b; }
    if (bits<n*8) r=X.extract(r,0,bits);
    return mk(r);
  }
  void storeBits(Obj* o,uint64_t off,unsigned bits,const Val& v){
    unsigned n=(bits+7)/8;
    if (!v.e) { memcpy(&o->d[off],&v.c,n); memset(&o->st[off],1,n); return; }
    if (v.e->op==O_CONST) { u128 k=v.e->k; memcpy(&o->d[off],&k,n); memset(&o->st[off],1,n); return; }
    initSym(o); E e=v.e; if (e->w<n*8) e=X.zext(e,n*8);
    for (unsigned i=0;i<n;i++) { o->s[off+i]={e,(uint8_t)i}; o->st[off+i]=2; }
  }
  void copyMem(uint64_t dst,uint64_t src,uint64_t n){
    if (!n) return; Obj* s=find(src,n,false,"copy from")->o; ObjP keep(s); Obj* d=find(dst,n,true,"copy to")->o; uint64_t so=src-s->base, dofs=dst-d->base;
    bool sym=false; for(uint64_t i=0;i<n;i++) if (s->st[so+i]==2) { sym=true; break; }
    if (sym) { initSym(d); vector<SymB> t(s->s.begin()+so,s->s.begin()+so+n); std::copy(t.begin(),t.end(),d->s.begin()+dofs); }
    vector<uint8_t> a(s->d.begin()+so,s->d.begin()+so+n), b(s->st.begin()+so,s->st.begin()+so+n);
    memcpy(&d->d[dofs],a.data(),n); memcpy(&d->st[dofs],b.data(),n);
  }
  uint64_t newObj(vector<ObjP>& v,uint64_t& top,uint64_t size,uint64_t align,char kind){
    if (align<16) align=16; uint64_t base=(top+align-1)/align*align; Obj* o=new Obj; o->kind=kind; o->base=base; o->size=size; o->d.assign(size,0xCD); o->st.assign(size,0); v.push_back(ObjP(o)); top=base+size+32; return base; }
  uint64_t heapAlloc(uint64_t n,char kind,uint64_t al=16){ if (n>(1ull<<24)) { throwStd("_ZTISt9bad_alloc"); return 0; } S->allocs++; uint64_t r=newObj(S->heap,S->hpTop,n,al,kind); S->heap.back()->allocId=S->allocs; return r; }
  void heapFree(uint64_t a,char kind,int64_t sz){
    if (!a) return; auto& v=S->heap; size_t lo=0,hi=v.size(); while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->base<=a) lo=m+1; else hi=m; }
    if (!lo||v[lo-1]->base!=a) viol("memory-safety","free of an invalid or already freed pointer");
    Obj* o=v[lo-1].o; if (kind!=o->kind) viol("memory-safety","mismatched allocation and deallocation functions");
    if (sz>=0&&(uint64_t)sz!=o->size) viol("memory-safety","sized deallocation with a different size"); if (!S->th.empty()) race(o->base,o->size,true); v.erase(v.begin()+(lo-1));
  }
  string cstr(uint64_t a){ auto it=strCache.find(a); if (it!=strCache.end()) return it->second; string s; if (!a) return s; Obj* o=find(a,1,false,"string read")->o; for (uint64_t i=a-o->base;i<o->size&&o->d[i];i++) s+=(char)o->d[i]; if (o->kind=='g'&&o->ro) strCache[a]=s; return s; }
  uint64_t rd64(uint64_t a){ Obj* o=find(a,8,false,"read")->o; Val v=loadBits(o,a-o->base,64); return conc(v); }
  void wr64(uint64_t a,uint64_t x){ Obj* o=find(a,8,true,"write")->o; storeBits(o,a-o->base,64,{x,nullptr}); }

  // ---- exceptions ----
  string pendingStd; 
  uint64_t tiAddr(const char* n){ GlobalVariable* g=mod->getGlobalVariable(n,true); if (!g) return 1; return gaddr[g]; }
  void throwStd(const char* tin){ // throw a standard exception object with the given typeinfo
    uint64_t o=newObj(S->heap,S->hpTop,16,16,'x'); memset(S->heap.back()->st.data(),1,16); S->excs.push_back({o,tiAddr(tin),0,0,false}); unwind(o); throw Jump{}; }
  struct Jump{};   // control was transferred by the unwinder
  Exc* exc(uint64_t o){ for (auto& e: S->excs) if (e.obj==o) return &e; return nullptr; }
  static const std::map<string,string>& stdBases(){ static std::map<string,string> m={{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"}}; return m; }
  std::map<uint64_t,const GlobalVariable*> tiGV; 
  bool derives(uint64_t t,uint64_t c,int64_t& adj,int depth=0){
    if (t==c) return true; if (depth>8) return false;
    if (tiGV.empty()) for (auto& g: mod->globals()) if (gaddr.count(&g)) tiGV[gaddr[&g]]=&g;
    auto it=tiGV.find(t); if (it==tiGV.end()) return false; const GlobalVariable* g=it->second;
    auto sb=stdBases().find(g->getName().str()); if (sb!=stdBases().end()) { GlobalVariable* b=mod->getGlobalVariable(sb->second,true); return b && derives(gaddr[b],c,adj,depth+1); }
    if (g->isDeclaration()) return false;
    const auto* cs=dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs||cs->getNumOperands()<3) return false;
    if (cs->getNumOperands()==3) return derives(constAddr(cs->getOperand(2)),c,adj,depth+1);
    for (unsigned i=4;i+1<cs->getNumOperands();i+=2) { int64_t off=cast<ConstantInt>(cs->getOperand(i+1))->getSExtValue(); int64_t a2=0; if (derives(constAddr(cs->getOperand(i)),c,a2,depth+1)) { adj=(off>>8)+a2; return true; } }
    return false;
  }
  void popFrame(){ Frame& f=S->fr.back(); S->stk.resize(f.stackMark); S->regs.resize(f.rbase); S->fr.pop_back(); }
  // transfer control to the landing pad for exception o; the throwing call is the current instruction
  void unwind(uint64_t o){
    Exc* x=exc(o); 
    // phase 1: is there a handler at all?
    bool handled=false;
    for (int i=(int)S->fr.size()-1;i>=0&&!handled;i--) { Inst& I=S->fr[i].f->code[S->fr[i].pc]; if (I.k==K_INVOKE) { auto* lp=lpad(S->fr[i].f,I.t2); if (lp) for (unsigned k=0;k<lp->getNumClauses();k++) if (lp->isCatch(k)) { Value* cv=lp->getClause(k); int64_t adj=0; if (isa<ConstantPointerNull>(cv)||derives(x->ti,constAddr(cast<Constant>(cv)),adj)) handled=true; } } }
    if (!handled) { string n="?"; auto it=tiGV.find(x->ti); if(it!=tiGV.end()) n=demangle(it->second->getName().str()); viol("uncaught-exception",n); }
    while (!S->fr.empty()) {
      Frame& F=S->fr.back(); Inst& I=F.f->code[F.pc];
      if (I.k==K_INVOKE) { auto* lp=lpad(F.f,I.t2); bool enter=lp->isCleanup(); int64_t sel=0;
        for (unsigned k=0;k<lp->getNumClauses();k++) if (lp->isCatch(k)) { Value* cv=lp->getClause(k); int64_t adj=0; if (isa<ConstantPointerNull>(cv)) { enter=true; sel=selectorFor(0); break; } uint64_t ct=constAddr(cast<Constant>(cv)); if (derives(x->ti,ct,adj)) { enter=true; sel=selectorFor(ct); break; } }
          else { enter=true; sel=-1; break; }
        if (enter) { gotoBB(I.t2,I.bb); // phis done; the landingpad value
          int d=lpadSlot(F.f,I.t2); if (d>=0) { reg(d)={o,nullptr}; reg(d+1)={(uint64_t)(uint32_t)sel,nullptr}; } return; } }
      popFrame();
    }
    viol("uncaught-exception","");
  }
  static int selectorFor(uint64_t ti){ static std::map<uint64_t,int> m; auto it=m.find(ti); if (it!=m.end()) return it->second; int n=m.size()+1; return m[ti]=n; }
  std::map<std::pair<Fn*,int>,const LandingPadInst*> lpCache; std::map<std::pair<Fn*,int>,int> lpSlot;
  const LandingPadInst* lpad(Fn* f,int bb){ auto& r=lpCache[{f,bb}]; if (r) return r; int i=0; for (auto& b: *f->f) { if (i++==bb) { r=b.getLandingPadInst(); break; } } return r; }
  int lpadSlot(Fn* f,int bb){ auto* lp=lpad(f,bb); for (int i=f->bbs[bb].start;i<(int)f->code.size();i++) if (f->code[i].src==lp) return f->code[i].dst; return -1; }

  // ---- control ----
  vector<Val> tmp;
  void gotoBB(int to,int from){
    Frame& F=S->fr.back(); BBInfo& B=F.f->bbs[to]; F.f->bbcov[to]=1;
    if (!B.phis.empty()) for (auto& p: B.phis) if (p.first==from) { tmp.clear(); for (auto& m: p.second) tmp.push_back(get(m.second)); for (size_t i=0;i<p.second.size();i++) reg(p.second[i].first)=tmp[i]; break; }
    F.prevbb=from; F.pc=B.start;
  }
  void pushFrame(Fn* f,const vector<Val>& args,bool noadv){
    if (!f->decoded) decode(f); f->executed=true;
    if (S->fr.size()>400) viol("stack-overflow","call depth exceeds 400");
    Frame n{f,0,(uint32_t)S->regs.size(),(uint32_t)S->stk.size(),-1,noadv}; S->regs.resize(S->regs.size()+f->nregs,Val{0,nullptr});
    for (size_t i=0;i<args.size()&&i<(size_t)f->nargslots;i++) S->regs[n.rbase+i]=args[i];
    n.pc=f->bbs[0].start; f->bbcov[0]=1; S->fr.push_back(n);
  }
  // finish a call in the current (caller) frame
  void finishCall(Inst& I){ if (I.k==K_INVOKE) gotoBB(I.t1,I.bb); else S->fr.back().pc++; }

  static double asD(uint64_t x){ double d; memcpy(&d,&x,8); return d; } static float asF(uint64_t x){ float d; uint32_t y=(uint32_t)x; memcpy(&d,&y,4); return d; }
  static uint64_t fromD(double d){ uint64_t x; memcpy(&x,&d,8); return x; } static uint64_t fromF(float d){ uint32_t x; memcpy(&x,&d,4); return x; }
  static long double asL(const Val& v){ long double l=0; u128 k=v.e?v.e->k:v.c; memcpy(&l,&k,10); return l; }
  static Val fromL(long double l){ u128 k=0; memcpy(&k,&l,10); return {0,X.cst(k,80)}; }
  long double fval(const Val& v,unsigned w){ if (w==80) { if (v.e&&v.e->op!=O_CONST) unsupported("symbolic x87 value"); return asL(v);} uint64_t x=conc(v); return w==32? (long double)asF(x):(long double)asD(x); }
  Val fmk(long double r,unsigned w){ if (w==80) return fromL(r); return {w==32?fromF((float)r):fromD((double)r),nullptr}; }

  void run(); bool builtin(Inst& I,int b); void step1();
  void done();
};

bool Exec::builtin(Inst& I,int b){
  // returns true when control was already transferred (no finishCall)
  auto A=[&](int i)->const Val&{ return get(I.ops[i]); };
  auto ret=[&](Val v){ if (I.dst>=0) reg(I.dst)=v; };
  auto rete=[&](E e){ ret(mk(e)); };
  unsigned w=I.w;
  switch (b) {
    case B__Znwm: case B__ZnwmRKSt9nothrow_t: ret({heapAlloc(conc(A(0)),'h'),nullptr}); break;
    case B__Znam: case B__ZnamRKSt9nothrow_t: ret({heapAlloc(conc(A(0)),'a'),nullptr}); break;
    case B__ZnwmSt11align_val_t: { uint64_t n=conc(A(0)),al=conc(A(1)); ret({heapAlloc(n,'h',al),nullptr}); break; }
    case B__ZdlPv: case B__ZdlPvRKSt9nothrow_t: case B__ZdlPvSt11align_val_t: heapFree(conc(A(0)),'h',-1); break;
    case B__ZdlPvm: case B__ZdlPvmSt11align_val_t: { uint64_t p=conc(A(0)),n=conc(A(1)); heapFree(p,'h',(int64_t)n); break; }
    case B__ZdaPv: case B__ZdaPvRKSt9nothrow_t: heapFree(conc(A(0)),'a',-1); break;
    case B__ZdaPvm: { uint64_t p=conc(A(0)),n=conc(A(1)); heapFree(p,'a',(int64_t)n); break; }
    case B_malloc: ret({heapAlloc(conc(A(0)),'m'),nullptr}); break;
    case B_calloc: { uint64_t n=conc(A(0))*conc(A(1)); uint64_t r=heapAlloc(n,'m'); memset(S->heap.back()->d.data(),0,n); memset(S->heap.back()->st.data(),1,n); ret({r,nullptr}); break; }
    case B_free: heapFree(conc(A(0)),'m',-1); break;
    case B_memcpy: case B_memmove: case B_llvm_memcpy: case B_llvm_memcpy_inline: case B_llvm_memmove: { uint64_t d=conc(A(0)),s=conc(A(1)),n=conc(A(2)); copyMem(d,s,n); ret({d,nullptr}); break; }
    case B_memset: case B_llvm_memset: { uint64_t d=conc(A(0)),n=conc(A(2)); Val v=A(1); if (n) { Obj* o=find(d,n,true,"memset")->o; uint64_t off=d-o->base; if (!v.e) { memset(&o->d[off],(int)v.c,n); memset(&o->st[off],1,n);} else { E e=X.extract(v.e,0,8); for(uint64_t i=0;i<n;i++) storeBits(o,off+i,8,mk(e)); } } ret({d,nullptr}); break; }
    case B_memcmp: case B_bcmp: { uint64_t p=conc(A(0)),q=conc(A(1)),n=conc(A(2)); E r=X.cst(0,32); for (uint64_t i=n;i-->0;) { Obj* o=find(p+i,1,false,"memcmp")->o; Obj* o2=find(q+i,1,false,"memcmp")->o; E x=ex(loadBits(o,p+i-o->base,8),8),y=ex(loadBits(o2,q+i-o2->base,8),8); r=X.ite(X.cmp(O_EQ,x,y),r,X.ite(X.cmp(O_ULT,x,y),X.cst(~(u128)0,32),X.cst(1,32))); } rete(r); break; }
    case B_strlen: ret({cstr(conc(A(0))).size(),nullptr}); break;
    case B_strcmp: { int r=cstr(conc(A(0))).compare(cstr(conc(A(1)))); ret({(uint64_t)(uint32_t)(r<0?-1:r>0),nullptr}); break; }
    case B_ceil: case B_llvm_ceil: case B_ceilf: { unsigned fw=I.leaves[0].bits; ret(fmk(ceill(fval(A(0),fw)),fw)); break; }
    case B_floor: case B_llvm_floor: case B_floorf: { unsigned fw=I.leaves[0].bits; ret(fmk(floorl(fval(A(0),fw)),fw)); break; }
    case B_llvm_fabs: { unsigned fw=I.leaves[0].bits; ret(fmk(fabsl(fval(A(0),fw)),fw)); break; }
    case B_llvm_fmuladd: { unsigned fw=I.leaves[0].bits; long double x=fval(A(0),fw),y=fval(A(1),fw),z=fval(A(2),fw); ret(fw==32?Val{fromF((float)x*(float)y+(float)z),nullptr}:Val{fromD((double)x*(double)y+(double)z),nullptr}); break; }
    case B_llvm_lifetime_start: case B_llvm_lifetime_end: case B_llvm_invariant_start: case B_llvm_donothing: case B_llvm_prefetch: case B_llvm_sideeffect: case B_llvm_stackrestore: case B_llvm_experimental_noalias_scope_decl: break;
    case B_llvm_assume: break;
    case B_llvm_expect: case B_llvm_launder_invariant_group: case B_llvm_strip_invariant_group: case B_llvm_threadlocal_address: ret(A(0)); break;
    case B_llvm_ptrmask: { uint64_t p=conc(A(0)),m=conc(A(1)); ret({p&m,nullptr}); break; }
    case B_llvm_ctlz: { if (!A(0).e) { uint64_t x=A(0).c; int n=0; while (n<(int)w&&!((x>>(w-1-n))&1)) n++; ret({(uint64_t)n,nullptr}); } else { E x=A(0).e; E r=X.cst(w,w); for (unsigned i=0;i<w;i++) r=X.ite(X.extract(x,i,1),X.cst(w-1-i,w),r); rete(r); } break; }
    case B_llvm_cttz: { if (!A(0).e) { uint64_t x=A(0).c; unsigned n=0; while (n<w&&!((x>>n)&1)) n++; ret({(uint64_t)n,nullptr}); } else { E x=A(0).e; E r=X.cst(w,w); for (unsigned i=w;i-->0;) r=X.ite(X.extract(x,i,1),X.cst(i,w),r); rete(r); } break; }
    case B_llvm_ctpop: { if (!A(0).e) ret({(uint64_t)__builtin_popcountll(A(0).c),nullptr}); else { E r=X.cst(0,w); for (unsigned i=0;i<w;i++) r=X.bin(O_ADD,r,X.zext(X.extract(A(0).e,i,1),w)); rete(r);} break; }
    case B_llvm_bswap: { E x=ex(A(0),w); E r=nullptr; for (unsigned i=0;i<w;i+=8) { E y=X.extract(x,i,8); r=r?X.concat(r,y):y; } rete(r); break; }
    case B_llvm_bitreverse: { E x=ex(A(0),w); E r=nullptr; for (unsigned i=0;i<w;i++) { E y=X.extract(x,i,1); r=r?X.concat(r,y):y; } rete(r); break; }
    case B_llvm_umax: case B_llvm_umin: case B_llvm_smax: case B_llvm_smin: { E x=ex(A(0),w),y=ex(A(1),w); bool sg=b==B_llvm_smax||b==B_llvm_smin, mx=b==B_llvm_umax||b==B_llvm_smax; E lt=X.cmp(sg?O_SLT:O_ULT,x,y); rete(mx?X.ite(lt,y,x):X.ite(lt,x,y)); break; }
    case B_llvm_abs: { E x=ex(A(0),w); rete(X.ite(X.cmp(O_SLT,x,X.cst(0,w)),X.bin(O_SUB,X.cst(0,w),x),x)); break; }
    case B_llvm_uadd_sat: { E x=ex(A(0),w),y=ex(A(1),w); E r=X.bin(O_ADD,x,y); rete(X.ite(X.cmp(O_ULT,r,x),X.cst(~(u128)0,w),r)); break; }
    case B_llvm_usub_sat: { E x=ex(A(0),w),y=ex(A(1),w); rete(X.ite(X.cmp(O_ULT,x,y),X.cst(0,w),X.bin(O_SUB,x,y))); break; }
    case B_llvm_fshl: case B_llvm_fshr: { E x=ex(A(0),w),y=ex(A(1),w); uint64_t s=conc(A(2))%w; E c=X.concat(x,y); rete(b==B_llvm_fshl? X.extract(c,w-(unsigned)s,w) : X.extract(c,(unsigned)s,w)); break; }
    case B_llvm_uadd_with_overflow: case B_llvm_usub_with_overflow: case B_llvm_umul_with_overflow: case B_llvm_sadd_with_overflow: case B_llvm_ssub_with_overflow: case B_llvm_smul_with_overflow: {
      E x=ex(A(0),w),y=ex(A(1),w); bool sg=b>=B_llvm_sadd_with_overflow; Op op=(b==B_llvm_uadd_with_overflow||b==B_llvm_sadd_with_overflow)?O_ADD:(b==B_llvm_usub_with_overflow||b==B_llvm_ssub_with_overflow)?O_SUB:O_MUL;
      unsigned W=op==O_MUL?2*w:w+1; if (W>128) unsupported("wide overflow op"); E X2=sg?X.sext(x,W):X.zext(x,W),Y2=sg?X.sext(y,W):X.zext(y,W); E r=X.bin(op,X2,Y2); E lo=X.extract(r,0,w); E back=sg?X.sext(lo,W):X.zext(lo,W);
      int d=I.dst; reg(d)=mk(lo); reg(d+1)=mk(X.bnot(X.cmp(O_EQ,r,back))); break; }
    case B_llvm_objectsize: ret({~0ull,nullptr}); break;
    case B_llvm_is_constant: ret({0,nullptr}); break;
    case B_llvm_stacksave: ret({0,nullptr}); break;
    case B_llvm_trap: case B_llvm_ubsantrap: viol("trap","trap instruction reached");
    case B_llvm_eh_typeid_for: ret({(uint64_t)selectorFor(conc(A(0))),nullptr}); break;
    case B___cxa_allocate_exception: { uint64_t n=conc(A(0)); uint64_t o=newObj(S->heap,S->hpTop,n,16,'x'); ret({o,nullptr}); break; }
    case B___cxa_free_exception: heapFree(conc(A(0)),'x',-1); break;
    case B___cxa_throw: { uint64_t o=conc(A(0)),ti=conc(A(1)),d=conc(A(2)); S->excs.push_back({o,ti,d,0,false}); unwind(o); return true; }
    case B___cxa_begin_catch: { uint64_t o=conc(A(0)); Exc* x=exc(o); if (!x) viol("exception-model","begin_catch of unknown exception"); if (x->rethrown) { x->rethrown=false; } x->handlers++; S->caught.push_back(o); ret({o,nullptr}); break; }
    case B___cxa_get_exception_ptr: ret(A(0)); break;
    case B___cxa_end_catch: { if (S->caught.empty()) viol("exception-model","end_catch without catch"); uint64_t o=S->caught.back(); S->caught.pop_back(); Exc* x=exc(o); x->handlers--; 
      if (x->handlers==0&&!x->rethrown) { uint64_t d=x->dtor; for (size_t i=0;i<S->excs.size();i++) if (S->excs[i].obj==o) { S->excs.erase(S->excs.begin()+i); break; }
        if (d) { Fn* f=fnByIdx.at((d-FN_BASE)/16); if (f->hasBody) { pushFrame(f,{Val{o,nullptr}},false); return true; } } }
      break; }
    case B___cxa_rethrow: { if (S->caught.empty()) viol("terminate","rethrow with no active exception"); uint64_t o=S->caught.back(); exc(o)->rethrown=true; unwind(o); return true; }
    case B___cxa_atexit: ret({0,nullptr}); break;
    case B___cxa_guard_acquire: { uint64_t g=conc(A(0)); atomicAcc=true; Obj* o=find(g,8,true,"guard")->o; atomicAcc=false; Val v=loadBits(o,g-o->base,8); if (!v.c) { Val q=loadBits(o,g-o->base+1,8); if (q.c) throw EngineError{"contended initialisation of a static"}; storeBits(o,g-o->base+1,8,{1,nullptr}); } else acq(g); ret({v.c?0ull:1ull,nullptr}); break; }
    case B___cxa_guard_release: { uint64_t g=conc(A(0)); atomicAcc=true; Obj* o=find(g,8,true,"guard")->o; atomicAcc=false; storeBits(o,g-o->base,16,{1,nullptr}); rel(g); break; }
    case B___cxa_guard_abort: { uint64_t g=conc(A(0)); atomicAcc=true; Obj* o=find(g,8,true,"guard")->o; atomicAcc=false; storeBits(o,g-o->base,16,{0,nullptr}); break; }
    case B__ZSt9terminatev: case B___cxa_pure_virtual: viol("terminate","std::terminate called");
    case B_abort: viol("abort","abort called"); case B_exit: case B__exit: viol("exit","exit called");
    case B___assert_fail: viol("assertion",cstr(conc(A(0))));
    case B__ZSt17__throw_bad_allocv: throwStd("_ZTISt9bad_alloc"); break;
    case B__ZSt28__throw_bad_array_new_lengthv: case B___cxa_throw_bad_array_new_length: throwStd("_ZTISt20bad_array_new_length"); break;
    case B__ZSt20__throw_length_errorPKc: throwStd("_ZTISt12length_error"); break;
    case B__ZSt20__throw_out_of_rangePKc: case B__ZSt24__throw_out_of_range_fmtPKcz: throwStd("_ZTISt12out_of_range"); break;
    case B__ZSt19__throw_logic_errorPKc: throwStd("_ZTISt11logic_error"); break;
    case B__ZNSt9exceptionD2Ev: case B__ZNSt9exceptionD1Ev: case B__ZNSt9exceptionD0Ev: case B__ZNSt11logic_errorC1EPKc: case B__ZNSt11logic_errorC2EPKc: case B__ZNSt11logic_errorD1Ev: case B__ZNSt11logic_errorD2Ev: case B__ZNSt12out_of_rangeC1EPKc: case B__ZNSt12out_of_rangeC2EPKc: case B__ZNSt12out_of_rangeD1Ev: case B__ZNSt12out_of_rangeD2Ev: case B__ZNSt12out_of_rangeC1ERKS_: case B__ZNSt12out_of_rangeC2ERKS_: case B__ZNSt11logic_errorC2ERKS_: case B__ZNSt13runtime_errorC1EPKc: case B__ZNSt13runtime_errorC2EPKc: case B__ZNSt13runtime_errorD1Ev: case B__ZNSt13runtime_errorD2Ev: case B__ZNSt9bad_allocD1Ev: case B__ZNSt9bad_allocD2Ev: break;
    case B__ZNSt8ios_base4InitC1Ev: case B__ZNSt8ios_base4InitD1Ev: break;
    case B_pthread_mutex_lock: { if (!lock(conc(A(0)))) return true; ret({0,nullptr}); break; }
    case B_pthread_mutex_unlock: { unlock(conc(A(0))); ret({0,nullptr}); break; }
    case B_pthread_mutex_destroy: { uint64_t a=conc(A(0)); Mx* m=mutex(a,false); if (m) { if (m->owner>=0) viol("mutex-misuse","a locked mutex is destroyed"); S->mx.erase(S->mx.begin()+(m-S->mx.data())); } if (!S->th.empty()) race(a,1,true); ret({0,nullptr}); break; }
    case B_sx_spawn: { uint64_t f=conc(A(0)); spawn(f,A(1)); break; }
    case B_sx_join_all: { if (S->th.empty()) break; if (S->cur) throw EngineError{"sx_join_all outside the main thread"}; Ctx& c=S->th[0]; c.joining=true; bool all=true; for (int i=1;i<(int)S->th.size();i++) all=all&&S->th[i].done;
      if (!all) { int p=schedule(); if (p>=0) switchTo(p); return true; } S->th.clear(); S->shadow=nullptr; break; }
    case B_pthread_mutex_init: case B_pthread_mutexattr_init: case B_pthread_mutexattr_settype: case B_pthread_mutexattr_destroy: case B___pthread_key_create: ret({0,nullptr}); break;
    // ---- harness interface ----
    case B_sx_int: case B_sx_u32: case B_sx_u64: {
      int64_t lo=0; uint64_t n; unsigned W=32;
      if (b==B_sx_int) { lo=(int32_t)conc(A(0)); int64_t hi=(int32_t)conc(A(1)); if (hi<lo) throw EngineError{"sx_int with empty range"}; n=(uint64_t)(hi-lo); }
      else if (b==B_sx_u32) n=0xffffffffull; else { n=~0ull; W=64; }
      unsigned vw=1; while (vw<64 && (n>>vw)) vw++;
      unsigned idx=S->ins.size(); S->ins.push_back({(uint16_t)vw,lo,n}); st->inputs=std::max<uint64_t>(st->inputs,idx+1);
      if (S->model && S->model->v.size()>idx && S->model->v[idx]) { auto m=std::make_shared<Model>(*S->model); if (S->forced.empty()) m->v[idx]=0; S->model=m; }
      if (idx<pinned.size()) { ret({(uint64_t)pinned[idx] & (uint64_t)maskw(W),nullptr}); break; }
      if (n==0) { ret({(uint64_t)lo & (uint64_t)maskw(W),nullptr}); break; }
      E v=X.var(idx,vw); if (n!=(uint64_t)maskw(vw)) S->cons.push_back(X.cmp(O_ULE,v,X.cst(n,vw)));
      rete(X.bin(O_ADD,X.zext(v,W),X.cst((u128)(uint64_t)lo,W))); break; }
    case B_sx_concretize: ret({conc(A(0)),nullptr}); break;
    case B_sx_assume: { E c=ex(A(0),32); if (c->w!=1) c=X.bnot(X.cmp(O_EQ,c,X.cst(0,c->w))); assume(c); break; }
    case B_sx_check: { E c=ex(A(0),32); if (c->w!=1) c=X.bnot(X.cmp(O_EQ,c,X.cst(0,c->w))); st->checks++; S->checks++; if (c->op!=O_CONST) st->checksSolver++; if (!branch(c)) viol(cstr(conc(A(1))),"check failed"); break; }
    case B_sx_fail: viol(cstr(conc(A(0))),"failure reported by the harness");
    case B_sx_observe: { const Val& v=A(0); S->obsE.push_back(v.e); S->obsC.push_back(v.c); break; }
    case B_sx_reach: st->reach[cstr(conc(A(0)))]++; break;
    case B_sx_is_native: ret({0,nullptr}); break;
    default: throw EngineError{string("builtin not modelled: ")+builtinNames[b]};
  }
  return false;
}

void Exec::step1(){
  Frame& F=S->fr.back(); Inst& I=F.f->code[F.pc];
  switch (I.k) {
    case K_BIN: {
      for (int s=0;s<I.nslots;s++) { const Val& a=get(I.a>=0?I.a+s:~(~I.a+s)); const Val& b=get(I.b>=0?I.b+s:~(~I.b+s)); unsigned w=I.w; Val r;
        if (!a.e&&!b.e) { uint64_t m=w>=64?~0ull:((1ull<<w)-1); uint64_t x=a.c,y=b.c;
          switch (I.sub) { case O_ADD:r={(x+y)&m,nullptr};break; case O_SUB:r={(x-y)&m,nullptr};break; case O_AND:r={x&y,nullptr};break; case O_OR:r={x|y,nullptr};break; case O_XOR:r={x^y,nullptr};break; case O_MUL:r={(x*y)&m,nullptr};break; case O_SHL:r={y>=w?0:(x<<y)&m,nullptr};break; case O_LSHR:r={y>=w?0:x>>y,nullptr};break;
            default: if ((I.sub==O_UDIV||I.sub==O_SDIV||I.sub==O_UREM||I.sub==O_SREM)&&y==0) viol("division-by-zero"); r={(uint64_t)ExprPool::fold((Op)I.sub,w,x,y),nullptr}; } }
        else { E x=ex(a,w),y=ex(b,w); if (I.sub==O_UDIV||I.sub==O_SDIV||I.sub==O_UREM||I.sub==O_SREM) { E z=X.cmp(O_EQ,y,X.cst(0,w)); if (z->op!=O_CONST? branch(z) : z->k!=0) viol("division-by-zero"); } r=mk(X.bin((Op)I.sub,x,y)); }
        reg(I.dst+s)=r; }
      F.pc++; break; }
    case K_CMP: {
      for (int s=0;s<I.nslots;s++) { const Val& a=get(I.a>=0?I.a+s:~(~I.a+s)); const Val& b=get(I.b>=0?I.b+s:~(~I.b+s));
        if (!a.e&&!b.e) { bool r; if (I.sub==O_EQ) r=a.c==b.c; else if (I.sub==O_ULT) r=a.c<b.c; else if (I.sub==O_ULE) r=a.c<=b.c; else r=ExprPool::fold((Op)I.sub,I.w,a.c,b.c); reg(I.dst+s)={(uint64_t)(r^I.inv),nullptr}; }
        else { E r=X.cmp((Op)I.sub,ex(a,I.w),ex(b,I.w)); if (I.inv) r=X.bnot(r); reg(I.dst+s)=mk(r); } }
      F.pc++; break; }
    case K_CAST: {
      for (int s=0;s<I.nslots;s++) { const Val& a=get(I.a>=0?I.a+s:~(~I.a+s)); Val r;
        if (!a.e&&I.w2<=64) { uint64_t x=a.c; if (I.sub) x=(uint64_t)sxt(x,I.w); r={I.w2>=64?x:x&((1ull<<I.w2)-1),nullptr}; }
        else { E e=ex(a,I.w); if (I.w2<I.w) e=X.extract(e,0,I.w2); else if (I.sub) e=X.sext(e,I.w2); else e=X.zext(e,I.w2); r=mk(e); }
        reg(I.dst+s)=r; }
      F.pc++; break; }
    case K_SELECT: {
      const Val& c=get(I.a); bool known=!c.e; bool cv=known?c.c:false;
      if (!known) { bool need=I.inv; if (!need) for (int s=0;s<I.nslots;s++) if (I.leaves[s].bits>64) need=true; if (need) { cv=branch(c.e); known=true; } }
      for (int s=0;s<I.nslots;s++) { Val a=get(I.b>=0?I.b+s:~(~I.b+s)), b=get(I.c>=0?I.c+s:~(~I.c+s)); if (known) reg(I.dst+s)=cv?a:b; else { unsigned w=I.leaves[s].bits; reg(I.dst+s)=mk(X.ite(get(I.a).e,ex(a,w),ex(b,w))); } }
      F.pc++; break; }
    case K_LOAD: {
      uint64_t a=conc(get(I.a));
      if (I.leaves.empty()) { F.pc++; break; }
      uint64_t lo=I.leaves.front().off, hi=I.leaves.back().off+(I.leaves.back().bits+7)/8;
      atomicAcc=I.atomic; Obj* o=find(a+lo,hi-lo,false,"read")->o; atomicAcc=false; if (I.atomic) acq(a);
      for (size_t s=0;s<I.leaves.size();s++) reg(I.dst+s)=loadBits(o,a+I.leaves[s].off-o->base,I.leaves[s].bits);
      F.pc++; break; }
    case K_STORE: {
      uint64_t a=conc(get(I.a)); if (I.leaves.empty()) { F.pc++; break; }
      uint64_t lo=I.leaves.front().off, hi=I.leaves.back().off+(I.leaves.back().bits+7)/8;
      atomicAcc=I.atomic; Obj* o=find(a+lo,hi-lo,true,"write")->o; atomicAcc=false; if (I.atomic) rel(a);
      for (size_t s=0;s<I.leaves.size();s++) storeBits(o,a+I.leaves[s].off-o->base,I.leaves[s].bits,get(I.b>=0?I.b+(int)s:~(~I.b+(int)s)));
      F.pc++; break; }
    case K_GEP: {
      const Val& p=get(I.a); 
      if (I.scaled.empty()&&!p.e) { reg(I.dst)={p.c+I.off,nullptr}; F.pc++; break; }
      bool sym=p.e; for (auto& x: I.scaled) if (get(x.first).e) sym=true;
      if (!sym) { uint64_t r=p.c+I.off; for (size_t i=0;i<I.scaled.size();i++) r+=(uint64_t)((int64_t)sxt(get(I.scaled[i].first).c,I.idxw[i])*I.scaled[i].second); reg(I.dst)={r,nullptr}; }
      else { E r=X.bin(O_ADD,ex(p,64),X.cst((uint64_t)I.off,64)); for (size_t i=0;i<I.scaled.size();i++) r=X.bin(O_ADD,r,X.bin(O_MUL,X.sext(ex(get(I.scaled[i].first),I.idxw[i]),64),X.cst((uint64_t)I.scaled[i].second,64))); reg(I.dst)=mk(r); }
      F.pc++; break; }
    case K_ALLOCA: { uint64_t n=conc(get(I.a))*I.off; uint64_t a=newObj(S->stk,S->stTop,n,I.align,'s'); reg(I.dst)={a,nullptr}; F.pc++; break; }
    case K_BR: gotoBB(I.t1,I.bb); break;
    case K_CBR: { const Val& c=get(I.a); bool v=c.e?branch(c.e):(c.c&1); gotoBB(v?I.t1:I.t2,I.bb); break; }
    case K_SWITCH: { const Val& v=get(I.a); int t=I.t1;
      if (!v.e) { for (auto& c: I.cases) if (c.first==v.c) { t=c.second; break; } }
      else { E e=v.e; for (auto& c: I.cases) { E q=X.cmp(O_EQ,e,X.cst(c.first,I.w)); if (q->op==O_CONST? q->k!=0 : branch(q)) { t=c.second; break; } } }
      gotoBB(t,I.bb); break; }
    case K_RET: {
      if (S->fr.size()==1&&!S->th.empty()) { if (!S->cur) throw EngineError{"the main thread ended before the others"}; Ctx& c=S->th[S->cur]; if (!c.done&&!S->caught.empty()) viol("exception-model","thread ended inside a handler"); c.done=true; int p=schedule(); if (p<0) break; popFrame(); switchTo(p); break; }
      Val r[16]; if (I.nslots>16) unsupported("big return"); for (int s=0;s<I.nslots;s++) r[s]=get(I.a>=0?I.a+s:~(~I.a+s));
      bool noadv=F.dtorOnly; int ns=I.nslots; popFrame(); if (S->fr.empty()) throw Stop{0,"",""};
      if (noadv) break;
      Inst& C=S->fr.back().f->code[S->fr.back().pc]; if (C.dst>=0) for (int s=0;s<ns&&s<C.nslots;s++) reg(C.dst+s)=r[s];
      finishCall(C); break; }
    case K_CALL: case K_INVOKE: {
      Fn* f=I.callee; int b=I.builtin;
      if (!f&&b<0) { uint64_t a=conc(get(I.a)); if (a<FN_BASE||(a-FN_BASE)%16||(a-FN_BASE)/16>=fnByIdx.size()) viol("memory-safety","call through an invalid function pointer"); f=fnByIdx[(a-FN_BASE)/16]; if (!f->hasBody) b=f->builtin; }
      if (f&&!f->hasBody&&b<0) throw EngineError{"call of external function "+demangle(f->name)+" ("+f->name+")"};
      if (b>=0) { try { if (!builtin(I,b)) finishCall(I); } catch (Jump&) {} break; }
      vector<Val> args; for (size_t i=0;i<I.ops.size();i++) { if (I.byval[i]) { uint64_t src=conc(get(I.ops[i])); (void)src; } }
      uint32_t smark=S->stk.size();
      for (size_t i=0;i<I.ops.size();i++) { if (I.byval[i]) { uint64_t src=conc(get(I.ops[i])); uint64_t d=newObj(S->stk,S->stTop,I.byval[i],16,'s'); copyMem(d,src,I.byval[i]); args.push_back({d,nullptr}); } else for (int s=0;s<I.opslots[i];s++) args.push_back(get(I.ops[i]>=0?I.ops[i]+s:~(~I.ops[i]+s))); }
      pushFrame(f,args,false); S->fr.back().stackMark=smark; break; }
    case K_RESUME: { uint64_t o=conc(get(I.a)); popFrame(); if (S->fr.empty()) viol("uncaught-exception",""); unwind(o); break; }
    case K_UNREACH: viol("unreachable","execution reached an unreachable point (undefined behaviour)");
    case K_INSERTV: { for (int s=0;s<I.nslots;s++) { bool in=s>=I.t1&&s<I.t1+I.t2; int o; if (in) { int q=s-I.t1; o=I.b>=0?I.b+q:~(~I.b+q); } else o=I.a>=0?I.a+s:~(~I.a+s); Val v=get(o); reg(I.dst+s)=v; } F.pc++; break; }
    case K_MOVE: { for (int s=0;s<I.nslots;s++) { Val v=get(I.a>=0?I.a+s:~(~I.a+s)); reg(I.dst+s)=v; } F.pc++; break; }
    case K_SHUF: { for (int s=0;s<I.nslots;s++) { Val v=get(I.ops[s]); reg(I.dst+s)=v; } F.pc++; break; }
    case K_FNEG: { for (int s=0;s<I.nslots;s++) { long double x=fval(get(I.a>=0?I.a+s:~(~I.a+s)),I.w); reg(I.dst+s)=fmk(-x,I.w); } F.pc++; break; }
    case K_FBIN: { for (int s=0;s<I.nslots;s++) { long double x=fval(get(I.a>=0?I.a+s:~(~I.a+s)),I.w),y=fval(get(I.b>=0?I.b+s:~(~I.b+s)),I.w),r;
        if (I.w==32) { float p=(float)x,q=(float)y; switch(I.sub){case Instruction::FAdd:r=p+q;break;case Instruction::FSub:r=p-q;break;case Instruction::FMul:r=p*q;break;case Instruction::FDiv:r=p/q;break;default:r=fmodf(p,q);} }
        else if (I.w==64) { double p=(double)x,q=(double)y; switch(I.sub){case Instruction::FAdd:r=p+q;break;case Instruction::FSub:r=p-q;break;case Instruction::FMul:r=p*q;break;case Instruction::FDiv:r=p/q;break;default:r=fmod(p,q);} }
        else switch(I.sub){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmodl(x,y);}
        reg(I.dst+s)=fmk(r,I.w); } F.pc++; break; }
    case K_FCMP: { long double x=fval(get(I.a),I.w),y=fval(get(I.b),I.w); bool un=x!=x||y!=y,r=false; switch((CmpInst::Predicate)I.sub){ case CmpInst::FCMP_FALSE:r=false;break; case CmpInst::FCMP_TRUE:r=true;break; case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; default:break; } reg(I.dst)={(uint64_t)r,nullptr}; F.pc++; break; }
    case K_FCAST: { 
      switch (I.sub) {
        case Instruction::UIToFP: { uint64_t x=conc(get(I.a)); reg(I.dst)= I.w2==32?Val{fromF((float)x),nullptr}: I.w2==64?Val{fromD((double)x),nullptr}:fromL((long double)x); break; }
        case Instruction::SIToFP: { int64_t x=(int64_t)sxt(conc(get(I.a)),I.w); reg(I.dst)= I.w2==32?Val{fromF((float)x),nullptr}: I.w2==64?Val{fromD((double)x),nullptr}:fromL((long double)x); break; }
        case Instruction::FPToUI: { long double x=fval(get(I.a),I.w); uint64_t r= x<=-1.0L||x>=18446744073709551616.0L? 0 : (uint64_t)x; reg(I.dst)=mkc(r,I.w2); break; }
        case Instruction::FPToSI: { long double x=fval(get(I.a),I.w); reg(I.dst)=mkc((u128)(uint64_t)(int64_t)x,I.w2); break; }
        case Instruction::FPExt: case Instruction::FPTrunc: { long double x=fval(get(I.a),I.w); reg(I.dst)=fmk(x,I.w2); break; }
        default: unsupported("fp cast"); }
      F.pc++; break; }
    case K_ATOMICRMW: { uint64_t a=conc(get(I.a)); unsigned n=(I.w+7)/8; atomicAcc=true; Obj* o=find(a,n,true,"atomic")->o; atomicAcc=false; acq(a); rel(a); Val old=loadBits(o,a-o->base,I.w); E x=ex(old,I.w),y=ex(get(I.b),I.w); E r; switch((AtomicRMWInst::BinOp)I.sub){ case AtomicRMWInst::Add:r=X.bin(O_ADD,x,y);break; case AtomicRMWInst::Sub:r=X.bin(O_SUB,x,y);break; case AtomicRMWInst::Xchg:r=y;break; case AtomicRMWInst::And:r=X.bin(O_AND,x,y);break; case AtomicRMWInst::Or:r=X.bin(O_OR,x,y);break; default: unsupported("atomicrmw"); } storeBits(o,a-o->base,I.w,mk(r)); reg(I.dst)=old; F.pc++; break; }
    case K_CMPXCHG: { uint64_t a=conc(get(I.a)); unsigned n=(I.w+7)/8; atomicAcc=true; Obj* o=find(a,n,false,"atomic")->o; atomicAcc=false; Val old=loadBits(o,a-o->base,I.w); E q=X.cmp(O_EQ,ex(old,I.w),ex(get(I.b),I.w)); bool eq=q->op==O_CONST?q->k!=0:branch(q); acq(a); if (eq) { atomicAcc=true; o=find(a,n,true,"atomic")->o; atomicAcc=false; rel(a); storeBits(o,a-o->base,I.w,get(I.c)); } reg(I.dst)=old; reg(I.dst+1)={(uint64_t)eq,nullptr}; F.pc++; break; }
    case K_NOP: F.pc++; break;
    default: unsupported("kind");
  }
}

void Exec::run(){
  // executes S until the path ends; throws Stop / EngineError
  while (true) { beginInst(); step1(); S->steps++; st->steps++; if (!(S->steps&4095)&&stopFlag&&*stopFlag) throw Stop{3,"",""}; if (S->steps>maxSteps) viol("non-termination","step bound exceeded"); }
}

// ------------------------------------------------------------ exploration --
static State* initialState(int entry){
  State* s=new State; s->entry=entry; s->glob=initGlob; s->model=std::make_shared<Model>();
  Exec x; x.S=s; vector<Fn*> ctors;
  if (auto* g=mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca=dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o: ca->operands()) { auto* cs=cast<ConstantStruct>(o); if (auto* f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(getFn(f)); }
  Fn* ef=getFn(mod->getFunction(entries[entry])); x.pushFrame(ef,{},true);
  for (size_t i=ctors.size();i-->0;) x.pushFrame(ctors[i],{},true);
  return s;
}
struct Sample { int entry; vector<int64_t> in; uint64_t digest; uint64_t nobs; };
static vector<int64_t> inputsOf(State& s){ vector<int64_t> r; for (size_t i=0;i<s.ins.size();i++) { uint64_t v= s.model&&i<s.model->v.size()? s.model->v[i]:0; v&=(uint64_t)maskw(s.ins[i].w); r.push_back((int64_t)(v+(uint64_t)s.ins[i].lo)); } return r; }
static uint64_t digestOf(State& s){ uint64_t h=1469598103934665603ull; for (size_t i=0;i<s.obsC.size();i++) { uint64_t v=s.obsE[i]? (uint64_t)X.eval(s.obsE[i],*s.model):s.obsC[i]; for (int b=0;b<8;b++) { h^=(v>>(8*b))&255; h*=1099511628211ull; } } return h; }

struct Shared { volatile int idle; volatile int stop; volatile uint64_t paths; };
static Shared* SH;

static string jstr(const string& s){ string r="\""; for (char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if ((unsigned char)c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static bool wrAll(int fd,const void* p,size_t n){ const char* c=(const char*)p; while (n) { ssize_t k=write(fd,c,n); if (k<0) { if (errno==EINTR) continue; return false; } c+=k; n-=k; } return true; }
static bool rdAll(int fd,void* p,size_t n){ char* c=(char*)p; while (n) { ssize_t k=read(fd,c,n); if (k<0&&errno==EINTR) continue; if (k<=0) return false; c+=k; n-=k; } return true; }
static void sendMsg(int fd,char t,const string& b){ uint32_t n=b.size(); string h(1,t); h.append((char*)&n,4); h+=b; wrAll(fd,h.data(),h.size()); }
static bool recvMsg(int fd,char& t,string& b){ char h[5]; if(!rdAll(fd,h,5)) return false; t=h[0]; uint32_t n; memcpy(&n,h+1,4); b.resize(n); return n==0||rdAll(fd,&b[0],n); }
static string packJob(State& s){ vector<FDec> v; for (Dec* d=s.trail.d;d;d=d->prev) v.push_back({d->v,d->forked,d->fp}); std::reverse(v.begin(),v.end()); for (auto& f: s.forced) v.push_back(f); string b; int e=s.entry; b.append((char*)&e,4); for (auto& f: v) { b.append((char*)&f.v,8); b+=(char)f.kind; b.append((char*)&f.fp,4); } return b; }
static State* unpackJob(const string& b){ int e; memcpy(&e,b.data(),4); State* s=initialState(e); for (size_t i=4;i<b.size();i+=13) { FDec f; memcpy(&f.v,&b[i],8); f.kind=b[i+8]; memcpy(&f.fp,&b[i+9],4); s->forced.push_back(f); } if (!s->forced.empty()) s->model=nullptr; return s; }

static void workerMain(int fd,int id,uint64_t seed,int nsamples,uint64_t maxPaths){
  prctl(PR_SET_PDEATHSIG,SIGKILL); Z.init(3000); stopFlag=&SH->stop;
  vector<EStats> stats(entries.size()); vector<vector<Sample>> samples(entries.size()); vector<uint64_t> seen(entries.size());
  uint64_t rng=seed*6364136223846793005ull+id*1442695040888963407ull+1; auto rnd=[&]{ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; };
  std::deque<State*> dfs; Exec X1; X1.dfs=&dfs; std::map<std::pair<int,string>,int> vcount; uint64_t ndon=0;
  char t; string b;
  while (recvMsg(fd,t,b)) {
    if (t=='Q') break;
    try {
      dfs.push_back(unpackJob(b));
      while (!dfs.empty()) {
        if (SH->stop) { for (auto* s: dfs) delete s; dfs.clear(); break; }
        State* s=dfs.back(); dfs.pop_back(); X1.S=s; EStats& st=stats[s->entry]; X1.st=&st; int kind=0; string lab,det;
        try { X1.run(); } catch (Stop& e) { kind=e.kind; lab=e.label; det=e.detail; if (kind==3) { delete s; continue; }
          if (kind==0) { for (auto& o: s->heap) if (o->kind!='x') { kind=1; lab="leak"; char z[80]; snprintf(z,80,"%llu-byte block (allocation #%u) never freed",(unsigned long long)o->size,o->allocId); det=z; break; } }
          if (kind!=2) try { X1.ensureModel(); } catch (Stop&) { kind=2; }
        }
        s->trail.d? st.maxDepth=std::max<uint64_t>(st.maxDepth,s->cons.size()):0;
        if (kind==2) st.infeasible++; else { st.paths++; __sync_fetch_and_add(&SH->paths,1); }
        if (kind==0) { auto& sv=samples[s->entry]; uint64_t n=++seen[s->entry]; int slot=-1; if ((int)sv.size()<nsamples) { sv.push_back({}); slot=sv.size()-1; } else { uint64_t r=rnd()%n; if (r<(uint64_t)nsamples) slot=(int)r; } if (slot>=0) sv[slot]={s->entry,inputsOf(*s),digestOf(*s),s->obsC.size()}; }
        if (kind==1 && vcount[{s->entry,lab}]++<3) { std::ostringstream o; o<<"{\"entry\":"<<jstr(entries[s->entry])<<",\"label\":"<<jstr(lab)<<",\"detail\":"<<jstr(det)<<",\"inputs\":["; auto in=inputsOf(*s); for (size_t i=0;i<in.size();i++) o<<(i?",":"")<<in[i]; o<<"],\"steps\":"<<s->steps<<",\"stack\":["; int k=0; for (int i=(int)s->fr.size()-1;i>=0&&k<12;i--,k++) { string where=demangle(s->fr[i].f->name); if (where.size()>300) where=where.substr(0,300)+"..."; auto* src=s->fr[i].f->code[s->fr[i].pc].src; if (src&&src->getDebugLoc()) { where+=" at "; where+=src->getDebugLoc()->getFilename().str()+":"+std::to_string(src->getDebugLoc().getLine()); } o<<(k?",":"")<<jstr(where); } o<<"]}"; sendMsg(fd,'V',o.str()); }
        delete s;
        if (SH->idle>0 && dfs.size()>=2) { int give=std::min<int>((int)SH->idle,(int)dfs.size()-1); while (give-->0) { State* d=dfs.front(); dfs.pop_front(); sendMsg(fd,'D',packJob(*d)); delete d; ndon++; __sync_fetch_and_sub(&SH->idle,1);} }
        if (maxPaths && SH->paths>=maxPaths) SH->stop=2;
        if (X.size()>6000000) { /* bounded memory: expressions are never freed */ throw EngineError{"expression pool exhausted"}; }
      }
      sendMsg(fd,'R',"");
    } catch (EngineError& e) { for (auto* s: dfs) delete s; dfs.clear(); sendMsg(fd,'E',e.msg); sendMsg(fd,'R',""); }
  }
  // final report
  std::ostringstream o; o<<"{\"queries\":"<<Z.queries<<",\"sat\":"<<Z.nsat<<",\"unsat\":"<<Z.nunsat<<",\"unknown\":"<<Z.nunknown<<",\"secs\":"<<Z.secs<<",\"cache_hits\":"<<Z.hits<<",\"exprs\":"<<X.size()<<",\"donated\":"<<ndon<<",\"entries\":[";
  for (size_t i=0;i<entries.size();i++) { auto& s=stats[i]; o<<(i?",":"")<<"{\"paths\":"<<s.paths<<",\"infeasible\":"<<s.infeasible<<",\"forks\":"<<s.forks<<",\"branches\":"<<s.branches<<",\"checks\":"<<s.checks<<",\"checks_solver\":"<<s.checksSolver<<",\"steps\":"<<s.steps<<",\"inputs\":"<<s.inputs<<",\"depth\":"<<s.maxDepth<<",\"concretizations\":"<<s.concretizations<<",\"reach\":{"; bool f=true; for (auto& r: s.reach) { o<<(f?"":",")<<jstr(r.first)<<":"<<r.second; f=false; }
    o<<"},\"samples\":["; f=true; for (auto& q: samples[i]) { o<<(f?"":",")<<"{\"in\":["; for (size_t k=0;k<q.in.size();k++) o<<(k?",":"")<<q.in[k]; o<<"],\"digest\":\""<<std::hex<<q.digest<<std::dec<<"\",\"nobs\":"<<q.nobs<<"}"; f=false; } o<<"]}"; }
  o<<"],\"functions\":["; bool f=true; for (auto* fn: fnByIdx) if (fn->executed&&fn->interesting) { o<<(f?"":",")<<"["<<jstr(fn->name)<<",\""; for (auto c: fn->bbcov) o<<(c?'1':'0'); o<<"\"]"; f=false; } o<<"]}";
  sendMsg(fd,'F',o.str()); _exit(0);
}

static int runMaster(int jobs,double timeout,const string& out,uint64_t seed,int nsamples,uint64_t maxPaths){
  double t0=now(); SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); SH->idle=0; SH->stop=0; SH->paths=0;
  vector<int> fds; vector<pid_t> pids;
  for (int i=0;i<jobs;i++) { int sv[2]; socketpair(AF_UNIX,SOCK_STREAM,0,sv); pid_t p=fork(); if (!p) { close(sv[0]); for (int f: fds) close(f); workerMain(sv[1],i,seed,nsamples,maxPaths); _exit(0); } close(sv[1]); fds.push_back(sv[0]); pids.push_back(p); }
  std::deque<string> queue; for (size_t e=0;e<entries.size();e++) { string b; int x=e; b.append((char*)&x,4); queue.push_back(b); }
  vector<bool> busy(jobs,false), dead(jobs,false); vector<string> viols, errors, finals; bool timedout=false;
  auto dispatch=[&]{ for (int i=0;i<jobs;i++) if (!busy[i]&&!dead[i]&&!queue.empty()) { string j=queue.front(); queue.pop_front(); busy[i]=true; sendMsg(fds[i],'J',j); }
    int idle=0; for (int i=0;i<jobs;i++) if (!busy[i]&&!dead[i]) idle++; SH->idle=idle; };
  dispatch();
  while (true) {
    bool any=false; for (int i=0;i<jobs;i++) any|=busy[i]; if (!any&&queue.empty()) break; if (!any&&SH->stop) break;
    vector<pollfd> p; for (int i=0;i<jobs;i++) p.push_back({dead[i]?-1:fds[i],POLLIN,0}); poll(p.data(),p.size(),200);
    if (!SH->stop && now()-t0>timeout) { SH->stop=1; timedout=true; }
    if (SH->stop) queue.clear();
    if (now()-t0>timeout+90) { errors.push_back("worker did not stop"); break; }
    for (int i=0;i<jobs;i++) if (p[i].revents) { char t; string b; if (!recvMsg(fds[i],t,b)) { dead[i]=true; busy[i]=false; errors.push_back("worker died"); SH->stop=3; continue; }
      if (t=='D') { if (!SH->stop) queue.push_back(b); } else if (t=='R') busy[i]=false; else if (t=='V') viols.push_back(b); else if (t=='E') { errors.push_back(b); } }
    dispatch();
  }
  SH->idle=0; for (int i=0;i<jobs;i++) if (!dead[i]&&!busy[i]) { sendMsg(fds[i],'Q',""); char t; string b; while (recvMsg(fds[i],t,b)) { if (t=='F') { finals.push_back(b); break; } if (t=='V') viols.push_back(b); } }
  for (pid_t p: pids) { kill(p,SIGKILL); waitpid(p,nullptr,0); }
  FILE* f=out.empty()?stdout:fopen(out.c_str(),"w");
  fprintf(f,"{\"complete\":%s,\"timed_out\":%s,\"wall\":%.3f,\"entries\":[",(!timedout&&!SH->stop&&errors.empty())?"true":"false",timedout?"true":"false",now()-t0);
  for (size_t i=0;i<entries.size();i++) fprintf(f,"%s%s",i?",":"",jstr(entries[i]).c_str());
  fprintf(f,"],\"errors\":["); for (size_t i=0;i<errors.size();i++) fprintf(f,"%s%s",i?",":"",jstr(errors[i]).c_str());
  fprintf(f,"],\"violations\":["); for (size_t i=0;i<viols.size();i++) fprintf(f,"%s%s",i?",":"",viols[i].c_str());
  fprintf(f,"],\"workers\":["); for (size_t i=0;i<finals.size();i++) fprintf(f,"%s%s",i?",\n":"",finals[i].c_str());
  fprintf(f,"]}\n"); if (f!=stdout) fclose(f); return 0;
}
