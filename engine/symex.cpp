// symex: bounded symbolic execution of LLVM IR with Z3.
//
//   symex MODULE.bc --entry NAME[,NAME...] [--jobs N] [--timeout S] [--seed N]
//         [--max-steps N] [--samples N] [--max-paths N] --out RESULT.json
//
// Pointers are concrete 64-bit addresses in a per-path address space; integers
// are concrete or Z3 bit-vector terms. Both outcomes of every branch that the
// solver finds feasible are explored; checks are decided by the solver.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <algorithm>
#include <cmath>
#include <deque>
#include <map>
#include <unordered_map>
#include <memory>
#include <set>
#include <sstream>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector;

static ExprPool X;
static Z3Solver Z;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

struct Val { uint64_t c; E e; };

struct EngineError { string msg; };
[[noreturn]] static void unsupported(const string& m){ throw EngineError{m}; }

// ------------------------------------------------------------ memory --
struct SymB { E e; uint8_t i; };
struct Obj {
  uint32_t rc=0; uint8_t kind; bool ro=false; // kind: 'g','s','h'(new),'a'(new[]),'m'(malloc),'x'(exception)
  uint64_t base, size;
  vector<uint8_t> d, st; vector<SymB> s;
  uint32_t allocId=0;
};
struct ObjP {
  Obj* o=nullptr;
  ObjP(){} ObjP(Obj* p):o(p){ if(o)o->rc++; } ObjP(const ObjP& x):o(x.o){ if(o)o->rc++; } ObjP(ObjP&& x)noexcept:o(x.o){x.o=nullptr;}
  ObjP& operator=(ObjP x){ std::swap(o,x.o); return *this; }
  ~ObjP(){ if(o&&--o->rc==0) delete o; }
  Obj* operator->()const{return o;}
};
static const uint64_t FN_BASE=0x100000, GL_BASE=0x10000000, ST_BASE=0x200000000ull, HP_BASE=0x400000000ull;

// ------------------------------------------------------------ trail --
struct Dec { uint32_t rc; Dec* prev; uint64_t v; uint32_t n; uint8_t forked; uint32_t fp; };
static void decUnref(Dec* d){ while(d&&--d->rc==0){ Dec* p=d->prev; delete d; d=p; } }
struct DecP { Dec* d=nullptr; DecP(){} DecP(const DecP&o):d(o.d){if(d)d->rc++;} DecP& operator=(const DecP&o){ if(o.d)o.d->rc++; decUnref(d); d=o.d; return *this;} ~DecP(){decUnref(d);}
  void add(uint64_t v,uint8_t f,uint32_t fp){ Dec* n=new Dec{1,d,v,d?d->n+1:1,f,fp}; d=n; } };
struct FDec { uint64_t v; uint8_t kind; uint32_t fp; };

// ------------------------------------------------------------ code --
enum Kind : uint8_t { K_BIN, K_CMP, K_CAST, K_SELECT, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_BR, K_CBR, K_SWITCH, K_RET,
  K_CALL, K_INVOKE, K_RESUME, K_UNREACH, K_EXTRACTV, K_INSERTV, K_LPAD, K_FREEZE, K_FBIN, K_FCMP, K_FNEG, K_FCAST,
  K_EXTELT, K_INSELT, K_SHUF, K_ATOMICRMW, K_CMPXCHG, K_NOP, K_MOVE };
struct Fn;
struct Leaf { uint32_t off; uint16_t bits; };   // bits = value width in bits
struct BBInfo { int start=0; vector<std::pair<int,vector<std::pair<int,int>>>> phis; int id=0; bool lp=false; };
struct Inst {
  Kind k; uint8_t sub=0; bool inv=false, nsw=false, atomic=false; uint16_t w=0, w2=0; int dst=-1; int nslots=1;
  int a=0,b=0,c=0; vector<int> ops; vector<int> opslots; vector<Leaf> leaves;
  int64_t off=0; vector<std::pair<int,int64_t>> scaled; vector<uint16_t> idxw; // gep: (operand, scale)
  int t1=-1,t2=-1; int bb=-1; vector<std::pair<u128,int>> cases;
  Fn* callee=nullptr; int builtin=-1; const Instruction* src=nullptr; uint64_t align=1;
  vector<uint64_t> byval; // per arg: size or 0
};
struct Fn {
  const Function* f; string name; bool decoded=false, hasBody=false; int builtin=-1; uint64_t addr=0;
  vector<Inst> code; vector<BBInfo> bbs; int nregs=0; int nargslots=0; bool interesting=false; vector<uint8_t> bbcov; bool executed=false;
};
struct Frame { Fn* f; int pc; uint32_t rbase; uint32_t stackMark; int prevbb; bool dtorOnly=false; };
struct Exc { uint64_t obj, ti, dtor; int handlers; bool rethrown; };

// ---- threads (sx_spawn / sx_join_all); thread t's stack lives at ST_BASE + t*2^30 ----
static const int MAXT=4; static int preemptBound=2;
struct VC { uint32_t c[MAXT]={0,0,0,0}; void join(const VC& o){ for (int i=0;i<MAXT;i++) if (o.c[i]>c[i]) c[i]=o.c[i]; } };
struct Ctx { vector<Val> regs; vector<Frame> fr; vector<ObjP> stk; uint64_t stTop=0; vector<Exc> excs; vector<uint64_t> caught; bool done=false, atLock=false, joining=false; uint64_t wait=0; VC vc; };
struct Mx { uint64_t a; int owner; VC vc; };               // mutex, or an address used for synchronisation
struct Shd { uint32_t wc=0, r[MAXT]={0,0,0,0}; uint8_t wt=0; };  // happens-before shadow of one byte
typedef std::unordered_map<uint64_t,Shd> Shadow;

struct State {
  vector<Ctx> th; int cur=0, schedVar=-1, preempt=0; vector<Mx> mx; std::shared_ptr<Shadow> shadow;
  vector<Val> regs; vector<Frame> fr; vector<ObjP> glob, stk, heap;
  uint64_t stTop=ST_BASE, hpTop=HP_BASE; uint32_t allocs=0;
  vector<E> cons; DecP trail; std::deque<FDec> forced; std::shared_ptr<Model> model;
  struct In { uint16_t w; int64_t lo; uint64_t hi; };
  vector<In> ins; uint32_t nuninit=0;
  vector<E> obsE; vector<uint64_t> obsC; // observed values (E null => concrete)
  vector<Exc> excs; vector<uint64_t> caught; // exception object addresses
  struct KE { E e; bool v; }; KE known[128]; 
  uint64_t steps=0; int entry=0; uint32_t forks=0; uint64_t checks=0;
  State(){ memset(known,0,sizeof known); }
};

struct Violation { string label, detail; };
struct PathEnd { int kind; Violation v; };  // 0 done, 1 violation, 2 assume false/infeasible

// ------------------------------------------------------------ globals of engine --
static std::unique_ptr<Module> mod; static const DataLayout* DL;
static vector<Val> pool; // constants: operand index ~i
static std::map<const Function*,Fn*> fns; static vector<Fn*> fnByIdx;
static std::map<const GlobalValue*,uint64_t> gaddr; static vector<ObjP> initGlob;
static std::map<string,int> builtinIdx;
static uint64_t maxSteps=20000000; static bool symUninitErr=true;
static vector<string> entries;

struct EStats { uint64_t paths=0, infeasible=0, forks=0, branches=0, checks=0, checksSolver=0, steps=0, inputs=0, maxDepth=0, concretizations=0; std::map<string,uint64_t> reach; };

static Fn* getFn(const Function* f);

// ---- types --------------------------------------------------------
static void leavesOf(Type* t, uint64_t off, vector<Leaf>& out){
  if (auto* s=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) leavesOf(s->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if (auto* a=dyn_cast<ArrayType>(t)) { uint64_t es=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) leavesOf(a->getElementType(),off+i*es,out); return; }
  if (auto* v=dyn_cast<FixedVectorType>(t)) { uint64_t es=DL->getTypeSizeInBits(v->getElementType()); if(es%8) unsupported("vector of odd bits"); for(unsigned i=0;i<v->getNumElements();i++) leavesOf(v->getElementType(),off+i*es/8,out); return; }
  if (t->isPointerTy()) { out.push_back({(uint32_t)off,64}); return; }
  if (t->isIntegerTy()) { if(t->getIntegerBitWidth()>128) unsupported("int wider than 128"); out.push_back({(uint32_t)off,(uint16_t)t->getIntegerBitWidth()}); return; }
  if (t->isFloatTy()) { out.push_back({(uint32_t)off,32}); return; }
  if (t->isDoubleTy()) { out.push_back({(uint32_t)off,64}); return; }
  if (t->isX86_FP80Ty()) { out.push_back({(uint32_t)off,80}); return; }
  if (t->isVoidTy()||t->isTokenTy()||t->isMetadataTy()||t->isLabelTy()) return;
  string s; raw_string_ostream os(s); t->print(os); unsupported("type "+os.str());
}
static vector<Leaf> leaves(Type* t){ vector<Leaf> r; leavesOf(t,0,r); return r; }
static int slotsOf(Type* t){ return (int)leaves(t).size(); }

static uint64_t constAddr(const Constant* c);
static Val mkc(u128 v, unsigned w){ if (w>64) return {0,X.cst(v,w)}; return {(uint64_t)(v&maskw(w)),nullptr}; }
static u128 apToU(const APInt& a){ u128 r=a.getRawData()[0]; if(a.getBitWidth()>64) r|=(u128)a.getRawData()[1]<<64; return r & maskw(a.getBitWidth()); }

static void constVals(const Constant* c, vector<Val>& out){
  Type* t=c->getType();
  if (auto* ci=dyn_cast<ConstantInt>(c)) { out.push_back(mkc(apToU(ci->getValue()),ci->getBitWidth())); return; }
  if (auto* cf=dyn_cast<ConstantFP>(c)) { APInt b=cf->getValueAPF().bitcastToAPInt(); out.push_back(mkc(apToU(b),b.getBitWidth())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back({0,nullptr}); return; }
  if (isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) { for (auto& l: leaves(t)) out.push_back(mkc(0,l.bits)); return; }
  if (auto* ca=dyn_cast<ConstantAggregate>(c)) { for (auto& o: ca->operands()) constVals(cast<Constant>(o),out); return; }
  if (auto* cd=dyn_cast<ConstantDataSequential>(c)) { for(unsigned i=0;i<cd->getNumElements();i++) constVals(cd->getElementAsConstant(i),out); return; }
  out.push_back({constAddr(c) & (uint64_t)maskw(std::min<unsigned>(64,DL->getTypeSizeInBits(t))),nullptr});
}
static uint64_t constAddr(const Constant* c){
  if (auto* f=dyn_cast<Function>(c)) return getFn(f)->addr;
  if (auto* ga=dyn_cast<GlobalAlias>(c)) return constAddr(ga->getAliasee());
  if (auto* g=dyn_cast<GlobalVariable>(c)) { auto it=gaddr.find(g); if(it==gaddr.end()) unsupported("global "+g->getName().str()); return it->second; }
  if (auto* ci=dyn_cast<ConstantInt>(c)) return (uint64_t)apToU(ci->getValue());
  if (isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return 0;
  if (auto* ce=dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) unsupported("const gep"); return constAddr(ce->getOperand(0))+off.getSExtValue(); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: return constAddr(ce->getOperand(0));
      case Instruction::Add: return constAddr(ce->getOperand(0))+constAddr(ce->getOperand(1));
      case Instruction::Sub: return constAddr(ce->getOperand(0))-constAddr(ce->getOperand(1));
      case Instruction::ICmp: { uint64_t a=constAddr(ce->getOperand(0)),b=constAddr(ce->getOperand(1)); switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return a==b; case CmpInst::ICMP_NE: return a!=b; case CmpInst::ICMP_ULT: return a<b; case CmpInst::ICMP_UGT: return a>b; default: unsupported("const icmp"); } }
      default: break;
    }
  }
  string s; raw_string_ostream os(s); c->print(os); unsupported("constant "+os.str());
}
static void initMem(Obj* o, uint64_t off, const Constant* c){
  Type* t=c->getType();
  if (isa<UndefValue>(c)) { memset(&o->st[off],1,DL->getTypeStoreSize(t)); return; }
  if (isa<ConstantAggregateZero>(c)) { memset(&o->st[off],1,DL->getTypeAllocSize(t)); return; }
  if (auto* s=dyn_cast<ConstantStruct>(c)) { auto* sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initMem(o,off+sl->getElementOffset(i),s->getOperand(i)); return; }
  if (auto* a=dyn_cast<ConstantArray>(c)) { uint64_t es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) initMem(o,off+i*es,a->getOperand(i)); return; }
  if (auto* cd=dyn_cast<ConstantDataSequential>(c)) { uint64_t es=DL->getTypeAllocSize(cd->getElementType()); for(unsigned i=0;i<cd->getNumElements();i++) initMem(o,off+i*es,cd->getElementAsConstant(i)); return; }
  vector<Val> v; constVals(c,v); if (v.size()!=1) unsupported("init");
  uint64_t n=DL->getTypeStoreSize(t); u128 k=v[0].e? v[0].e->k : v[0].c; memcpy(&o->d[off],&k,std::min<uint64_t>(n,16)); memset(&o->st[off],1,n);
}

#include "builtins_list.h"

static Fn* getFn(const Function* f){
  auto it=fns.find(f); if (it!=fns.end()) return it->second;
  Fn* n=new Fn; n->f=f; n->name=f->getName().str(); n->hasBody=!f->isDeclaration(); n->addr=FN_BASE+16*fnByIdx.size(); fnByIdx.push_back(n); fns[f]=n;
  auto b=builtinIdx.find(n->name);
  if (b!=builtinIdx.end() && (!n->hasBody || n->name.rfind("sx_",0)==0)) { n->builtin=b->second; n->hasBody=false; }
  n->interesting = n->name.find("multi_index")!=string::npos;
  return n;
}
static int builtinFor(const Function* f){
  string n=f->getName().str(); auto b=builtinIdx.find(n); if (b!=builtinIdx.end()) return b->second;
  if (n.rfind("llvm.",0)==0) { // strip type suffixes
    string m=n; while (true) { auto p=m.rfind('.'); if (p==string::npos||p<5) break; m=m.substr(0,p); b=builtinIdx.find(m); if (b!=builtinIdx.end()) return b->second; }
  }
  return -1;
}

// ---- decoding -----------------------------------------------------
static void decode(Fn* fn){
  fn->decoded=true; const Function& F=*fn->f;
  std::map<const Value*,int> slot; int nr=0;
  for (auto& a: F.args()) { slot[&a]=nr; nr+=slotsOf(a.getType()); } fn->nargslots=nr;
  std::map<const BasicBlock*,int> bbid; int nb=0;
  for (auto& bb: F) { bbid[&bb]=nb++; for (auto& i: bb) { int n=i.getType()->isVoidTy()?0:slotsOf(i.getType()); if (n) { slot[&i]=nr; nr+=n; } } }
  fn->nregs=nr; fn->bbs.resize(nb); fn->bbcov.assign(nb,0);
  auto opd=[&](const Value* v)->int{
    if (auto* c=dyn_cast<Constant>(v)) { vector<Val> vs; constVals(c,vs); int id=pool.size(); for(auto&x:vs) pool.push_back(x); return ~id; }
    if (isa<MetadataAsValue>(v)||isa<BasicBlock>(v)) return 0;
    if (isa<InlineAsm>(v)) return 0;
    auto it=slot.find(v); if (it==slot.end()) unsupported("operand"); return it->second; };
  // NB: for multi-slot constants operand s is pool[~op + s]; for regs op + s.
  for (auto& bb: F) {
    BBInfo& B=fn->bbs[bbid[&bb]]; B.start=fn->code.size(); B.id=bbid[&bb];
    std::map<const BasicBlock*,bool> preds; 
    for (auto& phi: bb.phis()) {
      int n=slotsOf(phi.getType());
      for (unsigned i=0;i<phi.getNumIncomingValues();i++) {
        int p=bbid[phi.getIncomingBlock(i)]; auto it=std::find_if(B.phis.begin(),B.phis.end(),[&](auto&x){return x.first==p;});
        if (it==B.phis.end()) { B.phis.push_back({p,{}}); it=B.phis.end()-1; }
        bool dup=false; for (auto&m: it->second) if (m.first==slot[&phi]) dup=true; if (dup) continue;
        int o=opd(phi.getIncomingValue(i)); for (int s=0;s<n;s++) it->second.push_back({slot[&phi]+s, o>=0? o+s : ~(~o+s)}); }
    }
    for (auto& ins: bb) {
      if (isa<PHINode>(ins)) continue;
      Inst I; I.src=&ins; I.bb=B.id; if (slot.count(&ins)) I.dst=slot[&ins]; I.nslots=ins.getType()->isVoidTy()?0:slotsOf(ins.getType());
      Type* T=ins.getType();
      auto scalarW=[&](Type* t){ t=t->getScalarType(); return (uint16_t)(t->isPointerTy()?64:DL->getTypeSizeInBits(t)); };
      if (auto* bo=dyn_cast<BinaryOperator>(&ins)) {
        I.a=opd(bo->getOperand(0)); I.b=opd(bo->getOperand(1)); I.w=scalarW(T);
        if (T->getScalarType()->isFloatingPointTy()) { I.k=K_FBIN; I.sub=bo->getOpcode(); }
        else { I.k=K_BIN; switch(bo->getOpcode()){ case Instruction::Add:I.sub=O_ADD;break; case Instruction::Sub:I.sub=O_SUB;break; case Instruction::Mul:I.sub=O_MUL;break; case Instruction::UDiv:I.sub=O_UDIV;break; case Instruction::SDiv:I.sub=O_SDIV;break; case Instruction::URem:I.sub=O_UREM;break; case Instruction::SRem:I.sub=O_SREM;break; case Instruction::And:I.sub=O_AND;break; case Instruction::Or:I.sub=O_OR;break; case Instruction::Xor:I.sub=O_XOR;break; case Instruction::Shl:I.sub=O_SHL;break; case Instruction::LShr:I.sub=O_LSHR;break; case Instruction::AShr:I.sub=O_ASHR;break; default: unsupported("binop"); } }
      } else if (auto* ic=dyn_cast<ICmpInst>(&ins)) {
        I.k=K_CMP; I.a=opd(ic->getOperand(0)); I.b=opd(ic->getOperand(1)); I.w=scalarW(ic->getOperand(0)->getType());
        switch(ic->getPredicate()){ case CmpInst::ICMP_EQ:I.sub=O_EQ;break; case CmpInst::ICMP_NE:I.sub=O_EQ;I.inv=true;break;
          case CmpInst::ICMP_ULT:I.sub=O_ULT;break; case CmpInst::ICMP_ULE:I.sub=O_ULE;break; case CmpInst::ICMP_UGT:I.sub=O_ULT;std::swap(I.a,I.b);break; case CmpInst::ICMP_UGE:I.sub=O_ULE;std::swap(I.a,I.b);break;
          case CmpInst::ICMP_SLT:I.sub=O_SLT;break; case CmpInst::ICMP_SLE:I.sub=O_SLE;break; case CmpInst::ICMP_SGT:I.sub=O_SLT;std::swap(I.a,I.b);break; case CmpInst::ICMP_SGE:I.sub=O_SLE;std::swap(I.a,I.b);break; default: unsupported("icmp"); }
      } else if (auto* fc=dyn_cast<FCmpInst>(&ins)) { I.k=K_FCMP; I.sub=fc->getPredicate(); I.a=opd(fc->getOperand(0)); I.b=opd(fc->getOperand(1)); I.w=scalarW(fc->getOperand(0)->getType()); 
      } else if (auto* ci=dyn_cast<CastInst>(&ins)) {
        I.a=opd(ci->getOperand(0)); I.w=scalarW(ci->getSrcTy()); I.w2=scalarW(ci->getDestTy()); 
        switch (ci->getOpcode()) {
          case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: I.k=K_CAST; I.sub=ci->getOpcode()==Instruction::SExt; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: I.k=K_CAST; I.sub=0; break;
          case Instruction::BitCast: case Instruction::AddrSpaceCast: if (slotsOf(ci->getSrcTy())!=slotsOf(ci->getDestTy())) unsupported("vector bitcast"); I.k=K_MOVE; break;
          default: I.k=K_FCAST; I.sub=ci->getOpcode(); }
      } else if (auto* se=dyn_cast<SelectInst>(&ins)) { if (se->getCondition()->getType()->isVectorTy()) unsupported("vector select"); I.k=K_SELECT; I.a=opd(se->getCondition()); I.b=opd(se->getTrueValue()); I.c=opd(se->getFalseValue()); I.leaves=leaves(T); I.inv=T->isPointerTy()||T->isFloatingPointTy()||T->isAggregateType();
      } else if (auto* l=dyn_cast<LoadInst>(&ins)) { I.k=K_LOAD; I.atomic=l->isAtomic(); I.a=opd(l->getPointerOperand()); I.leaves=leaves(T); I.align=l->getAlign().value();
      } else if (auto* st=dyn_cast<StoreInst>(&ins)) { I.k=K_STORE; I.atomic=st->isAtomic(); I.a=opd(st->getPointerOperand()); I.b=opd(st->getValueOperand()); I.leaves=leaves(st->getValueOperand()->getType()); I.align=st->getAlign().value();
      } else if (auto* g=dyn_cast<GetElementPtrInst>(&ins)) {
        if (T->isVectorTy()) unsupported("vector gep");
        I.k=K_GEP; I.a=opd(g->getPointerOperand());
        for (auto ti=gep_type_begin(g),te=gep_type_end(g);ti!=te;++ti) {
          const Value* ix=ti.getOperand();
          if (StructType* s=ti.getStructTypeOrNull()) I.off+=DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sz=DL->getTypeAllocSize(ti.getIndexedType()); if (auto* c=dyn_cast<ConstantInt>(ix)) I.off+=c->getSExtValue()*sz; else { I.scaled.push_back({opd(ix),sz}); I.idxw.push_back(ix->getType()->getIntegerBitWidth()); } } }
      } else if (auto* al=dyn_cast<AllocaInst>(&ins)) { I.k=K_ALLOCA; I.off=DL->getTypeAllocSize(al->getAllocatedType()); I.a=opd(al->getArraySize()); I.align=al->getAlign().value();
      } else if (auto* br=dyn_cast<BranchInst>(&ins)) { if (br->isConditional()) { I.k=K_CBR; I.a=opd(br->getCondition()); I.t1=bbid[br->getSuccessor(0)]; I.t2=bbid[br->getSuccessor(1)]; } else { I.k=K_BR; I.t1=bbid[br->getSuccessor(0)]; }
      } else if (auto* sw=dyn_cast<SwitchInst>(&ins)) { I.k=K_SWITCH; I.a=opd(sw->getCondition()); I.w=scalarW(sw->getCondition()->getType()); I.t1=bbid[sw->getDefaultDest()]; for (auto& cs: sw->cases()) I.cases.push_back({apToU(cs.getCaseValue()->getValue()),bbid[cs.getCaseSuccessor()]});
      } else if (auto* r=dyn_cast<ReturnInst>(&ins)) { I.k=K_RET; if (r->getReturnValue()) { I.a=opd(r->getReturnValue()); I.nslots=slotsOf(r->getReturnValue()->getType()); } else I.nslots=0;
      } else if (isa<UnreachableInst>(ins)) I.k=K_UNREACH;
      else if (auto* re=dyn_cast<ResumeInst>(&ins)) { I.k=K_RESUME; I.a=opd(re->getValue()); }
      else if (isa<LandingPadInst>(ins)) { I.k=K_NOP; B.lp=true; }
      else if (auto* ev=dyn_cast<ExtractValueInst>(&ins)) {
        I.k=K_MOVE; Type* t=ev->getAggregateOperand()->getType(); int o=0;
        for (unsigned ix: ev->indices()) { if (auto* s=dyn_cast<StructType>(t)) { for(unsigned i=0;i<ix;i++) o+=slotsOf(s->getElementType(i)); t=s->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*slotsOf(t);} }
        int b=opd(ev->getAggregateOperand()); I.a= b>=0? b+o : ~(~b+o);
      } else if (auto* iv=dyn_cast<InsertValueInst>(&ins)) {
        I.k=K_INSERTV; Type* t=T; int o=0;
        for (unsigned ix: iv->indices()) { if (auto* s=dyn_cast<StructType>(t)) { for(unsigned i=0;i<ix;i++) o+=slotsOf(s->getElementType(i)); t=s->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*slotsOf(t);} }
        I.a=opd(iv->getAggregateOperand()); I.b=opd(iv->getInsertedValueOperand()); I.t1=o; I.t2=slotsOf(t);
      } else if (auto* ee=dyn_cast<ExtractElementInst>(&ins)) { auto* c=dyn_cast<ConstantInt>(ee->getIndexOperand()); if(!c) unsupported("extractelement"); I.k=K_MOVE; int b=opd(ee->getVectorOperand()); int o=c->getZExtValue(); I.a=b>=0? b+o : ~(~b+o);
      } else if (auto* ie=dyn_cast<InsertElementInst>(&ins)) { auto* c=dyn_cast<ConstantInt>(ie->getOperand(2)); if(!c) unsupported("insertelement"); I.k=K_INSERTV; I.a=opd(ie->getOperand(0)); I.b=opd(ie->getOperand(1)); I.t1=c->getZExtValue(); I.t2=1;
      } else if (auto* sv=dyn_cast<ShuffleVectorInst>(&ins)) { I.k=K_SHUF; I.a=opd(sv->getOperand(0)); I.b=opd(sv->getOperand(1)); int n=slotsOf(sv->getOperand(0)->getType()); for (int m: sv->getShuffleMask()) { int o; if (m<0) m=0; if (m<n) o= I.a>=0? I.a+m : ~(~I.a+m); else o= I.b>=0? I.b+(m-n) : ~(~I.b+(m-n)); I.ops.push_back(o);} 
      } else if (isa<FreezeInst>(ins)) { I.k=K_MOVE; I.a=opd(ins.getOperand(0));
      } else if (isa<FenceInst>(ins)) { I.k=K_NOP;
      } else if (auto* un=dyn_cast<UnaryOperator>(&ins)) { I.k=K_FNEG; I.a=opd(un->getOperand(0)); I.w=scalarW(T);
      } else if (auto* rm=dyn_cast<AtomicRMWInst>(&ins)) { I.k=K_ATOMICRMW; I.a=opd(rm->getPointerOperand()); I.b=opd(rm->getValOperand()); I.w=scalarW(T); I.sub=rm->getOperation(); I.align=rm->getAlign().value();
      } else if (auto* cx=dyn_cast<AtomicCmpXchgInst>(&ins)) { I.k=K_CMPXCHG; I.a=opd(cx->getPointerOperand()); I.b=opd(cx->getCompareOperand()); I.c=opd(cx->getNewValOperand()); I.w=scalarW(cx->getCompareOperand()->getType()); I.align=cx->getAlign().value();
      } else if (auto* cb=dyn_cast<CallBase>(&ins)) {
        if (isa<DbgInfoIntrinsic>(ins)) continue;
        I.k=isa<InvokeInst>(ins)?K_INVOKE:K_CALL;
        if (cb->isInlineAsm()) { I.k=K_NOP; fn->code.push_back(I); continue; }
        if (auto* iv2=dyn_cast<InvokeInst>(&ins)) { I.t1=bbid[iv2->getNormalDest()]; I.t2=bbid[iv2->getUnwindDest()]; }
        const Function* cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        bool skip=false;
        if (cf) { if (cf->isIntrinsic()) { I.builtin=builtinFor(cf); string n=cf->getName().str(); if (I.builtin<0) unsupported("intrinsic "+n); if (I.builtin==builtinIdx["llvm.experimental.noalias.scope.decl"]) skip=true; }
          else { I.callee=getFn(cf); if (!I.callee->hasBody) { I.builtin=I.callee->builtin; } } }
        else I.a=opd(cb->getCalledOperand());
        if (skip) continue;
        for (unsigned i=0;i<cb->arg_size();i++) { Value* v=cb->getArgOperand(i); if (v->getType()->isMetadataTy()) { continue; } I.ops.push_back(opd(v)); I.opslots.push_back(slotsOf(v->getType())); I.byval.push_back(cb->isByValArgument(i)?(uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i)):0); }
        if (!T->isVoidTy()) I.leaves=leaves(T);
        if (cf&&cf->isIntrinsic()&&cb->arg_size()) { Type* t=cb->getArgOperand(0)->getType()->getScalarType(); if (t->isIntegerTy()||t->isFloatingPointTy()) I.w=scalarW(t); if (cb->getArgOperand(0)->getType()->isVectorTy()) unsupported("vector intrinsic "+cf->getName().str()); }
      } else { string s; raw_string_ostream os(s); ins.print(os); unsupported("instruction "+os.str()); }
      fn->code.push_back(std::move(I));
    }
  }
}

#include "exec.h"

// ------------------------------------------------------------ main --
static void setupModule(const char* path){
  static LLVMContext ctx; SMDiagnostic err; mod=parseIRFile(path,err,ctx); if(!mod){ err.print("symex",errs()); exit(3);} DL=&mod->getDataLayout();
  for (int i=0;i<NBUILTIN;i++) builtinIdx[builtinNames[i]]=i;
  uint64_t a=GL_BASE;
  for (auto& g: mod->globals()) { uint64_t sz=g.getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(g.getValueType()):8; if (g.isDeclaration()) sz=std::max<uint64_t>(sz,256); uint64_t al=std::max<uint64_t>(16,g.getAlign()?g.getAlign()->value():16); a=(a+al-1)/al*al; gaddr[&g]=a; a+=sz+64; }
  for (auto& f: *mod) if(!f.isIntrinsic()) getFn(&f);
  for (auto& g: mod->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz=g.getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(g.getValueType()):8; if (g.isDeclaration()) sz=std::max<uint64_t>(sz,256);
    Obj* o=new Obj; o->kind='g'; o->base=gaddr[&g]; o->size=sz; o->d.assign(sz,0); o->st.assign(sz,g.isDeclaration()?1:1); o->ro=g.isConstant();
    if (!g.isDeclaration()) initMem(o,0,g.getInitializer()); memset(o->st.data(),1,sz);
    initGlob.push_back(ObjP(o)); }
  std::sort(initGlob.begin(),initGlob.end(),[](const ObjP&x,const ObjP&y){return x->base<y->base;});
}

int main(int argc,char** argv){
  int jobs=8; double timeout=600; string out; uint64_t seed=1; int nsamples=20; uint64_t maxPaths=0; const char* path=argv[1]; string only;
  for (int i=2;i<argc;i++) { string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if (a=="--entry") { std::stringstream ss(nx()); string e; while(getline(ss,e,',')) entries.push_back(e); }
    else if (a=="--jobs") jobs=stoi(nx()); else if (a=="--timeout") timeout=stod(nx()); else if (a=="--out") out=nx();
    else if (a=="--preempt") preemptBound=stoi(nx());
    else if (a=="--pin") { std::stringstream ss(nx()); string e; while(getline(ss,e,',')) pinned.push_back(stoll(e)); }
    else if (a=="--seed") seed=stoull(nx()); else if (a=="--max-steps") maxSteps=stoull(nx()); else if (a=="--samples") nsamples=stoi(nx()); else if (a=="--max-paths") maxPaths=stoull(nx());
    else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 3; } }
  try { setupModule(path);
    for (auto& e: entries) { Function* f=mod->getFunction(e); if(!f||f->isDeclaration()) { fprintf(stderr,"no entry %s\n",e.c_str()); return 3; } }
    int rc=runMaster(jobs,timeout,out,seed,nsamples,maxPaths); fflush(stdout); _exit(rc);
  } catch (EngineError& e) { fprintf(stderr,"engine error: %s\n",e.msg.c_str()); return 3; }
}
