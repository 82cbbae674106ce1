// symx: a symbolic executor for LLVM IR (LLVM 18) with z3 as the decision procedure.
// Explores every feasible path of a harness; inputs, fault choices and schedules are symbolic.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <cmath>
#include <cfloat>
#include <atomic>
#include <deque>
#include <fstream>
#include <iostream>
using namespace llvm;
ExprPool P;
static Solver *S;
typedef std::string str;

struct Val { uint64_t c=0; Expr*e=nullptr; Val(){} Val(uint64_t x):c(x){} bool sym() const {return e;} };
static inline uint64_t m64(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline Val V(Expr*e){ Val v; if(e->isC()&&e->w<=64) v.c=(uint64_t)e->c; else v.e=e; return v; }
static inline Expr* E(const Val&v,unsigned w){ return v.e?v.e:P.C(v.c,w); }

// ------------------------------------------------------------------ memory
struct MObj { int rc=1; uint64_t addr; uint32_t size; uint8_t kind; /*0 global 1 heap 2 stack*/ bool ro=false; uint8_t ak=0; std::vector<uint8_t> d; std::vector<Expr*> s; };
static void dropObj(MObj*o){ if(--o->rc==0) delete o; }
struct Chunk { int rc=1; std::vector<MObj*> o; ~Chunk(){ for(auto*x:o) dropObj(x);} };
static const size_t CH=48;
struct Space {
  std::vector<Chunk*> ch; uint64_t next;
  Space(uint64_t base):next(base){}
  Space(const Space&x):ch(x.ch),next(x.next){ for(auto*c:ch) c->rc++; }
  ~Space(){ for(auto*c:ch) if(--c->rc==0) delete c; }
  Chunk* own(size_t i){ Chunk*c=ch[i]; if(c->rc==1) return c; Chunk*n=new Chunk; n->o=c->o; for(auto*x:n->o) x->rc++; c->rc--; ch[i]=n; return n; }
  bool locate(uint64_t a,size_t&ci,size_t&oi) const {
    size_t lo=0,hi=ch.size(); // last chunk with first addr <= a
    while(lo<hi){ size_t m=(lo+hi)/2; if(ch[m]->o.front()->addr<=a) lo=m+1; else hi=m; }
    if(lo==0) return false; ci=lo-1; auto&v=ch[ci]->o; size_t l=0,h=v.size();
    while(l<h){ size_t m=(l+h)/2; if(v[m]->addr<=a) l=m+1; else h=m; }
    if(l==0) return false; oi=l-1; MObj*o=v[oi]; return a<o->addr+std::max<uint32_t>(o->size,1);
  }
  MObj* find(uint64_t a) const { size_t c,o; return locate(a,c,o)?ch[c]->o[o]:nullptr; }
  MObj* findW(uint64_t a){ size_t c,o; if(!locate(a,c,o)) return nullptr; Chunk*k=own(c); MObj*x=k->o[o]; if(x->rc>1){ MObj*n=new MObj(*x); n->rc=1; x->rc--; k->o[o]=n; x=n; } return x; }
  MObj* alloc(uint64_t size,uint64_t align,uint8_t kind,uint8_t fill){
    if(align<16) align=16; uint64_t a=(next+align-1)/align*align; next=a+size+32;
    MObj*o=new MObj; o->addr=a;o->size=size;o->kind=kind;o->d.assign(size,fill);
    if(ch.empty()||ch.back()->o.size()>=CH){ Chunk*c=new Chunk; c->o.reserve(8); c->o.push_back(o); ch.push_back(c); }
    else own(ch.size()-1)->o.push_back(o);
    return o;
  }
  bool free(uint64_t a){ size_t c,o; if(!locate(a,c,o)||ch[c]->o[o]->addr!=a) return false; Chunk*k=own(c); dropObj(k->o[o]); k->o.erase(k->o.begin()+o); if(k->o.empty()){ delete k; ch.erase(ch.begin()+c);} return true; }
};
// ------------------------------------------------------------------ program
struct KFunction; struct KI;
struct BrInfo { int pc; BasicBlock*bb; std::vector<std::array<int,3>> moves; }; // dst, src, n
enum KOp : uint8_t { K_BIN,K_FBIN,K_FNEG,K_ICMP,K_FCMP,K_CAST,K_FCAST,K_GEP,K_LOAD,K_STORE,K_ALLOCA,K_BR,K_CBR,K_SWITCH,K_CALL,K_INVOKE,K_RET,K_SELECT,K_EXTRACTV,K_INSERTV,K_UNREACH,K_LANDINGPAD,K_RESUME,K_CMPXCHG,K_RMW,K_FENCE,K_FREEZE,K_EXTELT,K_INSELT,K_SHUFFLE,K_UNSUP,K_MOVE };
struct KI { KOp op; uint8_t sub=0; uint8_t rk=0; /* 0 plain access, 1 reference counting (synchronises) */ uint16_t w=0,w2=0; int dst=-1,a=0,b=0,c=0; int n=1; uint64_t imm=0; Instruction*I=nullptr; BrInfo*br[2]={nullptr,nullptr}; std::vector<std::array<int64_t,3>> idx; std::vector<std::pair<uint64_t,BrInfo*>> cases; std::vector<int> args; std::vector<int> argn; Function*callee=nullptr; std::vector<uint16_t> lw; int line=0; };
struct KFunction { Function*F; int nslots=0; std::vector<KI> code; std::vector<Val> consts; std::map<const Value*,int> slot; std::vector<int> argSlots; std::vector<int> argLeaves; bool repo=false, rt=false; str file; std::vector<std::array<uint64_t,3>> statics; std::vector<char> byval; std::vector<uint64_t> byvalSize; };
struct Frame { KFunction*kf; bool rt=false; int pc=0; std::vector<Val> regs; std::vector<uint64_t> allocas; KI*call=nullptr; };
struct MutexSt { int owner=-1; int count=0; std::multiset<int> readers; };
struct Thread { std::vector<Frame> st; int status=0; /*0 runnable 1 blocked-mutex 2 blocked-cond 3 done 4 blocked-join 5 not started*/ uint64_t on=0; bool resumed=false; bool timed=false; bool rd=false; bool timedout=false; int phase=0; uint64_t since=0, deadline=~0ull; int run=0; std::vector<uint64_t> caught; };
struct ExcInfo { uint64_t ti=0,dtor=0; int handlers=0; bool rethrown=false; };
struct Input { str name; unsigned w; std::vector<uint32_t> syms; };
struct RaceAcc { int wt=-1; uint32_t wc=0; Instruction*wi=nullptr; uint32_t rc[8]={0}; Instruction*ri[8]={nullptr}; };
struct RaceSt { uint32_t vc[8][8]={{0}}; std::map<uint64_t,std::array<uint32_t,8>> sync; std::map<uint64_t,RaceAcc> acc; };
struct State {
  std::shared_ptr<RaceSt> race;
  Space heap{0x400000000000ull}, stack{0x700000000000ull}, glob{0x200000000ull};
  std::vector<Expr*> pc; Model model; std::vector<Thread> th; int cur=0; std::vector<Input> inputs; unsigned nsym=0;
  std::map<uint64_t,MutexSt> mtx; std::map<uint64_t,ExcInfo> exc; int preempts=0; uint64_t blockSeq=0; std::vector<int> sched; int maxPreempt=-1; bool det=false,simtime=false; bool threadsOn=false;
  std::map<uint64_t,uint64_t> kv; uint64_t steps=0; unsigned forks=0; std::vector<str> notes; int curPcSave=0; uint64_t errnoAddr=0;
  Frame&fr(){ return th[cur].st.back(); }
};
struct Terminate{}; struct Retry{};
struct Stats { uint64_t paths=0,completed=0,forks=0,steps=0,infeasible=0,errors=0,maxDepth=0; };
struct Violation { str kind,msg,loc,json; };

struct Exec; struct Ctx { Exec&x; State&s; KI&q; Function*F; std::vector<Val>&a; std::vector<Val> ret; bool handled; };
struct Exec {
  Module*M; const DataLayout*DL; LLVMContext ctx;
  std::map<Function*,KFunction*> kfs; std::map<uint64_t,Function*> fnByAddr; std::map<const GlobalValue*,uint64_t> gaddr;
  std::deque<State*> work; Stats st; std::vector<Violation> viol; std::map<str,uint64_t> reach; std::map<str,uint64_t> incomplete; std::set<str> allReach; std::map<str,uint64_t> checksHit; std::map<str,uint64_t> endKinds;
  std::set<KFunction*> covered; double deadline=1e18; uint64_t maxSteps=60000000ull; uint64_t maxPaths=~0ull; bool stopFirst=true; str repoPrefix="/repo/"; bool trace=false;
  std::map<str,std::function<void(Ctx&)>> builtins; std::map<Function*,std::function<void(Ctx&)>*> bcache; std::map<Function*,Function*> overrides;
  std::vector<str> samples; std::vector<std::vector<std::pair<str,std::vector<uint64_t>>>> pathInputs; unsigned maxSamples=3; uint64_t externCtr=0; bool concrete=false; std::map<str,str> concreteIn; std::vector<std::vector<uint64_t>> concreteVals; int frontierTarget=0; bool frontierReached=false; bool noMem=false;
  double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  double t0;

  // ---------------------------------------------------------------- types
  unsigned width(Type*T){ if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isPointerTy()) return 64; if(T->isFloatTy()) return 32; if(T->isDoubleTy()) return 64; if(T->isX86_FP80Ty()) return 80; return 0; }
  int leaves(Type*T){ if(T->isVoidTy()) return 0; if(auto*s=dyn_cast<StructType>(T)){ int n=0; for(auto*x:s->elements()) n+=leaves(x); return n; } if(auto*a=dyn_cast<ArrayType>(T)) return a->getNumElements()*leaves(a->getElementType()); if(auto*v=dyn_cast<FixedVectorType>(T)) return v->getNumElements()*leaves(v->getElementType()); return 1; }
  void leafTypes(Type*T,std::vector<std::pair<Type*,uint64_t>>&out,uint64_t off=0){
    if(auto*s=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) leafTypes(s->getElementType(i),out,off+L->getElementOffset(i)); return; }
    if(auto*a=dyn_cast<ArrayType>(T)){ uint64_t sz=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) leafTypes(a->getElementType(),out,off+i*sz); return; }
    if(auto*v=dyn_cast<FixedVectorType>(T)){ uint64_t sz=DL->getTypeStoreSize(v->getElementType()); for(uint64_t i=0;i<v->getNumElements();i++) leafTypes(v->getElementType(),out,off+i*sz); return; }
    out.push_back({T,off}); }
  // ---------------------------------------------------------------- constants
  uint64_t addrOf(const GlobalValue*g){ auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second; errs()<<"no address for "<<g->getName()<<"\n"; abort(); }
  void cval(const Constant*C,std::vector<Val>&out){
    Type*T=C->getType();
    if(auto*ci=dyn_cast<ConstantInt>(C)){ unsigned w=ci->getBitWidth(); if(w<=64) out.push_back(Val(ci->getZExtValue())); else { u128 v=ci->getValue().getRawData()[0]; if(ci->getValue().getNumWords()>1) v|=(u128)ci->getValue().getRawData()[1]<<64; Val x; x.e=P.C(v,w); out.push_back(x);} return; }
    if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)||isa<ConstantPointerNull>(C)){ std::vector<std::pair<Type*,uint64_t>> L; leafTypes(T,L); for(auto&l:L){ unsigned w=width(l.first); if(w>64){ Val x; x.e=P.C(0,w); out.push_back(x);} else out.push_back(Val(0)); } return; }
    if(auto*f=dyn_cast<ConstantFP>(C)){ APInt b=f->getValueAPF().bitcastToAPInt(); if(b.getBitWidth()>64){ Val x; x.e=P.C(b.getRawData()[0]|((u128)b.getRawData()[1]<<64),b.getBitWidth()); out.push_back(x);} else out.push_back(Val(b.getZExtValue())); return; }
    if(auto*g=dyn_cast<GlobalValue>(C)){ out.push_back(Val(addrOf(g))); return; }
    if(auto*a=dyn_cast<ConstantAggregate>(C)){ for(auto&op:a->operands()) cval(cast<Constant>(op),out); return; }
    if(auto*d=dyn_cast<ConstantDataSequential>(C)){ for(unsigned i=0;i<d->getNumElements();i++) cval(d->getElementAsConstant(i),out); return; }
    if(auto*ce=dyn_cast<ConstantExpr>(C)){
      auto op1=[&](unsigned i){ std::vector<Val> v; cval(ce->getOperand(i),v); return v[0].c; };
      switch(ce->getOpcode()){
        case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)){ errs()<<"gep const\n"; abort(); } out.push_back(Val(op1(0)+off.getSExtValue())); return; }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::ZExt: out.push_back(Val(op1(0)&m64(width(T)?width(T):64))); return;
        case Instruction::Trunc: out.push_back(Val(op1(0)&m64(width(T)))); return;
        case Instruction::Add: out.push_back(Val((op1(0)+op1(1))&m64(width(T)))); return;
        case Instruction::Sub: out.push_back(Val((op1(0)-op1(1))&m64(width(T)))); return;
        case Instruction::ICmp: { bool r=false; uint64_t a=op1(0),b=op1(1); switch(ce->getPredicate()){ case CmpInst::ICMP_EQ:r=a==b;break; case CmpInst::ICMP_NE:r=a!=b;break; case CmpInst::ICMP_ULT:r=a<b;break; case CmpInst::ICMP_UGT:r=a>b;break; default: abort(); } out.push_back(Val(r)); return; }
        default: errs()<<"constexpr: "<<*ce<<"\n"; abort();
      }
    }
    if(isa<DSOLocalEquivalent>(C)||isa<NoCFIValue>(C)){ cval(cast<Constant>(C->getOperand(0)),out); return; }
    errs()<<"constant: "<<*C<<"\n"; abort();
  }
  void writeInit(MObj*o,uint64_t off,const Constant*C){
    Type*T=C->getType();
    if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return;
    if(auto*d=dyn_cast<ConstantDataSequential>(C)){ StringRef r=d->getRawDataValues(); memcpy(&o->d[off],r.data(),r.size()); return; }
    if(auto*a=dyn_cast<ConstantStruct>(C)){ auto*L=DL->getStructLayout(cast<StructType>(T)); for(unsigned i=0;i<a->getNumOperands();i++) writeInit(o,off+L->getElementOffset(i),a->getOperand(i)); return; }
    if(auto*a=dyn_cast<ConstantArray>(C)){ uint64_t sz=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) writeInit(o,off+i*sz,a->getOperand(i)); return; }
    if(auto*a=dyn_cast<ConstantVector>(C)){ uint64_t sz=DL->getTypeStoreSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) writeInit(o,off+i*sz,a->getOperand(i)); return; }
    std::vector<Val> v; cval(C,v); uint64_t n=DL->getTypeStoreSize(T); if(v[0].e){ u128 c=v[0].e->c; memcpy(&o->d[off],&c,n);} else memcpy(&o->d[off],&v[0].c,std::min<uint64_t>(n,8));
  }
  // ---------------------------------------------------------------- compile functions
  KFunction* compile(Function*F){
    auto it=kfs.find(F); if(it!=kfs.end()) return it->second;
    KFunction*k=new KFunction; kfs[F]=k; k->F=F;
    if(auto*sp=F->getSubprogram()){ str d=sp->getFile()?sp->getFile()->getDirectory().str():""; str f=sp->getFile()?sp->getFile()->getFilename().str():""; if(!f.empty()&&f[0]!='/') f=d+"/"+f; k->file=f; k->rt=f.find("/rt/")!=str::npos; k->repo=f.compare(0,repoPrefix.size(),repoPrefix)==0; }
    int n=0;
    for(auto&A:F->args()){ k->slot[&A]=n; k->argSlots.push_back(n); int l=leaves(A.getType()); k->argLeaves.push_back(l); n+=l; bool bv=A.hasByValAttr(); k->byval.push_back(bv); k->byvalSize.push_back(bv?DL->getTypeAllocSize(A.getParamByValType()):0); }
    for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()){ k->slot[&I]=n; n+=leaves(I.getType()); }
    k->nslots=n;
    std::map<BasicBlock*,int> bpc; int pc=0;
    for(auto&B:*F){ bpc[&B]=pc; for(auto&I:B){ if(isa<PHINode>(I)||isSkip(I)) continue; pc++; } }
    auto op=[&](const Value*v)->int{ auto s=k->slot.find(v); if(s!=k->slot.end()) return s->second; if(auto*C=dyn_cast<Constant>(v)){ int idx=k->consts.size(); cval(C,k->consts); return ~idx; } if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return ~0; errs()<<"operand "<<*v<<"\n"; abort(); };
    auto edge=[&](BasicBlock*from,BasicBlock*to)->BrInfo*{ BrInfo*b=new BrInfo; b->pc=bpc[to]; b->bb=to; for(auto&ph:to->phis()) b->moves.push_back({k->slot[&ph],op(ph.getIncomingValueForBlock(from)),leaves(ph.getType())}); return b; };
    for(auto&B:*F) for(auto&I:B){
      if(isa<PHINode>(I)||isSkip(I)) continue;
      KI q; q.op=K_UNSUP; q.I=&I; if(auto&dl=I.getDebugLoc()){ q.line=dl.getLine(); StringRef fn=dl->getFilename(); if(fn.ends_with("atomicity.h")||fn.ends_with("atomic_base.h")||fn.ends_with("shared_ptr_base.h")) q.rk=1; else for(const DILocation*l=dl.get();l;l=l->getInlinedAt()){ str f=l->getFilename().str(); if(!f.empty()&&f[0]!='/') f=l->getDirectory().str()+"/"+f; if(f.find("/rt/")!=str::npos){ q.rk=2; break; } if(f.compare(0,repoPrefix.size(),repoPrefix)==0||f.find("/harness/")!=str::npos){ q.rk=3; break; } } }
      if(!I.getType()->isVoidTy()) q.dst=k->slot[&I];
      q.n=leaves(I.getType());
      if(auto*bo=dyn_cast<BinaryOperator>(&I)){ Type*T=bo->getType()->getScalarType(); q.a=op(bo->getOperand(0)); q.b=op(bo->getOperand(1)); q.w=width(T); q.sub=bo->getOpcode(); q.op=T->isFloatingPointTy()?K_FBIN:K_BIN; }
      else if(I.getOpcode()==Instruction::FNeg){ q.op=K_FNEG; q.a=op(I.getOperand(0)); q.w=width(I.getType()); }
      else if(auto*c=dyn_cast<ICmpInst>(&I)){ q.op=K_ICMP; q.a=op(c->getOperand(0)); q.b=op(c->getOperand(1)); q.w=width(c->getOperand(0)->getType()->getScalarType()); q.sub=c->getPredicate(); }
      else if(auto*c=dyn_cast<FCmpInst>(&I)){ q.op=K_FCMP; q.a=op(c->getOperand(0)); q.b=op(c->getOperand(1)); q.w=width(c->getOperand(0)->getType()->getScalarType()); q.sub=c->getPredicate(); }
      else if(auto*c=dyn_cast<CastInst>(&I)){ Type*s=c->getSrcTy()->getScalarType(),*d=c->getDestTy()->getScalarType(); q.a=op(c->getOperand(0)); q.w=width(s); q.w2=width(d); q.sub=c->getOpcode();
        switch(c->getOpcode()){ case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: q.op=K_CAST; break; case Instruction::BitCast: q.op=K_CAST; if(leaves(c->getSrcTy())!=leaves(c->getDestTy())) q.op=K_UNSUP; break; default: q.op=K_FCAST; } }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ q.op=K_GEP; q.a=op(g->getPointerOperand()); int64_t off=0; for(auto gi=gep_type_begin(g);gi!=gep_type_end(g);++gi){ if(auto*stt=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); } else { int64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(gi.getOperand())) off+=ci->getSExtValue()*sz; else q.idx.push_back({op(gi.getOperand()),sz,(int64_t)width(gi.getOperand()->getType())}); } } q.imm=off; if(g->getType()->isVectorTy()) q.op=K_UNSUP; }
      else if(auto*l=dyn_cast<LoadInst>(&I)){ q.op=K_LOAD; q.a=op(l->getPointerOperand()); q.w=width(l->getType()); q.sub=l->isAtomic(); }
      else if(auto*s=dyn_cast<StoreInst>(&I)){ q.op=K_STORE; q.a=op(s->getPointerOperand()); q.b=op(s->getValueOperand()); q.w=width(s->getValueOperand()->getType()); q.sub=s->isAtomic(); }
      else if(auto*a=dyn_cast<AllocaInst>(&I)){ q.op=K_ALLOCA; q.imm=DL->getTypeAllocSize(a->getAllocatedType()); q.a=op(a->getArraySize()); q.w=width(a->getArraySize()->getType()); q.w2=std::min<uint64_t>(a->getAlign().value(),4096); }
      else if(auto*b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()){ q.op=K_CBR; q.a=op(b->getCondition()); q.br[0]=edge(&B,b->getSuccessor(0)); q.br[1]=edge(&B,b->getSuccessor(1)); } else { q.op=K_BR; q.br[0]=edge(&B,b->getSuccessor(0)); } }
      else if(auto*s=dyn_cast<SwitchInst>(&I)){ q.op=K_SWITCH; q.a=op(s->getCondition()); q.w=width(s->getCondition()->getType()); q.br[0]=edge(&B,s->getDefaultDest()); std::map<BasicBlock*,BrInfo*> mm; for(auto&c:s->cases()){ auto*t=c.getCaseSuccessor(); if(!mm[t]) mm[t]=t==s->getDefaultDest()?q.br[0]:edge(&B,t); q.cases.push_back({c.getCaseValue()->getZExtValue(),mm[t]}); } }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ q.op=isa<InvokeInst>(&I)?K_INVOKE:K_CALL; if(isa<CallBrInst>(&I)) q.op=K_UNSUP; q.callee=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(!q.callee) q.a=op(cb->getCalledOperand()); for(auto&A:cb->args()){ q.args.push_back(op(A.get())); q.argn.push_back(leaves(A->getType())); } if(auto*inv=dyn_cast<InvokeInst>(&I)){ q.br[0]=edge(&B,inv->getNormalDest()); q.br[1]=edge(&B,inv->getUnwindDest()); } if(cb->isInlineAsm()){ if(cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty()&&I.getType()->isVoidTy()) q.op=K_FENCE; else q.op=K_UNSUP; } }
      else if(auto*r=dyn_cast<ReturnInst>(&I)){ q.op=K_RET; if(r->getReturnValue()){ q.a=op(r->getReturnValue()); q.n=leaves(r->getReturnValue()->getType()); } else q.n=0; }
      else if(auto*s=dyn_cast<SelectInst>(&I)){ q.op=K_SELECT; q.a=op(s->getCondition()); q.b=op(s->getTrueValue()); q.c=op(s->getFalseValue()); std::vector<std::pair<Type*,uint64_t>> L; leafTypes(s->getType(),L); for(auto&x:L) q.lw.push_back(width(x.first)); q.sub=s->getCondition()->getType()->isVectorTy(); }
      else if(auto*e=dyn_cast<ExtractValueInst>(&I)){ q.op=K_EXTRACTV; q.a=op(e->getAggregateOperand()); q.b=leafOff(e->getAggregateOperand()->getType(),e->getIndices()); }
      else if(auto*e=dyn_cast<InsertValueInst>(&I)){ q.op=K_INSERTV; q.a=op(e->getAggregateOperand()); q.b=op(e->getInsertedValueOperand()); q.c=leafOff(e->getType(),e->getIndices()); q.w=leaves(e->getInsertedValueOperand()->getType()); }
      else if(isa<UnreachableInst>(&I)) q.op=K_UNREACH;
      else if(isa<LandingPadInst>(&I)) q.op=K_LANDINGPAD;
      else if(auto*r=dyn_cast<ResumeInst>(&I)){ q.op=K_RESUME; q.a=op(r->getOperand(0)); }
      else if(auto*c=dyn_cast<AtomicCmpXchgInst>(&I)){ q.op=K_CMPXCHG; q.a=op(c->getPointerOperand()); q.b=op(c->getCompareOperand()); q.c=op(c->getNewValOperand()); q.w=width(c->getCompareOperand()->getType()); }
      else if(auto*c=dyn_cast<AtomicRMWInst>(&I)){ q.op=K_RMW; q.a=op(c->getPointerOperand()); q.b=op(c->getValOperand()); q.w=width(c->getType()); q.sub=c->getOperation(); }
      else if(isa<FenceInst>(&I)) q.op=K_FENCE;
      else if(isa<FreezeInst>(&I)){ q.op=K_FREEZE; q.a=op(I.getOperand(0)); }
      else if(auto*e=dyn_cast<ExtractElementInst>(&I)){ if(auto*ci=dyn_cast<ConstantInt>(e->getIndexOperand())){ q.op=K_EXTRACTV; q.a=op(e->getVectorOperand()); q.b=ci->getZExtValue(); } }
      else if(auto*e=dyn_cast<InsertElementInst>(&I)){ if(auto*ci=dyn_cast<ConstantInt>(e->getOperand(2))){ q.op=K_INSERTV; q.a=op(e->getOperand(0)); q.b=op(e->getOperand(1)); q.c=ci->getZExtValue(); q.w=1; } }
      else if(auto*sv=dyn_cast<ShuffleVectorInst>(&I)){ q.op=K_SHUFFLE; q.a=op(sv->getOperand(0)); q.b=op(sv->getOperand(1)); q.w=leaves(sv->getOperand(0)->getType()); for(int m:sv->getShuffleMask()) q.args.push_back(m); }
      k->code.push_back(std::move(q));
    }
    return k;
  }
  bool isSkip(Instruction&I){ if(auto*ii=dyn_cast<IntrinsicInst>(&I)){ switch(ii->getIntrinsicID()){ case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: return true; default: break; } } return false; }
  int leafOff(Type*T,ArrayRef<unsigned> ix){ int o=0; for(unsigned i:ix){ if(auto*s=dyn_cast<StructType>(T)){ for(unsigned j=0;j<i;j++) o+=leaves(s->getElementType(j)); T=s->getElementType(i); } else { auto*a=cast<ArrayType>(T); o+=i*leaves(a->getElementType()); T=a->getElementType(); } } return o; }

  // ---------------------------------------------------------------- state helpers
  Val get(State&s,int o,int i=0){ Frame&f=s.fr(); return o>=0?f.regs[o+i]:f.kf->consts[(~o)+i]; }
  Val get(Frame&f,int o,int i=0){ return o>=0?f.regs[o+i]:f.kf->consts[(~o)+i]; }
  State* clone(State&s){ st.forks++; State*n=new State(s); n->forks++; return n; }
  void addPC(State&s,Expr*c){ if(c->isC()){ return; } if(c->k==E_AND&&c->w==1){ addPC(s,c->a); addPC(s,c->b); return; } s.pc.push_back(c); }
  str demang(const str&n){ return llvm::demangle(n); }
  str where(State&s){ str r; if(s.th.empty()) return r; auto&v=s.th[s.cur].st; int n=0; for(size_t i=v.size();i--&&n<24;n++){ Frame&f=v[i]; int pc=(i+1==v.size())?s.curPcSave:f.pc-1; int line=0; if(pc>=0&&pc<(int)f.kf->code.size()) line=f.kf->code[pc].line; str nm=demang(f.kf->F->getName().str()); if(nm.size()>120) nm=nm.substr(0,117)+"..."; if(!r.empty()) r+=" <- "; r+=nm; str file=f.kf->file; size_t sl=file.rfind('/'); if(sl!=str::npos) file=file.substr(sl+1); r+="("+file+":"+std::to_string(line)+")"; } return r; }
  static str jesc(const str&x){ str r; for(unsigned char c:x){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
  str inputsJson(State&s,const Model&m){ str r="["; bool first=true; for(auto&in:s.inputs){ if(!first) r+=","; first=false; r+="{\"name\":\""+jesc(in.name)+"\",\"w\":"+std::to_string(in.w)+",\"v\":["; for(size_t i=0;i<in.syms.size();i++){ if(i) r+=","; uint64_t v=in.syms[i]<m.size()?m[in.syms[i]]:0; r+=std::to_string(v&m64(in.w)); } r+="]}"; } return r+"]"; }
  void violation(State&s,const str&kind,const str&msg,const Model&m){
    str loc=where(s); str key=kind+"|"+msg;
    for(auto&v:viol) if(v.kind+"|"+v.msg==key) return;
    Violation v; v.kind=kind; v.msg=msg; v.loc=loc; str nt="["; for(size_t i=0;i<s.notes.size();i++){ if(i) nt+=","; nt+="\""+jesc(s.notes[i])+"\""; } nt+="]"; str sc="["; for(size_t i=0;i<s.sched.size();i++){ if(i) sc+=","; sc+=std::to_string(s.sched[i]); } sc+="]";
    v.json="{\"kind\":\""+jesc(kind)+"\",\"msg\":\""+jesc(msg)+"\",\"loc\":\""+jesc(loc)+"\",\"notes\":"+nt+",\"sched\":"+sc+",\"inputs\":"+inputsJson(s,m)+"}";
    viol.push_back(v);
    if(trace) errs()<<"VIOL "<<kind<<": "<<msg<<" at "<<loc<<"\n";
  }
  void inc(const str&why){ incomplete[why]++; }
  [[noreturn]] void bug(State&s,const str&kind,const str&msg){ violation(s,kind,msg,s.model); endKinds[kind]++; throw Terminate{}; }
  [[noreturn]] void unsup(State&s,const str&what){ inc("unsupported: "+what+" at "+where(s)); throw Terminate{}; }
  // decide a width-1 condition; returns the value taken on this state, forking the other side if feasible.
  // the forked sibling is handed to `other` (already constrained) which must fix up its control state.
  template<class Fn> bool branch(State&s,Expr*c,Fn other){
    if(c->isC()) return c->c;
    bool cur=P.evalUnder(c,s.model);
    Expr*pos=cur?c:P.notE(c); Expr*neg=P.notE(pos);
    Model m; int r=S->check(s.pc,neg,s.model,&m);
    if(r<0){ inc("solver unknown at branch"); }
    if(r==1){ State*n=clone(s); addPC(*n,neg); n->model=std::move(m); other(*n); push(n); addPC(s,pos); }
    return cur;
  }
  void push(State*n){ work.push_back(n); }
  // value concretization with retry-forks for the other values
  uint64_t conc(State&s,const Val&v,unsigned w){
    if(!v.e) return v.c;
    uint64_t x=(uint64_t)P.evalUnder(v.e,s.model)&m64(w);
    Expr*eq=P.mk2(E_EQ,v.e,P.C(x,w));
    if(eq->isC()) return x;
    Model m; int r=S->check(s.pc,P.notE(eq),s.model,&m);
    if(r<0) inc("solver unknown at concretization");
    if(r==1){ State*n=clone(s); addPC(*n,P.notE(eq)); n->model=std::move(m); n->fr().pc=s.curPcSave; push(n); addPC(s,eq); }
    return x;
  }
  void assumeC(State&s,Expr*c){
    if(c->isC()){ if(!c->c){ st.infeasible++; endKinds["assume-pruned"]++; throw Terminate{}; } return; }
    if(!P.evalUnder(c,s.model)){ Model m; int r=S->check(s.pc,c,s.model,&m); if(r<0){ inc("solver unknown at assume"); throw Terminate{}; } if(r==0){ st.infeasible++; endKinds["assume-pruned"]++; throw Terminate{}; } s.model=std::move(m); }
    addPC(s,c);
  }
  // ---------------------------------------------------------------- memory access
  Space& spaceOf(State&s,uint64_t a){ if(a>=0x700000000000ull) return s.stack; if(a>=0x400000000000ull) return s.heap; return s.glob; }
  MObj* objAt(State&s,uint64_t a){ return spaceOf(s,a).find(a); }
  MObj* objAtW(State&s,uint64_t a){ return spaceOf(s,a).findW(a); }
  [[noreturn]] void memErr(State&s,const str&what,uint64_t a,uint64_t n){ char b[64]; snprintf(b,64," at 0x%llx size %llu",(unsigned long long)a,(unsigned long long)n); (void)b; str k=a<4096?"null-ish pointer":"out of bounds or use after free"; bug(s,"memory",what+": "+k); }
  void chk(State&s,MObj*o,uint64_t a,uint64_t n,const char*what){ if(!o||a+n>o->addr+o->size) memErr(s,what,a,n); }
  Val rdObj(MObj*o,uint64_t off,unsigned w){ // w bits, little endian, off in range
    unsigned n=(w+7)/8;
    if(o->s.empty()){ plain: if(w<=64){ uint64_t v=0; memcpy(&v,&o->d[off],n); return Val(v&m64(w)); } u128 v=0; memcpy(&v,&o->d[off],std::min(n,16u)); Val r; r.e=P.C(v,w); return r; }
    bool any=false; for(unsigned i=0;i<n;i++) if(o->s[off+i]){ any=true; break; }
    if(!any) goto plain;
    Expr*r=nullptr; for(unsigned i=0;i<n;i++){ Expr*b=o->s[off+i]?o->s[off+i]:P.C(o->d[off+i],8); r=r?P.concat(b,r):b; }
    // note: concat(b,r) with b the more significant byte
    if(w<8*n) r=P.extract(r,0,w);
    return V(r);
  }
  void wrObj(MObj*o,uint64_t off,const Val&v,unsigned w){
    unsigned n=(w+7)/8;
    if(!v.e){ uint64_t c=v.c&m64(w); memcpy(&o->d[off],&c,n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i]=nullptr; return; }
    Expr*e=v.e; if(e->w<8*n) e=P.zext(e,8*n);
    for(unsigned i=0;i<n;i++){ Expr*b=P.extract(e,8*i,8); if(b->isC()){ o->d[off+i]=(uint8_t)b->c; if(!o->s.empty()) o->s[off+i]=nullptr; } else { if(o->s.empty()) o->s.assign(o->size,nullptr); o->s[off+i]=b; } }
  }
  Val loadV(State&s,const Val&p,unsigned w){
    unsigned n=(w+7)/8;
    if(!p.e){ MObj*o=objAt(s,p.c); chk(s,o,p.c,n,"load"); return rdObj(o,p.c-o->addr,w); }
    // symbolic address: try to stay within the object of the model value, building an ITE over offsets
    uint64_t a=(uint64_t)P.evalUnder(p.e,s.model); MObj*o=objAt(s,a);
    if(o&&a+n<=o->addr+o->size&&o->size<=1024){
      Expr*off=P.mk2(E_SUB,p.e,P.C(o->addr,64));
      Expr*in=P.mk2(E_ULE,off,P.C(o->size-n,64));
      bool inside=branch(s,in,[&](State&x){ x.fr().pc=s.curPcSave; });
      if(inside){
        u128 lo=off->umin,hi=std::min<u128>(off->umax,o->size-n);
        // offsets are often index*scale; step by the alignment implied by trailing zero bits
        unsigned stepBits=0; { Expr*x=off; while(x->k==E_ADD&&x->b->isC()&&0) x=x->a; Expr*y=x; while(y->k==E_ZEXT) y=y->a; if(y->k==E_CONCAT){ Expr*z=y; while(z->k==E_CONCAT) z=z->b; if(z->isC()&&z->c==0) stepBits=z->w; } if(stepBits>5) stepBits=5; }
        uint64_t step=1ull<<stepBits; lo=(lo+step-1)/step*step;
        uint64_t cnt=hi>=lo?(uint64_t)((hi-lo)/step)+1:0;
        if(cnt&&cnt<=512){
          Expr*r=nullptr; uint64_t k=(uint64_t)lo;
          for(uint64_t i=0;i<cnt;i++,k+=step){ Val v=rdObj(o,k,w); Expr*e=E(v,w); if(!r) r=e; else if(e!=r) r=P.ite(P.mk2(E_EQ,off,P.C(k,64)),e,r); }
          return V(r);
        }
      } else unsup(s,"load model inconsistency");
    }
    a=conc(s,p,64); o=objAt(s,a); chk(s,o,a,n,"load"); return rdObj(o,a-o->addr,w);
  }
  void storeV(State&s,const Val&p,const Val&v,unsigned w){
    unsigned n=(w+7)/8; uint64_t a=conc(s,p,64);
    MObj*o=objAtW(s,a); chk(s,o,a,n,"store"); if(o->ro) bug(s,"memory","store to read-only memory");
    wrObj(o,a-o->addr,v,w);
  }
  void copyMem(State&s,uint64_t d,uint64_t sr,uint64_t n){
    if(!n) return; MObj*so=objAt(s,sr); chk(s,so,sr,n,"memcpy source");
    uint64_t off=sr-so->addr; std::vector<uint8_t> t(so->d.begin()+off,so->d.begin()+off+n); std::vector<Expr*> ts; if(!so->s.empty()) ts.assign(so->s.begin()+off,so->s.begin()+off+n);
    MObj*o=objAtW(s,d); chk(s,o,d,n,"memcpy destination"); if(o->ro) bug(s,"memory","memcpy to read-only memory"); uint64_t doff=d-o->addr; memcpy(&o->d[doff],t.data(),n);
    bool any=false; for(auto*e:ts) if(e){ any=true; break; }
    if(any&&o->s.empty()) o->s.assign(o->size,nullptr);
    if(!o->s.empty()) for(uint64_t i=0;i<n;i++) o->s[doff+i]=any?ts[i]:nullptr;
  }
  Val byteAt(State&s,uint64_t a,const char*what){ MObj*o=objAt(s,a); chk(s,o,a,1,what); return rdObj(o,a-o->addr,8); }
  str cstr(State&s,uint64_t a){ str r; for(int i=0;i<4096;i++){ Val b=byteAt(s,a+i,"string read"); uint8_t c=b.e?(uint8_t)P.evalUnder(b.e,s.model):b.c; if(!c) break; r+=c; } return r; }
  // ---------------------------------------------------------------- calls
  void jump(State&s,BrInfo*b){ Frame&f=s.fr(); if(b->moves.size()==1&&b->moves[0][2]==1){ f.regs[b->moves[0][0]]=get(f,b->moves[0][1]); } else if(!b->moves.empty()){ Val tmp[64]; std::vector<Val> big; int tot=0; for(auto&m:b->moves) tot+=m[2]; Val*t=tmp; if(tot>64){ big.resize(tot); t=big.data(); } int k=0; for(auto&m:b->moves) for(int i=0;i<m[2];i++) t[k++]=get(f,m[1],i); k=0; for(auto&m:b->moves) for(int i=0;i<m[2];i++) f.regs[m[0]+i]=t[k++]; } f.pc=b->pc; }
  void pushFrame(State&s,KFunction*kf,std::vector<Val>&args,KI*call){
    auto&stk=s.th[s.cur].st; if(stk.size()>2000) bug(s,"stack-overflow","call depth exceeds 2000");
    if(stk.size()>st.maxDepth) st.maxDepth=stk.size();
    bool rt=kf->rt||(call&&(call->rk==2||(call->rk==0&&!stk.empty()&&stk.back().rt))); stk.emplace_back(); Frame&f=stk.back(); f.rt=rt; f.kf=kf; f.regs.resize(kf->nslots); f.call=call; covered.insert(kf);
    size_t k=0; for(size_t i=0;i<kf->argSlots.size();i++) for(int j=0;j<kf->argLeaves[i];j++,k++) if(k<args.size()) f.regs[kf->argSlots[i]+j]=args[k];
    for(size_t i=0;i<kf->byval.size();i++) if(kf->byval[i]){ MObj*o=s.stack.alloc(kf->byvalSize[i],16,2,0xCB); f.allocas.push_back(o->addr); uint64_t na=o->addr; copyMem(s,na,f.regs[kf->argSlots[i]].c,kf->byvalSize[i]); f.regs[kf->argSlots[i]]=Val(na); }
  }
  void popFrame(State&s){ Frame&f=s.fr(); for(size_t i=f.allocas.size();i--;) s.stack.free(f.allocas[i]); s.th[s.cur].st.pop_back(); }
  void finishCall(State&s,KI*q,const std::vector<Val>&ret){ // in the caller's frame
    Frame&f=s.fr(); if(q->dst>=0) for(size_t i=0;i<ret.size()&&(int)i<q->n;i++) f.regs[q->dst+i]=ret[i];
    if(q->op==K_INVOKE) jump(s,q->br[0]);
  }
  // ---------------------------------------------------------------- exceptions
  std::map<uint64_t,const GlobalVariable*> tiByAddr;
  bool tiDerives(State&s,uint64_t d,uint64_t b,int depth=0){
    if(d==b) return true; if(depth>16) return false;
    auto it=tiByAddr.find(d); if(it==tiByAddr.end()) return false; const GlobalVariable*g=it->second; if(!g->hasInitializer()) return false;
    auto*cs=dyn_cast<ConstantStruct>(g->getInitializer()); if(!cs) return false;
    if(cs->getNumOperands()==3){ auto*x=dyn_cast<GlobalValue>(cs->getOperand(2)->stripPointerCasts()); return x&&tiDerives(s,addrOf(x),b,depth+1); }
    for(unsigned i=4;i<cs->getNumOperands();i+=2){ auto*x=dyn_cast<GlobalValue>(cs->getOperand(i)->stripPointerCasts()); if(x&&tiDerives(s,addrOf(x),b,depth+1)) return true; }
    return false;
  }
  std::map<uint64_t,int> tids; int typeId(uint64_t ti){ if(!ti) return 0; auto it=tids.find(ti); if(it!=tids.end()) return it->second; int n=tids.size()+1; tids[ti]=n; return n; }
  str tiName(uint64_t a){ auto it=tiByAddr.find(a); if(it==tiByAddr.end()) return "?"; str n=it->second->getName().str(); if(n.compare(0,4,"_ZTI")==0) n=demang("_ZTS"+n.substr(4)); size_t p=n.find("for "); return p==str::npos?n:n.substr(p+4); }
  void unwind(State&s,uint64_t ex){
    auto&t=s.th[s.cur]; uint64_t ti=s.exc[ex].ti; bool first=true;
    // frame at top: its current instruction is the call/invoke (pc already advanced)
    std::vector<Frame>&stk=t.st;
    // first phase: is there a handler at all? (report uncaught exceptions at the throw point)
    { bool found=false; for(size_t i=stk.size();i--&&!found;){ Frame&f=stk[i]; int pc=(i+1==stk.size())?s.curPcSave:f.pc-1; KI&q=f.kf->code[pc]; if(q.op!=K_INVOKE) continue; auto*lp=q.br[1]->bb->getLandingPadInst(); for(unsigned c=0;c<lp->getNumClauses()&&!found;c++){ if(lp->isFilter(c)){ found=true; break; } std::vector<Val> v; cval(lp->getClause(c),v); if(v[0].c==0||tiDerives(s,ti,v[0].c)) found=true; } }
      if(!found) bug(s,"exception","uncaught exception of type "+tiName(ti)); }
    (void)first;
    while(!stk.empty()){
      Frame&f=stk.back(); int pc=f.pc-1; if(stk.size()&&first){ pc=s.curPcSave; first=false; }
      KI&q=f.kf->code[pc];
      if(q.op==K_INVOKE){
        auto*lp=q.br[1]->bb->getLandingPadInst(); int sel=-1; if(lp->isCleanup()) sel=0;
        for(unsigned c=0;c<lp->getNumClauses();c++){ std::vector<Val> v; if(lp->isFilter(c)){ sel=-2; break; } cval(lp->getClause(c),v); if(v[0].c==0||tiDerives(s,ti,v[0].c)){ sel=typeId(v[0].c); if(v[0].c==0) sel=typeId(1); break; } }
        if(sel==-2) bug(s,"exception","exception specification violated");
        if(sel>=0){ jump(s,q.br[1]); Frame&g=s.fr(); KI&l=g.kf->code[g.pc]; g.regs[l.dst]=Val(ex); g.regs[l.dst+1]=Val((uint32_t)sel); g.pc++; return; }
      }
      popFrame(s);
    }
    bug(s,"exception","uncaught exception of type "+tiName(ti));
  }
  // ---------------------------------------------------------------- threads
  bool runnable(State&s,int t){ Thread&x=s.th[t]; switch(x.status){ case 0: return true; case 1: { auto it=s.mtx.find(x.on); if(it==s.mtx.end()) return true; bool wr=!x.rd; MutexSt&m=it->second; return m.owner<0&&(!wr||m.readers.empty()); } case 2: return x.timed; case 4: return s.th[x.on].status==3; default: return false; } }
  // choose the next thread; the current one cannot continue
  void reschedule(State&s){
    std::vector<int> r; for(size_t i=0;i<s.th.size();i++) if(runnable(s,i)) r.push_back(i);
    if(r.empty()){ bool all=true; for(auto&t:s.th) if(t.status!=3) all=false; if(all){ pathDone(s); } str d; for(size_t i=0;i<s.th.size();i++) if(s.th[i].status!=3){ d+=" t"+std::to_string(i)+(s.th[i].status==1?" waits for a lock":s.th[i].status==2?" waits on a condition":" joins"); } bug(s,"deadlock","no thread can make progress:"+d); }
    // threads that only a time-out would wake come last: they cost a preemption, and without one the longest-waiting goes first
    std::vector<int> ready,timers; for(int i:r) (s.th[i].status==2?timers:ready).push_back(i); std::stable_sort(timers.begin(),timers.end(),[&](int x,int y){ if(s.simtime&&s.th[x].deadline!=s.th[y].deadline) return s.th[x].deadline<s.th[y].deadline; return s.th[x].since<s.th[y].since; });
    if(s.det){ int n=timers.empty()?-1:timers[0]; if(!ready.empty()){ n=ready[0]; for(int i:ready) if(i>s.cur){ n=i; break; } } s.cur=n; s.sched.push_back(n); wake(s); return; }
    size_t free_=ready.size(); if(!free_) free_=1; bool may=s.maxPreempt<0||s.preempts<s.maxPreempt; r=ready; r.insert(r.end(),timers.begin(),timers.end()); if(!may) r.resize(free_);
    for(size_t i=1;i<r.size();i++){ State*n=clone(s); if(i>=free_) n->preempts++; n->cur=r[i]; n->sched.push_back(r[i]); wake(*n); push(n); }
    s.cur=r[0]; if(r.size()>1) s.sched.push_back(r[0]); wake(s);
  }
  void wake(State&s){ Thread&t=s.th[s.cur]; if(t.status==1||t.status==4) t.status=0; else if(t.status==2){ t.status=0; t.phase=3; t.timedout=true; if(s.simtime) advance(s,t.deadline); } t.resumed=true; t.run=0; }
  // simulated time: the clock moves on when a time-out is due and nothing else can run
  uint64_t clockAddr(){ auto*g=M->getNamedGlobal("symx_now_ns"); return g?addrOf(g):0; }
  uint64_t tick(State&s){ uint64_t a=clockAddr(); if(!a) return 0; MObj*o=objAt(s,a); uint64_t now=rdObj(o,a-o->addr,64).c+1000000; advance(s,now); return now; } // whoever keeps a processor busy takes time
  void advance(State&s,uint64_t to){ uint64_t a=clockAddr(); if(!a||to>=4000000000000000000ull) return; MObj*o=objAt(s,a); uint64_t now=rdObj(o,a-o->addr,64).c; storeV(s,Val(a),Val(std::max(to,now+1000)),64); }
  // happens-before race detection between threads (FastTrack-style, exact addresses)
  bool races=false; int fairness=300; bool prof=getenv("SYMX_PROF"); std::map<Function*,uint64_t> profLeaf,profIncl;
  void profOut(){ if(!prof) return; for(auto*m:{&profLeaf,&profIncl}){ std::vector<std::pair<uint64_t,Function*>> v; for(auto&x:*m) v.push_back({x.second,x.first}); std::sort(v.rbegin(),v.rend()); errs()<<(m==&profLeaf?"self\n":"inclusive\n"); for(size_t i=0;i<v.size()&&i<45;i++) errs()<<v[i].first<<" "<<llvm::demangle(v[i].second->getName().str()).substr(0,110)<<"\n"; } }
  RaceSt&rs(State&s){ if(!s.race) s.race=std::make_shared<RaceSt>(); else if(s.race.use_count()>1) s.race=std::make_shared<RaceSt>(*s.race); return *s.race; }
  bool raceOn(State&s){ return races&&s.threadsOn&&s.th.size()>=2&&s.th.size()<=8; }
  void acq(State&s,uint64_t a){ if(!raceOn(s)) return; RaceSt&r=rs(s); auto it=r.sync.find(a); if(it==r.sync.end()) return; for(int i=0;i<8;i++) r.vc[s.cur][i]=std::max(r.vc[s.cur][i],it->second[i]); }
  void rel(State&s,uint64_t a){ if(!raceOn(s)) return; RaceSt&r=rs(s); auto&y=r.sync[a]; for(int i=0;i<8;i++) y[i]=std::max(y[i],r.vc[s.cur][i]); r.vc[s.cur][s.cur]++; }
  void raceCreate(State&s,int child){ if(!races||child>=8) return; RaceSt&r=rs(s); r.vc[s.cur][s.cur]++; for(int i=0;i<8;i++) r.vc[child][i]=std::max(r.vc[child][i],r.vc[s.cur][i]); r.vc[child][child]=1; r.vc[s.cur][s.cur]++; }
  void raceJoin(State&s,int child){ if(!races||child>=8||!s.race) return; RaceSt&r=rs(s); for(int i=0;i<8;i++) r.vc[s.cur][i]=std::max(r.vc[s.cur][i],r.vc[child][i]); }
  str locOf(Instruction*I){ if(!I||!I->getDebugLoc()) return "?"; const DILocation*l=I->getDebugLoc(); str r; for(;l;l=l->getInlinedAt()){ str f=l->getFilename().str(); size_t k=f.rfind('/'); r+=(r.empty()?"":" in ")+(k==str::npos?f:f.substr(k+1))+":"+std::to_string(l->getLine()); } return r; }
  void rec(State&s,uint64_t a,bool w,KI&q){
    if(q.rk==1){ acq(s,a); rel(s,a); return; } if(q.rk==2||(q.rk==0&&s.fr().rt)) return;
    RaceSt&r=rs(s); RaceAcc&x=r.acc[a]; int me=s.cur; uint32_t*vc=r.vc[me];
    if(x.wt>=0&&x.wt!=me&&x.wc>vc[x.wt]) bug(s,"race","data race on memory shared by two threads: "+str(w?"write":"read")+" at "+locOf(q.I)+" and write at "+locOf(x.wi));
    if(w){ for(int i=0;i<8;i++) if(i!=me&&x.rc[i]>vc[i]) bug(s,"race","data race on memory shared by two threads: write at "+locOf(q.I)+" and read at "+locOf(x.ri[i])); x.wt=me; x.wc=vc[me]; x.wi=q.I; for(int i=0;i<8;i++) x.rc[i]=0; }
    else { x.rc[me]=vc[me]; x.ri[me]=q.I; }
  }
  // preemption point before a synchronisation operation (re-executed on resumption)
  void preemptPoint(State&s){
    if(!s.threadsOn||s.th.size()<2) return; Thread&t=s.th[s.cur]; if(t.resumed){ t.resumed=false; return; }
    int me=s.cur;
    // fairness: a thread that keeps going (busy waiting) is set aside after a while
    if(++t.run>fairness){ t.run=0; int first=-1; if(s.simtime){ uint64_t now=tick(s); for(size_t i=0;i<s.th.size();i++) if((int)i!=me&&runnable(s,i)&&s.th[i].status==2&&s.th[i].deadline<=now&&(first<0||s.th[i].deadline<s.th[first].deadline)) first=i; if(first<0) for(size_t k=1;k<s.th.size();k++){ int i=(me+k)%s.th.size(); if(runnable(s,i)&&s.th[i].status!=2){ first=i; break; } } if(first<0) for(size_t i=0;i<s.th.size();i++) if((int)i!=me&&runnable(s,i)&&(first<0||s.th[i].deadline<s.th[first].deadline)) first=i; } for(size_t k=1;k<s.th.size();k++){ int i=(me+k)%s.th.size(); if(s.simtime) i=first<0?me:first; if(i!=me&&runnable(s,i)){ s.fr().pc=s.curPcSave; s.cur=i; s.sched.push_back(i); wake(s); throw Retry{}; } } }
    if(s.maxPreempt>=0&&s.preempts>=s.maxPreempt) return;
    for(size_t i=0;i<s.th.size();i++) if((int)i!=me&&runnable(s,i)){ State*n=clone(s); n->fr().pc=s.curPcSave; n->preempts++; n->cur=i; n->sched.push_back(i); wake(*n); push(n); }
    s.sched.push_back(me);
  }
  [[noreturn]] void blockOn(State&s,int status,uint64_t on,bool rd=false,bool timed=false){ Thread&t=s.th[s.cur]; t.status=status; t.on=on; t.rd=rd; t.timed=timed; t.since=++s.blockSeq; s.fr().pc=s.curPcSave; reschedule(s); throw Retry{}; }
  [[noreturn]] void pathDone(State&s){ st.completed++; endKinds["completed"]++; if(samples.size()<maxSamples||(st.completed%97==0&&samples.size()<maxSamples*2)) samples.push_back(inputsJson(s,s.model)); throw Terminate{}; }
  void threadExit(State&s){ Thread&t=s.th[s.cur]; t.status=3; if(s.cur==0){ pathDone(s); } reschedule(s); }

  // ---------------------------------------------------------------- main step
  #include "step.inc"
  #include "builtins.inc"
  #include "run.inc"
};
#include "builtins_impl.inc"
#include "main.inc"

