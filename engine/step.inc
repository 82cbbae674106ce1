Expr* icmpE(unsigned p,Expr*a,Expr*b){
  switch(p){
    case CmpInst::ICMP_EQ: return P.mk2(E_EQ,a,b); case CmpInst::ICMP_NE: return P.notE(P.mk2(E_EQ,a,b));
    case CmpInst::ICMP_ULT: return P.mk2(E_ULT,a,b); case CmpInst::ICMP_ULE: return P.mk2(E_ULE,a,b);
    case CmpInst::ICMP_UGT: return P.mk2(E_ULT,b,a); case CmpInst::ICMP_UGE: return P.mk2(E_ULE,b,a);
    case CmpInst::ICMP_SLT: return P.mk2(E_SLT,a,b); case CmpInst::ICMP_SLE: return P.mk2(E_SLE,a,b);
    case CmpInst::ICMP_SGT: return P.mk2(E_SLT,b,a); case CmpInst::ICMP_SGE: return P.mk2(E_SLE,b,a);
  }
  abort();
}
static int64_t s64(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); return (int64_t)((v^m)-m); }
bool icmpC(unsigned p,uint64_t a,uint64_t b,unsigned w){
  switch(p){ case CmpInst::ICMP_EQ: return a==b; case CmpInst::ICMP_NE: return a!=b; case CmpInst::ICMP_ULT: return a<b; case CmpInst::ICMP_ULE: return a<=b; case CmpInst::ICMP_UGT: return a>b; case CmpInst::ICMP_UGE: return a>=b;
    case CmpInst::ICMP_SLT: return s64(a,w)<s64(b,w); case CmpInst::ICMP_SLE: return s64(a,w)<=s64(b,w); case CmpInst::ICMP_SGT: return s64(a,w)>s64(b,w); case CmpInst::ICMP_SGE: return s64(a,w)>=s64(b,w); }
  abort();
}
Val binop(State&s,unsigned op,const Val&a,const Val&b,unsigned w){
  if(!a.e&&!b.e&&w<=64){
    uint64_t x=a.c,y=b.c,r=0;
    switch(op){
      case Instruction::Add: r=x+y; break; case Instruction::Sub: r=x-y; break; case Instruction::Mul: r=x*y; break;
      case Instruction::And: r=x&y; break; case Instruction::Or: r=x|y; break; case Instruction::Xor: r=x^y; break;
      case Instruction::Shl: r=y>=w?0:x<<y; break; case Instruction::LShr: r=y>=w?0:x>>y; break; case Instruction::AShr: r=(uint64_t)(s64(x,w)>>(y>=w?w-1:y)); break;
      case Instruction::UDiv: if(!y) bug(s,"arithmetic","division by zero"); r=x/y; break; case Instruction::URem: if(!y) bug(s,"arithmetic","division by zero"); r=x%y; break;
      case Instruction::SDiv: case Instruction::SRem: { if(!y) bug(s,"arithmetic","division by zero"); int64_t p=s64(x,w),q=s64(y,w); if(q==-1){ r=op==Instruction::SDiv?(uint64_t)0-(uint64_t)p:0; break; } r=op==Instruction::SDiv?(uint64_t)(p/q):(uint64_t)(p%q); break; }
      default: abort();
    }
    return Val(r&m64(w));
  }
  EKind k;
  switch(op){ case Instruction::Add:k=E_ADD;break; case Instruction::Sub:k=E_SUB;break; case Instruction::Mul:k=E_MUL;break; case Instruction::And:k=E_AND;break; case Instruction::Or:k=E_OR;break; case Instruction::Xor:k=E_XOR;break; case Instruction::Shl:k=E_SHL;break; case Instruction::LShr:k=E_LSHR;break; case Instruction::AShr:k=E_ASHR;break; case Instruction::UDiv:k=E_UDIV;break; case Instruction::SDiv:k=E_SDIV;break; case Instruction::URem:k=E_UREM;break; case Instruction::SRem:k=E_SREM;break; default: abort(); }
  Expr*x=E(a,w),*y=E(b,w);
  if(k>=E_UDIV&&k<=E_SREM){ Expr*z=P.mk2(E_EQ,y,P.C(0,w)); if(!z->isC()||z->c){ bool isz=branch(s,z,[&](State&n){ n.fr().pc=s.curPcSave; }); if(isz) bug(s,"arithmetic","division by zero"); } }
  return V(P.mk2(k,x,y));
}
double fget(const Val&v,unsigned w){ if(w==32){ float f; uint32_t x=v.c; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&v.c,8); return d; }
Val fput(double d,unsigned w){ Val v; if(w==32){ float f=(float)d; uint32_t x; memcpy(&x,&f,4); v.c=x; } else memcpy(&v.c,&d,8); return v; }

void runState(State&s){ while(true) try { runLoop(s); } catch(Retry&){} }
void runLoop(State&s){
  while(true){
    Frame&f=s.th[s.cur].st.back(); int pc=f.pc; KI&q=f.kf->code[pc]; s.curPcSave=pc; f.pc=pc+1;
    if(++s.steps>maxSteps) bug(s,"hang","does not come to an end");
    st.steps++;
    if(prof&&(st.steps&0x3ff)==0){ auto&T=s.th[s.cur].st; std::set<Function*> seen; profLeaf[T.back().kf->F]++; for(auto&f:T) if(seen.insert(f.kf->F).second) profIncl[f.kf->F]++; }
    if((st.steps&0xffff)==0&&sh) share(true);
    if((st.steps&0x3fff)==0&&now()>deadline){ inc("time limit"); throw Terminate{}; }
    switch(q.op){
      case K_BIN: for(int i=0;i<q.n;i++) f.regs[q.dst+i]=binop(s,q.sub,get(f,q.a,i),get(f,q.b,i),q.w); break;
      case K_ICMP: for(int i=0;i<q.n;i++){ Val a=get(f,q.a,i),b=get(f,q.b,i); if(!a.e&&!b.e) f.regs[q.dst+i]=Val(icmpC(q.sub,a.c,b.c,q.w)); else f.regs[q.dst+i]=V(icmpE(q.sub,E(a,q.w),E(b,q.w))); } break;
      case K_CAST: for(int i=0;i<q.n;i++){ Val a=get(f,q.a,i); 
          if(!a.e&&q.w2<=64){ if(q.sub==Instruction::SExt) a.c=(uint64_t)s64(a.c,q.w)&m64(q.w2); else if(q.sub!=Instruction::BitCast) a.c&=m64(q.w2); f.regs[q.dst+i]=a; }
          else { Expr*e=E(a,q.w); if(q.sub==Instruction::SExt) e=P.sext(e,q.w2); else if(q.sub!=Instruction::BitCast) e=P.zext(e,q.w2); f.regs[q.dst+i]=V(e); } } break;
      case K_GEP: { Val p=get(f,q.a); uint64_t off=q.imm; Expr*se=nullptr; for(auto&x:q.idx){ Val i=get(f,x[0]); if(!i.e) off+=(uint64_t)(s64(i.c,x[2])*x[1]); else { Expr*t=P.mk2(E_MUL,P.sext(i.e,64),P.C((uint64_t)x[1],64)); se=se?P.mk2(E_ADD,se,t):t; } }
          if(!p.e&&!se) f.regs[q.dst]=Val(p.c+off); else { Expr*r=E(p,64); if(se) r=P.mk2(E_ADD,se,r); r=P.mk2(E_ADD,r,P.C(off,64)); f.regs[q.dst]=V(r); } break; }
      case K_LOAD: {
          if(q.sub) preemptPoint(s);
          Val p=get(f,q.a);
          if(raceOn(s)&&!p.e){ if(q.sub) acq(s,p.c); else if(p.c<0x700000000000ull) rec(s,p.c,false,q); }
          if(q.w){ if(!p.e){ MObj*o=objAt(s,p.c); chk(s,o,p.c,(q.w+7)/8,"load"); f.regs[q.dst]=rdObj(o,p.c-o->addr,q.w); } else { Val r=loadV(s,p,q.w); s.fr().regs[q.dst]=r; } }
          else { std::vector<std::pair<Type*,uint64_t>> L; leafTypes(q.I->getType(),L); uint64_t a=conc(s,p,64); for(size_t i=0;i<L.size();i++) s.fr().regs[q.dst+i]=loadV(s,Val(a+L[i].second),width(L[i].first)); }
          break; }
      case K_STORE: {
          if(q.sub) preemptPoint(s);
          Val p=get(f,q.a);
          if(raceOn(s)&&!p.e){ if(q.sub) rel(s,p.c); else if(p.c<0x700000000000ull) rec(s,p.c,true,q); }
          if(q.w) storeV(s,p,get(f,q.b),q.w);
          else { std::vector<std::pair<Type*,uint64_t>> L; leafTypes(q.I->getOperand(0)->getType(),L); uint64_t a=conc(s,p,64); for(size_t i=0;i<L.size();i++) storeV(s,Val(a+L[i].second),get(f,q.b,i),width(L[i].first)); }
          break; }
      case K_ALLOCA: { uint64_t n=conc(s,get(f,q.a),q.w); if(n*q.imm>(64u<<20)) bug(s,"memory","huge alloca"); MObj*o=s.stack.alloc(n*q.imm,q.w2,2,0xCB); f.allocas.push_back(o->addr); f.regs[q.dst]=Val(o->addr); break; }
      case K_BR: jump(s,q.br[0]); break;
      case K_CBR: { Val c=get(f,q.a); bool t; if(!c.e) t=c.c&1; else { BrInfo*b0=q.br[0],*b1=q.br[1]; bool cur; 
            { Expr*ce=c.e; bool v=P.evalUnder(ce,s.model); Expr*pos=v?ce:P.notE(ce),*neg=P.notE(pos); Model m; int r=S->check(s.pc,neg,s.model,&m); if(r<0) inc("solver unknown at branch"); if(r==1){ State*n=clone(s); addPC(*n,neg); n->model=std::move(m); jump(*n,v?b1:b0); push(n); addPC(s,pos); } cur=v; }
            t=cur; } jump(s,q.br[t?0:1]); break; }
      case K_SWITCH: { Val c=get(f,q.a); if(!c.e){ BrInfo*b=q.br[0]; for(auto&k:q.cases) if(k.first==c.c){ b=k.second; break; } jump(s,b); break; }
          // group by destination
          std::vector<std::pair<BrInfo*,Expr*>> g; Expr*none=P.T(); for(auto&k:q.cases){ Expr*e=P.mk2(E_EQ,c.e,P.C(k.first,q.w)); none=P.mk2(E_AND,none,P.notE(e)); bool d=false; for(auto&x:g) if(x.first==k.second){ x.second=P.mk2(E_OR,x.second,e); d=true; } if(!d) g.push_back({k.second,e}); }
          bool dd=false; for(auto&x:g) if(x.first==q.br[0]){ x.second=P.mk2(E_OR,x.second,none); dd=true; } if(!dd) g.push_back({q.br[0],none});
          BrInfo*take=nullptr; Expr*tc=nullptr; std::vector<State*> ns;
          for(auto&x:g){ if(x.second->isC()&&!x.second->c) continue; if(!take&&P.evalUnder(x.second,s.model)){ take=x.first; tc=x.second; continue; } Model m; int r=S->check(s.pc,x.second,s.model,&m); if(r<0) inc("solver unknown at switch"); if(r==1){ State*n=clone(s); addPC(*n,x.second); n->model=std::move(m); jump(*n,x.first); push(n); } }
          if(!take) throw Terminate{}; addPC(s,tc); jump(s,take); break; }
      case K_SELECT: { Val c=get(f,q.a); if(q.sub){ for(int i=0;i<q.n;i++){ Val ci=get(f,q.a,i); Val x=get(f,q.b,i),y=get(f,q.c,i); f.regs[q.dst+i]=!ci.e?(ci.c&1?x:y):V(P.ite(ci.e,E(x,q.lw[i]),E(y,q.lw[i]))); } break; }
          if(c.e&&q.I->getType()->isPointerTy()) c=Val(conc(s,c,1));
          if(!c.e){ for(int i=0;i<q.n;i++){ Val v=get(f,(c.c&1)?q.b:q.c,i); f.regs[q.dst+i]=v; } } else for(int i=0;i<q.n;i++){ Val x=get(f,q.b,i),y=get(f,q.c,i); f.regs[q.dst+i]=V(P.ite(c.e,E(x,q.lw[i]),E(y,q.lw[i]))); } break; }
      case K_EXTRACTV: { Val t[16]; std::vector<Val> big; Val*p=t; if(q.n>16){ big.resize(q.n); p=big.data(); } for(int i=0;i<q.n;i++) p[i]=get(f,q.a,q.b+i); for(int i=0;i<q.n;i++) f.regs[q.dst+i]=p[i]; break; }
      case K_INSERTV: { std::vector<Val> t(q.n); for(int i=0;i<q.n;i++) t[i]=get(f,q.a,i); for(int i=0;i<q.w;i++) t[q.c+i]=get(f,q.b,i); for(int i=0;i<q.n;i++) f.regs[q.dst+i]=t[i]; break; }
      case K_SHUFFLE: { std::vector<Val> t(q.n); for(int i=0;i<q.n;i++){ int m=q.args[i]; t[i]=m<0?Val(0):m<q.w?get(f,q.a,m):get(f,q.b,m-q.w); } for(int i=0;i<q.n;i++) f.regs[q.dst+i]=t[i]; break; }
      case K_FREEZE: { for(int i=0;i<q.n;i++) f.regs[q.dst+i]=get(f,q.a,i); break; }
      case K_FENCE: break;
      case K_UNREACH: bug(s,"abort","unreachable code reached");
      case K_RET: {
          std::vector<Val> r(q.n); for(int i=0;i<q.n;i++) r[i]=get(f,q.a,i); KI*call=f.call; bool last=s.th[s.cur].st.size()==1;
          popFrame(s);
          if(last){ threadExit(s); break; }
          if(call) finishCall(s,call,r);
          break; }
      case K_LANDINGPAD: bug(s,"abort","landingpad reached without exception");
      case K_RESUME: { uint64_t ex=conc(s,get(f,q.a),64); // continue unwinding from the caller
          if(s.th[s.cur].st.size()==1) bug(s,"exception","uncaught exception of type "+tiName(s.exc[ex].ti));
          popFrame(s); s.curPcSave=s.fr().pc-1; unwind(s,ex); break; }
      case K_CMPXCHG: { preemptPoint(s); Val p=get(f,q.a); if(raceOn(s)&&!p.e){ acq(s,p.c); rel(s,p.c); } Val old=loadV(s,p,q.w); Val cmp=get(f,q.b),nv=get(f,q.c); Expr*eq=P.mk2(E_EQ,E(old,q.w),E(cmp,q.w)); storeV(s,p,V(P.ite(eq,E(nv,q.w),E(old,q.w))),q.w); Frame&g=s.fr(); g.regs[q.dst]=old; g.regs[q.dst+1]=V(eq); break; }
      case K_RMW: { preemptPoint(s); Val p=get(f,q.a); if(raceOn(s)&&!p.e){ acq(s,p.c); rel(s,p.c); } Val old=loadV(s,p,q.w); Val v=get(s.fr(),q.b); Val nv; unsigned w=q.w;
          switch(q.sub){ case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: nv=binop(s,Instruction::Add,old,v,w); break; case AtomicRMWInst::Sub: nv=binop(s,Instruction::Sub,old,v,w); break; case AtomicRMWInst::And: nv=binop(s,Instruction::And,old,v,w); break; case AtomicRMWInst::Or: nv=binop(s,Instruction::Or,old,v,w); break; case AtomicRMWInst::Xor: nv=binop(s,Instruction::Xor,old,v,w); break;
            case AtomicRMWInst::UMax: nv=V(P.ite(P.mk2(E_ULT,E(old,w),E(v,w)),E(v,w),E(old,w))); break; case AtomicRMWInst::UMin: nv=V(P.ite(P.mk2(E_ULT,E(v,w),E(old,w)),E(v,w),E(old,w))); break; default: unsup(s,"atomicrmw"); }
          storeV(s,p,nv,w); s.fr().regs[q.dst]=old; break; }
      case K_FBIN: { Val a=get(f,q.a),b=get(f,q.b); if(a.e||b.e||q.w>64||q.n!=1) unsup(s,"symbolic floating point"); double x=fget(a,q.w),y=fget(b,q.w),r=0; switch(q.sub){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmod(x,y);break; } f.regs[q.dst]=fput(r,q.w); break; }
      case K_FNEG: { Val a=get(f,q.a); if(a.e||q.w>64) unsup(s,"symbolic floating point"); f.regs[q.dst]=fput(-fget(a,q.w),q.w); break; }
      case K_FCMP: { Val a=get(f,q.a),b=get(f,q.b); if(a.e||b.e||q.w>64||q.n!=1) unsup(s,"symbolic floating point"); double x=fget(a,q.w),y=fget(b,q.w); bool un=std::isnan(x)||std::isnan(y),r=false; unsigned p=q.sub; if(un) r=p&8; else if(x==y) r=p&1; else if(x>y) r=p&2; else r=p&4; f.regs[q.dst]=Val(r); break; }
      case K_FCAST: { Val a=get(f,q.a); if(a.e||q.w>64||q.w2>64||q.n!=1) unsup(s,"symbolic or long floating point conversion"); switch(q.sub){ case Instruction::SIToFP: f.regs[q.dst]=fput(q.w2==32?(double)(float)s64(a.c,q.w):(double)s64(a.c,q.w),q.w2); break; case Instruction::UIToFP: f.regs[q.dst]=fput(q.w2==32?(double)(float)a.c:(double)a.c,q.w2); break; case Instruction::FPToSI: f.regs[q.dst]=Val((uint64_t)(int64_t)fget(a,q.w)&m64(q.w2)); break; case Instruction::FPToUI: f.regs[q.dst]=Val((uint64_t)fget(a,q.w)&m64(q.w2)); break; case Instruction::FPExt: case Instruction::FPTrunc: f.regs[q.dst]=fput(fget(a,q.w),q.w2); break; default: unsup(s,"fp cast"); } break; }
      case K_CALL: case K_INVOKE: execCall(s,q); break;
      default: { std::string t; raw_string_ostream os(t); q.I->print(os); unsup(s,"instruction "+t); }
    }
  }
}
void execCall(State&s,KI&q){
  Frame&f=s.fr();
  Function*fn=q.callee;
  if(!fn){ uint64_t a=conc(s,get(f,q.a),64); auto it=fnByAddr.find(a); if(it==fnByAddr.end()) bug(s,"memory","call through an invalid function pointer"); fn=it->second; }
  std::vector<Val> args; args.reserve(8); for(size_t i=0;i<q.args.size();i++) for(int j=0;j<q.argn[i];j++) args.push_back(get(f,q.args[i],j));
  auto ov=overrides.find(fn); if(ov!=overrides.end()) fn=ov->second;
  auto bi=bcache.find(fn); std::function<void(Ctx&)>*b=nullptr;
  if(bi!=bcache.end()) b=bi->second; else { b=lookupBuiltin(fn); bcache[fn]=b; }
  if(b){ Ctx c{*this,s,q,fn,args,{},false}; (*b)(c); if(!c.handled) finishCall(s,&q,c.ret); return; }
  if(fn->isDeclaration()) unsup(s,"external function "+demang(fn->getName().str())+" ["+fn->getName().str()+"]");
  pushFrame(s,compile(fn),args,&q);
}
