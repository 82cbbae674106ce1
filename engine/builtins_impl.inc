static const int QDB_ETIMEDOUT=110, QDB_EBUSY=16;
static unsigned tyW(Exec&x,Ctx&c){ return x.width(c.F->getReturnType()->getScalarType()); }
static Val fresh(Exec&x,State&s,const str&name,unsigned w,Input&in){
  static std::map<std::pair<str,unsigned>,uint32_t> memo;
  str key=name+"#"+std::to_string(s.nsym++)+"/"+std::to_string(w); auto k=std::make_pair(key,w); auto it=memo.find(k); uint32_t id;
  if(it==memo.end()){ Expr*e=P.sym(key,w); id=e->aux; memo[k]=id; } else id=it->second;
  in.syms.push_back(id); 
  if(s.model.size()<=id) s.model.resize(id+1,0);
  Val v; v.e=P.symExprs[id];
  return v;
}
static Val concreteNext(Exec&x,State&s,unsigned w){ // replay inside the engine: consume a recorded value
  uint64_t i=s.nsym++; uint64_t v=i<x.concreteVals.size()?x.concreteVals[i][0]:0; return Val(v&m64(w)); }
void Exec::initBuiltins(){
  auto B=[&](const char*n,BFn f){ builtins[n]=f; };
  auto R=[](Ctx&c,Val v){ c.ret.assign(1,v); };
  // ---- harness interface
  for(unsigned w:{8u,16u,32u,64u}) B(("sym_u"+std::to_string(w)).c_str(),[w](Ctx&c){ str n=c.x.cstr(c.s,c.a[0].c); if(c.x.concrete){ c.ret={concreteNext(c.x,c.s,w)}; return; } Input in{n,w,{}}; Val v=fresh(c.x,c.s,n,w,in); c.s.inputs.push_back(in); c.ret={v}; });
  B("sym_bytes",[](Ctx&c){ uint64_t p=c.a[0].c,n=c.x.conc(c.s,c.a[1],64); str nm=c.x.cstr(c.s,c.a[2].c); MObj*o=c.x.objAtW(c.s,p); if(n) c.x.chk(c.s,o,p,n,"sym_bytes"); Input in{nm,8,{}}; for(uint64_t i=0;i<n;i++){ Val v=c.x.concrete?concreteNext(c.x,c.s,8):fresh(c.x,c.s,nm,8,in); c.x.wrObj(o,p-o->addr+i,v,8); } if(!c.x.concrete) c.s.inputs.push_back(in); });
  B("sym_assume",[](Ctx&c){ Expr*e=E(c.a[0],1); if(e->w!=1) e=P.extract(e,0,1); c.x.assumeC(c.s,e); });
  B("sym_check",[](Ctx&c){ Expr*e=E(c.a[0],1); if(e->w!=1) e=P.extract(e,0,1); str msg=c.x.cstr(c.s,c.a[1].c); c.x.checksHit[msg]++; Model m; int r=S->checkAssert(c.s.pc,e,c.s.model,&m); if(r<0){ c.x.inc("solver unknown on assertion: "+msg); throw Terminate{}; } if(r==1){ c.x.violation(c.s,"check",msg,m); if(c.x.stopFirst) throw Terminate{}; c.x.assumeC(c.s,e); } });
  B("sym_fail",[](Ctx&c){ str msg=c.x.cstr(c.s,c.a[0].c); c.x.checksHit[msg]++; c.x.bug(c.s,"check",msg); });
  B("sym_reach",[](Ctx&c){ c.x.reach[c.x.cstr(c.s,c.a[0].c)]++; });
  B("sym_note",[](Ctx&c){ c.s.notes.push_back(c.x.cstr(c.s,c.a[0].c)); });
  B("sym_concretize",[](Ctx&c){ c.ret={Val(c.x.conc(c.s,c.a[0],64))}; });
  B("sym_is_symbolic",[](Ctx&c){ c.ret={Val(c.a[0].e!=nullptr)}; });
  B("sym_prune",[](Ctx&c){ c.x.endKinds["pruned-by-harness"]++; throw Terminate{}; });
  B("sym_end",[](Ctx&c){ c.x.pathDone(c.s); });
  B("sym_print",[](Ctx&c){ errs()<<"[sym_print] "<<c.x.cstr(c.s,c.a[0].c)<<" "<<(c.a[1].e?P.str(c.a[1].e,8):std::to_string(c.a[1].c))<<"\n"; });
  B("sym_print_bytes",[](Ctx&c){ errs()<<"[sym_print] "<<c.x.cstr(c.s,c.a[0].c)<<" ["; for(uint64_t i=0;i<c.a[2].c;i++){ Val b=c.x.byteAt(c.s,c.a[1].c+i,"print"); errs()<<(b.e?P.str(b.e,4):std::to_string(b.c))<<" "; } errs()<<"]\n"; });
  auto bool2=[&](const char*n,EKind k){ B(n,[k](Ctx&c){ Expr*a=E(c.a[0],1),*b=E(c.a[1],1); if(a->w!=1)a=P.extract(a,0,1); if(b->w!=1)b=P.extract(b,0,1); c.ret={V(P.mk2(k,a,b))}; }); };
  bool2("sym_and",E_AND); bool2("sym_or",E_OR);
  B("sym_not",[](Ctx&c){ Expr*a=E(c.a[0],1); if(a->w!=1)a=P.extract(a,0,1); c.ret={V(P.notE(a))}; });
  B("sym_ite",[](Ctx&c){ Expr*a=E(c.a[0],1); if(a->w!=1)a=P.extract(a,0,1); c.ret={V(P.ite(a,E(c.a[1],64),E(c.a[2],64)))}; });
  B("sym_bytes_equal",[](Ctx&c){ uint64_t p=c.x.conc(c.s,c.a[0],64),q=c.x.conc(c.s,c.a[1],64),n=c.x.conc(c.s,c.a[2],64); Expr*r=P.T(); for(uint64_t i=0;i<n;i++) r=P.mk2(E_AND,r,P.mk2(E_EQ,E(c.x.byteAt(c.s,p+i,"compare"),8),E(c.x.byteAt(c.s,q+i,"compare"),8))); c.ret={V(r)}; });
  B("sym_threads",[](Ctx&c){ int k=(int)(int32_t)c.a[0].c; c.s.threadsOn=k>=0; c.s.det=k>=1000; c.s.simtime=k==1001; c.s.maxPreempt=c.s.det?0:k; });
  B("sym_yield",[](Ctx&c){ c.x.preemptPoint(c.s); });
  // ---- heap
  auto doMalloc=[](Ctx&c,Val n,uint64_t al,uint8_t kind,uint8_t fill)->uint64_t{ uint64_t sz=c.x.conc(c.s,n,64); if(sz>(1ull<<30)) return 0; MObj*o=c.s.heap.alloc(sz,al,1,fill); o->ak=kind; return o->addr; };
  B("malloc",[=](Ctx&c){ R(c,Val(doMalloc(c,c.a[0],16,0,0xCD))); });
  B("aligned_alloc",[=](Ctx&c){ R(c,Val(doMalloc(c,c.a[1],c.a[0].c,0,0xCD))); });
  B("posix_memalign",[=](Ctx&c){ uint64_t a=doMalloc(c,c.a[2],c.a[1].c,0,0xCD); c.x.storeV(c.s,c.a[0],Val(a),64); R(c,Val(0)); });
  B("calloc",[=](Ctx&c){ uint64_t n=c.x.conc(c.s,c.a[0],64)*c.x.conc(c.s,c.a[1],64); R(c,Val(doMalloc(c,Val(n),16,0,0))); });
  auto nw=[=](uint8_t kind){ return [=](Ctx&c){ uint64_t a=doMalloc(c,c.a[0],16,kind,0xCD); if(!a) c.x.bug(c.s,"exception","uncaught exception of type std::bad_alloc (huge allocation)"); R(c,Val(a)); }; };
  B("_Znwm",nw(1)); B("_Znam",nw(2)); B("_ZnwmRKSt9nothrow_t",nw(1)); B("_ZnamRKSt9nothrow_t",nw(2));
  B("_ZnwmSt11align_val_t",[=](Ctx&c){ R(c,Val(doMalloc(c,c.a[0],c.a[1].c,1,0xCD))); }); B("_ZnamSt11align_val_t",[=](Ctx&c){ R(c,Val(doMalloc(c,c.a[0],c.a[1].c,2,0xCD))); });
  auto doFree=[](Ctx&c,uint64_t a,uint8_t kind){ if(!a) return; MObj*o=c.s.heap.find(a); if(!o||o->addr!=a) c.x.bug(c.s,"memory","free of an invalid or already freed pointer"); if(o->ak!=kind) c.x.bug(c.s,"memory","mismatched allocation/deallocation"); c.s.heap.free(a); };
  B("free",[=](Ctx&c){ doFree(c,c.x.conc(c.s,c.a[0],64),0); });
  for(const char*n:{"_ZdlPv","_ZdlPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdlPvRKSt9nothrow_t"}) B(n,[=](Ctx&c){ doFree(c,c.x.conc(c.s,c.a[0],64),1); });
  for(const char*n:{"_ZdaPv","_ZdaPvm","_ZdaPvSt11align_val_t","_ZdaPvRKSt9nothrow_t"}) B(n,[=](Ctx&c){ doFree(c,c.x.conc(c.s,c.a[0],64),2); });
  B("realloc",[=](Ctx&c){ uint64_t p=c.x.conc(c.s,c.a[0],64); uint64_t n=doMalloc(c,c.a[1],16,0,0xCD); if(p){ MObj*o=c.s.heap.find(p); if(!o||o->addr!=p) c.x.bug(c.s,"memory","realloc of an invalid pointer"); c.x.copyMem(c.s,n,p,std::min<uint64_t>(o->size,c.s.heap.find(n)->size)); doFree(c,p,0); } R(c,Val(n)); });
  // ---- memory intrinsics
  auto cpy=[=](Ctx&c){ uint64_t n=c.x.conc(c.s,c.a[2],64); if(!n){ if(!c.F->isIntrinsic()) R(c,c.a[0]); return; } uint64_t d=c.x.conc(c.s,c.a[0],64),q=c.x.conc(c.s,c.a[1],64); c.x.copyMem(c.s,d,q,n); if(!c.F->isIntrinsic()) R(c,Val(d)); };
  B("memcpy",cpy);B("memmove",cpy);B("llvm.memcpy",cpy);B("llvm.memmove",cpy);B("llvm.memcpy.inline",cpy);
  auto mset=[=](Ctx&c){ uint64_t n=c.x.conc(c.s,c.a[2],64); if(n){ uint64_t d=c.x.conc(c.s,c.a[0],64); MObj*o=c.x.objAtW(c.s,d); c.x.chk(c.s,o,d,n,"memset"); Val v=c.a[1]; if(v.e) v=V(P.extract(v.e,0,8)); else v.c&=255; if(!v.e&&o->s.empty()) memset(&o->d[d-o->addr],(int)v.c,n); else for(uint64_t i=0;i<n;i++) c.x.wrObj(o,d-o->addr+i,v,8); } if(!c.F->isIntrinsic()) R(c,c.a[0]); };
  B("memset",mset);B("llvm.memset",mset);
  auto mcmp=[=](Ctx&c){ uint64_t n=c.x.conc(c.s,c.a[2],64); if(!n){ R(c,Val(0)); return; } uint64_t p=c.x.conc(c.s,c.a[0],64),q=c.x.conc(c.s,c.a[1],64); MObj*o=c.x.objAt(c.s,p); c.x.chk(c.s,o,p,n,"memcmp"); o=c.x.objAt(c.s,q); c.x.chk(c.s,o,q,n,"memcmp");
    Expr*eq=P.T(); Expr*lt=P.F();
    for(uint64_t i=n;i--;){ Expr*a=E(c.x.byteAt(c.s,p+i,"memcmp"),8),*b=E(c.x.byteAt(c.s,q+i,"memcmp"),8); Expr*e=P.mk2(E_EQ,a,b); eq=P.mk2(E_AND,e,eq); lt=P.ite(e,lt,P.mk2(E_ULT,a,b)); }
    R(c,V(P.ite(eq,P.C(0,32),P.ite(lt,P.C(0xffffffffu,32),P.C(1,32))))); };
  B("memcmp",mcmp);B("bcmp",mcmp);
  // ---- exceptions
  B("__cxa_allocate_exception",[=](Ctx&c){ uint64_t a=doMalloc(c,c.a[0],16,3,0); R(c,Val(a)); });
  B("__cxa_free_exception",[=](Ctx&c){ doFree(c,c.a[0].c,3); });
  B("__cxa_throw",[](Ctx&c){ uint64_t e=c.a[0].c; ExcInfo i; i.ti=c.a[1].c; i.dtor=c.a[2].c; c.s.exc[e]=i; c.handled=true; c.x.unwind(c.s,e); });
  B("__cxa_begin_catch",[](Ctx&c){ uint64_t e=c.a[0].c; c.s.exc[e].handlers++; c.s.th[c.s.cur].caught.push_back(e); c.ret={Val(e)}; });
  B("__cxa_get_exception_ptr",[](Ctx&c){ c.ret={c.a[0]}; });
  B("__cxa_end_catch",[](Ctx&c){ auto&v=c.s.th[c.s.cur].caught; if(v.empty()) return; uint64_t e=v.back(); v.pop_back(); ExcInfo&i=c.s.exc[e]; if(--i.handlers>0) return; if(i.rethrown){ i.rethrown=false; return; } uint64_t d=i.dtor; c.s.exc.erase(e); if(d){ auto it=c.x.fnByAddr.find(d); if(it!=c.x.fnByAddr.end()&&!it->second->isDeclaration()){ std::vector<Val> a{Val(e)}; c.handled=true; c.x.pushFrame(c.s,c.x.compile(it->second),a,&c.q); } } });
  B("__cxa_rethrow",[](Ctx&c){ auto&v=c.s.th[c.s.cur].caught; if(v.empty()) c.x.bug(c.s,"abort","rethrow without exception"); uint64_t e=v.back(); c.s.exc[e].rethrown=true; c.handled=true; c.x.unwind(c.s,e); });
  B("__cxa_current_exception_type",[](Ctx&c){ c.ret={Val(0)}; });
  B("llvm.eh.typeid.for",[](Ctx&c){ c.ret={Val((uint64_t)c.x.typeId(c.a[0].c))}; });
  B("__cxa_atexit",[=](Ctx&c){ R(c,Val(0)); });
  B("__cxa_thread_atexit",[=](Ctx&c){ R(c,Val(0)); });
  B("__cxa_guard_acquire",[=](Ctx&c){ Val v=c.x.loadV(c.s,c.a[0],8); R(c,Val(v.c?0:1)); });
  B("__cxa_guard_release",[](Ctx&c){ c.x.storeV(c.s,c.a[0],Val(1),8); });
  B("__cxa_guard_abort",[](Ctx&c){});
  B("__cxa_pure_virtual",[](Ctx&c){ c.x.bug(c.s,"abort","pure virtual call"); });
  B("_ZSt9terminatev",[](Ctx&c){ c.x.bug(c.s,"abort","std::terminate called"); });
  B("abort",[](Ctx&c){ c.x.bug(c.s,"abort","abort() called"); });
  B("__assert_fail",[](Ctx&c){ c.x.bug(c.s,"abort","assertion failed: "+c.x.cstr(c.s,c.a[0].c)); });
  for(const char*n:{"exit","quick_exit","_exit","_Exit"}) B(n,[](Ctx&c){ c.x.bug(c.s,"abort","process exit called"); });
  B("llvm.trap",[](Ctx&c){ c.x.bug(c.s,"abort","trap"); }); B("llvm.ubsantrap",[](Ctx&c){ c.x.bug(c.s,"undefined","undefined behaviour trap (arithmetic overflow or similar)"); });
  // ---- integer intrinsics
  auto W=[](Ctx&c)->unsigned{ return c.x.width(c.F->getFunctionType()->getParamType(0)->getScalarType()); };
  auto ovf=[&](const char*n,int op,bool sg){ B(n,[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*b=E(c.a[1],w); unsigned w2=2*w; if(op!=2) w2=w+1; Expr*x=sg?P.sext(a,w2):P.zext(a,w2),*y=sg?P.sext(b,w2):P.zext(b,w2); Expr*r=P.mk2(op==0?E_ADD:op==1?E_SUB:E_MUL,x,y); Expr*lo=P.extract(r,0,w); Expr*back=sg?P.sext(lo,w2):P.zext(lo,w2); c.ret={V(lo),V(P.notE(P.mk2(E_EQ,back,r)))}; }); };
  ovf("llvm.uadd.with.overflow",0,false);ovf("llvm.sadd.with.overflow",0,true);ovf("llvm.usub.with.overflow",1,false);ovf("llvm.ssub.with.overflow",1,true);ovf("llvm.umul.with.overflow",2,false);ovf("llvm.smul.with.overflow",2,true);
  B("llvm.usub.sat",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*b=E(c.a[1],w); R(c,V(P.ite(P.mk2(E_ULT,a,b),P.C(0,w),P.mk2(E_SUB,a,b)))); });
  B("llvm.uadd.sat",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*b=E(c.a[1],w); Expr*r=P.mk2(E_ADD,a,b); R(c,V(P.ite(P.mk2(E_ULT,r,a),P.C(~(u128)0,w),r))); });
  auto mm=[&](const char*n,EKind k,bool mx){ B(n,[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*b=E(c.a[1],w); Expr*l=P.mk2(k,a,b); R(c,V(mx?P.ite(l,b,a):P.ite(l,a,b))); }); };
  mm("llvm.umin",E_ULT,false);mm("llvm.umax",E_ULT,true);mm("llvm.smin",E_SLT,false);mm("llvm.smax",E_SLT,true);
  B("llvm.abs",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w); R(c,V(P.ite(P.mk2(E_SLT,a,P.C(0,w)),P.mk2(E_SUB,P.C(0,w),a),a))); });
  B("llvm.bswap",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*b=P.extract(a,i,8); r=r?P.concat(r,b):b; } R(c,V(r)); });
  B("llvm.ctpop",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*r=P.C(0,w); for(unsigned i=0;i<w;i++) r=P.mk2(E_ADD,r,P.zext(P.extract(a,i,1),w)); R(c,V(r)); });
  B("llvm.ctlz",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*r=P.C(w,w); for(unsigned i=0;i<w;i++) r=P.ite(P.mk2(E_EQ,P.extract(a,i,1),P.C(1,1)),P.C(w-1-i,w),r); R(c,V(r)); });
  B("llvm.cttz",[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*r=P.C(w,w); for(unsigned i=w;i--;) r=P.ite(P.mk2(E_EQ,P.extract(a,i,1),P.C(1,1)),P.C(i,w),r); R(c,V(r)); });
  auto fsh=[&](const char*n,bool left){ B(n,[=](Ctx&c){ unsigned w=W(c); Expr*a=E(c.a[0],w),*b=E(c.a[1],w),*z=P.mk2(E_UREM,E(c.a[2],w),P.C(w,w)); Expr*cc=P.concat(a,b); Expr*zz=P.zext(z,2*w); if(left) R(c,V(P.extract(P.mk2(E_SHL,cc,zz),w,w))); else R(c,V(P.extract(P.mk2(E_LSHR,cc,zz),0,w))); }); };
  fsh("llvm.fshl",true);fsh("llvm.fshr",false);
  B("llvm.expect",[=](Ctx&c){ R(c,c.a[0]); }); B("llvm.is.constant",[=](Ctx&c){ R(c,Val(0)); }); B("llvm.objectsize",[=](Ctx&c){ R(c,Val(~0ull)); });
  B("llvm.threadlocal.address",[=](Ctx&c){ R(c,c.a[0]); }); B("llvm.launder.invariant.group",[=](Ctx&c){ R(c,c.a[0]); }); B("llvm.strip.invariant.group",[=](Ctx&c){ R(c,c.a[0]); });
  B("llvm.stacksave",[=](Ctx&c){ R(c,Val(0)); }); B("llvm.stackrestore",[](Ctx&c){}); B("llvm.ptrmask",[=](Ctx&c){ R(c,V(P.mk2(E_AND,E(c.a[0],64),E(c.a[1],64)))); });
  B("llvm.fabs",[=](Ctx&c){ if(c.a[0].e) c.x.unsup(c.s,"symbolic fp"); unsigned w=W(c); R(c,fput(fabs(fget(c.a[0],w)),w)); });
  B("llvm.ceil",[=](Ctx&c){ if(c.a[0].e) c.x.unsup(c.s,"symbolic fp"); unsigned w=W(c); R(c,fput(ceil(fget(c.a[0],w)),w)); });
  B("llvm.floor",[=](Ctx&c){ if(c.a[0].e) c.x.unsup(c.s,"symbolic fp"); unsigned w=W(c); R(c,fput(floor(fget(c.a[0],w)),w)); });
  B("llvm.fmuladd",[=](Ctx&c){ for(int i=0;i<3;i++) if(c.a[i].e) c.x.unsup(c.s,"symbolic fp"); unsigned w=W(c); R(c,fput(fget(c.a[0],w)*fget(c.a[1],w)+fget(c.a[2],w),w)); });
  B("symx_strtod",[=](Ctx&c){ str t; uint64_t p=c.x.conc(c.s,c.a[0],64); for(int i=0;i<64;i++){ Val b=c.x.byteAt(c.s,p+i,"strtod"); uint8_t ch=(uint8_t)c.x.conc(c.s,b,8); if(!ch) break; t+=ch; } char*e; double d=strtod(t.c_str(),&e); c.x.storeV(c.s,c.a[1],Val((uint64_t)(e-t.c_str())),64); R(c,fput(d,64)); });
  B("symx_format_double",[=](Ctx&c){ if(c.a[0].e) c.x.unsup(c.s,"symbolic fp"); char b[512]; str f=c.x.cstr(c.s,c.a[1].c); snprintf(b,512,f.c_str(),fget(c.a[0],64)); uint64_t d=c.a[2].c; size_t n=strlen(b); for(size_t i=0;i<=n;i++) c.x.storeV(c.s,Val(d+i),Val((uint8_t)b[i]),8); R(c,Val(n)); });
  // ---- locks
  auto kindOf=[](Ctx&c,uint64_t a)->int{ MObj*o=c.x.objAt(c.s,a); c.x.chk(c.s,o,a,24,"mutex"); return (int)c.x.rdObj(o,a-o->addr+16,32).c; };
  auto lock=[=](Ctx&c,bool tryl){ uint64_t a=c.a[0].c; c.x.preemptPoint(c.s); int kind=kindOf(c,a); MutexSt&m=c.s.mtx[a]; if(m.owner<0){ m.owner=c.s.cur; m.count=1; c.x.acq(c.s,a); R(c,Val(0)); return; } if(m.owner==c.s.cur&&kind==1){ m.count++; R(c,Val(0)); return; } if(tryl){ R(c,Val(QDB_EBUSY)); return; } if(m.owner==c.s.cur) c.x.bug(c.s,"deadlock","thread locks a mutex it already holds"); c.x.blockOn(c.s,1,a); };
  B("pthread_mutex_lock",[=](Ctx&c){ lock(c,false); }); B("pthread_mutex_trylock",[=](Ctx&c){ lock(c,true); });
  B("pthread_mutex_unlock",[=](Ctx&c){ uint64_t a=c.a[0].c; auto it=c.s.mtx.find(a); if(it==c.s.mtx.end()||it->second.owner!=c.s.cur) c.x.bug(c.s,"lock","unlock of a mutex not held by this thread"); if(--it->second.count==0){ c.s.mtx.erase(it); c.x.rel(c.s,a); } R(c,Val(0)); c.s.th[c.s.cur].resumed=false; });
  for(const char*n:{"pthread_mutex_init","pthread_mutex_destroy","pthread_mutexattr_init","pthread_mutexattr_settype","pthread_mutexattr_destroy","pthread_rwlock_init","pthread_rwlock_destroy","pthread_cond_init","pthread_cond_destroy","pthread_setname_np","pthread_detach","pthread_rwlockattr_init","pthread_rwlockattr_setkind_np","pthread_rwlockattr_destroy"}) B(n,[=](Ctx&c){ R(c,Val(0)); });
  B("pthread_self",[=](Ctx&c){ R(c,Val(c.s.cur+1)); }); B("__pthread_key_create",[=](Ctx&c){ R(c,Val(0)); });
  B("pthread_rwlock_rdlock",[=](Ctx&c){ uint64_t a=c.a[0].c; c.x.preemptPoint(c.s); MutexSt&m=c.s.mtx[a]; if(m.owner<0){ m.readers.insert(c.s.cur); c.x.acq(c.s,a); R(c,Val(0)); return; } if(m.owner==c.s.cur) c.x.bug(c.s,"deadlock","read-lock of a lock held for writing by the same thread"); c.x.blockOn(c.s,1,a,true); });
  B("pthread_rwlock_wrlock",[=](Ctx&c){ uint64_t a=c.a[0].c; c.x.preemptPoint(c.s); MutexSt&m=c.s.mtx[a]; if(m.owner<0&&m.readers.empty()){ m.owner=c.s.cur; m.count=1; c.x.acq(c.s,a); R(c,Val(0)); return; } if(m.owner==c.s.cur||m.readers.count(c.s.cur)) c.x.bug(c.s,"deadlock","write-lock of a lock the same thread already holds"); c.x.blockOn(c.s,1,a,false); });
  B("pthread_rwlock_unlock",[=](Ctx&c){ uint64_t a=c.a[0].c; auto it=c.s.mtx.find(a); if(it==c.s.mtx.end()) c.x.bug(c.s,"lock","unlock of a lock not held"); MutexSt&m=it->second; if(m.owner==c.s.cur) m.owner=-1; else { auto r=m.readers.find(c.s.cur); if(r==m.readers.end()) c.x.bug(c.s,"lock","unlock of a lock not held by this thread"); m.readers.erase(r); } c.x.rel(c.s,a); if(m.owner<0&&m.readers.empty()) c.s.mtx.erase(it); R(c,Val(0)); });
  auto cwait=[=](Ctx&c,bool timed,int ts=0){ uint64_t cv=c.a[0].c,mx=c.a[1].c; Thread&t=c.s.th[c.s.cur];
    if(t.phase==3){ MutexSt&m=c.s.mtx[mx]; if(m.owner<0){ m.owner=c.s.cur; m.count=1; t.phase=0; c.x.acq(c.s,mx); bool to=t.timedout; t.timedout=false; R(c,Val(to?QDB_ETIMEDOUT:0)); return; } c.x.blockOn(c.s,1,mx); }
    auto it=c.s.mtx.find(mx); if(it==c.s.mtx.end()||it->second.owner!=c.s.cur) c.x.bug(c.s,"lock","condition wait without holding the mutex");
    if(timed&&(!c.s.threadsOn||c.s.th.size()<2)){ R(c,Val(QDB_ETIMEDOUT)); return; }
    if(timed&&c.s.simtime){ uint64_t p=c.x.conc(c.s,c.a[ts],64); MObj*o=c.x.objAt(c.s,p); c.x.chk(c.s,o,p,16,"timespec"); uint64_t sec=c.x.conc(c.s,c.x.rdObj(o,p-o->addr,64),64),ns=c.x.conc(c.s,c.x.rdObj(o,p-o->addr+8,64),64); t.deadline=(int64_t)sec<0?0:sec>4000000000ull?~0ull-1:sec*1000000000ull+ns; }
    c.s.mtx.erase(it); c.x.rel(c.s,mx); c.x.blockOn(c.s,2,cv,false,timed); };
  B("pthread_cond_wait",[=](Ctx&c){ cwait(c,false); }); B("pthread_cond_timedwait",[=](Ctx&c){ cwait(c,true,2); }); B("pthread_cond_clockwait",[=](Ctx&c){ cwait(c,true,3); });
  auto wakeT=[](State&s,int i){ Thread&t=s.th[i]; t.status=0; t.phase=3; t.timedout=false; };
  B("pthread_cond_broadcast",[=](Ctx&c){ c.x.preemptPoint(c.s); for(size_t i=0;i<c.s.th.size();i++) if(c.s.th[i].status==2&&c.s.th[i].on==c.a[0].c) wakeT(c.s,i); R(c,Val(0)); });
  B("pthread_cond_signal",[=](Ctx&c){ c.x.preemptPoint(c.s); std::vector<int> w; for(size_t i=0;i<c.s.th.size();i++) if(c.s.th[i].status==2&&c.s.th[i].on==c.a[0].c) w.push_back(i); R(c,Val(0)); if(w.empty()) return; if(!c.s.det) for(size_t k=1;k<w.size();k++){ State*n=c.x.clone(c.s); wakeT(*n,w[k]); Ctx c2{c.x,*n,c.q,c.F,c.a,{},false}; std::vector<Val> r{Val(0)}; c.x.finishCall(*n,&c.q,r); c.x.push(n); } wakeT(c.s,w[0]); });
  B("symx_thread_create",[=](Ctx&c){ if(!c.s.threadsOn){ R(c,Val(0)); return; } auto it=c.x.fnByAddr.find(c.a[0].c); if(it==c.x.fnByAddr.end()) c.x.bug(c.s,"memory","thread entry"); int me=c.s.cur; int id=c.s.th.size(); c.s.th.emplace_back(); c.s.cur=id; std::vector<Val> a{c.a[1]}; c.x.pushFrame(c.s,c.x.compile(it->second),a,nullptr); c.s.cur=me; c.x.raceCreate(c.s,id); R(c,Val(id)); });
  B("symx_thread_join",[=](Ctx&c){ uint64_t id=c.x.conc(c.s,c.a[0],64); if(!c.s.threadsOn||id==0||id>=c.s.th.size()) return; if(c.s.th[id].status==3){ c.x.raceJoin(c.s,id); return; } c.x.blockOn(c.s,4,id); });
  B("symx_cur_thread",[=](Ctx&c){ R(c,Val(c.s.cur)); });
  B("symx_external",[](Ctx&c){ c.x.unsup(c.s,"modelled as unsupported: "+c.x.cstr(c.s,c.a[0].c)); });
  // snprintf for integer conversions
  B("snprintf",[=](Ctx&c){ uint64_t d=c.a[0].c,n=c.a[1].c; str f=c.x.cstr(c.s,c.a[2].c); size_t ai=3; std::vector<Val> out; 
    auto lit=[&](const str&t){ for(char ch:t) out.push_back(Val((uint8_t)ch)); };
    for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ out.push_back(Val((uint8_t)f[i])); continue; } size_t j=i+1; while(j<f.size()&&!strchr("diuxXscfgeGp%",f[j])) j++; str spec=f.substr(i,j-i+1); char k=f[j]; i=j; if(k=='%'){ lit("%"); continue; } Val v=c.a[ai++];
      if((spec=="%02X"||spec=="%02x")&&v.e){ Expr*e=v.e; for(int h=1;h>=0;h--){ Expr*nb=P.extract(e,4*h,4); Expr*z=P.zext(nb,8); Expr*ch=P.ite(P.mk2(E_ULT,z,P.C(10,8)),P.mk2(E_ADD,z,P.C('0',8)),P.mk2(E_ADD,z,P.C((k=='X'?'A':'a')-10,8))); out.push_back(V(ch)); } continue; }
      if(k=='s'){ lit(c.x.cstr(c.s,c.x.conc(c.s,v,64))); continue; }
      bool lg=spec.find('l')!=str::npos; uint64_t x=c.x.conc(c.s,v,v.e?v.e->w:64); char b[64]; if(k=='f'||k=='g'||k=='e'||k=='G') snprintf(b,64,spec.c_str(),fget(Val(x),64)); else if(lg) snprintf(b,64,spec.c_str(),(long)x); else snprintf(b,64,spec.c_str(),(int)x); lit(b); }
    for(size_t i=0;i<out.size()&&i+1<n;i++) c.x.storeV(c.s,Val(d+i),out[i],8); if(n) c.x.storeV(c.s,Val(d+std::min<uint64_t>(out.size(),n-1)),Val(0),8); R(c,Val(out.size())); });
  B("symx_store_model_byte",[](Ctx&c){});
  (void)tyW;
}
