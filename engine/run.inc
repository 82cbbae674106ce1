void load(const str&path){
  SMDiagnostic err; auto m=parseIRFile(path,err,ctx); if(!m){ err.print("symx",errs()); exit(3); } M=m.release(); DL=&M->getDataLayout();
}
State* initial(const str&entry){
  State*s=new State; uint64_t fa=0x10000000;
  for(auto&F:*M){ gaddr[&F]=fa; fnByAddr[fa]=&F; fa+=16; }
  for(auto&A:M->aliases()){ if(auto*o=dyn_cast<Function>(A.getAliaseeObject())) gaddr[&A]=gaddr[o]; }
  std::vector<std::pair<GlobalVariable*,uint64_t>> gv;
  for(auto&G:M->globals()){ uint64_t sz=G.hasInitializer()?DL->getTypeAllocSize(G.getValueType()):256; MObj*o=s->glob.alloc(sz?sz:1,G.getAlign()?G.getAlign()->value():16,0,0); gaddr[&G]=o->addr; gv.push_back({&G,o->addr}); if(G.getName().starts_with("_ZTI")) tiByAddr[o->addr]=&G; if(!G.hasInitializer()&&0) errs()<<"extern global "<<G.getName()<<"\n"; }
  for(auto&A:M->aliases()) if(!gaddr.count(&A)){ auto*o=A.getAliaseeObject(); APInt off(64,0); A.getAliasee()->stripAndAccumulateConstantOffsets(*DL,off,true); gaddr[&A]=gaddr[o]+off.getZExtValue(); }
  for(auto&p:gv) if(p.first->hasInitializer()){ MObj*o=s->glob.findW(p.second); writeInit(o,0,p.first->getInitializer()); if(p.first->isConstant()) o->ro=true; }
  for(auto&F:*M) if(!F.isDeclaration()&&F.getName().starts_with("__symx_override_")){ auto*t=M->getFunction(F.getName().substr(16)); if(t) overrides[t]=&F; }
  // start-up: constructors by priority, then the entry
  std::vector<std::pair<uint64_t,Function*>> ctors;
  if(auto*g=M->getNamedGlobal("llvm.global_ctors")) if(auto*a=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&op:a->operands()){ auto*cs=cast<ConstantStruct>(op); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); }
  std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){ return a.first<b.first; });
  Function*ef=M->getFunction(entry); if(!ef||ef->isDeclaration()){ errs()<<"no entry "<<entry<<"\n"; exit(3); }
  s->th.resize(1);
  // a synthetic driver frame: frames stacked so that ctors run first
  std::vector<Function*> order; for(auto&c:ctors) order.push_back(c.second); order.push_back(ef);
  std::vector<Val> none;
  for(size_t i=order.size();i--;){ pushFrame(*s,compile(order[i]),none,nullptr); }
  return s;
}
void collectReach(const str&entry){
  // labels in functions reachable from the entry through direct calls inside the harness
  std::set<Function*> seen; std::vector<Function*> w{M->getFunction(entry)};
  while(!w.empty()){ Function*F=w.back(); w.pop_back(); if(!F||F->isDeclaration()||!seen.insert(F).second) continue; str file; if(auto*sp=F->getSubprogram()) if(sp->getFile()) file=sp->getFile()->getFilename().str(); 
    for(auto&B:*F) for(auto&I:B) if(auto*cb=dyn_cast<CallBase>(&I)){ Function*c=cb->getCalledFunction(); if(!c) continue; if(c->getName()=="sym_reach"){ if(auto*g=dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if(g->hasInitializer()) if(auto*d=dyn_cast<ConstantDataSequential>(g->getInitializer())) allReach.insert(d->getAsCString().str()); } else if(!c->isDeclaration()) w.push_back(c); } }
}
// processes which share the exploration, each giving away states while there is room
struct Shared { std::atomic<uint32_t> stop{0},parts{0}; std::atomic<int> own{0}; };
Shared*sh=nullptr; std::atomic<int>*idle=nullptr; str partBase; uint32_t myPart=0; double lastShare=0;
void share(bool all){
  if(work.size()<(all?1:2)||idle->load()<=0||sh->stop) return; double t=now(); if(t-lastShare<0.01) return;
  if(idle->fetch_sub(1)<=0){ idle->fetch_add(1); return; }
  std::deque<State*> give,keep; for(size_t i=0;i<work.size();i++) (i%2?keep:give).push_back(work[i]);
  uint32_t n=sh->parts.fetch_add(1); pid_t p=fork();
  if(p<0){ inc("worker process not started"); lastShare=t; return; }
  if(p){ for(auto*x:give) delete x; work.swap(keep); lastShare=now(); return; }
  myPart=n; Stats z; st=z; viol.clear(); S->st=SolverStats(); reach.clear(); incomplete.clear(); checksHit.clear(); endKinds.clear(); samples.clear(); covered.clear();
  lastShare=now(); work.swap(give); explore(); if(stopFirst&&!viol.empty()) sh->stop=1;
  { std::ofstream o(partBase+".part"+std::to_string(myPart)); o<<resultJson(); } idle->fetch_add(1); _exit(0);
}
void explore(){
  while(!work.empty()){
    if(sh){ if(sh->stop){ for(auto*x:work) delete x; work.clear(); return; } share(false); }
    State*s=work.back(); work.pop_back();
    if(now()>deadline||st.paths>=maxPaths){ inc(st.paths>=maxPaths?"path limit":"time limit"); delete s; continue; }
    st.paths++;
    try { runState(*s); } catch(Terminate&){}
    delete s;
    if(stopFirst&&!viol.empty()) { for(auto*x:work) delete x; work.clear(); return; }
  }
}
str resultJson(){
  str r="{"; auto num=[&](const char*k,double v){ char b[96]; snprintf(b,96,"\"%s\":%.6g,",k,v); r+=b; }; auto numi=[&](const char*k,uint64_t v){ r+="\""+str(k)+"\":"+std::to_string(v)+","; };
  numi("paths",st.paths);numi("completed",st.completed);numi("forks",st.forks);numi("steps",st.steps);numi("infeasible",st.infeasible);numi("maxDepth",st.maxDepth);
  numi("queries",S->st.queries);numi("z3calls",S->st.z3calls);numi("cacheHits",S->st.cacheHits);numi("domainHits",S->st.domainHits);numi("sat",S->st.sat);numi("unsat",S->st.unsat);numi("unknown",S->st.unknown);numi("assertQueries",S->st.checkQueries);numi("assertZ3",S->st.checkZ3);numi("assertTrivial",S->st.checkTrivial);
  num("z3time",S->st.z3time);num("maxz3",S->st.maxz3); numi("exprs",P.count);
  auto mapj=[&](const char*k,std::map<str,uint64_t>&m){ r+="\""+str(k)+"\":{"; bool f=true; for(auto&x:m){ if(!f) r+=","; f=false; r+="\""+jesc(x.first)+"\":"+std::to_string(x.second); } r+="},"; };
  mapj("reach",reach);mapj("incomplete",incomplete);mapj("checks",checksHit);mapj("ends",endKinds);
  r+="\"allReach\":["; bool f=true; for(auto&x:allReach){ if(!f) r+=","; f=false; r+="\""+jesc(x)+"\""; } r+="],";
  r+="\"violations\":["; f=true; for(auto&v:viol){ if(!f) r+=","; f=false; r+=v.json; } r+="],";
  r+="\"samples\":["; f=true; for(auto&v:samples){ if(!f) r+=","; f=false; r+=v; } r+="],";
  r+="\"functions\":["; f=true; std::set<str> fs; for(auto*k:covered){ if(k->repo){ str nm=demang(k->F->getName().str()); fs.insert(nm+" @ "+k->file.substr(repoPrefix.size())); }
    std::set<const DISubprogram*> sps; for(auto&B:*k->F) for(auto&I:B) for(const DILocation*l=I.getDebugLoc();l;l=l->getInlinedAt()) if(auto*sp=l->getScope()->getSubprogram()) sps.insert(sp);
    for(auto*sp:sps){ if(!sp->getFile()) continue; str f=sp->getFile()->getFilename().str(); if(!f.empty()&&f[0]!='/') f=sp->getFile()->getDirectory().str()+"/"+f; if(f.compare(0,repoPrefix.size(),repoPrefix)) continue; str ln=sp->getLinkageName().str(); fs.insert((ln.empty()?sp->getName().str():demang(ln))+" @ "+f.substr(repoPrefix.size())); } } for(auto&x:fs){ if(!f) r+=","; f=false; r+="\""+jesc(x)+"\""; } r+="],";
  num("wall",now()-t0); r+="\"ok\":1}"; return r;
}
