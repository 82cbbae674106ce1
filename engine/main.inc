static Exec*X; static int g_argc; static char**g_argv;
static void mergeFile(const str&f,std::vector<str>&out){ std::ifstream i(f); str s((std::istreambuf_iterator<char>(i)),std::istreambuf_iterator<char>()); if(!s.empty()) out.push_back(s); }
static int realMain(int argc,char**argv){
  str bc,entry="harness",outf="-"; double tl=600; int jobs=1; bool cont=false; str concf,slots;
  X=new Exec; S=new Solver; Exec&x=*X; x.t0=x.now();
  for(int i=1;i<argc;i++){ str a=argv[i]; auto nx=[&]{ return str(argv[++i]); };
    if(a=="--entry") entry=nx(); else if(a=="--races") x.races=true; else if(a=="--out") outf=nx(); else if(a=="--time") tl=atof(nx().c_str()); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--slots") slots=nx(); else if(a=="--max-steps") x.maxSteps=strtoull(nx().c_str(),0,10); else if(a=="--max-paths") x.maxPaths=strtoull(nx().c_str(),0,10); else if(a=="--all") cont=true; else if(a=="--trace") x.trace=true; else if(a=="--repo") x.repoPrefix=nx(); else if(a=="--z3-timeout") S->timeoutMs=atoi(nx().c_str()); else if(a=="--samples") x.maxSamples=atoi(nx().c_str()); else if(a=="--concrete"){ x.concrete=true; std::ifstream in(nx()); uint64_t v; while(in>>v) x.concreteVals.push_back({v}); } else bc=a; }
  x.stopFirst=!cont; x.deadline=x.t0+tl;
  x.initBuiltins(); x.load(bc);
  State*s=x.initial(entry); x.collectReach(entry);
  x.work.push_back(s);
  if(jobs<=1){ x.explore(); x.profOut(); str r="["+x.resultJson()+"]"; if(outf=="-") std::cout<<r<<"\n"; else std::ofstream(outf)<<r; return 0; }
  // every process gives away half of its states whenever a processor is free; the count of free processors may be shared with other runs
  std::vector<str> parts; prctl(PR_SET_CHILD_SUBREAPER,1); std::cout.flush();
  x.sh=new(mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0)) Exec::Shared; x.partBase=outf=="-"?("/tmp/symx."+std::to_string(getpid())):outf;
  if(slots.empty()){ x.idle=&x.sh->own; *x.idle=jobs; } else { int fd=open(slots.c_str(),O_RDWR); void*m=fd<0?MAP_FAILED:mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(m==MAP_FAILED){ perror("slots"); return 3; } x.idle=(std::atomic<int>*)m; }
  x.idle->fetch_sub(1); x.explore(); if(x.stopFirst&&!x.viol.empty()) x.sh->stop=1; x.idle->fetch_add(1);
  while(true){ int stt; pid_t p=waitpid(-1,&stt,0); if(p<0){ if(errno==EINTR) continue; break; } if(!WIFEXITED(stt)||WEXITSTATUS(stt)) x.inc("worker process died"); }
  uint32_t n=x.sh->parts; for(uint32_t k=0;k<n;k++){ str f=x.partBase+".part"+std::to_string(k); mergeFile(f,parts); unlink(f.c_str()); }
  if(parts.size()!=n) x.inc("worker result missing");
  str r="["+x.resultJson(); for(auto&p:parts) r+=","+p; r+="]";
  if(outf=="-") std::cout<<r<<"\n"; else std::ofstream(outf)<<r;
  return 0;
}
static void*thr(void*){ int r=realMain(g_argc,g_argv); fflush(stdout); std::cout.flush(); _exit(r); }
int main(int argc,char**argv){
  g_argc=argc; g_argv=argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,(size_t)4<<30); pthread_t t; if(pthread_create(&t,&at,thr,nullptr)){ perror("pthread_create"); return 3; } pthread_join(t,nullptr); return 0;
}
