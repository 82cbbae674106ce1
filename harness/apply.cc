// applying the replicated log to the state machine: once each, atomically, across crashes
#include "smmodel.hh"
#ifndef OPS
#define OPS 3
#endif
#define N(a) (sizeof(a)/sizeof(*a))
static Words fill(const char*t){ Words w(1); for(;*t;t++){ if(*t==' ') w.emplace_back(); else if(*t=='$') w.back().push_back((char)sym_u8("value")); else w.back().push_back(*t); } return w; }
typedef std::vector<Words> Entry; // a command, or the commands of a transaction
static const char*const E1[]={"SET k $","HMSET k a $ b $","HINCRBYMULTI l a 1 l b 2 l a 3","SMOVE k l a","DEQUE_PUSH_BACK k $ $","LHSET_AND_DEL_FALLBACK l a h $ k","VHSET l a $","DEL k l","JOURNAL_UPDATE_MEMBERS x y","SET k"};
static const char*const T1[][3]={{"SET k $","HSET l a $","DEL k"},{"HSET k a $","HGETALL k","HCLONE k l"},{"VHSET k a $","VHSET k b $","VHDEL k a"},{"LHMSET l a h $ b g $","LHDEL l a","FLUSHALL"}};
static Entry entry(){ unsigned c=sym::choose("entry",N(E1)+N(T1)); Entry e; if(c<N(E1)) e.push_back(fill(E1[c])); else for(auto t:T1[c-N(E1)]) e.push_back(fill(t)); return e; }
static const std::vector<std::string> KS={"k","l"}, FS={"a","b"};
static void model(Ref&r,const Entry&e){ r.begin(); for(auto&w:e) if(w[0].compare(0,8,"JOURNAL_")) r.exec(w); }
// applies an entry the way the journal is applied: always as one request, transactions in their encoded form
static void apply(Machine&m,const Entry&e,LogIndex idx){ RedisRequest r; if(e.size()==1) r=request(e[0]); else { Transaction t; for(auto&w:e) t.push_back(request(w)); r=t.toRedisRequest(); } m.disp->dispatch(r,idx); }
static void verify(Machine&m,Ref&r){ for(auto&w:r.reads(KS,FS)){ std::string want=r.exec(w); CHECK(match(m.run(w),want),"the state is exactly what the applied entries produce"); } Words all; for(auto&x:r.keys) all.push_back(x.first); CHECK(match(m.run({"KEYS","*"}),rVec(all)),"the keys that exist"); }
HARNESS(apply_crash){
  Machine m; Ref none; std::vector<Entry> log; for(int i=0;i<OPS;i++) log.push_back(entry());
  std::vector<Ref> at{none}; for(auto&e:log){ at.push_back(at.back()); model(at.back(),e); }
  symdb::settle(SMP); m.reopen();
  symdb::world().crashAt=symdb::world().writes+(long)sym::choose("crashAt",OPS+1); symdb::world().crashAfter=sym::flip("after"); size_t done=0; bool crashed=false;
  try { for(auto&e:log){ apply(m,e,done+1); done++; CHECK(m.sm->getLastApplied()==(LogIndex)done,"the last applied entry is known"); } } catch(symdb::Crash&) { crashed=true; }
  symdb::world().crashAt=-1; size_t least=done; m.disp.reset(); m.pub.reset(); m.sm.reset();
  if(sym::flip("power")){ least=0; symdb::crash(SMP,sym::choose("keep",(unsigned)symdb::unsynced(SMP)+1)); }
  m.open(); LogIndex la=m.sm->getLastApplied(); CHECK(la>=(LogIndex)least&&la<=(LogIndex)done+(crashed?1:0),"after a crash the state machine is at some entry it had reached"); size_t i=(size_t)la; verify(m,at[i]);
  // the journal is applied again from there
  for(;i<log.size();i++) apply(m,log[i],i+1); CHECK(m.sm->getLastApplied()==OPS,"every entry is applied once"); verify(m,at[OPS]); sym_reach("end"); }
// an entry is never applied twice, skipped, or applied without its index
HARNESS(apply_order){ Machine m; Ref r; for(int i=0;i<2;i++){ Entry e=entry(); apply(m,e,i+1); model(r,e); } Entry e=entry(); LogIndex idx=(LogIndex)sym_u64("index"); sym_assume(sym_and(idx>=-2,idx<7)); bool threw=false; try { apply(m,e,idx); } catch(FatalException&) { threw=true; } CHECK(sym_or(threw,idx==3),"an entry is applied only right after the one before it"); CHECK(sym_or(!threw,idx!=3),"the next entry is accepted"); if(!threw) model(r,e); CHECK(m.sm->getLastApplied()==(threw?2:3),"what was applied last"); verify(m,r); m.reopen(); verify(m,r); CHECK(m.sm->getLastApplied()==(threw?2:3),"what was applied last"); sym_reach("end"); }
// a write that the disk refuses never counts as applied
HARNESS(apply_fault){ Machine m; Ref r; Entry a=entry(); apply(m,a,1); model(r,a); Entry e=entry(); symdb::world().failAt=symdb::world().writes; bool threw=false; try { apply(m,e,2); } catch(FatalException&) { threw=true; } symdb::world().failAt=-1; CHECK(threw,"a refused write is reported"); CHECK(m.sm->getLastApplied()==1,"a refused write is not applied"); verify(m,r); m.reopen(); CHECK(m.sm->getLastApplied()==1,"a refused write is not applied"); verify(m,r); apply(m,e,2); model(r,e); verify(m,r); sym_reach("end"); }
