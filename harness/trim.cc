// Trimming: only old entries go, and only those that are committed, applied and not needed by anybody.
#include "node.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftConfig.hh"
#include "Common.hh"
#include <thread>
#ifndef LEN
#define LEN 4
#endif
#ifndef ENTRIES
#define ENTRIES 4
#endif
#ifndef SWITCHES
#define SWITCHES 3
#endif
static const std::vector<RaftServer> ALL={RaftServer("a",1),RaftServer("b",2),RaftServer("c",3)};
// numbers the way the configuration has them: an optional sign, digits
static bool number(const std::string&s,int64_t&v){ size_t p=0; bool neg=false; if(p<s.size()&&(s[p]=='-'||s[p]=='+')) neg=s[p++]=='-'; if(p>=s.size()) return false; v=0; for(;p<s.size();p++){ if(s[p]<'0'||s[p]>'9') return false; v=v*10+(s[p]-'0'); } if(neg) v=-v; return true; }
HARNESS(trim_config){
  symdb::reset(); symfs::reset(); StateMachine sm("/sm"); RaftConfig c(sm); bool set=sym::flip("set"); std::string v;
  if(set){ v=sym::flip("form")?sym::str("value",0,LEN):std::string(1,"-0 :+1"[sym::choose("first",6)])+"5:"+sym::str("step",0,LEN-1); sm.configSet("raft.trimming",v,0); sm.configSet("raft.resilvering.enabled",v,0); }
  TrimmingConfig t{-1,-1}; bool threw=sym::throws([&]{ t=c.getTrimmingConfig(); }); CHECK(!threw,"no configured value brings the trimmer down"); CHECK(t.step>0&&t.keepAtLeast>=0,"trimming always has a sensible configuration");
  if(!set) CHECK(t.keepAtLeast==50000000&&t.step==200000,"the default configuration");
  size_t colon=v.find(':'); int64_t a,b; if(set&&colon!=std::string::npos&&number(v.substr(0,colon),a)&&number(v.substr(colon+1),b)&&a>=0&&b>0){ CHECK(t.keepAtLeast==a&&t.step==b,"a valid configuration is used as it is"); sym_reach("valid"); } else if(set){ sym_reach("invalid"); }
  bool en=false; CHECK(!sym::throws([&]{ en=c.getResilveringEnabled(); }),"no configured value brings the replication down"); if(!set) CHECK(en,"resilvering is on by default"); sym_reach("end"); }
HARNESS(trim_set){
  symdb::reset(); symfs::reset(); StateMachine sm("/sm"); RaftConfig c(sm); TrimmingConfig t{(int64_t)sym_u64("keep"),(int64_t)sym_u64("step")}; sym_assume(sym_or(sym_or(t.keepAtLeast==100000,t.keepAtLeast==100001),sym_or(t.keepAtLeast==5,t.keepAtLeast==-1))); sym_assume(sym_or(sym_or(t.step==10000,t.step==10001),sym_or(t.step==0,t.step==7))); t.keepAtLeast=(int64_t)sym_concretize(t.keepAtLeast); t.step=(int64_t)sym_concretize(t.step); bool force=sym::flip("force");
  EncodedConfigChange e=c.setTrimmingConfig(t,force); bool ok=t.step>0&&t.keepAtLeast>=0&&(force||(t.keepAtLeast>100000&&t.step>10000)); CHECK(ok||!force?ok==e.error.empty():true,"low values need to be forced"); if(ok&&e.error.empty()){ sm.configSet(e.request[1],e.request[2],0); TrimmingConfig g=c.getTrimmingConfig(); CHECK(g.keepAtLeast==t.keepAtLeast&&g.step==t.step,"a configuration survives being stored"); }
  bool on=sym::flip("on"); EncodedConfigChange r=c.setResilveringEnabled(on); CHECK(r.error.empty(),"valid"); sm.configSet(r.request[1],r.request[2],0); CHECK(c.getResilveringEnabled()==on,"a configuration survives being stored"); sym_reach("end"); }
// what the trimmer removes, for any log and configuration
HARNESS(trim_run){
  symdb::reset(); symfs::reset(); StateMachine sm("/sm"); RaftJournal j("/j","cid",ALL,0,FsyncPolicy::kAsync); j.setCurrentTerm(1,RaftServer());
  int n=2+sym::choose("entries",ENTRIES), c=sym::choose("committed",n+1), a=sym::choose("applied",c+1); for(int i=1;i<=n;i++) CHECK(j.append(i,RaftEntry(1,"SET","k",std::to_string(i))),"append"); j.setCommitIndex(c); for(int i=1;i<=a;i++) sm.noop(i);
  int64_t keep=sym::choose("keep",3), step=sym::choose("step",3)-1; sm.configSet("raft.trimming",std::to_string(keep)+":"+std::to_string(step),a+1); a=sm.getLastApplied(); if(a>c){ if(n<a) sym_prune(); j.setCommitIndex(c=a); }
  RaftConfig conf(sm); sym_threads(1000); std::unique_ptr<RaftTrimmer> t(new RaftTrimmer(j,conf,sm)); unsigned bl=sym::choose("block",4); std::unique_ptr<RaftTrimmingBlock> b1,b2; LogIndex held=1000; if(bl==1) b1.reset(new RaftTrimmingBlock(*t,held=0)); else if(bl==2){ b1.reset(new RaftTrimmingBlock(*t,held=2)); b2.reset(new RaftTrimmingBlock(*t,3)); } else if(bl==3){ b1.reset(new RaftTrimmingBlock(*t)); b1->enforce(2); b1->enforce(held=1); }
  auto check=[&]{ for(int i=0;i<4;i++) sm.waitUntilTargetLastApplied(1000000,std::chrono::milliseconds(1)); LogIndex s=j.getLogStart(); CHECK(j.getLogSize()==n+1,"trimming never removes new entries"); CHECK(s<=c&&s<=a,"only entries that are committed and applied are removed"); CHECK(s==0||n+1-s>=keep,"the configured number of entries is kept"); CHECK(s==0||s<=held,"an entry that is needed is kept"); CHECK(s==0||step>0,"a senseless configuration trims nothing"); for(LogIndex i=s;i<=n;i++){ RaftEntry e; CHECK(j.fetch(i,e).ok()&&(i==0||e.request==request({"SET","k",std::to_string(i)})),"kept entries stay as they were"); }
    if(step>0) CHECK(n+1-s<=keep+step||c<=s+step||a<=s+step||held<=s+step,"trimming goes on as long as there is something to trim"); return s; };
  LogIndex s1=check(); if(b1){ b2.reset(); b1->lift(); held=1000; LogIndex s2=check(); CHECK(s2>=s1,"the start of the log never goes back"); if(s2>s1) sym_reach("lifted"); } if(j.getLogStart()) sym_reach("trimmed"); b1.reset(); t.reset(); sym_reach("end"); }
// whoever needs an entry can rely on it from the moment the block is in force
HARNESS(trim_block){
  symdb::reset(); symfs::reset(); StateMachine sm("/sm"); RaftJournal j("/j","cid",ALL,0,FsyncPolicy::kAsync); j.setCurrentTerm(1,RaftServer()); for(int i=1;i<=5;i++) CHECK(j.append(i,RaftEntry(1,"SET","k","v")),"append"); j.setCommitIndex(5); sm.configSet("raft.trimming","0:1",1); int a=1+sym::choose("applied",3); for(int i=2;i<=a;i++) sm.noop(i);
  RaftConfig conf(sm); bool moved=sym::flip("moved"); sym_threads(SWITCHES); { RaftTrimmer t(j,conf,sm); RaftTrimmingBlock b(t,moved?4:(LogIndex)std::numeric_limits<LogIndex>::max()); b.enforce(moved?1:0); LogIndex s=j.getLogStart(); sm.noop(a+1); LogIndex la=sm.getLastApplied(); sm.noop(a+2); LogIndex s2=j.getLogStart(); CHECK(s==s2,"nothing is trimmed while a block is in force"); (void)la; std::this_thread::yield(); CHECK(j.getLogStart()==s,"nothing is trimmed while a block is in force"); sym_reach("end"); } sym_reach("stopped"); }
