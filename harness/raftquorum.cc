// Quorum decisions: commit index, leases, elections, time-outs.
#include "journal.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftVoteRegistry.hh"
#include "raft/RaftState.hh"
#include "raft/RaftTimeouts.hh"
#include <thread>
#ifndef OPS
#define OPS 3
#endif
#ifndef NT
#define NT 4
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef LOGN
#define LOGN 6
#endif
static const RaftServer TG[]={SB,SC,SD,RaftServer("e",5),RaftServer("f",6),RaftServer("g",7)};
static uint64_t cnt(bool b){ return sym_ite(b,1,0); }
// v is the k-th largest (k>=1) of the values
static bool kth(const std::vector<int64_t>&x,size_t k,int64_t v){ uint64_t ge=0,gt=0; for(int64_t a:x){ ge+=cnt(a>=v); gt+=cnt(a>v); } return sym_and(ge>=k,gt<k); }
static std::unique_ptr<RaftJournal> openLog(int n){ symdb::reset(); std::vector<RaftServer> all={SA}; for(auto&s:TG) all.push_back(s); std::unique_ptr<RaftJournal> j(new RaftJournal(JP,"cid",all,0,FsyncPolicy::kSyncImportantUpdates)); for(int i=0;i<n;i++) j->append(j->getLogSize(),RaftEntry(0,"set",std::string(1,'a'+i),"v")); return j; }
// n targets (without the leader): entries are committed once a majority of the n+1 voting members have them
static size_t quorum(size_t targets){ size_t members=targets+1; return members/2+1; }
// cluster of any size: every member acknowledges once
HARNESS(commit_size){
  auto j=openLog(LOGN); RaftCommitTracker t(*j); size_t n=1+sym::choose("targets",NT); std::vector<RaftServer> cur(TG,TG+n); t.updateTargets(cur); std::vector<int64_t> x(n,0); int64_t commit=0;
  for(size_t i=0;i<n;i++){ int64_t v=(int64_t)sym::range("match",0,LOGN); x[i]=v; t.getHandler(cur[i]).update(v); }
  commit=j->getCommitIndex(); CHECK(kth(x,quorum(n)-1,commit),"an entry is committed exactly when a majority of the voting members have it"); sym_reach("end");
}
HARNESS(commit_quorum){
  auto j=openLog(LOGN); RaftCommitTracker t(*j); size_t n=1+sym::choose("targets",3); std::vector<RaftServer> cur(TG,TG+n); t.updateTargets(cur);
  std::map<RaftServer,int64_t> match; for(auto&s:TG) match[s]=0; int64_t commit=0;
  for(int i=0;i<OPS;i++){
    size_t k=sym::choose("which",n+1); const RaftServer&who= k==n? TG[5] : cur[k]; // k==n: an observer, must not count
    int64_t v=(int64_t)sym::range("match",0,LOGN); sym_assume(v>=match[who]); match[who]=v; t.getHandler(who).update(v); CHECK(t.getHandler(who).get()==v,"the match index of each member is kept");
    std::vector<int64_t> x; for(auto&s:cur) x.push_back(match[s]); int64_t now=j->getCommitIndex();
    CHECK(now>=commit,"the commit index never goes back"); CHECK(kth(x,quorum(n)-1,now),"an entry is committed exactly when a majority of the voting members have it"); commit=now;
  }
  sym_reach("end");
}
// membership changes and new leaderships
HARNESS(commit_targets){
  auto j=openLog(LOGN); RaftCommitTracker t(*j); std::vector<RaftServer> cur={SB,SC}; t.updateTargets(cur); std::map<RaftServer,int64_t> match; for(auto&s:TG) match[s]=0; int64_t commit=0;
  for(int i=0;i<OPS;i++){
    unsigned op=sym::choose("op",4);
    if(op==0){ std::vector<RaftServer> nt; int mask=1+sym::choose("mask",7); for(int b=0;b<3;b++) if(mask>>b&1) nt.push_back(TG[b]); cur=nt; t.updateTargets(cur); }
    else if(op==1){ t.reset(); std::vector<RaftServer> nt; int mask=1+sym::choose("mask",7); for(int b=0;b<3;b++) if(mask>>b&1) nt.push_back(TG[b]); cur=nt; t.updateTargets(cur); for(auto&s:TG) match[s]=0; }
    else { const RaftServer&who=TG[sym::choose("who",3)]; int64_t v=(int64_t)sym::range("match",0,LOGN); sym_assume(v>=match[who]); match[who]=v; t.getHandler(who).update(v); }
    for(auto&s:cur) CHECK(t.getHandler(s).get()==match[s],"match indexes survive a membership change and are forgotten by a new leadership");
    std::vector<int64_t> x; for(auto&s:cur) x.push_back(match[s]); int64_t now=j->getCommitIndex(); CHECK(now>=commit,"the commit index never goes back");
    CHECK(sym::implies(now>commit,kth(x,quorum(cur.size())-1,now)),"an entry is committed only when a majority of the current voting members have it"); commit=now;
  }
  // once the rest of the cluster catches up, everything gets committed
  for(auto&s:cur) t.getHandler(s).update(LOGN); CHECK(j->getCommitIndex()==LOGN,"what all members have is committed"); sym_reach("end");
}
HARNESS(commit_single){
  auto j=openLog(0); { RaftCommitTracker t(*j); sym_threads(PRE); t.updateTargets({}); int n=1+sym::choose("n",2); for(int i=0;i<n;i++) j->append(j->getLogSize(),RaftEntry(0,"set","k","v")); LogIndex c=0; while(c<n){ j->waitForCommits(c); LogIndex d=j->getCommitIndex(); CHECK(d>=c&&d<j->getLogSize(),"commit index stays within the log"); c=d; }
    CHECK(c==n,"a single member commits by itself"); t.updateTargets({SB,SC}); j->append(j->getLogSize(),RaftEntry(0,"set","k","v")); CHECK(j->getCommitIndex()==n,"with other members nothing commits without their acknowledgement"); t.getHandler(SB).update(n+1); CHECK(j->getCommitIndex()==n+1,"majority of three"); sym_threads(-1); } sym_reach("end");
}
// acknowledgements from several replicas arrive concurrently
HARNESS(commit_threads){
  auto j=openLog(3); RaftCommitTracker t(*j); t.updateTargets({SB,SC,SD,TG[3]}); auto&b=t.getHandler(SB); auto&c=t.getHandler(SC); auto&d=t.getHandler(SD); d.update(3);
  int64_t v1=1+sym::choose("v1",3), v2=1+sym::choose("v2",3); sym_threads(2); std::thread x([&]{ b.update(v1); }); c.update(v2); x.join(); sym_threads(-1);
  std::vector<int64_t> m={v1,v2,3,0}; int64_t now=j->getCommitIndex(); CHECK(kth(m,2,now),"the commit index is what a majority has"); sym_reach("end");
}
typedef std::chrono::steady_clock::time_point TP; typedef std::chrono::steady_clock::duration DUR;
static TP at(int64_t t){ return TP(DUR(t)); }
static int64_t beat(){ int64_t t=(int64_t)sym_u64("beat"); sym_assume(sym_and(t>=0,t<(1ll<<60))); return t; }
static void deadlines(RaftLease&l,DUR dur,const std::vector<int64_t>&x){ size_t n=x.size(); int64_t d=(l.getDeadline()-dur).time_since_epoch().count(); CHECK(kth(x,quorum(n)-1,d),"the lease runs from the most recent time at which a majority (with the leader) was in contact");
  int64_t sh=(l.getShakyQuorumDeadline()-dur).time_since_epoch().count(); CHECK(kth(x,std::min(quorum(n),n),sh),"the quorum is shaky when losing one more member would end the lease"); }
HARNESS(lease_deadline){ size_t n=1+sym::choose("targets",NT); std::vector<RaftServer> cur(TG,TG+n); DUR dur((int64_t)sym::range("dur",0,1000000)); RaftLease l(cur,dur); std::vector<int64_t> x; for(auto&s:cur){ int64_t t=beat(); l.getHandler(s).heartbeat(at(t)); x.push_back(t); } deadlines(l,dur,x); sym_reach("end"); }
HARNESS(lease_contact){ RaftLease l({SB,SC},DUR(100)); std::map<RaftServer,int64_t> last; for(int i=0;i<3;i++){ const RaftServer&w=TG[sym::choose("who",3)]; int64_t t=beat(); l.getHandler(w).heartbeat(at(t)); last[w]=(int64_t)sym_ite(t>last[w],t,last[w]); CHECK(l.getHandler(w).get()==at(last[w]),"the last contact never moves back"); } deadlines(l,DUR(100),{last[SB],last[SC]}); sym_reach("end"); }
HARNESS(lease_targets){ RaftLease l({SB,SC,SD},DUR(100)); std::map<RaftServer,int64_t> last; for(int i=0;i<3;i++){ int64_t t=beat(); l.getHandler(TG[i]).heartbeat(at(t)); last[TG[i]]=t; } std::vector<int64_t> x; std::vector<RaftServer> nt; int mask=1+sym::choose("mask",15); for(int b=0;b<4;b++) if(mask>>b&1){ nt.push_back(TG[b]); x.push_back(last[TG[b]]); } l.updateTargets(nt); deadlines(l,DUR(100),x); sym_reach("end"); }
HARNESS(lease_single){ DUR dur((int64_t)sym::range("dur",0,1000000)); RaftLease l({},dur); symx_now_ns=1000+sym::choose("now",3); auto now=std::chrono::steady_clock::now(); CHECK(l.getDeadline()>=now+dur&&l.getShakyQuorumDeadline()>=now+dur,"a single member always holds its lease"); sym_reach("end"); }
HARNESS(heartbeat_timeout){
  RaftTimeouts tm(milliseconds(1000),milliseconds(1500),milliseconds(250)); RaftHeartbeatTracker h(tm); int64_t last=0; auto rnd=h.getRandomTimeout(); CHECK(rnd>=milliseconds(1000)&&rnd<=milliseconds(1500),"the election time-out lies within its bounds"); bool art=false;
  for(int i=0;i<OPS;i++){ unsigned op=sym::choose("op",4); int64_t t=(int64_t)sym_u64("t"); sym_assume(sym_and(t>=0,t<(1ll<<60)));
    if(op==0){ h.heartbeat(at(t)); last=(int64_t)sym_ite(t>last,t,last); CHECK(h.getLastHeartbeat()==at(last),"the last heartbeat never moves back"); }
    else if(op==1){ auto s=h.timeout(at(t)); if(art) CHECK(s==TimeoutStatus::kArtificial,"a triggered time-out is reported once"); else { CHECK(s!=TimeoutStatus::kArtificial,"no artificial time-out unless triggered"); CHECK((s==TimeoutStatus::kYes)==(t-last>std::chrono::nanoseconds(rnd).count()),"time-out exactly when the last heartbeat is older than the time-out"); } art=false; }
    else if(op==2){ h.triggerTimeout(); art=true; }
    else { rnd=h.refreshRandomTimeout(); CHECK(rnd==h.getRandomTimeout()&&rnd>=milliseconds(1000)&&rnd<=milliseconds(1500),"the election time-out lies within its bounds"); } }
  sym_reach("end");
}
// the time-out configuration survives its textual form
HARNESS(timeouts_text){
  int64_t a=(int64_t)sym::range("a",0,9)*(sym::flip("neg")?-1:1), b=sym::choose("b",2)?1234567890123:(int64_t)sym::range("b",0,99), c=sym::range("c",0,9); RaftTimeouts t{milliseconds(a),milliseconds(b),milliseconds(c)}, u{milliseconds(0),milliseconds(0),milliseconds(0)}; CHECK(RaftTimeouts::fromString(u,t.toString()),"parses"); CHECK(u==t,"the time-outs survive their textual form");
  CHECK(t.getLow()==milliseconds(a)&&t.getHigh()==milliseconds(b)&&t.getHeartbeatInterval()==milliseconds(c),"time-outs as configured"); sym_reach("end");
}
HARNESS(vote_outcome){
  bool pre=sym::flip("prevote"); RaftVoteRegistry r(5,pre); size_t n=sym::choose("voters",NT+2); size_t yes=0,veto=0,no=0,net=0,parse=0;
  for(size_t i=0;i<n;i++){ switch(sym::choose("vote",5)){ case 0: r.registerVote(TG[i],RaftVoteResponse(5,RaftVote::GRANTED)); yes++; break; case 1: r.registerVote(TG[i],RaftVoteResponse(5,RaftVote::REFUSED)); no++; break; case 2: r.registerVote(TG[i],RaftVoteResponse(5,RaftVote::VETO)); veto++; break; case 3: r.registerNetworkError(TG[i]); net++; break; default: r.registerParseError(TG[i]); parse++; } }
  size_t pos=yes+1+(pre?parse:0); auto o=r.determineOutcome(); CHECK((o==ElectionOutcome::kElected)==(veto==0&&pos>=quorum(n)),"elected exactly when a majority of the members agreed and nobody vetoed"); CHECK((o==ElectionOutcome::kVetoed)==(veto>0),"a veto stops the election");
  CHECK(r.count(RaftVote::GRANTED)==yes&&r.count(RaftVote::REFUSED)==no&&r.count(RaftVote::VETO)==veto&&r.countNetworkError()==net&&r.countParseError()==parse,"vote counts"); CHECK(n==0||sym::throws([&]{ r.registerVote(TG[0],RaftVoteResponse(5,RaftVote::GRANTED)); }),"nobody votes twice"); sym_reach("end");
}
// replies to a vote request update term and lease
HARNESS(vote_observe){
  symdb::reset(); RaftJournal j(JP,"cid",{SA,SB,SC,SD},0,FsyncPolicy::kSyncImportantUpdates); RaftState st(j,SA); st.observed(5,{}); RaftLease l({SB,SC,SD},DUR(100)); RaftVoteRegistry r(5,false); int64_t top=5; int kind[3]; for(int i=0;i<3;i++){ kind[i]=sym::choose("kind",5); int64_t t=kind[i]<3?(int64_t)sym::range("term",0,20):0; if(kind[i]==0) r.registerVote(TG[i],RaftVoteResponse(t,RaftVote::GRANTED)); else if(kind[i]==1) r.registerVote(TG[i],RaftVoteResponse(t,RaftVote::REFUSED)); else if(kind[i]==2) r.registerVote(TG[i],RaftVoteResponse(t,RaftVote::VETO)); else if(kind[i]==3) r.registerNetworkError(TG[i]); else r.registerParseError(TG[i]); if(kind[i]<3) top=(int64_t)sym_ite(t>top,t,top); }
  r.observeTermsAndLeases(st,l,at(777)); CHECK(st.getSnapshot()->term==top,"the highest term seen in a reply is observed"); for(int i=0;i<3;i++) CHECK(l.getHandler(TG[i]).get()==at(kind[i]==0?777:0),"only members that granted their vote extend the lease, from the time the request was sent"); sym_reach("end");
}
