#include "journal.hh"
#include "raft/RaftState.hh"
#include <thread>
#ifndef OPS
#define OPS 3
#endif
static const RaftServer NONE;
static std::unique_ptr<RaftJournal> open(){ symdb::reset(); std::unique_ptr<RaftJournal> j(new RaftJournal(JP,"cid",{SA,SB,SC},0,FsyncPolicy::kSyncImportantUpdates)); symdb::settle(JP); return j; }
// abstract state of one server
struct S { RaftTerm term=0; RaftServer leader, vote; RaftStatus st=RaftStatus::FOLLOWER; LogIndex marker=-1, size=1; RaftTerm lastTerm=0; bool member=true; };
struct Votes { std::vector<std::pair<RaftTerm,RaftServer>> v; void cast(RaftTerm t,const RaftServer&s){ for(auto&x:v) CHECK(sym_not(sym_and(x.first==t,!(x.second==s))),"at most one vote per term, also across restarts and crashes"); v.push_back({t,s}); } };
static void compare(RaftState&r,RaftJournal&j,const S&m){
  auto s=r.getSnapshot(); CHECK(s->term==m.term,"term"); CHECK(s->status==m.st,"status"); CHECK(s->leader==m.leader,"recognised leader"); CHECK(s->leadershipMarker==m.marker,"leadership marker index"); CHECK(s->votedFor==m.vote,"vote"); CHECK(r.isSnapshotCurrent(s.get()),"the snapshot is current");
  CHECK(j.getCurrentTerm()==m.term&&j.getVotedFor()==m.vote,"term and vote are on disk before they are visible"); CHECK(j.getLogSize()==m.size,"only ascending writes to the log");
  if(s->status==RaftStatus::LEADER){ RaftEntry e; CHECK(j.fetch(s->leadershipMarker,e).ok()&&e.term==m.term&&e.request[0]=="JOURNAL_LEADERSHIP_MARKER"&&e.request[2]==r.getMyself().toString(),"a leader has its marker in the log"); CHECK(s->leader==r.getMyself(),"a leader recognises itself"); }
}
// every sequence of elections, observations and restarts
static void step(std::unique_ptr<RaftJournal>&j,std::unique_ptr<RaftState>&r,S&m,Votes&vs,bool restarts){
  static const RaftServer who[]={SB,SC}; unsigned k=sym::choose("op",restarts?7:6); RaftTerm t=(RaftTerm)sym_u64("t"); sym_assume(t>=0); bool want,got;
  if(k==0){ static const RaftServer ls[]={NONE,SB,SC}; RaftServer l=ls[sym::choose("leader",3)]; bool newer=t>m.term; bool dead=m.st==RaftStatus::SHUTDOWN; want=dead?false:sym_or(newer,sym_and(t==m.term,m.leader.empty())); got=r->observed(t,l); CHECK(got==want,"a newer term or a first leader is noted, nothing else");
    if(got){ if(newer){ m.term=t; m.st=RaftStatus::FOLLOWER; m.marker=-1; m.leader=l; m.vote=l.empty()?NONE:RaftState::BLOCKED_VOTE; } else { m.leader=l; if(!l.empty()&&m.vote.empty()) m.vote=RaftState::BLOCKED_VOTE; } } }
  else if(k==1){ RaftServer c=who[sym::choose("cand",2)]; want=(m.st==RaftStatus::FOLLOWER&&m.leader.empty()&&m.vote.empty())?t==m.term:false; got=r->grantVote(t,c); CHECK(got==want,"a vote is granted only by a follower that knows no leader and has not voted in this term"); if(got){ m.vote=c; vs.cast(t,c); } }
  else if(k==2){ want=(m.st==RaftStatus::FOLLOWER&&m.leader.empty()&&m.vote.empty()&&m.member)?t==m.term:false; got=r->becomeCandidate(t); CHECK(got==want,"only a voting member without vote and leader becomes candidate"); if(got){ m.vote=SA; m.st=RaftStatus::CANDIDATE; vs.cast(t,SA); } }
  else if(k==3){ bool pre=m.st==RaftStatus::CANDIDATE&&m.leader.empty()&&m.vote==SA&&m.member; want=pre?sym_and(t==m.term,t>=m.lastTerm):false; got=r->ascend(t); CHECK(got==want,"only a candidate of the current term becomes leader"); if(got){ m.st=RaftStatus::LEADER; m.leader=SA; m.marker=m.size++; m.lastTerm=t; } }
  else if(k==4){ want=m.st==RaftStatus::CANDIDATE?t==m.term:false; got=r->dropOut(t); CHECK(got==want,"only a candidate drops out"); if(got) m.st=RaftStatus::FOLLOWER; }
  else if(k==5){ if(sym::flip("shutdown")){ r->shutdown(); m.st=RaftStatus::SHUTDOWN; m.marker=-1; } else if(m.member&&m.st!=RaftStatus::SHUTDOWN){ std::string err; if(j->removeMember(m.term,SA,err)){ m.member=false; m.size++; m.lastTerm=m.term; } } }
  else { r.reset(); j.reset(); if(sym::flip("power")) symdb::crash(JP,0); j.reset(new RaftJournal(JP)); r.reset(new RaftState(*j,SA)); m.st=RaftStatus::FOLLOWER; m.leader=NONE; m.marker=-1; }
}
HARNESS(state_ops){
  auto j=open(); std::unique_ptr<RaftState> r(new RaftState(*j,SA)); S m; Votes vs; for(int i=0;i<OPS;i++){ step(j,r,m,vs,true); compare(*r,*j,m); } sym_reach("end");
}
// deeper, starting from a server that stands in an election
HARNESS(state_election){
  auto j=open(); std::unique_ptr<RaftState> r(new RaftState(*j,SA)); S m; Votes vs; RaftTerm t=(RaftTerm)sym_u64("t0"); sym_assume(sym_and(t>0,t<1000)); CHECK(r->observed(t,NONE),"a newer term is noted"); m.term=t; CHECK(r->becomeCandidate(t),"candidate"); m.vote=SA; m.st=RaftStatus::CANDIDATE; vs.cast(t,SA);
  if(sym::flip("won")){ CHECK(r->ascend(t),"leader"); m.st=RaftStatus::LEADER; m.leader=SA; m.marker=m.size++; m.lastTerm=t; } for(int i=0;i<OPS-1;i++){ step(j,r,m,vs,true); compare(*r,*j,m); } sym_reach("end");
}
// concurrent callers: every interleaving at lock and atomic operations, up to the preemption bound
static void threadOp(RaftState&r,int k,RaftTerm t,bool&out){ switch(k){ case 0: out=r.observed(t,NONE); break; case 1: out=r.observed(t,SB); break; case 2: out=r.observed(t,SC); break; case 3: out=r.grantVote(t,SB); break; case 4: out=r.becomeCandidate(t); break; case 5: out=r.ascend(t); break; default: out=r.dropOut(t); } }
#ifndef PRE
#define PRE 2
#endif
HARNESS(state_threads){
  auto j=open(); RaftState r(*j,SA); Votes vs; r.observed(4,NONE); bool cand=sym::flip("cand"); if(cand){ r.becomeCandidate(4); vs.cast(4,SA); } int k1=sym::choose("op1",7), k2=sym::choose("op2",7); RaftTerm t1=4+sym::choose("t1",2), t2=4+sym::choose("t2",2); bool a=false,b=false;
  RaftStateSnapshotPtr mid; sym_threads(PRE); std::thread y([&]{ threadOp(r,k2,t2,b); }); mid=r.getSnapshot(); threadOp(r,k1,t1,a); y.join(); sym_threads(-1);
  auto s=r.getSnapshot(); CHECK(mid->term<=s->term,"terms never go back"); CHECK(s->term==j->getCurrentTerm()&&s->votedFor==j->getVotedFor(),"memory and disk agree"); if(a&&k1==3) vs.cast(t1,SB); if(a&&k1==4) vs.cast(t1,SA); if(b&&k2==3) vs.cast(t2,SB); if(b&&k2==4) vs.cast(t2,SA);
  if(mid->term==s->term){ CHECK(mid->leader.empty()||mid->leader==s->leader,"the leader of a term never changes"); CHECK(mid->votedFor.empty()||mid->votedFor==s->votedFor,"the vote of a term never changes"); }
  // equivalent to one of the two serial orders
  bool ok=false; for(int ord=0;ord<2;ord++){ auto j2=std::make_unique<RaftJournal>(ord?"/x":"/y","cid",std::vector<RaftServer>{SA,SB,SC},0,FsyncPolicy::kSyncImportantUpdates); RaftState q(*j2,SA); q.observed(4,NONE); if(cand) q.becomeCandidate(4); bool c=false,d=false; if(ord==0){ threadOp(q,k1,t1,c); threadOp(q,k2,t2,d); } else { threadOp(q,k2,t2,d); threadOp(q,k1,t1,c); } if(c==a&&d==b&&q.getSnapshot()->equals(s)) ok=true; } CHECK(ok,"concurrent transitions behave like one after the other"); sym_reach("end");
}
