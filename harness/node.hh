// One node of a raft cluster: shard directory, journal, state machine, dispatcher, write tracker. The other nodes are the harness.
#pragma once
#include "sm.hh"
#include "Connection.hh"
#include "Link.hh"
#include "ShardDirectory.hh"
#include "raft/RaftGroup.hh"
#include "raft/RaftDispatcher.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftState.hh"
#include "raft/RaftCommitTracker.hh"
#include "raft/RaftWriteTracker.hh"
#include "raft/RaftTimeouts.hh"
#include "raft/RaftLease.hh"
#include "raft/RaftReplicator.hh"
#include "utils/InFlightTracker.hh"
static const RaftServer SA("a",1), SB("b",2), SC("c",3), SD("d",4);
static std::string wire(const Words&w){ std::string s="*"+std::to_string(w.size())+"\r\n"; for(auto&x:w) s+="$"+std::to_string(x.size())+"\r\n"+x+"\r\n"; return s; }
static Words words(const char*t){ Words w(1); for(;*t;t++) if(*t==' ') w.emplace_back(); else w.back().push_back(*t); return w; }
struct Node {
  ShardDirectory*dir=nullptr; RaftGroup*g=nullptr; RaftServer me;
  Node(const RaftServer&s,std::vector<RaftServer> nodes,bool fresh=true,const char*path="/shard",LogIndex start=0):me(s){ if(fresh){ symdb::reset(); symfs::reset(); } Status st; dir=ShardDirectory::create(path,"cid","shard",nodes,start,FsyncPolicy::kSyncImportantUpdates,nullptr,st); g=new RaftGroup(*dir,me,RaftTimeouts(milliseconds(1000),milliseconds(2000),milliseconds(250)),""); g->publisher(); g->state(); }
  void tracker(){ sym_threads(0); g->writeTracker(); sym_threads(-1); } // the thread that applies committed entries
  RaftJournal&j(){ return *g->journal(); } StateMachine&sm(){ return *g->stateMachine(); } RaftState&st(){ return *g->state(); } RaftDispatcher&d(){ return *g->dispatcher(); }
  void elect(RaftTerm t){ st().observed(t,{}); st().becomeCandidate(t); st().ascend(t); }
  void settle(LogIndex i){ sym_threads(0); for(int n=0;n<50&&sm().getLastApplied()<i;n++) sm().waitUntilTargetLastApplied(i,std::chrono::milliseconds(100)); CHECK(sm().getLastApplied()==i,"committed entries are applied"); for(int k=0;k<3;k++) sm().waitUntilTargetLastApplied(i+1,std::chrono::milliseconds(100)); sym_threads(-1); }
};
struct Client { XrdLink x; Link link; std::unique_ptr<Connection> c; InFlightTracker t; static XrdLink from(const char*h){ XrdLink x; x.host=h; return x; } Client(const char*h="client.example"):x(from(h)),link(&x){ c.reset(new Connection(&link)); }
  int feed(const std::string&s,Dispatcher*d){ x.feed(s); return c->processRequests(d,t); } };
