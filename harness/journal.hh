// The raft journal against an abstract log.
#pragma once
#include "sym.hh"
#include "raft/RaftJournal.hh"
#include "raft/RaftCommon.hh"
#include "Utils.hh"
#include <rocksdb/db.h>
using namespace quarkdb;
static const RaftServer SA("a",1), SB("b",2), SC("c",3), SD("d",4);
static const char* JP="/j";
struct MEntry { RaftTerm term; std::string ser; };
struct Model {
  LogIndex start=0, size=1, commit=0, epoch=0, pepoch=0; RaftTerm term=0; RaftServer vote; std::vector<RaftServer> nodes, obs, pnodes, pobs; std::vector<MEntry> log; // log[i-start]
  MEntry& at(LogIndex i){ return log[i-start]; }
  RaftTerm last(){ return log.back().term; }
};
static std::string serialized(const RaftEntry&e){ return e.serialize(); }
static Model freshModel(LogIndex start=0){ Model m; m.start=m.commit=m.epoch=start; m.size=start+1; m.nodes={SA,SB,SC}; RaftEntry e(0,"JOURNAL_UPDATE_MEMBERS",RaftMembers(m.nodes,{}).toString(),"cid"); m.log.push_back({0,serialized(e)}); return m; }
// is the journal exactly what the model says?
static void verify(RaftJournal&j,Model&m){
  CHECK(j.getLogStart()==m.start,"journal start"); CHECK(j.getLogSize()==m.size,"journal size"); CHECK(j.getCommitIndex()==m.commit,"commit index"); CHECK(j.getCurrentTerm()==m.term,"current term"); CHECK(j.getVotedFor()==m.vote,"vote"); CHECK(j.getClusterID()=="cid","cluster id");
  for(LogIndex i=m.start;i<m.size;i++){ RaftSerializedEntry s; rocksdb::Status st=j.fetch(i,s); CHECK(st.ok(),"every journal entry can be fetched"); CHECK(sym::eq(s,m.at(i).ser),"journal entry content"); RaftTerm t; j.fetch(i,t); CHECK(t==m.at(i).term,"journal entry term"); }
  RaftSerializedEntry s; CHECK(j.fetch(m.size,s).IsNotFound(),"nothing beyond the end of the journal"); if(m.start>0) CHECK(j.fetch(m.start-1,s).IsNotFound(),"nothing before the start of the journal");
  RaftMembership mem=j.getMembership(); CHECK(mem.nodes==m.nodes&&mem.observers==m.obs,"cluster members"); CHECK(mem.epoch==m.epoch,"membership epoch"); CHECK(j.getEpoch()==m.epoch,"membership epoch");
}
static void pushEntry(Model&m,const RaftEntry&e){ m.log.push_back({e.term,serialized(e)}); m.size++; }
static void pushMembers(Model&m,RaftTerm term,std::vector<RaftServer> n,std::vector<RaftServer> o){ RaftEntry e(term,"JOURNAL_UPDATE_MEMBERS",RaftMembers(n,o).toString(),"cid"); m.pnodes=m.nodes; m.pobs=m.obs; m.pepoch=m.epoch; m.epoch=m.size; m.nodes=n; m.obs=o; pushEntry(m,e); }
