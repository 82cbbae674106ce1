#include "journal.hh"
#ifndef OPS
#define OPS 3
#endif
#ifndef HOPS
#define HOPS 2
#endif
#ifndef MOPS
#define MOPS 4
#endif
// one arbitrary operation on both; which: allowed operations
enum { APPEND,MEMBER,REMOVE,COMMIT,TERM,TRIM,MARKER,REOPEN };
static void op(std::unique_ptr<RaftJournal>&j,Model&m,int k){
  if(k==APPEND){ LogIndex i=m.size-1+(LogIndex)sym::choose("at",3); RaftTerm t=(RaftTerm)sym_u64("eterm"); sym_assume(t>=0); std::string v(1,(char)sym_u8("value")); RaftEntry e(t,"SET","k",v); bool want=sym_and(i==m.size,sym_and(t<=m.term,t>=m.last())); bool got=j->append(i,e,sym::flip("important")); CHECK(got==want,"an entry is appended exactly at the end, with a term between the last entry's and the current one"); if(got) pushEntry(m,e); }
  else if(k==MEMBER){ unsigned w=sym::choose("change",4); RaftTerm t=(RaftTerm)sym_u64("mterm"); sym_assume(t>=0); std::string err; std::vector<RaftServer> n=m.nodes,o=m.obs; bool known=m.commit>=m.epoch, valid=false, got;
    auto has=[](std::vector<RaftServer>&v,const RaftServer&s){ for(auto&x:v) if(x==s) return true; return false; }; auto del=[](std::vector<RaftServer>&v,const RaftServer&s){ for(size_t i=0;i<v.size();i++) if(v[i]==s){ v.erase(v.begin()+i); return; } };
    if(w==0){ valid=!has(n,SD)&&!has(o,SD); o.push_back(SD); got=j->addObserver(t,SD,err); } else if(w==1){ valid=has(o,SD); del(o,SD); n.push_back(SD); got=j->promoteObserver(t,SD,err); } else if(w==2){ RaftServer s=has(n,SC)?SC:SD; valid=has(n,s)||has(o,s); if(has(o,s)) del(o,s); else del(n,s); got=j->removeMember(t,s,err); } else { valid=has(n,SB); del(n,SB); o.push_back(SB); got=j->demoteToObserver(t,SB,err); }
    bool want=sym_and(valid&&known,sym_and(t<=m.term,t>=m.last())); CHECK(got==want,"a membership change is accepted only when valid and when the previous one is committed"); if(got) pushMembers(m,t,n,o); }
  else if(k==REMOVE){ LogIndex f=(LogIndex)sym::choose("from",(unsigned)(m.size+2)); bool illegal=f<m.size&&f<=m.commit; bool got=false, th=false; try { got=j->removeEntries(f); } catch(...) { th=true; } CHECK(th==illegal,"committed entries are never removed"); if(th) return; CHECK(got==(f<m.size),"entries are removed up to the end"); if(got){ m.log.resize(f-m.start); m.size=f; if(f<=m.epoch){ m.epoch=m.pepoch; m.nodes=m.pnodes; m.obs=m.pobs; } } }
  else if(k==COMMIT){ LogIndex c=(LogIndex)sym::choose("commit",(unsigned)(m.size+2)); bool got=false, th=false; try { got=j->setCommitIndex(c); } catch(...) { th=true; } CHECK(th==(c>=m.size),"only existing entries can be committed"); if(th) return; CHECK(got==(c>=m.commit),"the commit index never goes back"); if(got) m.commit=c; }
  else if(k==TERM){ RaftTerm t=(RaftTerm)sym_u64("term"); static const RaftServer who[]={SA,SB,RaftServer()}; RaftServer v=who[sym::choose("vote",3)]; bool want=sym_or(t>m.term,sym_and(t==m.term,m.vote.empty())); bool got=j->setCurrentTerm(t,v); CHECK(got==want,"terms never go back and a vote for a term never changes"); if(got){ m.term=t; m.vote=v; } }
  else if(k==TRIM){ LogIndex f=(LogIndex)sym::choose("until",(unsigned)(m.size+2)); bool th=false; try { j->trimUntil(f); } catch(...) { th=true; } bool illegal=f>m.start&&(f>m.size||f>m.commit); CHECK(th==illegal,"entries not yet committed are never trimmed"); if(!th&&f>m.start){ m.log.erase(m.log.begin(),m.log.begin()+(f-m.start)); m.start=f; } }
  else if(k==MARKER){ RaftTerm t=sym::range("lterm",0,2); RaftEntry e(t,"JOURNAL_LEADERSHIP_MARKER",std::to_string(t),SA.toString()); bool want=sym_and(t<=m.term,t>=m.last()); bool got=j->appendLeadershipMarker(m.size,t,SA); CHECK(got==want,"a leadership marker is an ordinary entry"); if(got) pushEntry(m,e); }
  else { j.reset(); j.reset(new RaftJournal(JP)); }
}
static std::unique_ptr<RaftJournal> open(LogIndex start=0){ symdb::reset(); return std::unique_ptr<RaftJournal>(new RaftJournal(JP,"cid",{SA,SB,SC},start,FsyncPolicy::kSyncImportantUpdates)); }
// every sequence of operations on a fresh journal behaves like the abstract log, also after reopening
HARNESS(journal_ops){
  auto j=open(); Model m=freshModel(); { RaftTerm t=(RaftTerm)sym_u64("term0"); sym_assume(t>=0); CHECK(j->setCurrentTerm(t,sym::flip("voted")?SA:RaftServer())==true,"the first term is accepted"); m.term=t; m.vote=j->getVotedFor(); }
  for(int i=0;i<OPS;i++){ op(j,m,sym::choose("op",8)); verify(*j,m); } j.reset(); j.reset(new RaftJournal(JP)); verify(*j,m); sym_reach("end");
}
// longer histories from a journal that already has entries, some committed
static Model populated(RaftJournal&j){
  Model m=freshModel(); j.setCurrentTerm(5,SA); m.term=5; m.vote=SA; for(int i=0;i<3;i++){ RaftTerm t=(RaftTerm)sym_u64("et"); sym_assume(sym_and(t>=m.last(),t<=5)); RaftEntry e(t,"SET","k",std::string(1,(char)sym_u8("val"))); CHECK(j.append(m.size,e),"entry is appended"); pushEntry(m,e); }
  LogIndex c=sym::choose("committed",4); if(c){ j.setCommitIndex(c); m.commit=c; } return m;
}
HARNESS(journal_history){
  auto j=open(); Model m=populated(*j); for(int i=0;i<HOPS;i++){ op(j,m,sym::choose("op",7)); verify(*j,m); } j.reset(); j.reset(new RaftJournal(JP)); verify(*j,m); sym_reach("end");
}
// membership: an uncommitted change takes effect at once and is undone when its entry is removed
HARNESS(journal_members){
  auto j=open(); Model m=freshModel(); j->setCurrentTerm(1,SA); m.term=1; m.vote=SA; for(int i=0;i<MOPS;i++){ static const int ks[]={MEMBER,REMOVE,COMMIT}; op(j,m,ks[sym::choose("op",3)]); verify(*j,m); } j.reset(); j.reset(new RaftJournal(JP)); verify(*j,m); sym_reach("end");
}
// reads: matching, comparing, iterating, scanning
HARNESS(journal_reads){
  auto j=open(); Model m=populated(*j); LogIndex tr=sym::choose("trim",3); if(tr&&m.commit>=tr){ j->trimUntil(tr); m.log.erase(m.log.begin(),m.log.begin()+tr); m.start=tr; } else tr=0; unsigned kind=sym::choose("kind",5);
  if(kind==0){ RaftTerm t=(RaftTerm)sym_u64("t"); LogIndex i=(LogIndex)sym::choose("i",6); bool in=i>=m.start&&i<m.size; CHECK(j->matchEntries(i,t)==(in?t==m.at(i).term:false),"an entry matches exactly when it exists with that term"); sym_reach("match"); }
  else if(kind==1){ std::vector<RaftEntry> es; LogIndex back=m.start?sym::choose("below",m.start+1):0, s=m.start-back+(back?0:(LogIndex)sym::choose("s",3)); bool same[4]; unsigned n=sym::choose("n",5); for(unsigned k=0;k<n;k++){ RaftTerm et=(RaftTerm)sym_u64("ct"); RaftEntry e(et,"SET","k",std::string(1,(char)sym_u8("cv"))); es.push_back(e); LogIndex at=s+k; same[k]=at<m.start||(at<m.size&&sym::eq(m.at(at).ser,serialized(e))); }
  // entries below the start of the log are taken as identical
  LogIndex want=s; bool ok=true; for(unsigned k=0;k<n&&s+(LogIndex)k<m.size;k++){ ok=sym_and(ok,same[k]); want+=ok?1:0; } CHECK(j->compareEntries(s,es)==want,"the first entry that differs is found"); sym_reach("compare"); }
  else if(kind==2){ LogIndex from=(LogIndex)sym::choose("from",6); bool must=sym::flip("must"); auto it=j->getIterator(from,must); LogIndex at=from<m.start?(must?m.size:m.start):from; for(;at<m.size;at++){ CHECK(it.valid(),"iteration reaches every entry"); CHECK(it.getCurrentIndex()==at,"iteration visits entries in order"); RaftSerializedEntry c; it.current(c); CHECK(sym::eq(c,m.at(at).ser),"iteration returns the entry"); it.next(); } CHECK(!it.valid(),"iteration ends after the last entry"); sym_reach("iterate"); }
  else if(kind==3){ LogIndex from=(LogIndex)sym::choose("from",6); std::vector<RaftEntryWithIndex> out; LogIndex next; size_t cnt=1+sym::choose("cnt",3); j->scanContents(from,cnt,"",out,next); LogIndex b=from<m.start?m.start:from; size_t exp=b<m.size?(size_t)(m.size-b):0; if(exp>cnt) exp=cnt; CHECK(out.size()==exp,"a scan returns what exists, up to its limit"); for(size_t k=0;k<exp;k++) CHECK(out[k].index==b+(LogIndex)k&&sym::eq(serialized(out[k].entry),m.at(b+k).ser),"a scan returns the entries"); CHECK(next==(b+(LogIndex)exp<m.size?b+(LogIndex)exp:0),"a scan's cursor is the next entry"); sym_reach("scan"); }
  else { std::vector<RaftEntry> last; unsigned ln=sym::choose("last",4); if(m.size-(LogIndex)ln>=m.start){ j->fetch_last(ln,last); CHECK(last.size()==ln,"the last entries are returned"); for(unsigned k=0;k<ln;k++) CHECK(sym::eq(serialized(last[k]),m.at(m.size-ln+k).ser),"the last entries are returned"); } sym_reach("last"); }
}
// a crash at any write, keeping any prefix of what was not synced: the reopened journal is one of the states the
// caller had seen (or was about to see), and never loses a term, a vote, a marker or a membership change it acknowledged
#ifndef CRASHOPS
#define CRASHOPS 2
#endif
HARNESS(journal_crash){
  auto j=open(); Model m=freshModel(); j->setCurrentTerm(3,RaftServer()); m.term=3; { RaftEntry e(1,"SET","k","x"); j->append(1,e,true); pushEntry(m,e); RaftEntry f(2,"SET","k","y"); j->append(2,f,true); pushEntry(m,f); }
  std::vector<Model> seen; seen.push_back(m); size_t durable=0; symdb::world().crashAt=symdb::world().writes+(long)sym::choose("crashAt",CRASHOPS+1); symdb::world().crashAfter=sym::flip("after"); bool crashed=false; Model attempted=m;
  for(int i=0;i<CRASHOPS&&!crashed;i++){ int k=sym::choose("op",5); bool must=false; Model n=m; try {
      if(k==0){ RaftTerm t=(RaftTerm)sym::range("t",2,3); sym_assume(t>=m.last()); RaftEntry e(t,"SET","k",std::string(1,(char)sym_u8("v"))); must=sym::flip("important"); pushEntry(n,e); attempted=n; j->append(m.size,e,must); }
      else if(k==1){ LogIndex c=m.commit+1; if(c>=m.size) break; n.commit=c; attempted=n; j->setCommitIndex(c); }
      else if(k==2){ RaftTerm t=(RaftTerm)sym_u64("nt"); sym_assume(t>m.term); RaftServer v=sym::flip("v")?SA:RaftServer(); n.term=t; n.vote=v; must=true; attempted=n; j->setCurrentTerm(t,v); }
      else if(k==3){ LogIndex f=m.size-1; if(f<=m.commit) break; n.log.resize(f-n.start); n.size=f; if(f<=n.epoch){ n.epoch=n.pepoch; n.nodes=n.pnodes; n.obs=n.pobs; } attempted=n; j->removeEntries(f); }
      else { if(m.commit<m.epoch) break; std::string err; bool has=!m.obs.empty(); if(has) pushMembers(n,m.term,{SA,SB,SC,SD},{}); else pushMembers(n,m.term,m.nodes,{SD}); must=true; attempted=n; if(has) j->promoteObserver(m.term,SD,err); else j->addObserver(m.term,SD,err); }
      m=n; seen.push_back(m); if(must) durable=seen.size()-1;
    } catch(symdb::Crash&) { crashed=true; } }
  if(crashed){ sym_reach("crashed"); seen.push_back(attempted); } bool machine=sym::flip("power"); try { j.reset(); } catch(symdb::Crash&) {} symdb::world().crashAt=-1;
  if(machine){ size_t u=symdb::unsynced(JP); symdb::crash(JP,sym::choose("keep",(unsigned)u+1)); } else durable=seen.size()-(crashed?2:1);
  RaftJournal k(JP); bool found=false; size_t which=0;
  for(size_t i=durable;i<seen.size()&&!found;i++){ Model&c=seen[i]; if(k.getLogSize()!=c.size||k.getCommitIndex()!=c.commit||k.getEpoch()!=c.epoch) continue; bool same=sym_and(k.getCurrentTerm()==c.term,k.getVotedFor()==c.vote); RaftSerializedEntry s; for(LogIndex x=c.start;x<c.size;x++){ if(!k.fetch(x,s).ok()){ same=false; break; } same=sym_and(same,sym::eq(s,c.at(x).ser)); } if(same){ found=true; which=i; } }
  CHECK(found,"after a crash the journal is in a state it had acknowledged, at least as new as the last synced one"); verify(k,seen[which]); sym_reach("end");
}

// terms and votes: any sequence of updates, with a power failure after any of them that keeps only what was synced
#ifndef VOPS
#define VOPS 3
#endif
HARNESS(journal_votes){
  auto j=open(); symdb::settle(JP); RaftTerm term=0; RaftServer vote; static const RaftServer who[]={SA,SB,RaftServer()};
  for(int i=0;i<VOPS;i++){ RaftTerm t=(RaftTerm)sym_u64("term"); RaftServer v=who[sym::choose("vote",3)]; long w=symdb::world().writes; bool fail=sym::flip("fault"); if(fail){ symdb::world().crashAt=w; symdb::world().crashAfter=sym::flip("after"); } bool got=false, crashed=false; try { got=j->setCurrentTerm(t,v); } catch(symdb::Crash&) { crashed=true; } symdb::world().crashAt=-1;
    bool want=sym_or(t>term,sym_and(t==term,vote.empty())); RaftTerm ot=term; RaftServer ov=vote; if(crashed){ CHECK(want,"only a legal update writes"); j.reset(); symdb::crash(JP,sym::choose("keep",(unsigned)symdb::unsynced(JP)+1)); j.reset(new RaftJournal(JP)); term=j->getCurrentTerm(); vote=j->getVotedFor(); CHECK(sym_or(sym_and(term==ot,vote==ov),sym_and(term==t,vote==v)),"an interrupted update happened entirely or not at all"); sym_reach("crashed"); }
    else { CHECK(got==want,"a vote for a term never changes and terms never go back"); if(got){ term=t; vote=v; } if(sym::flip("power")){ j.reset(); symdb::crash(JP,0); j.reset(new RaftJournal(JP)); } CHECK(j->getCurrentTerm()==term&&j->getVotedFor()==vote,"an acknowledged term and vote survive a power failure"); } }
  sym_reach("end");
}
