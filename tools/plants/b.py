H='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <memory>\n#include <vector>\n#include <string>\n#define MUST(c,m) do{ if(!(c)){ puts("DEMO FAILED: " m); return 1; } }while(0)\n'
J=H+'#include <rocksdb/db.h>\n#include "raft/RaftJournal.hh"\n#include "raft/RaftState.hh"\n#include "raft/RaftMembers.hh"\nusing namespace quarkdb;\nstatic std::vector<RaftServer> N(){ return {RaftServer("a",1),RaftServer("b",2),RaftServer("c",3)}; }\nstatic const char*P="./journal";\n'
JC="src/raft/RaftJournal.cc"
M=H+'#include "StateMachine.hh"\n#include "storage/StagingArea.hh"\n#include "RedisRequest.hh"\nusing namespace quarkdb;\n'
SMX=dict(flags="-Diter_start_seqnum=background_purge_on_iterator_cleanup", srcs=["src/StateMachine.cc","src/storage/ExpirationEventIterator.cc"])
SM="src/StateMachine.cc"
FK=[("/verif/rt/fake/qclient","stub/qclient"),("/verif/rt/fake/Xrd","stub/Xrd"),("/verif/rt/fake/Version.hh","stub/Version.hh")]
S=[
dict(id="b09-deque-push-many-front", property="P17", needs="several items pushed at once to the front of an empty deque, followed by an operation on its back", breaks="the back index of a deque first filled from the front by more than one item is off, so the back no longer finds its items",
 edits=[(SM,"descriptor.setListIndex(flipDirection(direction), listIndex + ((int)direction*-1));","descriptor.setListIndex(flipDirection(direction), listIndex + (direction == Direction::kLeft ? (int64_t) itemsAdded : -1));")],
 demo=M+'''int main(){ StateMachine sm("./sm"); RedisRequest r{"a","b"}; int64_t n; std::string s; MUST(sm.dequePushFront("k",r.begin(),r.end(),n).ok()&&n==2,"push"); try { MUST(sm.dequePopBack("k",s).ok()&&s=="a","the back of the deque"); } catch(...) { MUST(false,"exception"); } return 0; }
''',**SMX),
dict(id="b10-lease-keeps-first-deadline", property="P20", needs="a lease renewed for a shorter time than it had left, then the clock passing the new deadline", breaks="a renewed lease keeps its previous, later deadline, so it does not expire when the reply said it would",
 edits=[(SM,"  descriptor.setStartIndex(clockUpdate);\n  descriptor.setEndIndex(expirationTimestamp);","  if(expirationTimestamp < descriptor.getEndIndex()) expirationTimestamp = descriptor.getEndIndex();\n  descriptor.setStartIndex(clockUpdate);\n  descriptor.setEndIndex(expirationTimestamp);")],
 demo=M+'''int main(){ StateMachine sm("./sm"); LeaseInfo i; MUST(sm.lease_acquire("k","h",1,1000,i)==LeaseAcquisitionStatus::kAcquired,"acquire"); MUST(sm.lease_acquire("k","h",2,10,i)==LeaseAcquisitionStatus::kRenewed,"renew"); MUST(!sm.lease_get("k",500,i).ok(),"the lease was renewed for 10 ms only, but is still held after 500"); return 0; }
''',**SMX),
dict(id="b11-locality-hint-change-index", property="P18", needs="a field of a locality hash that changes its hint twice", breaks="the index of a field keeps pointing to an old hint once the field has changed its hint to a longer one",
 edits=[(SM,"    // Update field and index.\n    operation.writeLocalityField(hint, field, value);\n    operation.writeLocalityIndex(field, hint);","    // Update field and index.\n    operation.writeLocalityField(hint, field, value);\n    if(hint.size() <= previousHint.size()) operation.writeLocalityIndex(field, hint);")],
 demo=M+'''int main(){ StateMachine sm("./sm"); bool c; std::string v; try { sm.lhset("k","f","h","1",c); sm.lhset("k","f","longer","2",c); MUST(!c,"not new"); MUST(sm.lhget("k","f","",v).ok()&&v=="2","field is lost after its hint changed"); sm.lhset("k","f","h2","3",c); MUST(sm.lhget("k","f","",v).ok()&&v=="3","field is lost"); } catch(...) { MUST(false,"exception"); } return 0; }
''',**SMX),
dict(id="b12-clone-empty-value", property="P15", needs="HCLONE of a hash that has a field with an empty value", breaks="fields with an empty value are left out of the clone, though counted", edits=[(SM,"    operation.writeField(\n      std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()),","    if(!iter->value().empty()) operation.writeField(\n      std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()),")],
 demo=M+'''int main(){ StateMachine sm("./sm"); bool c; std::string v; sm.hset("k","f","",c); sm.hset("k","g","x",c); { StagingArea a(sm); MUST(sm.hclone(a,"k","t").ok(),"clone"); a.commit(0); } size_t n; MUST(sm.hlen("t",n).ok()&&n==2,"length"); MUST(sm.hget("t","g",v).ok()&&v=="x","field"); MUST(sm.hget("t","f",v).ok()&&v.empty(),"a field with empty value is missing from the clone"); return 0; }
''',**SMX),
dict(id="b13-lhscan-cursor-unescaped", property="P21", needs="a paged LHSCAN that stops at a field whose hint contains '#'", breaks="the cursor of LHSCAN holds the hint unescaped, so a scan resumed at a hint with '#' goes astray",
 edits=[(SM,"      newCursor = hintPlusField;\n","      newCursor = SSTR(splitter.getOriginalPrefix() << \"##\" << splitter.getRawSuffix());\n")],
 demo=M+'''int main(){ StateMachine sm("./sm"); bool c; for(std::string h: {"a","a#","a#b","a##"}) sm.lhset("k","f"+h,h,"v",c); std::string cur; size_t seen=0; int pages=0; StagingArea a(sm,true); do { std::vector<std::string> res; std::string next; MUST(sm.lhscan(a,"k",cur,"",1,next,res).ok(),"the cursor a scan returned is refused"); seen+=res.size()/3; cur=next; MUST(++pages<9,"endless"); } while(!cur.empty()); MUST(seen==4,"a paged scan returns every field exactly once"); return 0; }
''',**SMX),
dict(id="b14-tx-reads-past-batch", property="P16", needs="a transaction that removes an element of a stored set and then adds it or looks for it", breaks="an existence check within a transaction does not see what the transaction deleted",
 edits=[("src/storage/StagingArea.hh","    rocksdb::PinnableSlice ignored;\n    return writeBatchWithIndex.GetFromBatchAndDB(stateMachine.db.get(), rocksdb::ReadOptions(), slice, &ignored);","    std::string ignored;\n    rocksdb::Status st = writeBatchWithIndex.GetFromBatch(rocksdb::DBOptions(), slice, &ignored);\n    if(st.ok()) return st;\n    return stateMachine.db->Get(rocksdb::ReadOptions(), slice, &ignored);")],
 demo=M+'''int main(){ StateMachine sm("./sm"); int64_t n; RedisRequest ab{"a","b"}, r{"a"}; sm.sadd("k",ab.begin(),ab.end(),n); StagingArea a(sm); MUST(sm.srem(a,"k",r.begin(),r.end(),n).ok()&&n==1,"srem"); MUST(sm.sismember(a,"k","b").ok(),"other member"); MUST(!sm.sismember(a,"k","a").ok(),"an element removed earlier in the transaction is still a member"); return 0; }
''',**SMX),
dict(id="b15-history-empty-lines", property="P30", needs="reading a history into an object that already has exactly one event", breaks="reading a history into an object that already holds exactly one event keeps that event",
 edits=[("src/utils/Resilvering.cc","  hist.events.clear();\n","  if(hist.events.size() > 1) hist.events.clear();\n")],
 demo=H+'''#include "utils/Resilvering.hh"
#include "Utils.hh"
using namespace quarkdb;
int main(){ ResilveringHistory h,g; h.append(ResilveringEvent("a",1)); g.append(ResilveringEvent("x",2)); MUST(ResilveringHistory::deserialize(h.serialize(),g),"read"); MUST(g==h,"previous event survives reading a history"); return 0; }
'''),
dict(id="b16-read-exact-buffer", flags="-fsanitize=address", property="P02", needs="received data that fills the reader's buffer exactly, with the rest arriving later", breaks="data that ends exactly at the end of a read buffer is lost or overwritten by what arrives next",
 edits=[("src/BufferedReader.cc","    if(rlen < available_space) {\n      position_write += rlen;\n      return total_bytes;\n    }","    if(rlen < available_space || total_bytes >= (int) limit) {\n      position_write += rlen;\n      return total_bytes;\n    }")],
 copy=FK, inc=["stub"], srcs=["src/BufferedReader.cc","src/Link.cc"],
 demo=H+'''#include "BufferedReader.hh"
using namespace quarkdb;
int main(){ for(size_t cut=1;cut<40;cut++){ XrdLink x; Link l(&x); BufferedReader r(&l,8); std::string all; for(int i=0;i<40;i++) all+=char('a'+i%26); std::string got,b; size_t fed=0; for(int step=0;step<100&&got.size()<40;step++){ if(fed<40){ size_t k=std::min<size_t>(cut,40-fed); x.feed(all.substr(fed,k)); fed+=k; } size_t want=std::min<size_t>(8,40-got.size()); LinkStatus st=r.consume(want,b); MUST(st>=0,"error"); if(st>0) got+=b; } MUST(got==all,"bytes read differ from bytes sent"); } return 0; }
'''),
dict(id="b17-log-truncated-in-steps", property="P09", needs="a crash while conflicting entries are being removed from the log", breaks="conflicting entries are removed before the size of the log is, so a crash in between leaves a log that claims entries it does not have",
 edits=[(JC,"  for(LogIndex i = from; i < logSize; i++) {\n    THROW_ON_ERROR(batch.Delete(encodeEntryKey(i)));\n  }\n\n  //-","  for(LogIndex i = from; i < logSize; i++) {\n    THROW_ON_ERROR(db->Delete(rocksdb::WriteOptions(), encodeEntryKey(i)));\n  }\n\n  //-")],
 demo=J+'''#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
static bool on=false; static int left=0;
extern "C" ssize_t write(int fd,const void*b,size_t n){ if(on&&fd>2&&left--<=0) _exit(7); return syscall(SYS_write,fd,b,n); }
int main(){ for(int k=0;k<20;k++){ std::string p="./j"+std::to_string(k); pid_t c=fork(); if(c==0){ RaftJournal j(p,"cid",N(),0,FsyncPolicy::kAsync); for(int i=1;i<=6;i++) j.append(i,RaftEntry(0,"set","k",std::to_string(i))); left=k; on=true; j.removeEntries(3); on=false; _exit(0); } int st; waitpid(c,&st,0); RaftJournal j(p); RaftEntry e; for(LogIndex i=0;i<j.getLogSize();i++) MUST(j.fetch(i,e).ok(),"after a crash the log lacks an entry below its size"); if(WIFEXITED(st)&&WEXITSTATUS(st)==0) break; } return 0; }
'''),
dict(id="b18-quorum-of-even-cluster", property="P12", needs="a cluster with an even number of full nodes", breaks="an even-sized cluster commits entries held by only half of its nodes",
 edits=[("src/raft/RaftCommitTracker.cc","size_t threshold = (matchIndexes.size()+1) - quorumSize;","size_t threshold = (matchIndexes.size()+2) / 2;\n  if(threshold >= matchIndexes.size()) threshold = matchIndexes.size() - 1;")],
 copy=FK, inc=["stub"], srcs=["src/raft/RaftCommitTracker.cc","src/raft/RaftUtils.cc","src/raft/RaftVoteRegistry.cc","src/raft/RaftTalker.cc","src/raft/RaftLease.cc"],
 demo=J+'''#include "raft/RaftCommitTracker.hh"
int main(){ for(size_t n=2;n<=5;n++){ std::vector<RaftServer> all,t; for(size_t i=0;i<n;i++){ all.push_back(RaftServer("n",i+1)); if(i) t.push_back(all.back()); } RaftJournal j("./j"+std::to_string(n),"cid",all,0,FsyncPolicy::kAsync); for(int i=1;i<=3;i++) j.append(i,RaftEntry(0,"set","a","b")); RaftCommitTracker c(j); c.updateTargets(t); size_t q=n/2+1; for(size_t i=0;i<t.size();i++){ c.getHandler(t[i]).update(3); bool want=i+2>=q; MUST((j.getCommitIndex()==3)==want,"commit index against quorum"); } } return 0; }
'''),
dict(id="b19-foreign-option-lines", property="P29", needs="a line of another component whose option name contains 'redis.' without starting with it", breaks="option lines of other components are taken for our own, so a valid file is refused",
 edits=[("src/Configuration.cc",'bool isMine = StringUtils::startsWith(current, "redis.");','bool isMine = current.size() > 6 && current.find("redis.") != std::string::npos && current[0] != \'#\';')],
 demo=H+'''#include "Configuration.hh"
using namespace quarkdb;
int main(){ Configuration c; MUST(Configuration::fromString("redis.mode standalone\\nredis.database /db\\n",c),"plain"); Configuration d; MUST(Configuration::fromString("redis.mode standalone\\nredis.database /db\\nmyredis.trace all\\n",d),"a line of another component makes the file invalid"); return 0; }
'''),
dict(id="b20-lease-removed-server", property="P13", needs="a cluster of exactly two full nodes", breaks="the leader of a two-node cluster keeps its lease without hearing from the other node",
 edits=[("src/raft/RaftLease.cc","  if(quorumSize == 1) {\n    // Special case","  if(quorumSize == 1 || n > targets.size()) {\n    // Special case")],
 copy=FK, inc=["stub"], srcs=["src/raft/RaftLease.cc","src/raft/RaftUtils.cc","src/raft/RaftVoteRegistry.cc","src/raft/RaftTalker.cc"],
 demo=H+'''#include "raft/RaftLease.hh"
using namespace quarkdb;
int main(){ RaftLease l({RaftServer("b",2)},std::chrono::seconds(1)); auto t=std::chrono::steady_clock::now()-std::chrono::seconds(100); l.getHandler(RaftServer("b",2)).heartbeat(t); MUST(l.getDeadline()<std::chrono::steady_clock::now(),"lease without contact"); MUST(l.getShakyQuorumDeadline()<std::chrono::steady_clock::now(),"shaky quorum without contact"); return 0; }
'''),
]
