// The directory of a shard: creation, snapshots, checkpoints, resilvering; failures and crashes in between.
#include "node.hh"
#include "symfs.hh"
#include "ShardDirectory.hh"
#include "raft/RaftJournal.hh"
#include "utils/FileUtils.hh"
#include "utils/Resilvering.hh"
#include "utils/DirectoryIterator.hh"
#include "raft/RaftResilverer.hh"
#include "raft/RaftTrimmer.hh"
#include "raft/RaftConfig.hh"
#include "raft/RaftContactDetails.hh"
#include "Shard.hh"
#include <qclient/QClient.hh>
#ifndef POINTS
#define POINTS 24
#endif
#ifndef LEN
#define LEN 3
#endif
using namespace symfs;
static std::string parentOf(const std::string&p){ return p.substr(0,p.rfind('/')); }
static std::string pack(const symdb::Map&m){ std::string s; auto add=[&](const std::string&x){ s+=std::to_string(x.size())+":"; s+=x; }; for(auto&e:m){ add(e.first); add(e.second); } return s+"."; }
static bool unpack(const std::string&s,symdb::Map&m){ size_t p=0; auto get=[&](std::string&o){ size_t n=0; while(p<s.size()&&s[p]>='0'&&s[p]<='9') n=n*10+(s[p++]-'0'); if(p>=s.size()||s[p]!=':'||s.size()-p-1<n) return false; o=s.substr(p+1,n); p+=n+1; return true; }; while(p<s.size()&&s[p]!='.'){ std::string k,v; if(!get(k)||!get(v)) return false; m[k]=v; } return p+1==s.size(); }
// stores that exist only as files, as after copying them, are read from the file DATA
static void world(){ symdb::reset(); symfs::reset(); auto&W=symdb::world(); W.import=[](const std::string&p,symdb::Map&m){ auto it=fs().nodes.find(p+"/DATA"); return it!=fs().nodes.end()&&unpack(it->second.data,m); }; W.canCreate=[](const std::string&p){ return isDir(parentOf(p)); }; W.onCheckpoint=[](const std::string&p,const symdb::Map&m){ dir(p); put(p+"/DATA",pack(m)); put(p+"/EMPTY",""); dir(p+"/sub"); put(p+"/sub/more","x"); }; }
static const std::vector<RaftServer> NODES={RaftServer("a",1),RaftServer("b",2),RaftServer("c",3)};
static void fill(ShardDirectory&d,const std::string&v,int n){ RaftJournal*j=d.getRaftJournal(); j->setCurrentTerm(2,RaftServer()); for(int i=0;i<n;i++){ LogIndex at=j->getLogSize(); CHECK(j->append(at,RaftEntry(2,"SET","k",v)),"append"); } CHECK(j->setCommitIndex(j->getLogSize()-1),"commit"); for(LogIndex i=d.getStateMachine()->getLastApplied()+1;i<j->getLogSize();i++) d.getStateMachine()->set("k",v,i); }
static void powerLoss(){ for(auto&x:symdb::world().disks) symdb::settle(x.first); fs().crashAt=-1; fs().failAt=-1; }
static std::string value(ShardDirectory&d){ std::string v="(none)"; rocksdb::Status st=d.getStateMachine()->get("k",v); return st.ok()?v:"(none)"; }
// the history of a shard survives being written and read
HARNESS(resilvering_history){
  ResilveringHistory h; unsigned n=sym::choose("events",3); std::vector<std::pair<std::string,long>> want; for(unsigned i=0;i<n;i++){ std::string id=sym::str("id",1,LEN); for(char c:id) if(c=='\n') sym_prune(); long t=(long)(sym_u16("time")); sym_assume(t<100||t>65000); t=(long)sym_concretize(t%7+1600000000); h.append(ResilveringEvent(id,t)); want.push_back({id,t}); }
  ResilveringHistory g; g.append(ResilveringEvent("stale",1)); CHECK(ResilveringHistory::deserialize(h.serialize(),g),"a history can be read back"); CHECK(g.size()==n&&g==h,"a history survives being written and read"); for(unsigned i=0;i<n;i++){ CHECK(sym::eq(g.at(i).getID(),want[i].first)&&g.at(i).getStartTime()==want[i].second,"every event survives"); } sym_reach("end"); }
// files: what is reported as written is there; what is read is what is there
HARNESS(file_write){
  world(); dir("/d"); unsigned sizes[]={0,1,2,1023,1024,1025,2048}; size_t n=sizes[sym::choose("size",7)]; std::string body=n<=2?sym::bytes("body",n):std::string(n,'x'); unsigned at=sym::choose("fail",4); fs().failAt=at?(long)at-1:-1; fs().failKind=sym::choose("kind",3); if(sym::flip("existing")) put("/d/f","previous content");
  std::string err,back; bool ok=write_file("/d/f",body,err); if(!at||fs().ops<=fs().failAt) CHECK(ok,"writing a file works"); if(ok){ CHECK(fs().ops<=fs().failAt||fs().failAt<0,"a failed write is reported"); CHECK(readFile("/d/f",back)&&sym::eq(back,body),"a file reported as written has exactly the content given"); sym_reach("written"); } else sym_reach("failed"); sym_reach("end"); }
static void put2(const std::string&p){ if(sym::flip("dir")){ dir(p); if(sym::flip("sub")) put(p+"/f","1"); if(sym::flip("sub2")){ dir(p+"/e"); put(p+"/e/g","2"); } } else put(p,"0"); }
HARNESS(file_count){
  world(); dir("/d"); unsigned n=sym::choose("entries",3); for(unsigned i=0;i<n;i++) put2("/d/"+std::to_string(i)); size_t want=0; for(auto&x:fs().nodes) if(!x.second.dir) want++; fs().readError=sym::flip("error"); std::string err; size_t got=99; bool ok=countFilesInDirectoryRecursively("/d",err,got); CHECK(ok==!fs().readError,"an unreadable directory is reported"); if(ok) CHECK(got==want,"all files are counted"); CHECK(!countFilesInDirectoryRecursively("/nope",err,got)&&!err.empty(),"a missing directory is reported"); sym_reach("end"); }
// creating shards with or without contents
HARNESS(shard_create){
  world(); bool raft=sym::flip("raft"),seed=sym::flip("seed"); LogIndex start=raft?(LogIndex[]){0,1,7}[sym::choose("start",3)]:0; std::string v=sym::bytes("value",1); std::unique_ptr<StateMachine> sm; if(seed){ dir("/seed"); sm.reset(new StateMachine("/seed/sm")); sm->set("k",v); }
  Status st; ShardDirectory*d=raft?ShardDirectory::create("/s","cid","sid",NODES,start,FsyncPolicy::kSyncImportantUpdates,std::move(sm),st):ShardDirectory::create("/s","cid","sid",std::move(sm),st); CHECK(st.ok()&&d,"a shard can be created");
  bool again=sym::flip("again"); Status s2; CHECK(!ShardDirectory::create("/s","x","y",nullptr,s2)&&!s2.ok(),"a shard is never created over another");
  for(int i=0;i<2;i++){ CHECK(sym::eq(value(*d),seed?v:std::string("(none)")),"a new shard has the contents given, or none"); CHECK(d->getStateMachine()->getLastApplied()==start,"a new shard starts where asked"); if(raft){ CHECK(d->getRaftJournal()->getLogStart()==start&&d->getRaftJournal()->getLogSize()==start+1&&d->getRaftJournal()->getCommitIndex()==start&&d->getRaftJournal()->getClusterID()=="cid"&&d->getRaftJournal()->getNodes()==NODES,"a new journal starts where asked"); } else { std::string e; CHECK(!d->hasRaftJournal(e),"a standalone shard has no journal"); }
    CHECK(d->getResilveringHistory().size()==1&&d->getResilveringHistory().at(0).getID()==(raft&&seed?"GENESIS-FROM-EXISTING-SM-AT-INDEX:"+std::to_string(start):std::string("GENESIS")),"the history of a shard starts with its creation"); if(i==0){ delete d; d=new ShardDirectory("/s"); } }
  if(again&&raft){ std::unique_ptr<StateMachine> n; if(sym::flip("reseed")){ dir("/seed"); n.reset(new StateMachine("/seed/sm2")); n->set("k","2"); } bool re=(bool)n; if(sym::flip("closed")){ delete d; d=new ShardDirectory("/s"); } LogIndex from=sym::flip("from")?3:0; d->obliterate("c2",{RaftServer("z",9)},from,FsyncPolicy::kAsync,std::move(n)); for(int i=0;i<2;i++){ CHECK(value(*d)==(re?"2":"(none)"),"obliteration leaves exactly the contents given"); CHECK(d->getStateMachine()->getLastApplied()==from&&d->getRaftJournal()->getLogStart()==from&&d->getRaftJournal()->getLogSize()==from+1&&d->getRaftJournal()->getClusterID()=="c2","obliteration starts a new journal where asked"); delete d; d=new ShardDirectory("/s"); } sym_reach("obliterated"); }
  sym_reach("end"); }
struct Fault { int kind; long at; bool active() const { return kind>0; } };
static Fault fault(){ Fault f; f.kind=sym::choose("fault",5); f.at=f.kind?(long)sym::choose("point",POINTS):-1; return f; }
static void arm(const Fault&f){ fs().ops=0; if(f.kind==4) fs().crashAt=f.at; else if(f.kind){ fs().failAt=f.at; fs().failKind=f.kind-1; } }
static bool send(ShardDirectory&to,const std::string&id,const std::string&base,const std::string&prefix,std::string&err){ for(auto&n:list(prefix.empty()?base:base+"/"+prefix)){ std::string p=prefix.empty()?n:prefix+"/"+n; if(isDir(base+"/"+p)){ if(!send(to,id,base,p,err)) return false; } else if(!to.resilveringCopy(id,p,fs().nodes[base+"/"+p].data,err)) return false; } return true; }
// a lagging node takes over the data of another; anything may fail on the way
HARNESS(shard_resilver){
  world(); Status st; std::string root=sym::flip("odd")?"/b&c":"/b"; if(root!="/b") put("/b","unrelated"); std::string va=sym::bytes("new",1),vb=sym::bytes("old",1); sym_assume(!sym::eq(va,vb));
  ShardDirectory*a=ShardDirectory::create("/a","cid","sid",NODES,0,FsyncPolicy::kAsync,nullptr,st); fill(*a,va,3); a->getRaftJournal()->trimUntil(2); ShardDirectory*b=ShardDirectory::create(root,"cid","sid",NODES,0,FsyncPolicy::kAsync,nullptr,st); fill(*b,vb,1);
  // a snapshot is consistent even if an entry is committed and applied while it is taken
  bool busy=sym::flip("busy"); auto*W=&symdb::world(); auto chk=W->onCheckpoint; bool done=false; W->onCheckpoint=[&](const std::string&p,const symdb::Map&m){ chk(p,m); if(busy&&!done){ done=true; fill(*a,va,1); } };
  std::string err; std::unique_ptr<ShardSnapshot> snap=a->takeSnapshot("id1",err); CHECK(snap&&err.empty(),"a snapshot can be taken"); LogIndex last=a->getStateMachine()->getLastApplied();
  Fault f=fault(); std::string path=snap->getPath(); arm(f); bool ok=false,crashed=false,threw=false;
  try { ok=b->resilveringStart("id1",err)&&send(*b,"id1",path,"",err)&&b->resilveringFinish("id1",err); } catch(symdb::Crash&){ crashed=true; } catch(FatalException&){ threw=true; }
  bool hit=f.active()&&fs().ops>f.at; if(!hit) CHECK(ok,"resilvering succeeds when nothing fails"); if(f.kind==4&&hit&&!crashed) return; sym_reach(ok?"done":crashed?"crashed":threw?"fatal":"refused");
  if(!ok&&!crashed&&!threw){ CHECK(sym::eq(value(*b),vb),"a failed resilvering leaves the data as it was"); CHECK(b->getResilveringHistory().size()==1,"a failed resilvering is not in the history"); }
  if(ok){ CHECK(sym::eq(value(*b),va),"after resilvering, the data is that of the other node"); CHECK(b->getResilveringHistory().size()==2&&b->getResilveringHistory().at(1).getID()=="id1","resilvering is in the history"); }
  if(!crashed&&!threw) delete b; powerLoss();
  bool opened=false; ShardDirectory*r=nullptr; RaftJournal*j=nullptr; StateMachine*s=nullptr; bool x=sym::throws([&]{ r=new ShardDirectory(root); j=r->getRaftJournal(); s=r->getStateMachine(); opened=true; }); if(x&&r) {} CHECK(opened||crashed||threw,"the shard can be opened again");
  auto isNew=[&](StateMachine&m,RaftJournal&k){ std::string v; return m.get("k",v).ok()&&sym::eq(v,va)&&k.getLogStart()==2&&m.getLastApplied()<=k.getCommitIndex()&&m.getLastApplied()>=3&&m.getLastApplied()+1>=k.getLogStart()&&k.getLogSize()>=4; };
  auto isOld=[&](StateMachine&m,RaftJournal&k){ std::string v; return m.get("k",v).ok()&&sym::eq(v,vb)&&k.getLogSize()==2&&m.getLastApplied()==1&&k.getLogStart()==0; };
  if(opened){ bool n=isNew(*s,*j),o=isOld(*s,*j); CHECK(n||o,"the data is all old or all new, never a mixture"); if(ok) CHECK(n,"resilvering lasts"); if(!ok&&!crashed&&!threw) CHECK(o,"a failed resilvering leaves the data as it was"); sym_reach(n?"new":"old"); if(n){ std::string sup=root+"/supplanted/id1"; StateMachine os(sup+"/state-machine"); RaftJournal oj(sup+"/raft-journal"); CHECK(isOld(os,oj),"the replaced data is kept"); } }
  else { std::string sup=root+"/supplanted/id1"; CHECK(exists(sup),"no data is lost"); StateMachine os(sup+"/state-machine"); RaftJournal oj(sup+"/raft-journal"); CHECK(isOld(os,oj),"no data is lost"); sym_reach("between"); }
  snap.reset(); CHECK(!exists(path)&&exists("/a/current")&&exists(root),"a snapshot removes itself and nothing else"); if(root!="/b") CHECK(exists("/b"),"nothing else is removed"); (void)last; sym_reach("end"); }
// a checkpoint is a full copy that opens as a shard
HARNESS(shard_checkpoint){
  world(); Status st; bool raft=sym::flip("raft"); std::string v=sym::bytes("value",1); ShardDirectory*d=raft?ShardDirectory::create("/a","cid","sid",NODES,0,FsyncPolicy::kAsync,nullptr,st):ShardDirectory::create("/a","cid","sid",nullptr,st); if(raft) fill(*d,v,2); else d->getStateMachine()->set("k",v);
  bool busy=raft&&sym::flip("busy"); auto*W=&symdb::world(); auto chk=W->onCheckpoint; bool once=false; W->onCheckpoint=[&](const std::string&p,const symdb::Map&m){ chk(p,m); if(busy&&!once){ once=true; fill(*d,v,1); } };
  dir("/backup"); bool there=sym::flip("exists"); if(there) put("/backup/c","x"); unsigned at=sym::choose("fail",9); fs().ops=0; fs().failAt=at?(long)at-1:-1; fs().failKind=sym::choose("kind",3); std::string err=d->checkpoint("/backup/c"); bool hit=at&&fs().ops>fs().failAt; fs().failAt=-1; if(!hit) CHECK(err.empty()==!there,"a checkpoint is taken where nothing is yet");
  if(err.empty()){ CHECK(!hit,"a failed checkpoint is reported"); sym::throws([&]{}); ShardDirectory c("/backup/c"); CHECK(sym::eq(value(c),v),"a checkpoint has all the data"); CHECK(c.getResilveringHistory()==d->getResilveringHistory(),"a checkpoint has the history"); if(raft) CHECK(c.getStateMachine()->getLastApplied()<=c.getRaftJournal()->getCommitIndex()&&c.getRaftJournal()->getClusterID()=="cid","a checkpoint of a raft node has the journal that goes with the data"); c.getStateMachine()->set("k2","1",raft?c.getStateMachine()->getLastApplied()+1:0); sym_reach("taken"); }
  std::string t; CHECK(!d->getStateMachine()->get("k2",t).ok()&&sym::eq(value(*d),v),"the original is not touched"); sym_reach("end"); }
// the same between two nodes: the leader sends its data over the network, the target answers, anything may fail
static qclient::redisReplyPtr reply(const std::string&s){ qclient::redisReplyPtr r((redisReply*)new redisReply,[](redisReply*p){ freeReplyObject(p); }); r->type=s[0]=='+'?REDIS_REPLY_STATUS:REDIS_REPLY_ERROR; size_t n=s.size()-3; r->len=n; r->str=(char*)malloc(n+1); memcpy(r->str,s.data()+1,n); r->str[n]=0; return r; }
HARNESS(resilver_nodes){
  ::Node a(SA,{SA,SB,SC},true,"/a"); Fault f; f.kind=sym::choose("fault",7); f.at=f.kind?(long)sym::choose("point",f.kind>=5?10:POINTS):-1;
  { auto&W=symdb::world(); W.import=[](const std::string&p,symdb::Map&m){ auto it=fs().nodes.find(p+"/DATA"); return it!=fs().nodes.end()&&unpack(it->second.data,m); }; W.canCreate=[](const std::string&p){ return isDir(parentOf(p)); }; W.onCheckpoint=[](const std::string&p,const symdb::Map&m){ dir(p); put(p+"/DATA",pack(m)); put(p+"/TWO","2"); }; }
  std::string va=sym::bytes("new",1),vb=sym::bytes("old",1); sym_assume(!sym::eq(va,vb)); fill(*a.dir,va,3); Status st; ShardDirectory*b=ShardDirectory::create("/b","cid","sid",{SA,SB,SC},0,FsyncPolicy::kAsync,nullptr,st); fill(*b,vb,1);
  sym_threads(1000); Shard*s=new Shard(b,SB,Mode::raft,RaftTimeouts(milliseconds(1000),milliseconds(2000),milliseconds(250)),""); s->spinup(); XrdLink x; Link l(&x); Connection conn(&l); InFlightTracker t; long sent=0; bool lost=false,finished=false,died=false; std::string last;
  auto say=[&](const Words&w){ x.out.clear(); x.feed(wire(w)); CHECK(conn.processRequests(s,t)==1,"the target stays usable"); return x.out; };
  CHECK(say({"RAFT_HANDSHAKE","v","cid","1000:2000:250"})==rOk(),"handshake");
  qclient::QClient::handler=[&](const std::string&h,int,const std::vector<std::string>&w)->qclient::redisReplyPtr { if(h!="b"||w[0].compare(0,7,"quarkdb")) return nullptr; long i=sent++; if(died||(f.kind==5&&i>=f.at)){ lost=true; return nullptr; } std::string o; try { o=say(w); } catch(FatalException&){ died=true; return nullptr; } if(w[0]=="quarkdb_finish_resilvering"&&o==rOk()) finished=true; if(f.kind==6&&i==f.at){ lost=true; return nullptr; } return reply(o); };
  if(f.kind&&f.kind<4){ fs().ops=0; fs().failAt=f.at; fs().failKind=f.kind-1; } else if(f.kind==4) fs().readError=true;
  RaftContactDetails cd("cid",RaftTimeouts(milliseconds(1000),milliseconds(2000),milliseconds(250)),""); RaftResilverer*r=new RaftResilverer(*a.dir,SB,cd,*a.g->trimmer()); for(int i=0;i<40&&r->getStatus().state==ResilveringState::INPROGRESS;i++) a.sm().waitUntilTargetLastApplied(1000000,milliseconds(1));
  ResilveringStatus rs=r->getStatus(); CHECK(rs.state!=ResilveringState::INPROGRESS,"resilvering comes to an end"); delete r; bool ok=rs.state==ResilveringState::SUCCEEDED; bool hit=f.kind==4||lost||(f.kind&&f.kind<4&&fs().ops>f.at); if(!hit) CHECK(ok,"resilvering succeeds when nothing fails"); fs().failAt=-1; fs().readError=false; if(died){ CHECK(hit&&!ok,"resilvering a node which went down is not reported as successful"); sym_reach("down"); sym_end(); }
  std::string v; bool have=b->getStateMachine()->get("k",v).ok(); RaftJournal*j=b->getRaftJournal(); CHECK(have,"the target has data"); bool n=sym::eq(v,va)&&j->getLogSize()==4&&b->getStateMachine()->getLastApplied()==3, o=sym::eq(v,vb)&&j->getLogSize()==2&&b->getStateMachine()->getLastApplied()==1; CHECK(n||o,"the data is all old or all new, never a mixture"); CHECK(n==finished,"the target has the new data exactly if it said so"); if(ok) CHECK(n,"resilvering reported as successful is"); sym_reach(ok?"done":"failed");
  x.out.clear(); x.feed(wire({"RAFT_INFO"})); CHECK(conn.processRequests(s,t)==1&&!x.out.empty(),"the target stays usable"); CHECK(!exists("/a/temp-snapshots")||list("/a/temp-snapshots").empty()||hit,"the snapshot is removed"); sym_reach("end"); sym_end(); }
