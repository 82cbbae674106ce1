// A cluster of real nodes, complete with their threads, in simulated time; the harness is the network, the clients, and whatever goes wrong.
#include "node.hh"
#include "reply.hh"
#include "raft/RaftDirector.hh"
#include "raft/RaftTrimmer.hh"
#include <condition_variable>
#include <set>
#ifndef PHASES
#define PHASES 2
#endif
#ifndef CUTS
#define CUTS 2
#endif
#ifndef STEPS
#define STEPS 12
#endif
#ifndef LOSSES
#define LOSSES 40
#endif
#ifndef FIRST
#define FIRST 1
#endif
#ifndef CHANGES
#define CHANGES 2
#endif
#ifndef EXTRA
#define EXTRA 0
#endif
#ifndef WHENS
#define WHENS 5
#endif
#ifndef BLACKOUTS
#define BLACKOUTS 1
#endif
#ifndef NODES
#define NODES 3
#endif
static const RaftServer SRV[5]={RaftServer("a",1),RaftServer("b",2),RaftServer("c",3),RaftServer("d",4),RaftServer("e",5)};
static void pause(long ms){ std::mutex m; std::condition_variable cv; std::unique_lock<std::mutex> l(m); auto t=std::chrono::steady_clock::now()+milliseconds(ms); while(std::chrono::steady_clock::now()<t) cv.wait_until(l,t); }
// the random part of the time-outs is up to the harness; every node has its own
static int WAIT[5], GAP=NODES>3?200:400;
extern "C" __attribute__((used)) int __symx_override__ZNSt24uniform_int_distributionIiEclISt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EEEEiRT_RKNS0_10param_typeE(void*,void*,const std::uniform_int_distribution<int>::param_type&p){ int i=p.b()-2000; return i>=0&&i<5?WAIT[i]:p.a(); }
struct Peer { ShardDirectory*dir=nullptr; RaftGroup*g=nullptr; bool up=true; };
struct Ask { int node; bool read; int val; int floor; Client*c; bool done=false; long at=0; };
struct Cluster {
  Peer p[NODES]; bool link[NODES][NODES]; std::map<std::string,Client*> lines; std::vector<Client*> old; std::map<RaftTerm,std::string> leaders; std::map<LogIndex,std::string> committed; std::vector<Ask> asks; std::set<int> acked; std::map<int,std::string> value; int next=1; long msgs=0, lose=-1; bool lost=false, ahead=false, loseRequest=false; int slowTo=-1, slow=900, seen=0; RaftTimeouts to(int i){ return RaftTimeouts(milliseconds(1000),milliseconds(2000+i),milliseconds(250)); }
  FsyncPolicy fsync=FsyncPolicy::kSyncImportantUpdates; std::string path(int i){ return "/"+SRV[i].hostname; }
  RaftJournal&j(int i){ return *p[i].g->journal(); } StateMachine&sm(int i){ return *p[i].g->stateMachine(); }
  void start(int i){ p[i].g=new RaftGroup(*p[i].dir,SRV[i],to(i),""); p[i].g->spinup(); p[i].up=true; }
  void reconnect(int i){ for(auto it=lines.begin();it!=lines.end();) if(it->first[1]==SRV[i].hostname[0]||it->first[0]==SRV[i].hostname[0]){ old.push_back(it->second); it=lines.erase(it); } else ++it; }
  Cluster(int fast,FsyncPolicy pol=FsyncPolicy::kSyncImportantUpdates):fsync(pol){ symdb::reset(); symfs::reset(); symx_simtime=1; sym_threads(1001); for(int i=0;i<NODES;i++) WAIT[i]=1060+i*GAP; std::swap(WAIT[0],WAIT[fast]); std::vector<RaftServer> all(SRV,SRV+NODES-EXTRA); for(auto&r:link) for(bool&x:r) x=true;
    for(int i=0;i<NODES;i++){ Status st; p[i].dir=ShardDirectory::create(path(i),"cid","shard",i<NODES-EXTRA?all:std::vector<RaftServer>{RaftServer::Null()},0,fsync,nullptr,st); }
    qclient::QClient::handler=[this](const std::string&h,int,const std::vector<std::string>&w)->qclient::redisReplyPtr{ return deliver(h,w); };
    for(int i=0;i<NODES;i++) start(i); for(auto&x:symdb::world().disks){ auto d=x.second; d->durable=std::make_shared<symdb::Map>(*d->cur); d->log.clear(); } }
  // what a leader takes for a sign of life was sent before the last message that got through
  std::chrono::steady_clock::time_point got[NODES][NODES];
  void heard(){ for(int a=0;a<NODES;a++) if(p[a].up&&p[a].g) for(int b=0;b<NODES;b++) if(a!=b) CHECK(p[a].g->lease()->getHandler(SRV[b]).get()<=got[a][b],"the leader lease counts from before a message is sent"); }
  int who(const std::string&s){ for(int i=0;i<NODES;i++) if(SRV[i].hostname==s.substr(0,1)) return i; return -1; }
  std::function<bool(int,int,bool)> event; // sees every message before it is delivered, may refuse it
  std::string admin(int i,const Words&w){ Client*c=new Client; c->feed(wire(w),p[i].g->dispatcher()); collect(); return c->x.out; }
  void groups(unsigned mask){ for(int a=0;a<NODES;a++) for(int b=0;b<NODES;b++) link[a][b]=(mask>>a&1)==(mask>>b&1); }
  // a client that turns up at every new leader the moment it shows itself
  std::mutex pm; std::condition_variable pc; int probeAt=-1, probing=-1; bool probeStop=false; std::thread*probe=nullptr;
  void prober(){ std::unique_lock<std::mutex> l(pm); while(!probeStop){ if(probeAt<0){ pc.wait(l); continue; } probing=probeAt; probeAt=-1; l.unlock(); ask(probing,true); l.lock(); probing=-1; } }
  long lat=0; std::vector<long> cuts; // latency in ms; numbers of messages with entries before their sender is cut off
  void only(int i){ for(int a=0;a<NODES;a++) for(int b=0;b<NODES;b++) link[a][b]=(a!=i&&b!=i); }
  qclient::redisReplyPtr deliver(const std::string&h,const std::vector<std::string>&w){
    int dst=who(h), src=-1; bool append=w[0]=="RAFT_APPEND_ENTRIES", beat=w[0]=="RAFT_HEARTBEAT"; if(append) src=who(w[1]); else if(beat||w[0].compare(0,13,"RAFT_REQUEST_")==0) src=who(w[2]); if(src<0||dst<0) return nullptr;
    RaftTerm t=append?binaryStringToInt(w[2].data()):atoll(w[1].c_str()); if(append||beat){ auto&l=leaders[t]; CHECK(l.empty()||l==SRV[src].hostname,"at most one leader per term"); if(l.empty()&&probe){ std::unique_lock<std::mutex> g(pm); probeAt=src; pc.notify_all(); } l=SRV[src].hostname; if(lat) pause(lat); }
    if(p[src].up&&p[dst].up&&link[src][dst]) if(append&&w.size()>3&&!cuts.empty()&&cuts[0]--==0){ cuts.erase(cuts.begin()); only(src); sym_reach("cut"); }
    if(!p[src].up||!p[dst].up||!link[src][dst]) return nullptr; heard(); if(event&&!event(src,dst,append)) return nullptr; if(append||beat||w[0]=="RAFT_REQUEST_VOTE") got[src][dst]=std::chrono::steady_clock::now(); long n=msgs++; if(n==lose&&loseRequest){ lost=true; return nullptr; }
    
    std::string id=SRV[src].hostname+SRV[dst].hostname+w[0]; Client*&c=lines[id]; Dispatcher*d=p[dst].g->dispatcher(); if(!c){ c=new Client; c->c->authorization=true; CHECK(c->feed(wire({"RAFT_HANDSHAKE","v","cid",to(dst).toString()}),d)==1,"handshake"); } Client*k=c; k->x.out.clear(); k->x.feed(wire(Words(w.begin(),w.end())));
    LogIndex before=j(dst).getCommitIndex(); int rc=0; try { rc=k->c->processRequests(d,k->t); } catch(FatalException&e){ sym_fail("a node never finds its committed entries contradicted"); } CHECK(rc==1,"messages between nodes are understood"); if(append){ LogIndex said=binaryStringToInt(w[2].data()+24), prev=binaryStringToInt(w[2].data()+8), ci=j(dst).getCommitIndex(); CHECK(ci==before||(ci<=said&&ci<=std::max(prev+(LogIndex)w.size()-3,before)),"a follower commits what its leader says is committed and it holds"); } long late=lat+(slowTo==src?slow:0); if(late) pause(late); if(n==lose||!link[dst][src]||!p[src].up){ lost=true; return nullptr; }
    size_t at=0; redisReply*r=parse(k->x.out,at); CHECK(at==k->x.out.size(),"a message has one reply"); return qclient::redisReplyPtr(r,[](redisReply*q){ freeReplyObject(q); }); }
  int leader(){ int b=-1; RaftTerm bt=-1; for(int i=0;i<NODES;i++) if(p[i].up){ auto s=p[i].g->state()->getSnapshot(); if(s->status==RaftStatus::LEADER&&s->term>bt){ b=i; bt=s->term; } } return b; }
  
  void ask(int i,bool read){ if(!p[i].up) return; collect(); Ask a; a.node=i; a.read=read; a.val=read?0:next++; a.floor=std::max(seen,acked.empty()?0:*acked.rbegin()); a.c=new Client; a.at=symx_now_ns; a.c->feed(read?wire({"GET","k"}):wire({"SET","k",value[a.val]=std::to_string(a.val)+":"+sym::bytes("value",1)}),p[i].g->dispatcher()); asks.push_back(a); collect(); }
  void collect(){ for(auto&a:asks) if(!a.done&&!a.c->x.out.empty()){ a.done=true; std::string&o=a.c->x.out; if(!a.read){ if(o=="+OK\r\n"){ acked.insert(a.val); sym_reach("acknowledged"); } else CHECK(o[0]=='-',"a write is acknowledged or refused"); } else if(o[0]=='-'){} else { int v=0; if(o!="$-1\r\n"){ size_t q=o.find("\r\n"); v=atoi(o.c_str()+q+2); CHECK(sym::eq(o,rStr(value[v])),"what is read is what was written, byte for byte"); } CHECK(v>=a.floor,"a read sees every write acknowledged before it"); seen=std::max(seen,v); sym_reach("read"); } } }
  void check(){ collect(); heard(); std::map<LogIndex,std::pair<RaftTerm,std::string>> none;
    for(int i=0;i<NODES;i++){ if(!p[i].g) continue; LogIndex ci=j(i).getCommitIndex(), n=j(i).getLogSize(); CHECK(ci<n,"committed entries exist"); CHECK(ahead||sm(i).getLastApplied()<=ci,"only committed entries are applied"); for(LogIndex k=1;k<=ci;k++){ RaftEntry e; CHECK(j(i).fetch(k,e).ok(),"readable"); std::string s=e.serialize(); auto it=committed.find(k); if(it==committed.end()) committed[k]=s; else CHECK(it->second==s,"all nodes agree on what is committed"); }
    }
    for(int i=0;i<NODES;i++){ if(!p[i].g) continue; CHECK(sm(i).getLastApplied()==0||committed.count(sm(i).getLastApplied()),"only committed entries are applied");
      std::string v; sm(i).get("k",v); int want=0; for(LogIndex k=1;k<=sm(i).getLastApplied();k++){ RaftEntry e; RaftEntry::deserialize(e,committed[k]); if(e.request.size()==3&&e.request[0]=="SET") want=atoi(std::string(e.request[2]).c_str()); } CHECK(sym::eq(v,want?value[want]:std::string()),"the data is what the applied entries make it"); }
    for(int a=0;a<NODES;a++) for(int b=a+1;b<NODES;b++){ if(!p[a].g||!p[b].g) continue; LogIndex m=std::min(j(a).getLogSize(),j(b).getLogSize()); bool same=false; for(LogIndex k=m-1;k>0;k--){ RaftEntry x,y; j(a).fetch(k,x); j(b).fetch(k,y); if(x.term==y.term) same=true; if(same) CHECK(x.term==y.term&&x.request==y.request,"logs that agree on an entry agree on everything before it"); } }
    for(int v:acked){ bool in=false; for(auto&c:committed){ RaftEntry e; RaftEntry::deserialize(e,c.second); if(e.request.size()==3&&e.request[0]=="SET"&&atoi(std::string(e.request[2]).c_str())==v&&sym::eq(std::string(e.request[2]),value[v])) in=true; } CHECK(in,"an acknowledged write is committed"); }
  }
  void quiet(){ while(probing>=0||probeAt>=0) pause(50); }
  void stop(int i){ p[i].up=false; quiet(); delete p[i].g; p[i].g=nullptr; p[i].up=false; reconnect(i); }
  // the machine loses power: whatever was not forced to the disk may be gone, in the journal and in the state machine
  void power(int i,bool keepJournal,bool keepData){ stop(i); delete p[i].dir; std::string a=path(i)+"/current/raft-journal", b=path(i)+"/current/state-machine"; symdb::crash(a,keepJournal?symdb::unsynced(a):0); symdb::crash(b,keepData?symdb::unsynced(b):0); p[i].dir=new ShardDirectory(path(i)); }
  void finish(){ quiet(); if(probe){ { std::unique_lock<std::mutex> l(pm); probeStop=true; pc.notify_all(); } probe->join(); } for(int i=0;i<NODES;i++) p[i].up=false; for(int i=0;i<NODES;i++) if(p[i].g){ delete p[i].g; p[i].g=nullptr; } sym_reach("end"); sym_end(); }
};

struct Storm : Cluster { using Cluster::Cluster;
  void heal(){ for(auto&r:link) for(bool&x:r) x=true; }
  // 0 nothing; then for every node: isolated, deaf, mute, link to the next one cut, restarted
  void fault(unsigned f){ if(!f) return; unsigned kind=(f-1)/NODES,i=(f-1)%NODES; for(int k=0;k<NODES;k++){ if(kind==0) link[i][k]=link[k][i]=false; if(kind==1) link[k][i]=false; if(kind==2) link[i][k]=false; } if(kind==3) link[i][(i+1)%NODES]=link[(i+1)%NODES][i]=false; if(kind==4){ stop(i); start(i); } }
  void everybody(bool read){ for(int i=0;i<NODES;i++) ask(i,read); }
  // whatever happened: once the network works again, the cluster does, with everything in it
  void recover(){ heal(); for(int i=0;i<NODES;i++) if(!p[i].up) start(i); pause(9000); check(); int l=leader(); CHECK(l>=0,"a healed cluster elects a leader"); size_t n=acked.size(); ask(l,false); pause(1000); check(); CHECK(acked.size()==n+1,"a healed cluster serves writes"); everybody(true); pause(300); check(); RaftMembership m=j(l).getMembership(); for(int i=0;i<NODES;i++){ if(!contains(m.nodes,SRV[i])&&!contains(m.observers,SRV[i])) continue; CHECK(j(i).getLogSize()==j(l).getLogSize(),"all nodes catch up"); CHECK(j(i).getCommitIndex()==j(l).getCommitIndex()&&sm(i).getLastApplied()==sm(l).getLastApplied(),"all nodes catch up"); } }
};
// which faults are explored: all of them, or the ones that differ when the first node leads
#ifdef ALLFAULTS
static unsigned pick(){ return sym::choose("fault",5*NODES+1); }
#else
static unsigned pick(){ static const unsigned F[]={0,1,2,1+NODES,1+2*NODES,2+2*NODES,1+3*NODES,2+3*NODES,1+4*NODES}; return F[sym::choose("fault",sizeof F/sizeof*F)]; }
#endif
static Storm* begin(int first,FsyncPolicy pol=FsyncPolicy::kSyncImportantUpdates){ Storm*c=new Storm(sym::choose("fastest",first),pol); pause(3000); c->check(); CHECK(c->leader()>=0,"a healthy cluster has a leader"); c->ask(c->leader(),false); pause(300); c->check(); CHECK(c->acked.size()==1,"a healthy cluster serves writes"); return c; }
HARNESS(cluster_faults){
  Storm*c=begin(FIRST); for(int k=0;k<PHASES;k++){ c->heal(); c->fault(pick()); c->everybody(false); pause(sym::flip("long")?3000:400); c->check(); c->everybody(true); c->everybody(false); pause(50); c->check(); }
  c->recover(); c->finish(); }
// any single message gets lost, on its way there or back, while leadership changes
HARNESS(cluster_loss){
  Storm*c=begin(1); int l=c->leader(); c->lose=c->msgs+sym::choose("message",LOSSES); c->loseRequest=sym::flip("request"); c->everybody(false); pause(60); unsigned f=sym::choose("fault",3); c->fault(f==0?0:f==1?1+l:1+2*NODES+l); c->everybody(false); pause(2600); c->check(); c->everybody(false); c->heal(); pause(300); c->check(); c->everybody(true); c->everybody(false); pause(100); c->check(); if(c->lost) sym_reach("lost");
  c->recover(); c->finish(); }
// leaders are cut off one after the other, each after any number of messages with entries
HARNESS(cluster_leaders){
  Storm*c=begin(3); int l=c->leader(); c->lat=sym::flip("latency")?4:0; c->only(l); c->ask(l,false); for(int k=0;k<CUTS;k++) c->cuts.push_back(sym::choose("messages",5)); for(int k=0;k<3;k++){ pause(2400); int m=c->leader(); if(m>=0) for(int i=0;i<3;i++){ c->ask(m,false); pause(3); } } pause(1200); c->cuts.clear(); c->check();
  c->recover(); c->finish(); }
// messages take time, replies more; clients everywhere, all the time, and at every new leader
HARNESS(cluster_reads){
  Storm*c=nullptr; bool early=sym::flip("early"); int l; if(!early&&sym::flip("close")) GAP=25;
  if(early){ c=new Storm(0); c->lat=20; l=-1; for(int i=0;i<600&&l<0;i++){ pause(5); l=c->leader(); } CHECK(l>=0,"a healthy cluster has a leader"); } else { c=begin(sym::flip("middle")?2:1); l=c->leader(); c->lat=1; }
  c->probe=new std::thread([c]{ c->prober(); }); int slow=early?900:450*sym::choose("slow",3); if(slow){ c->slowTo=l; c->slow=slow; } pause(300+1900*sym::choose("when",WHENS)/WHENS); c->ask(l,false); if(sym::flip("settled")) pause(20); unsigned f=sym::choose("fault",6); c->fault(f==5?0:1+f*NODES+l); for(int i=0;i<STEPS;i++){ c->everybody(true); c->everybody(false); pause(2400/STEPS); } c->check(); c->slowTo=-1;
  c->recover(); c->finish(); }
// any machines lose power at the same time, with every write forced to the disk; or a single one with the default settings: nothing acknowledged is lost
HARNESS(cluster_power){
  bool always=sym::flip("always"); Storm*c=begin(1,always?FsyncPolicy::kAlways:FsyncPolicy::kSyncImportantUpdates); c->ahead=!always; for(int k=0;k<BLACKOUTS;k++){ int l=std::max(0,c->leader()); unsigned who=always?1+sym::choose("machines",(1u<<NODES)-1):1u<<sym::choose("machine",NODES); c->everybody(false); if(sym::flip("halfway")) c->only((l+1)%NODES); pause(sym::flip("soon")?0:300); c->heal(); bool kj=sym::flip("journal"),kd=sym::flip("data"); for(int i=0;i<NODES;i++) if(who>>i&1) c->power(i,kj,kd); c->collect(); c->everybody(false); pause(sym::flip("outage")?2600:0); for(int i=0;i<NODES;i++) if(who>>i&1) c->start(i); c->everybody(false); pause(2600); c->check(); c->everybody(false); c->everybody(true); pause(100); c->check(); }
  c->recover(); c->finish(); }
#if EXTRA
// the members change while leadership does: one more server is promoted by a leader that is then cut off with it, and the next one removes the first
HARNESS(cluster_members){
  Storm*c=begin(1); int l=c->leader(); CHECK(l==0,"the fastest node leads"); const int e=NODES-1; CHECK(c->admin(l,{"RAFT_ADD_OBSERVER",SRV[e].toString()})==rOk(),"an observer is added"); pause(1500); c->check(); CHECK(c->j(e).getCommitIndex()==c->j(l).getCommitIndex(),"an observer catches up");
  int behind=e-1; if(sym::flip("lag")){ c->link[l][behind]=false; c->ask(l,false); c->ask(l,false); pause(100); c->check(); c->heal(); c->link[l][behind]=false; }
  std::string how=sym::flip("demote")?"RAFT_DEMOTE_TO_OBSERVER":"RAFT_REMOVE_MEMBER"; unsigned first=sym::choose("first",3); if(first==1) c->groups(1u<<l|1u<<e); if(first==2) c->only(l); c->admin(l,{"RAFT_PROMOTE_OBSERVER",SRV[e].toString()}); pause(30); c->check(); if(!first) c->only(l);
  int next=-1, count=sym::choose("count",3), seen=0; c->event=[&](int src,int dst,bool append){ if(src==l||!append) return true; if(next<0) next=src; if(dst==behind&&src==next&&seen++>=count){ c->groups(first==1?1u<<l|1u<<e:1u<<l); for(int i=0;i<NODES;i++) c->link[i][behind]=c->link[behind][i]=false; return false; } return true; };
  for(int i=0;i<1000&&next<0;i++) pause(4); if(next>=0){ for(int i=0;i<4;i++){ pause(5); std::string r=c->admin(next,{how,SRV[l].toString()}); if(r==rOk()){ sym_reach("changed"); break; } } c->ask(next,false); pause(600); c->check(); }
  c->event=nullptr; unsigned then=sym::choose("then",4); if(then==0) c->heal(); if(then==1) c->groups(1u<<l|1u<<e|1u<<behind); if(then==2) c->groups(1u<<l|1u<<e); if(then==3) c->groups(1u<<l|1u<<behind); c->everybody(false); pause(3500); c->check(); c->everybody(false); c->everybody(true); pause(100); c->check();
  c->recover(); c->finish(); }
// any sequence of membership changes, with something failing right after each of them
HARNESS(cluster_changes){
  Storm*c=begin(1); const int e=NODES-1; int l=c->leader(); CHECK(c->admin(l,{"RAFT_ADD_OBSERVER",SRV[e].toString()})==rOk(),"an observer is added"); pause(1500); c->check();
  for(int k=0;k<CHANGES;k++){ l=std::max(c->leader(),0); int n=(l+1)%(NODES-1); static const char*OP[]={"RAFT_PROMOTE_OBSERVER","RAFT_DEMOTE_TO_OBSERVER","RAFT_REMOVE_MEMBER","RAFT_REMOVE_MEMBER","RAFT_ADD_OBSERVER"}; unsigned op=sym::choose("what",5); int who=op==0||op==3?e:n; if(op==4) who=e; std::string r=c->admin(l,{OP[op],SRV[who].toString()}); if(r==rOk()) sym_reach(k?"changed again":"changed"); else CHECK(r[0]=='-',"a membership change is accepted or refused");
    unsigned f=sym::choose("fault",4); if(f) c->fault(f==1?1+l:f==2?1+n:1+e); c->everybody(false); pause(sym::flip("long")?2600:30); c->check(); c->everybody(true); c->everybody(false); pause(50); c->check(); if(sym::flip("mend")) c->heal(); }
  c->recover(); c->finish(); }
#endif
