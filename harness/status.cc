// What a leader does with what it knows about its replicas: membership changes, health, info.
#include "node.hh"
#include "health/HealthIndicator.hh"
#ifndef MEMBERS
#define MEMBERS 4
#endif
static const LogIndex START=40000; // nodes too far behind exist only in long logs
static ReplicationStatus STATUS;
extern "C" __attribute__((used)) ReplicationStatus __symx_override__ZN7quarkdb14RaftReplicator9getStatusEv(void*){ return STATUS; }
static const RaftServer ALLS[]={SA,SB,SC,SD}, OBS("e",5), STRANGER("f",6);
struct Rep { bool online; LogIndex size; };
struct World { Node n; std::vector<RaftServer> full,obs; std::map<RaftServer,Rep> rep; LogIndex size; Client c; bool leader=true;
  World(size_t members,bool observer,bool lead,bool committed):n(SA,std::vector<RaftServer>(ALLS,ALLS+members),true,"/shard",START),full(ALLS,ALLS+members),leader(lead){ n.tracker(); STATUS=ReplicationStatus(); std::string err;
    auto commitAll=[&]{ LogIndex e=n.j().getLogSize()-1; n.j().setCommitIndex(e); n.settle(e); };
    if(observer){ obs={OBS}; n.st().observed(1,{}); CHECK(n.j().addObserver(1,OBS,err),"setup"); commitAll(); }
    if(lead){ n.elect(5); if(committed) commitAll(); } else n.st().observed(5,SB);
    size=n.j().getLogSize(); for(auto&s:full) if(s!=SA) add(s); for(auto&s:obs) add(s); }
  void add(const RaftServer&s){ Rep r; r.online=sym::flip("online"); r.size=START-29995+(LogIndex)sym::range("log size",0,32); if(sym::flip("unknown")) r.size=-1; rep[s]=r; STATUS.addReplica(ReplicaStatus(s,r.online,r.size)); }
  bool upto(const RaftServer&s){ if(s==SA) return true; Rep&r=rep[s]; return r.online&&r.size>=0&&size-r.size<30000; }
  bool healthy(std::vector<RaftServer> v){ size_t k=0; for(auto&s:v) k+=upto(s); return k>=v.size()/2+1; }
  std::string say(const Words&w){ size_t k=c.x.out.size(); c.feed(wire(w),&n.d()); return c.x.out.substr(k); }
  bool is(const std::vector<RaftServer>&v,const RaftServer&s){ return std::find(v.begin(),v.end(),s)!=v.end(); } };
static void drop(std::vector<RaftServer>&v,const RaftServer&s){ v.erase(std::remove(v.begin(),v.end(),s),v.end()); }
// one change, for every state of the replicas; what is accepted leaves a majority that works
HARNESS(member_change){
  size_t m=1+sym::choose("members",MEMBERS); bool obs=sym::flip("observer"); unsigned st=sym::choose("standing",3); World w(m,obs,st!=1,st!=2); static const char*const CMD[]={"RAFT_ADD_OBSERVER","RAFT_REMOVE_MEMBER","RAFT_PROMOTE_OBSERVER","RAFT_DEMOTE_TO_OBSERVER"};
  unsigned op=sym::choose("op",4), who=sym::choose("who",5); if(who>0&&who<3&&who>=m) sym_prune(); RaftServer s= who<3?ALLS[who]:who==3?OBS:STRANGER; std::vector<RaftServer> full=w.full,o=w.obs; bool ok=w.leader&&st!=2&&s!=SA; LogIndex before=w.n.j().getLogSize();
  if(op==0){ ok=ok&&!w.is(full,s)&&!w.is(o,s); o.push_back(s); }
  else if(op==1){ ok=ok&&(w.is(full,s)||w.is(o,s)); drop(full,s); drop(o,s); ok=ok&&w.healthy(full); }
  else if(op==2){ ok=ok&&w.is(o,s)&&w.upto(s); drop(o,s); full.push_back(s); }
  else { ok=ok&&w.is(full,s); drop(full,s); o.push_back(s); ok=ok&&w.healthy(full); }
  std::string r=w.say({CMD[op],s.toString()}); CHECK(ok==(r==rOk()),"a membership change is accepted exactly if it is valid, the leader is established, and the remaining members have a majority that works"); if(!ok) CHECK(r[0]=='-',"a refused change is an error");
  RaftMembership x=w.n.j().getMembership(); CHECK(w.n.j().getLogSize()==before+(ok?1:0),"a refused change leaves no trace"); CHECK(x.nodes==(ok?full:w.full)&&x.observers==(ok?o:w.obs),"the members are those that were asked for");
  // until it is committed there is no other one
  if(ok){ CHECK(w.say({"RAFT_ADD_OBSERVER","g:7"})[0]=='-',"one membership change at a time"); CHECK(w.n.j().getMembership().nodes==x.nodes&&w.n.j().getMembership().observers==x.observers,"one membership change at a time"); }
  sym_reach("end"); sym_end(); }
static size_t lines(const std::vector<std::string>&v,const std::string&has){ size_t k=0; for(auto&l:v) k+=l.find(has)!=std::string::npos; return k; }
static std::vector<std::string> statusLines(const std::string&s){ std::vector<std::string> v; size_t p=s.find("\r\n")+2; CHECK(s[0]=='*',"a list"); while(p<s.size()){ CHECK(s[p]=='+',"a list of lines"); size_t e=s.find("\r\n",p); CHECK(e!=std::string::npos,"replies are well-formed"); v.push_back(s.substr(p+1,e-p-1)); p=e+2; } CHECK(s.substr(0,s.find("\r\n"))=="*"+std::to_string(v.size()),"replies are well-formed"); return v; }
HARNESS(node_health){
  size_t m=2+sym::choose("members",2); unsigned st=sym::choose("standing",3); World w(m,st!=1&&sym::flip("observer"),st!=1,true); if(st==2) w.n.st().observed(9,{}); bool shaky=sym::flip("shaky"); STATUS.shakyQuorum=shaky; if(st==2) w.leader=false;
  unsigned disk=sym::choose("disk",3); if(disk==1) symfs::fs().statfsFails=true; if(disk==2){ symfs::fs().bsize=4096; symfs::fs().blocks=4*(symfs::fs().bavail=(4ul<<30)/4096); symfs::fs().bfree=symfs::fs().bavail; }
  std::vector<std::string> v=statusLines(Formatter::nodeHealth(w.n.d().getHealth()).val); size_t bad=0,red=0; for(auto&r:w.rep) if(!w.upto(r.first)) bad++; if(!w.leader) bad=0; bool noLeader=st==2; size_t yellow=bad+(w.leader&&shaky)+(disk==2); red=noLeader+(disk==1);
  CHECK(lines(v,"NODE-HEALTH")==1&&v[0]==(red?"NODE-HEALTH RED":yellow?"NODE-HEALTH YELLOW":"NODE-HEALTH GREEN"),"the health of a node is that of its worst indicator"); CHECK(lines(v,"YELLOW >>")==yellow&&lines(v,"RED    >>")==red,"each indicator tells what is the case");
  CHECK(lines(v,"PART-OF-QUORUM No")==(size_t)noLeader,"a node without leader is not part of the quorum"); if(!noLeader) CHECK(lines(v,"PART-OF-QUORUM Yes | LEADER "+(w.leader?SA:SB).toString())==1,"the leader is named"); CHECK(lines(v,">> REPLICA ")==(w.leader?w.rep.size():0),"a leader lists its replicas"); CHECK(lines(v,"QUORUM-STABILITY Shaky")==(size_t)(w.leader&&shaky),"a shaky quorum is reported");
  if(w.leader) for(auto&r:w.rep) CHECK(lines(v,r.first.toString()+(r.second.online?w.upto(r.first)?" | ONLINE | UP-TO-DATE":" | ONLINE | LAGGING":" | OFFLINE"))==1,"a replica is shown as it is"); CHECK(lines(v,"NODE "+SA.toString())==1,"the node is named"); sym_reach("end"); sym_end(); }
HARNESS(node_info){
  size_t m=2+sym::choose("members",2); unsigned st=sym::choose("standing",2); World w(m,sym::flip("observer"),st==0,sym::flip("committed")); for(auto&r:STATUS.replicas){ r.logSize=w.size; r.online=true; }
  std::vector<std::string> v=statusLines(w.say({"RAFT_INFO"})); auto&j=w.n.j(); auto has=[&](const std::string&l){ CHECK(lines(v,l)>=1,"the info lists what is the case"); bool exact=false; for(auto&x:v) exact|=x==l; CHECK(exact,"the info lists what is the case"); };
  has("TERM "+std::to_string(w.n.st().getSnapshot()->term)); has("LOG-START "+std::to_string(j.getLogStart())); has("LOG-SIZE "+std::to_string(j.getLogSize())); has("COMMIT-INDEX "+std::to_string(j.getCommitIndex())); has("LAST-APPLIED "+std::to_string(w.n.sm().getLastApplied())); has("CLUSTER-ID cid"); has("MYSELF a:1"); has(st==0?"STATUS LEADER":"STATUS FOLLOWER"); has(st==0?"LEADER a:1":"LEADER b:2"); has("NODES "+serializeNodes(w.full)); has("OBSERVERS "+serializeNodes(w.obs)); has("QUORUM-SIZE "+std::to_string(m/2+1)); has("MEMBERSHIP-EPOCH "+std::to_string(j.getMembership().epoch)); CHECK(w.say({"RAFT_INFO","LEADER"})==rStr(st==0?"a:1":"b:2"),"the leader is named"); CHECK(lines(v,"REPLICA ")==STATUS.replicas.size(),"a leader lists its replicas"); std::string l=w.say({"RAFT_LEADER_INFO"}); CHECK(st==0?l[0]=='*':l==Formatter::moved(0,SB).val,"only the leader answers for the leader"); sym_reach("end"); sym_end(); }
