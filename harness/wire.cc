// Messages between servers: what a server sends is what the other one understands, and nothing else is understood.
#include "node.hh"
#include "reply.hh"
#include "raft/RaftTalker.hh"
#include "raft/RaftUtils.hh"
#include "raft/RaftContactDetails.hh"
#include "Formatter.hh"
#include "utils/ParseUtils.hh"
#include <climits>
#ifndef LEN
#define LEN 2
#endif
#ifndef ENTRIES
#define ENTRIES 2
#endif
#ifndef RAW
#define RAW 20
#endif
static Words sent;
static RaftContactDetails contact(){ return RaftContactDetails("cid",RaftTimeouts(milliseconds(1000),milliseconds(2000),milliseconds(250)),""); }
struct Talk { RaftContactDetails cd; RaftTalker t; Talk():cd(contact()),t((qclient::QClient::handler=[](const std::string&,int,const std::vector<std::string>&w){ sent=w; return qclient::redisReplyPtr(); },SB),cd,"x"){} RedisRequest got(){ RedisRequest r; for(auto&w:sent) r.push_back(w); return r; } };
// a server name: any bytes but the separators, any port
static RaftServer server(){ std::string h=sym::str("host",1,LEN); for(char c:h) sym_assume(sym_and(sym_and(c!=':',c!=','),c!='|')); unsigned k=sym::choose("port",3); return RaftServer(h,k==0?(int)sym::range("p",0,99):k==1?INT_MAX:65535); }
// numbers in decimal
static int64_t number(){ unsigned k=sym::choose("number",4); return k==0?(int64_t)sym::range("n",0,9):k==1?INT64_MAX-1:k==2?-1:(int64_t)4294967296; }
static bool same(const RaftServer&a,const RaftServer&b){ return sym_and(sym::eq(a.hostname,b.hostname),a.port==b.port); }
static RaftEntry entry(int64_t max){ RaftEntry e; e.term=(int64_t)sym_u64("term"); sym_assume(e.term<=max); size_t n=1+sym::choose("words",2); for(size_t i=0;i<n;i++) e.request.push_back(sym::str("word",0,LEN)); return e; }
static bool same(const RedisRequest&a,const RedisRequest&b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r=sym_and(r,sym::eq(a[i],b[i])); return r; }
static bool same(const RaftEntry&a,const RaftEntry&b){ return sym_and(a.term==b.term,same(a.request,b.request)); }
HARNESS(wire_append){
  Talk t; int64_t term=sym_u64("term"),prev=sym_u64("previous index"),prevTerm=sym_u64("previous term"),commit=sym_u64("commit"); sym_assume(prevTerm<=term); RaftServer l=server(); size_t n=sym::choose("entries",ENTRIES+1); std::vector<RaftEntry> e; std::vector<RaftSerializedEntry> ser; for(size_t i=0;i<n;i++){ e.push_back(entry(term)); ser.push_back(e[i].serialize()); }
  t.t.appendEntries(term,l,prev,prevTerm,commit,ser); RaftAppendEntriesRequest d; CHECK(RaftParser::appendEntries(t.got(),d),"a message that was sent is understood"); CHECK(sym_and(sym_and(d.term==term,d.prevIndex==prev),sym_and(d.prevTerm==prevTerm,d.commitIndex==commit)),"terms and positions arrive as sent"); CHECK(same(d.leader,l),"the sender arrives as sent"); CHECK(d.entries.size()==n,"every entry arrives"); for(size_t i=0;i<n;i++){ CHECK(same(d.entries[i],e[i]),"entries arrive as sent"); CHECK(RaftEntry::fetchTerm(ser[i])==e[i].term,"the term of a serialized entry"); CHECK(d.entries[i].request.getCommand()==e[i].request.getCommand(),"entries keep their command"); } sym_reach("end"); }
HARNESS(wire_vote){
  Talk t; RaftVoteRequest v; v.term=number(); v.candidate=server(); v.lastIndex=number(); v.lastTerm=number(); bool pre=sym::flip("pre"); t.t.requestVote(v,pre); RedisRequest r=t.got(); RaftVoteRequest d; CHECK(r.getCommand()==(pre?RedisCommand::RAFT_REQUEST_PRE_VOTE:RedisCommand::RAFT_REQUEST_VOTE),"votes and pre-votes are told apart"); CHECK(RaftParser::voteRequest(r,d),"a message that was sent is understood"); CHECK(sym_and(d.term==v.term,sym_and(d.lastIndex==v.lastIndex,d.lastTerm==v.lastTerm)),"terms and positions arrive as sent"); CHECK(same(d.candidate,v.candidate),"the sender arrives as sent"); sym_reach("end"); }
HARNESS(wire_heartbeat){
  Talk t; int64_t term=number(); RaftServer l=server(); t.t.heartbeat(term,l); RedisRequest r=t.got(); RaftHeartbeatRequest d; CHECK(r.getCommand()==RedisCommand::RAFT_HEARTBEAT,"heartbeats are heartbeats"); CHECK(RaftParser::heartbeat(r,d),"a message that was sent is understood"); CHECK(d.term==term,"terms and positions arrive as sent"); CHECK(same(d.leader,l),"the sender arrives as sent");
  int64_t i=number(); t.t.fetch(i); r=t.got(); int64_t x; CHECK(r.getCommand()==RedisCommand::RAFT_FETCH&&r.size()==2&&ParseUtils::parseInt64(r[1],x)&&x==i,"the entry asked for"); sym_reach("end"); }
static qclient::redisReplyPtr reply(const std::string&s){ size_t p=0; qclient::redisReplyPtr r(parse(s,p),freeReplyObject); CHECK(p==s.size(),"one reply"); return r; }
HARNESS(wire_replies){
  unsigned k=sym::choose("kind",3); std::string err=sym::str("error",0,LEN); int64_t term=number();
  if(k==0){ RaftAppendEntriesResponse a(term,number(),sym::flip("outcome"),err),d; CHECK(RaftParser::appendEntriesResponse(reply(Formatter::vector(a.toVector()).val),d),"a reply that was sent is understood"); CHECK(d.term==a.term&&d.logSize==a.logSize&&d.outcome==a.outcome,"the outcome arrives as sent"); CHECK(sym::eq(d.err,a.err),"the reason arrives as sent"); }
  else if(k==1){ RaftHeartbeatResponse a{term,sym::flip("recognized"),err},d; CHECK(RaftParser::heartbeatResponse(reply(Formatter::vector(a.toVector()).val),d),"a reply that was sent is understood"); CHECK(d.term==a.term&&d.nodeRecognizedAsLeader==a.nodeRecognizedAsLeader,"the outcome arrives as sent"); CHECK(sym::eq(d.err,a.err),"the reason arrives as sent"); }
  else { static const RaftVote V[]={RaftVote::VETO,RaftVote::REFUSED,RaftVote::GRANTED}; RaftVoteResponse a(term,V[sym::choose("vote",3)]),d; CHECK(RaftParser::voteResponse(reply(Formatter::vector(a.toVector()).val),d),"a reply that was sent is understood"); CHECK(d.term==a.term&&d.vote==a.vote,"the outcome arrives as sent"); }
  sym_reach("end"); }
HARNESS(wire_fetch){
  size_t n=sym::choose("entries",ENTRIES+1); std::vector<RaftEntry> e,d; for(size_t i=0;i<n;i++){ e.push_back(RaftEntry()); e[i].term=number(); size_t w=1+sym::choose("words",2); for(size_t j=0;j<w;j++) e[i].request.push_back(sym::str("word",0,LEN)); }
  CHECK(RaftParser::fetchLastResponse(reply(Formatter::raftEntries(e,true).val),d),"a reply that was sent is understood"); CHECK(d.size()==n,"every entry arrives"); for(size_t i=0;i<n;i++) CHECK(same(d[i],e[i]),"entries arrive as sent"); sym_reach("end"); }
// bytes that were not sent by a server of ours
HARNESS(wire_append_any){
  size_t n=1+sym::choose("entries",2); RedisRequest r; r.emplace_back("RAFT_APPEND_ENTRIES"); r.emplace_back("a:1"); std::string head=sym::bytes("header",40); if(sym::flip("fits")){ for(int i=32;i<40;i++) sym_assume((unsigned char)head[i]==(i==39?n:0)); } r.push_back(head); std::vector<std::string> raw; for(size_t i=0;i<n;i++){ raw.push_back(sym::str("entry",i?8:0,i?9:RAW)); r.push_back(raw[i]); }
  RaftAppendEntriesRequest d; bool ok=RaftParser::appendEntries(std::move(r),d); if(!ok){ sym_reach("refused"); return; } CHECK(d.entries.size()==n,"what is accepted is exactly what was received"); for(size_t i=0;i<n;i++) CHECK(sym::eq(d.entries[i].serialize(),raw[i]),"what is accepted is exactly what was received"); sym_reach("accepted"); }
static redisReply* any(int depth){ redisReply*r=new redisReply; unsigned k=sym::choose("type",depth?4:5); static const int T[]={REDIS_REPLY_STRING,REDIS_REPLY_NIL,REDIS_REPLY_INTEGER,REDIS_REPLY_ERROR,REDIS_REPLY_ARRAY}; r->type=T[k]; if(k==0||k==3){ std::string s=sym::str("text",0,1); if(depth==2){ static const char*const W[]={"granted","0","TERM: 1","1x"}; unsigned w=sym::choose("word",5); if(w<4) s=W[w]; } r->len=s.size(); r->str=(char*)malloc(s.size()+1); memcpy(r->str,s.data(),s.size()); r->str[s.size()]=0; } return r; }
static redisReply* array(size_t n,int depth,bool nest){ redisReply*r=new redisReply; r->type=REDIS_REPLY_ARRAY; r->elements=n; r->element=(redisReply**)malloc(n*sizeof(void*)+1); for(size_t i=0;i<n;i++) r->element[i]= nest&&i==1&&sym::flip("nest")?array(sym::choose("inner",2),1,false):any(depth); return r; }
HARNESS(wire_replies_any){
  unsigned k=sym::choose("kind",4); qclient::redisReplyPtr r; unsigned shape=sym::choose("shape",3); if(shape==1) r.reset(any(0),freeReplyObject); else if(shape==2) r.reset(array(sym::choose("elements",4),2,k==3),freeReplyObject);
  if(k==0){ RaftAppendEntriesResponse d; CHECK(!RaftParser::appendEntriesResponse(r,d),"a malformed reply is not understood"); }
  else if(k==1){ RaftHeartbeatResponse d; if(RaftParser::heartbeatResponse(r,d)){ RaftHeartbeatResponse e; CHECK(r->elements==3&&RaftParser::heartbeatResponse(reply(Formatter::vector(d.toVector()).val),e)&&e.term==d.term,"a malformed reply is not understood"); } }
  else if(k==2){ RaftVoteResponse d; if(RaftParser::voteResponse(r,d)) CHECK(r->elements==2&&d.vote==RaftVote::GRANTED,"a malformed reply is not understood"); }
  else { RaftEntry e; if(RaftParser::fetchResponse(r.get(),e)) CHECK(r->elements==2&&e.term==1&&e.request.size()==r->element[1]->elements,"a malformed reply is not understood"); }
  sym_reach("end"); }
// only servers of the same cluster with the same time-outs may send raft messages
HARNESS(wire_handshake){
  Node n(SA,{SA,SB,SC}); n.tracker(); Client c; c.c->authorization=true; auto say=[&](const Words&w){ size_t k=c.x.out.size(); CHECK(c.feed(wire(w),&n.d())==1,"the connection stays usable"); return c.x.out.substr(k); }; bool before=sym::flip("authorized before"); if(before) CHECK(say({"RAFT_HANDSHAKE","v","cid","1000:2000:250"})==rOk(),"a server of the cluster is welcome");
  unsigned k=sym::choose("what",4); std::string id="cid",to="1000:2000:250"; bool good=true; if(k==0){ id=sym::str("id",2,4); good=sym::eq(id,"cid"); } else if(k==1){ size_t i=sym::choose("at",to.size()); char b=sym_u8("byte"); good=b==to[i]; to[i]=b; } else if(k==2){ to+=sym::bytes("more",1); good=false; }
  std::string r= k==3&&sym::flip("short")?(good=false,say({"RAFT_HANDSHAKE","v",id})):say({"RAFT_HANDSHAKE","v",id,to}); CHECK((r==rOk())==good,"a handshake succeeds exactly with the cluster's own name and time-outs"); if(!good) CHECK(r[0]=='-',"a wrong handshake is an error");
  LogIndex size=n.j().getLogSize(); std::string h=say({"RAFT_HEARTBEAT","5","b:2"}),v=say({"RAFT_REQUEST_VOTE","6","c:3","9","9"}),p=say({"RAFT_REQUEST_PRE_VOTE","6","c:3","9","9"}); std::string hd(40,'\0'); hd[7]=7; auto a=say({"RAFT_APPEND_ENTRIES","b:2",hd});
  for(auto*x:{&h,&v,&p,&a}) CHECK(((*x)[0]=='*')==good,"raft messages are accepted from servers of the cluster only"); CHECK((n.st().getSnapshot()->term>=5)==good&&n.j().getLogSize()==size,"refused messages change nothing"); sym_reach("end"); sym_end(); }
