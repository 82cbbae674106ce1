// The wire: what is sent is what is received.
#include "sym.hh"
#include "resp_decode.hh"
#include "Link.hh"
#include "RedisParser.hh"
#include "BufferedReader.hh"
#include "BufferedWriter.hh"
#include "Formatter.hh"
#include "RedisRequest.hh"
#include "redis/Transaction.hh"
#include "redis/ArrayResponseBuilder.hh"
#include "raft/RaftCommon.hh"
#include "utils/Statistics.hh"
using namespace quarkdb;
#ifndef LEN
#define LEN 2
#endif
#ifndef FUZZ
#define FUZZ 7
#endif
#ifndef HDR
#define HDR 2
#endif
static const char*const CMDS[]={"get","set","lease-acquire"};
// requests encoded as RESP and delivered in arbitrary pieces are parsed back, one by one, without loss
HARNESS(parse_roundtrip){
  std::vector<RedisRequest> reqs; unsigned n=1+sym::choose("requests",2); std::string wire;
  for(unsigned i=0;i<n;i++){ RedisRequest r; r.emplace_back(std::string(CMDS[sym::choose("cmd",i?1:3)])); unsigned extra=sym::choose("extra",i?2:3); for(unsigned k=0;k<extra;k++) r.emplace_back(sym::str("arg",1,LEN)); wire+=Formatter::simpleRedisRequest(r).val; reqs.push_back(std::move(r)); }
  XrdLink x; Link link(&x); RedisParser parser(&link); RedisRequest got; x.in=wire;
  size_t cut=sym::choose("cut",(unsigned)wire.size()+1); unsigned done=0; bool auth=sym::flip("auth");
  for(int step=0;step<2;step++){ x.avail=step?wire.size():cut;
    while(true){ int rc=parser.fetch(got,auth); if(rc==0) break; CHECK(rc==1,"well-formed request is accepted"); CHECK(done<reqs.size(),"no request is invented"); RedisRequest&e=reqs[done]; done++;
      CHECK(got.size()==e.size(),"parsed request has the sent number of elements"); for(size_t k=0;k<e.size();k++) CHECK(sym::eq(got[k],e[k]),"parsed request has the sent bytes"); CHECK(got.getCommand()==e.getCommand()&&got.getCommandType()==e.getCommandType(),"parsed request has the sent command"); } }
  CHECK(done==n,"every sent request is delivered"); CHECK(parser.fetch(got,auth)==0,"nothing is delivered twice"); sym_reach("end");
}
// arbitrary bytes never crash the parser, and what it accepts is the RESP meaning of those bytes
HARNESS(parse_any){
  static const char al[]="*$-1\r\na"; std::string wire=sym::over("wire",FUZZ,al,sizeof al-1);
  XrdLink x; Link link(&x); RedisParser parser(&link); RedisRequest got; x.feed(wire); int rc=parser.fetch(got,true);
  CHECK(rc==1||rc==0||rc==-1||rc==-2,"parser returns a defined status");
  if(rc==1){ RespIn in(wire); Resp r=in.get(); CHECK(got.size()>0,"accepted request is not empty"); for(size_t i=0;i<got.size();i++) CHECK(got[i].size()>0,"accepted request has no empty element");
    std::string again=Formatter::simpleRedisRequest(got).val; CHECK(again.size()<=wire.size(),"accepted request fits in what was sent"); }
  else if(rc==0) sym_reach("incomplete"); else sym_reach("rejected");
}
HARNESS(parse_one){ // same with a valid frame around an arbitrary element header
  static const char al[]="-+03 \ra"; std::string hdr=sym::over("hdr",HDR,al,sizeof al-1);
  std::string wire="*1\r\n$"+hdr+"\r\n"+sym::bytes("payload",3)+"\r\n";
  XrdLink x; Link link(&x); RedisParser parser(&link); RedisRequest got; x.feed(wire); int rc=parser.fetch(got,true);
  CHECK(rc==1||rc==0||rc==-1||rc==-2,"parser returns a defined status");
  if(rc==1){ sym_reach("accepted"); CHECK(got.size()==1&&got[0].size()>0&&got[0].size()<=wire.size()-4,"accepted element fits in what was sent"); }
}
HARNESS(parse_count){ // arbitrary request header
  static const char al[]="-+02 \r\na"; std::string wire="*"+sym::over("hdr",HDR,al,sizeof al-1)+"\r\n$1\r\na\r\n$1\r\nb\r\n";
  XrdLink x; Link link(&x); RedisParser parser(&link); RedisRequest got; x.feed(wire); int rc=parser.fetch(got,true);
  CHECK(rc==1||rc==0||rc==-1||rc==-2,"parser returns a defined status"); if(rc==1){ sym_reach("accepted"); CHECK(got.size()>=1&&got.size()<=2,"accepted request has as many elements as were sent"); }
}
// unauthenticated clients cannot make the server allocate
HARNESS(parse_unauth){
  uint64_t count=sym::range("count",1,9); std::string wire="*"; wire.push_back((char)('0'+count)); wire+="\r\n"; bool big=sym::flip("big"); wire+=big?"$1048576\r\n":"$1\r\na\r\n"; for(int i=1;i<9;i++) wire+="$1\r\nb\r\n";
  XrdLink x; Link link(&x); RedisParser parser(&link); RedisRequest got; x.feed(wire); int rc=parser.fetch(got,false);
  CHECK(sym::implies(count>=5,rc==-2),"unauthenticated request with five or more elements is refused");
  if(big) CHECK(rc==-2,"unauthenticated element of 1 MiB or more is refused"); else CHECK(sym::implies(count<5,rc==1),"small unauthenticated request is accepted");
  sym_reach("end");
}
// protocol violations are rejected rather than interpreted
HARNESS(parse_reject){
  unsigned kind=sym::choose("kind",6); std::string wire; uint8_t c=sym_u8("c");
  switch(kind){ case 0: sym_assume(c!='*'); wire="*1\r\n$1\r\na\r\n"; wire[0]=(char)c; break; case 1: sym_assume(c!='$'); wire="*1\r\n$1\r\na\r\n"; wire[4]=(char)c; sym_assume(c!='\n'); break;
    case 2: sym_assume(c!='\r'); wire="*1\r\n$1\r\na\r\n"; wire[9]=(char)c; break; case 3: sym_assume(c!='\n'); wire="*1\r\n$1\r\na\r\n"; wire[10]=(char)c; break; case 4: wire="*1\r\n$0\r\n\r\n"; break;
    case 5: sym_assume(!(c>='0'&&c<='9')); sym_assume(sym_and(c!='\r',c!='\n')); wire="*1\r\n$1\r\na\r\n"; wire[1]=(char)c; break; }
  if(kind==0) sym_assume(c!='\n');
  XrdLink x; Link link(&x); RedisParser parser(&link); RedisRequest got; x.feed(wire); int rc=parser.fetch(got,true);
  CHECK(rc<0,"malformed request is rejected"); sym_reach("end");
}
#ifndef BUF
#define BUF 3
#endif
// bytes come out of the read buffer in order, whatever the buffer size and arrival pattern
HARNESS(reader_stream){
  unsigned bs=1+sym::choose("bs",BUF); std::string data=sym::bytes("data",5); XrdLink x; Link link(&x); BufferedReader rd(&link,bs); x.in=data; size_t pos=0; std::vector<PinnedBuffer> held; std::vector<std::string> want;
  for(int i=0;i<3;i++){ x.avail+=sym::choose("arrive",3); if(x.avail>data.size()) x.avail=data.size(); size_t len=1+sym::choose("len",3); 
    if(sym::flip("pinned")){ PinnedBuffer b; int rc=rd.consume(len,b); if(pos+len<=x.avail) CHECK(rc>0,"available data is delivered"); else CHECK(rc==0,"missing data is waited for"); if(rc>0){ CHECK(b.size()==len&&sym::eq(b.sv(),std::string_view(data).substr(pos,len)),"delivered bytes are the sent bytes"); want.push_back(data.substr(pos,len)); held.push_back(b); pos+=len; } }
    else { std::string s; int rc=rd.consume(len,s); if(pos+len<=x.avail) CHECK(rc>0,"available data is delivered"); else CHECK(rc==0,"missing data is waited for"); if(rc>0){ CHECK(s.size()==len&&sym::eq(s,std::string_view(data).substr(pos,len)),"delivered bytes are the sent bytes"); pos+=len; } } }
  for(size_t i=0;i<held.size();i++) CHECK(sym::eq(held[i].sv(),want[i]),"a delivered buffer keeps its bytes while more data arrives"); sym_reach("end");
}
// everything written reaches the link once, in order
HARNESS(writer_stream){
  XrdLink x; Link link(&x); std::string want; { auto w=std::make_unique<BufferedWriter>(&link);
  for(int i=0;i<3;i++){ static const size_t sizes[]={1,3,16*1024-1,16*1024,16*1024+1}; size_t n=sizes[sym::choose("size",5)]; std::string s(n,(char)('a'+i)); s[0]=(char)sym_u8("first"); s[n-1]=(char)sym_u8("last"); want+=s; w->send(std::move(s)); if(sym::flip("toggle")) w->setActive(sym::flip("on")); }
  w->flush(); CHECK(x.out.size()==want.size(),"nothing is lost or duplicated on the way to the client"); CHECK(sym::eq(x.out,want),"output arrives in the order it was produced"); } sym_reach("end");
}
// ---- responses
static std::string A(const char*n){ return sym::str(n,0,LEN); }
static void bulk(const Resp&r,const std::string&s){ CHECK(r.t=='$'&&!r.nil&&r.s.size()==s.size(),"bulk string has its length"); CHECK(sym::eq(r.s,s),"bulk string has its bytes"); }
HARNESS(format_basic){
  unsigned k=sym::choose("kind",8);
  if(k==0){ std::string s=A("s"); bulk(decodeAll(Formatter::string(s).val,"string reply is one RESP value"),s); }
  else if(k==1){ std::vector<std::string> v; unsigned n=sym::choose("n",4); for(unsigned i=0;i<n;i++) v.push_back(A("e")); Resp r=decodeAll(Formatter::vector(v).val,"vector reply is one RESP value"); CHECK(r.t=='*'&&r.a.size()==n,"vector reply has every element"); for(unsigned i=0;i<n;i++) bulk(r.a[i],v[i]); }
  else if(k==2){ std::string m=A("marker"); std::vector<std::string> v; unsigned n=sym::choose("n",3); for(unsigned i=0;i<n;i++) v.push_back(A("e")); Resp r=decodeAll(Formatter::scan(m,v).val,"scan reply is one RESP value"); CHECK(r.t=='*'&&r.a.size()==2&&r.a[1].a.size()==n,"scan reply is a cursor and the elements"); bulk(r.a[0],m); for(unsigned i=0;i<n;i++) bulk(r.a[1].a[i],v[i]); }
  else if(k==3){ Resp r=decodeAll(Formatter::null().val,"null reply is one RESP value"); CHECK(r.t=='$'&&r.nil,"null reply"); Resp o=decodeAll(Formatter::ok().val,"ok reply"); CHECK(o.t=='+'&&o.s=="OK","ok reply"); Resp p=decodeAll(Formatter::pong().val,"pong reply"); CHECK(p.t=='+'&&p.s=="PONG","pong reply"); }
  else if(k==4){ std::string t; for(int i=0;i<LEN;i++){ char c=(char)sym_u8("c"); sym_assume(sym_and(c!='\r',c!='\n')); t.push_back(c); } Resp e=decodeAll(Formatter::err(t).val,"error reply is one RESP value"); CHECK(e.t=='-'&&sym::eq(e.s,"ERR "+t),"error reply carries its text"); Resp n=decodeAll(Formatter::noauth(t).val,"noauth reply is one RESP value"); CHECK(n.t=='-'&&sym::eq(n.s,"NOAUTH "+t),"noauth reply carries its text"); Resp s=decodeAll(Formatter::status(t).val,"status reply is one RESP value"); CHECK(s.t=='+'&&sym::eq(s.s,t),"status reply carries its text"); Resp g=decodeAll(Formatter::errArgs(t).val,"wrong-args reply is one RESP value"); CHECK(g.t=='-',"wrong-args reply is an error"); }
  else if(k==5){ std::vector<std::pair<std::string,std::string>> o; std::vector<std::pair<std::string_view,std::string_view>> v; unsigned n=sym::choose("n",3); for(unsigned i=0;i<n;i++){ auto a=A("k"), b=A("v"); o.push_back({a,b}); } for(auto&x:o) v.push_back({x.first,x.second}); Resp r=decodeAll(Formatter::vhashRevision(7,v).val,"revision reply is one RESP value"); CHECK(r.t=='*'&&r.a.size()==2&&r.a[0].t==':'&&r.a[0].n==7&&r.a[1].a.size()==2*n,"revision reply has every pair"); for(unsigned i=0;i<n;i++){ bulk(r.a[1].a[2*i],o[i].first); bulk(r.a[1].a[2*i+1],o[i].second); } }
  else if(k==6){ std::vector<std::string> v; unsigned n=sym::choose("n",3); for(unsigned i=0;i<n;i++) v.push_back(A("e")); Resp r=decodeAll(Formatter::versionedVector(12,v).val,"versioned reply is one RESP value"); CHECK(r.t=='*'&&r.a.size()==2&&r.a[0].t==':'&&r.a[0].n==12&&r.a[1].a.size()==n,"versioned reply has every element"); for(unsigned i=0;i<n;i++) bulk(r.a[1].a[i],v[i]); }
  else { std::vector<std::vector<std::string>> d(2); d[0]={"a","b"}; if(sym::flip("more")) d[1].push_back("c"); Resp r=decodeAll(Formatter::vectorsWithHeaders({"h1","h2"},d).val,"sections are one RESP value"); CHECK(r.a.size()==2&&r.a[0].a.size()==2&&r.a[0].a[0].s=="h1"&&r.a[0].a[1].a.size()==2&&r.a[1].a[0].s=="h2"&&r.a[1].a[1].a.size()==d[1].size(),"sections keep their headers and lines"); }
  sym_reach("end");
}
HARNESS(format_integer){
  static const int64_t edge[]={0,9,10,99,-1,-9,-10,INT64_MAX,INT64_MIN,4294967296LL,-4294967297LL};
  int64_t v; if(sym::flip("edge")) v=edge[sym::choose("which",11)]; else { v=(int64_t)sym::range("v",0,2047)-1024; }
  Resp r=decodeAll(Formatter::integer(v).val,"integer reply is one RESP value"); CHECK(r.t==':',"integer reply type"); CHECK(r.n==v,"integer reply has its value"); sym_reach("end");
}
// push and non-push pub/sub messages carry channel, pattern and payload unchanged
HARNESS(format_pubsub){
  bool push=sym::flip("push"); std::string ch=A("ch"),pt=A("pt"),pl=A("pl"); unsigned k=sym::choose("kind",6); size_t act=sym::choose("active",3); Resp r; std::vector<std::string> w; bool num=false; const char*word="";
  switch(k){ case 0: r=decodeAll(Formatter::message(push,ch,pl).val,"message is one RESP value"); w={"message",ch,pl}; break; case 1: r=decodeAll(Formatter::pmessage(push,pt,ch,pl).val,"pmessage is one RESP value"); w={"pmessage",pt,ch,pl}; break;
    case 2: r=decodeAll(Formatter::subscribe(push,ch,act).val,"subscribe is one RESP value"); w={"subscribe",ch}; num=true; break; case 3: r=decodeAll(Formatter::psubscribe(push,ch,act).val,"psubscribe is one RESP value"); w={"psubscribe",ch}; num=true; break; case 4: r=decodeAll(Formatter::unsubscribe(push,ch,act).val,"unsubscribe is one RESP value"); w={"unsubscribe",ch}; num=true; break; case 5: r=decodeAll(Formatter::punsubscribe(push,ch,act).val,"punsubscribe is one RESP value"); w={"punsubscribe",ch}; num=true; break; }
  CHECK(r.t==(push?'>':'*'),"push clients get push replies, others arrays"); if(push) w.insert(w.begin(),"pubsub"); CHECK(r.a.size()==w.size()+(num?1:0),"pub/sub reply has every part"); for(size_t i=0;i<w.size();i++) bulk(r.a[i],w[i]); if(num) CHECK(r.a.back().t==':'&&r.a.back().n==(int64_t)act,"pub/sub reply counts active subscriptions"); sym_reach("end");
}
// raft entries and transactions are shown with all their parts
HARNESS(format_raft){
  RedisRequest q; q.emplace_back(std::string("set")); q.emplace_back(A("k")); q.emplace_back(A("v")); RaftEntry e; e.term=5; e.request=q; bool raw=sym::flip("raw"); unsigned k=sym::choose("kind",3);
  auto chk=[&](const Resp&r,bool idx,const char*ix){ CHECK(r.t=='*'&&r.a.size()==(idx?3u:2u),"raft entry has its parts"); size_t o=0; if(idx){ CHECK(r.a[0].s==ix,"raft entry shows its index"); o=1; } CHECK(r.a[o].s=="TERM: 5","raft entry shows its term"); const Resp&c=r.a[o+1]; CHECK(c.a.size()==3,"raft entry shows every argument"); for(int i=0;i<3;i++) bulk(c.a[i],std::string(q[i])); };
  if(k==0) chk(decodeAll(Formatter::raftEntry(e,raw,sym::flip("idx")?-1:-1).val,"raft entry is one RESP value"),false,"");
  else if(k==1){ std::vector<RaftEntry> v(2,e); Resp r=decodeAll(Formatter::raftEntries(v,raw).val,"raft entries are one RESP value"); CHECK(r.a.size()==2,"every raft entry is shown"); for(auto&x:r.a) chk(x,false,""); }
  else { std::vector<RaftEntryWithIndex> v; v.emplace_back(RaftEntry(e),12); LogIndex cur=sym::flip("more")?13:0; Resp r=decodeAll(Formatter::journalScan(cur,v).val,"journal scan is one RESP value"); CHECK(r.a.size()==2&&r.a[1].a.size()==1,"journal scan shows every entry"); CHECK(r.a[0].s==(cur?"next:13":"0"),"journal scan shows its cursor"); chk(r.a[1].a[0],true,"INDEX: 12"); }
  sym_reach("end");
}
HARNESS(format_tx){
  Transaction t; RedisRequest a,b; a.emplace_back(std::string("hget")); a.emplace_back(A("a")); b.emplace_back(std::string("set")); b.emplace_back(A("k")); b.emplace_back(A("v")); t.push_back(RedisRequest(a)); t.push_back(RedisRequest(b)); Resp r=decodeAll(Formatter::redisRequest(t.toRedisRequest()).val,"transaction is one RESP value"); CHECK(r.t=='*'&&r.a.size()==3,"transaction shows every request"); CHECK(r.a[0].s=="TX_READWRITE","transaction shows its type"); CHECK(r.a[1].a.size()==2&&r.a[2].a.size()==3,"transaction shows every argument"); bulk(r.a[1].a[1],std::string(a[1])); bulk(r.a[2].a[1],std::string(b[1])); bulk(r.a[2].a[2],std::string(b[2])); 
  ArrayResponseBuilder ab(2); ab.push_back(Formatter::string(a[1])); ab.push_back(Formatter::ok()); Resp z=decodeAll(ab.buildResponse().val,"array reply is one RESP value"); CHECK(z.a.size()==2,"array reply has every part"); unsigned f=1+sym::choose("f",3); std::string m=Formatter::multiply(Formatter::ok(),f).val; RespIn in(m); unsigned c=0; while(in.p<m.size()&&!in.bad){ Resp q=in.get(); CHECK(q.t=='+'&&q.s=="OK","repeated reply"); c++; } CHECK(c==f,"a repeated reply is sent once per request"); sym_reach("end");
}
