// A client connection: requests in, replies out.
#include "sm.hh"
#include "resp_decode.hh"
#include "Connection.hh"
#include "Link.hh"
#include "StandaloneGroup.hh"
#include "utils/InFlightTracker.hh"
#include <deque>
#ifndef REQS
#define REQS 3
#endif
static std::string wire(const Words&w){ std::string s="*"+std::to_string(w.size())+"\r\n"; for(auto&x:w) s+="$"+std::to_string(x.size())+"\r\n"+x+"\r\n"; return s; }
static Words words(const char*t){ Words w(1); for(;*t;t++) if(*t==' ') w.emplace_back(); else w.back().push_back(*t); return w; }
// expected replies: exact text, or "-" for any error
struct Expect { std::vector<std::string> tok; void add(const std::string&s){ tok.push_back(s); } };
static void compare(const std::string&out,const std::vector<std::string>&tok,const char*msg){ size_t p=0; for(auto&t:tok){ if(t=="-"){ CHECK(p<out.size()&&out[p]=='-',msg); size_t e=out.find("\r\n",p); CHECK(e!=std::string::npos,msg); p=e+2; } else { CHECK(p+t.size()<=out.size()&&sym_bytes_equal(out.data()+p,t.data(),t.size()),msg); p+=t.size(); } } CHECK(p==out.size(),"every request gets exactly one reply"); }
// what a connection means, one request at a time: string keys only
struct Session {
  std::map<std::string,std::string>&db; bool multi=false; std::vector<Words> q; std::vector<std::string> out;
  Session(std::map<std::string,std::string>&d):db(d){}
  static bool is(const Words&w,const char*c){ return w[0]==c; }
  std::string one(const Words&w){ if(is(w,"SET")){ if(w.size()!=3) return "-"; db[w[1]]=w[2]; return rOk(); } if(is(w,"GET")){ if(w.size()!=2) return "-"; return db.count(w[1])?rStr(db[w[1]]):rNull(); } if(is(w,"DEL")){ if(w.size()<2) return "-"; return rInt(db.erase(w[1])); } if(is(w,"SADD")||is(w,"LEASE-GET")) return "-"; return "-"; }
  void exec(const Words&w){ bool rw=is(w,"SET")||is(w,"GET")||is(w,"DEL")||is(w,"SADD")||is(w,"LEASE-GET");
    if(is(w,"MULTI")){ if(w.size()!=1||multi) out.push_back("-"); else { multi=true; out.push_back(rOk()); } return; }
    if(is(w,"EXEC")){ if(!multi){ out.push_back("-"); return; } out.push_back("*"+std::to_string(q.size())+"\r\n"); for(auto&x:q) out.push_back(one(x)); q.clear(); multi=false; return; }
    if(is(w,"DISCARD")){ if(!multi){ out.push_back("-"); return; } q.clear(); multi=false; out.push_back(rOk()); return; }
    if(multi){ if(rw){ q.push_back(w); out.push_back("+QUEUED\r\n"); } else out.push_back("-"); return; }
    out.push_back(rw?one(w):"-"); }
};
struct Client { XrdLink x; Link link; std::unique_ptr<Connection> c; size_t seen=0; Client():link(&x){ c.reset(new Connection(&link)); }
  int feed(const std::string&s,Dispatcher*d,InFlightTracker&t){ x.feed(s); return c->processRequests(d,t); } };
static const char*const OPS[]={"SET k 0","GET k","MULTI","EXEC","DISCARD","DEL k","NOSUCH x","MULTI x","SADD w a","RAFT_INFO","LEASE-GET w","GET"};
#define NOPS (sizeof(OPS)/sizeof(*OPS))
// any pipelined sequence of requests, delivered in any packets
HARNESS(conn_replies){
  Machine m; std::unique_ptr<StandaloneDispatcher> d(new StandaloneDispatcher(*m.sm,*m.pub)); InFlightTracker t; std::map<std::string,std::string> db; Session s(db); Client c; unsigned lim=sym::choose("limit",3); Connection::setPhantomBatchLimit(lim==0?1:lim==1?2:100); db["k"]="v"; m.run({"SET","k","v"}); m.run({"SET","w","v"});
  std::string buf; for(int i=0;i<REQS;i++){ Words w=words(OPS[sym::choose("op",NOPS)]); if(w[0]=="SET") w[2]=sym::bytes("value",1); s.exec(w); buf+=wire(w); unsigned cut=sym::choose("packet",3); if(cut==1){ CHECK(c.feed(buf,d.get(),t)==1,"the connection stays usable"); compare(c.x.out,s.out,"replies come in the order of the requests, as if executed one by one"); buf.clear(); } else if(cut==2){ CHECK(c.feed(buf.substr(0,buf.size()-3),d.get(),t)==1,"the connection stays usable"); buf=buf.substr(buf.size()-3); } }
  CHECK(c.feed(buf,d.get(),t)==1,"the connection stays usable"); compare(c.x.out,s.out,"replies come in the order of the requests, as if executed one by one"); std::string g=m.run({"GET","k"}); CHECK(sym::eq(g,db.count("k")?rStr(db["k"]):rNull()),"exactly the requests outside of an unfinished transaction take effect"); sym_reach("end");
}
// a server that stops accepting requests still answers what it took
HARNESS(conn_stop){
  Machine m; struct Stop : Dispatcher { StandaloneDispatcher d; InFlightTracker&t; int left; Stop(StateMachine&s,Publisher&p,InFlightTracker&tt,int l):d(s,p),t(tt),left(l){} void tick(){ if(left--==0) t.setAcceptingRequests(false); } LinkStatus dispatch(Connection*c,RedisRequest&r) override { tick(); return d.dispatch(c,r); } LinkStatus dispatch(Connection*c,Transaction&x) override { tick(); return d.dispatch(c,x); } void notifyDisconnect(Connection*) override {} };
  InFlightTracker t; Stop d(*m.sm,*m.pub,t,sym::choose("after",3)); std::map<std::string,std::string> db; Client c; std::string buf; std::vector<std::vector<std::string>> steps; Session s(db); std::vector<std::string> prev;
  for(int i=0;i<REQS;i++){ Words w=words(OPS[sym::choose("op",2)]); if(w[0]=="SET") w[2]=sym::bytes("value",2); s.exec(w); buf+=wire(w); steps.push_back(s.out); }
  c.feed(buf,&d,t); std::string all; bool ok=c.x.out.empty(); for(auto&o:steps){ all.clear(); for(auto&y:o) all+=y; ok=sym_or(ok,sym::eq(all,c.x.out)); } CHECK(ok,"the replies given are those of the first requests"); sym_reach("end");
}
// transactions sent in serialized form: the same as MULTI .. EXEC, nothing else is accepted
HARNESS(conn_tx){
  Machine m; std::unique_ptr<StandaloneDispatcher> d(new StandaloneDispatcher(*m.sm,*m.pub)); InFlightTracker t; std::map<std::string,std::string> db; Session s(db); Client c; static const char*const IN[]={"SET k 0","GET k","DEL k","GET","SADD k","TIMESTAMPED_LEASE_ACQUIRE l v xxxxxxxx yyyyyyyy","TIMESTAMPED-LEASE-GET l xxxxxxxx","TX_READONLY x real","MULTI","EXEC","PING","NOSUCH","PUBLISH a b"};
  bool multi=sym::flip("multi"), before=sym::flip("before"); std::string buf; auto send=[&](const char*x){ Words w=words(x); s.exec(w); buf+=wire(w); }; if(multi) send("MULTI"); if(before) send("SET k b");
  unsigned n=sym::choose("n",3); bool ok=n>0, writes=false; std::string ser; auto num=[](uint64_t v){ std::string r; for(int i=7;i>=0;i--) r.push_back((char)(v>>(8*i))); return r; }; ser=num(n); std::vector<Words> tx;
  for(unsigned i=0;i<n;i++){ unsigned which=sym::choose("request",sizeof(IN)/sizeof(*IN)); Words w=words(IN[which]); if(which==0) w[2]=sym::bytes("value",2); ser+=num(w.size()); for(auto&x:w) ser+=num(x.size())+x; tx.push_back(w); ok=ok&&which<5; writes=writes||which==0||which==2||which==4; }
  bool kind=sym::flip("kind"), real=sym::flip("real"); ok=ok&&kind==writes&&!multi; Words w={kind?"TX_READWRITE":"TX-READONLY",ser,real?"real":"phantom"}; buf+=wire(w); if(!ok) s.out.push_back("-"); else { if(real) s.out.push_back("*"+std::to_string(n)+"\r\n"); for(auto&x:tx) s.out.push_back(s.one(x)); }
  if(sym::flip("after")) send("GET k"); if(multi) send("EXEC"); CHECK(c.feed(buf,d.get(),t)==1,"the connection stays usable"); compare(c.x.out,s.out,"a serialized transaction is executed like MULTI .. EXEC, or refused"); CHECK(sym::eq(m.run({"GET","k"}),db.count("k")?rStr(db["k"]):rNull()),"a refused transaction has no effect"); CHECK(m.run({"EXISTS","l"})==rInt(0),"internal commands cannot be smuggled in"); sym_reach(ok?"ok":"refused");
}
