// Publish / subscribe.
#include "sm.hh"
#include "resp_decode.hh"
#include "Connection.hh"
#include "Link.hh"
#include "StandaloneGroup.hh"
#include "utils/InFlightTracker.hh"
#include "pubsub/ThreadSafeMultiMap.hh"
#include "pubsub/SimplePatternMatcher.hh"
#include <thread>
#ifndef CHANGES
#define CHANGES 1
#endif
#ifndef SWITCHES
#define SWITCHES 2
#endif
#ifndef OPS
#define OPS 4
#endif
static std::string wire(const Words&w){ std::string s="*"+std::to_string(w.size())+"\r\n"; for(auto&x:w) s+="$"+std::to_string(x.size())+"\r\n"+x+"\r\n"; return s; }
struct Client { XrdLink x; Link link; std::unique_ptr<Connection> c; bool push=false; std::set<std::string> chan,pat; std::string want; Client():link(&x){ c.reset(new Connection(&link)); }
  size_t count(){ return chan.size()+pat.size(); }
  void ack(const char*what,const std::string&n){ want+=(push?std::string(">4\r\n")+rStr("pubsub"):std::string("*3\r\n"))+rStr(what)+rStr(n)+rInt(count()); }
  void message(const std::string&ch,const std::string&m){ want+=(push?std::string(">4\r\n")+rStr("pubsub"):std::string("*3\r\n"))+rStr("message")+rStr(ch)+rStr(m); }
  void pmessage(const std::string&p,const std::string&ch,const std::string&m){ want+=(push?std::string(">5\r\n")+rStr("pubsub"):std::string("*4\r\n"))+rStr("pmessage")+rStr(p)+rStr(ch)+rStr(m); }
  void check(){ if(c) CHECK(sym::eq(x.out,want),"a subscriber gets exactly the messages of its subscriptions, in order, and the number of its subscriptions"); } };
static bool matches(const std::string&p,const std::string&c){ if(p=="*") return true; if(p=="?") return c.size()==1; if(p.back()=='*') return c.compare(0,p.size()-1,p,0,p.size()-1)==0; return p==c; }
static const char*const CH[]={"a","ab","b"}; static const char*const PT[]={"a","a*","*","?"};
HARNESS(pubsub_ops){
  Machine m; StandaloneDispatcher d(*m.sm,*m.pub); InFlightTracker t; std::unique_ptr<Client> cl[2]; for(auto&x:cl) x.reset(new Client); Client pub; auto feed=[&](Client&c,const Words&w){ c.x.feed(wire(w)); CHECK(c.c->processRequests(&d,t)==1,"the connection stays usable"); };
  for(int i=0;i<OPS;i++){ unsigned op=sym::choose("op",8); Client&c=*cl[op==4||op==6?0:sym::choose("client",2)]; if(op!=4&&op!=6&&!c.c) sym_prune();
    if(op<4){ bool two=op!=3&&sym::flip("two"); std::vector<std::string> names; bool p=op==1||op==3; unsigned k=sym::choose("name",p?4:3); names.push_back(p?PT[k]:CH[k]); if(two) names.push_back(p?PT[(k+1)%4]:CH[(k+1)%3]); static const char*const W[]={"subscribe","psubscribe","unsubscribe","punsubscribe"}; Words w={W[op]}; for(auto&n:names){ w.push_back(n); auto&s=p?c.pat:c.chan; if(op<2) s.insert(n); else s.erase(n); c.ack(W[op],n); } if(c.push) c.want+=rOk(); feed(c,w); }
    else if(op==4){ std::string ch=CH[sym::choose("channel",3)],msg=sym::bytes("payload",1); int hits=0; for(auto&x:cl) if(x->c){ if(x->chan.count(ch)){ x->message(ch,msg); hits++; } for(auto&p:x->pat) if(matches(p,ch)){ x->pmessage(p,ch,msg); hits++; } } pub.want+=rInt(hits); feed(pub,{"PUBLISH",ch,msg}); }
    else if(op==5) c.c.reset();
    else if(op==6){ m.pub->purgeListeners(Formatter::err("unavailable")); for(auto&x:cl){ size_t n=x->count(); while(n--) x->want+=Formatter::err("unavailable").val; x->chan.clear(); x->pat.clear(); } }
    else { if(c.push) sym_prune(); c.push=true; c.c->activatePushTypes(); }
    for(auto&x:cl) x->check(); pub.check(); }
  sym_reach("end");
}
// Iterating over a map of subscriptions while it changes
typedef ThreadSafeMultiMap<int,int> MM; typedef std::pair<int,int> KV;
static void change(MM&m,std::set<KV>&now,std::set<KV>&always,std::set<KV>&ever){ KV e{sym::choose("key",3),sym::choose("value",2)}; if(sym::flip("insert")){ bool fresh=now.insert(e).second; CHECK(m.insert(e.first,e.second)==fresh,"insertion tells whether it was there"); ever.insert(e); } else { bool there=now.erase(e); CHECK(m.erase(e.first,e.second)==there,"removal tells whether it was there"); always.erase(e); } CHECK(m.size()==now.size(),"the size is that of the contents"); }
HARNESS(multimap_iterate){
  MM m; std::set<KV> now; for(int k=0;k<3;k++) for(int v=0;v<2;v++) if(sym::flip("present")){ now.insert({k,v}); m.insert(k,v); } CHECK(m.size()==now.size(),"the size is that of the contents"); std::set<KV> always=now,ever=now,seen; unsigned kind=sym::choose("iterator",3), st=1+sym::choose("stage",2); int left=CHANGES, steps=0;
  auto maybe=[&]{ if(left>0&&sym::flip("change")){ left--; change(m,now,always,ever); } };
  auto visit=[&](KV e){ CHECK(ever.count(e),"only entries of the map are returned"); CHECK(seen.insert(e).second,"no entry is returned twice"); CHECK(++steps<20,"iteration ends"); };
  if(kind==0){ auto it=m.getFullIterator(st,1+sym::choose("values",2)); while(it.valid()){ visit({it.getKey(),it.getValue()}); if(sym::flip("erase")){ bool there=now.erase({it.getKey(),it.getValue()}); CHECK(it.erase()==there,"removal tells whether it was there"); } maybe(); it.next(); } for(auto&e:always) CHECK(seen.count(e),"every entry present throughout is returned"); }
  else if(kind==1){ int k=sym::choose("lookup",3); auto it=m.findMatching(k,st); while(it.valid()){ CHECK(it.getKey()==k,"only the key asked for"); visit({k,it.getValue()}); if(sym::flip("erase")){ bool there=now.erase({k,it.getValue()}); CHECK(it.erase()==there,"removal tells whether it was there"); } maybe(); it.next(); } for(auto&e:always) if(e.first==k) CHECK(seen.count(e),"every entry present throughout is returned"); }
  else { auto it=m.getKeyIterator(st); std::set<int> keys; while(it.valid()){ CHECK(keys.insert(it.getKey()).second,"no key is returned twice"); CHECK(++steps<20,"iteration ends"); maybe(); it.next(); } for(auto&e:always) CHECK(keys.count(e.first),"every key present throughout is returned"); for(int k:keys){ bool any=false; for(auto&e:ever) any=any||e.first==k; CHECK(any,"only keys of the map are returned"); } }
  sym_reach("end");
}
// every change of a versioned hash is announced, once, in order, with its revision
HARNESS(pubsub_vhash){
  sym_threads(1000); Machine m; StandaloneDispatcher d(*m.sm,*m.pub); InFlightTracker t; Client a,b,w; auto feed=[&](Client&c,const Words&x){ c.x.feed(wire(x)); CHECK(c.c->processRequests(&d,t)==1,"the connection stays usable"); };
  bool multi=false; auto idle=[&]{ for(int k=0;k<3;k++) m.sm->waitUntilTargetLastApplied(1000000,std::chrono::milliseconds(1)); }; typedef std::map<std::string,std::string> Hash; std::map<std::string,std::pair<uint64_t,Hash>> db; a.chan.insert("__vhash@h"); a.ack("subscribe","__vhash@h"); feed(a,{"SUBSCRIBE","__vhash@h"}); b.pat.insert("__vhash@*"); b.ack("psubscribe","__vhash@*"); feed(b,{"PSUBSCRIBE","__vhash@*"});
  typedef std::vector<std::pair<std::string,std::string>> Upd; std::map<std::string,std::pair<uint64_t,Upd>> ann; std::vector<std::string> rep;
  auto upd=[&](const std::string&k,const Upd&u){ auto&e=ann[k]; bool first=e.second.empty()&&e.first==0; auto&h=db[k]; if(first) h.first++; e.first=h.first; for(auto&x:u){ e.second.push_back(x); if(x.second.empty()) h.second.erase(x.first); else h.second[x.first]=x.second; } return h.first; };
  auto flush=[&]{ for(auto&e:ann){ std::string p="*2\r\n:"+std::to_string(e.second.first)+"\r\n*"+std::to_string(e.second.second.size()*2)+"\r\n"; for(auto&x:e.second.second) p+=rStr(x.first)+rStr(x.second); std::string ch="__vhash@"+e.first; if(a.chan.count(ch)) a.message(ch,p); b.pmessage("__vhash@*",ch,p); } ann.clear(); };
  for(int i=0;i<OPS;i++){ bool tx=sym::flip("multi"); std::vector<Words> ops; unsigned n=tx?2:1; if(tx) feed(w,{"MULTI"});
    for(unsigned j=0;j<n;j++){ unsigned op=sym::choose("op",4); bool first=!i&&!j; std::string k=first||sym::flip("key")?"h":"g", f=first||sym::flip("field")?"x":"y"; 
      if(op==0){ std::string v=sym::bytes("value",1); upd(k,{{f,v}}); feed(w,{"VHSET",k,f,v}); }
      else if(op==1){ if(db[k].second.count(f)){ upd(k,{{f,""}}); } feed(w,{"VHDEL",k,f}); }
      else if(op==2){ db.erase(k); ann.erase(k); feed(w,{"DEL",k}); }
      else feed(w,{"VHSET",k,f}); }
    if(tx) feed(w,{"EXEC"}); flush(); idle(); a.check(); b.check(); }
  sym_reach("end"); sym_end();
}
// publications of one thread while another subscribes, unsubscribes, publishes or disconnects
HARNESS(pubsub_threads){
  Publisher p; XrdLink x1,x2; Link l1(&x1),l2(&x2); std::unique_ptr<Connection> c1(new Connection(&l1)),c2(new Connection(&l2)); auto feed=[&](Connection&c,const Words&w){ RedisRequest r; for(auto&y:w) r.push_back(std::string(y)); Connection::FlushGuard guard(&c); p.dispatch(&c,r); };
  auto msg=[](const char*m){ return "*3\r\n"+rStr("message")+rStr("a")+rStr(m); }; auto pm=[](const char*m){ return "*4\r\n"+rStr("pmessage")+rStr("*")+rStr("a")+rStr(m); }; auto ack=[](const char*w,const char*c,int n){ return "*3\r\n"+rStr(w)+rStr(c)+rInt(n); };
  bool pat=sym::flip("pattern"); unsigned op=sym::choose("op",6); auto in=[&](const char*m){ return pat?pm(m):msg(m); }; std::string a=ack(pat?"psubscribe":"subscribe",pat?"*":"a",1);
  feed(*c1,{pat?"PSUBSCRIBE":"SUBSCRIBE",pat?"*":"a"}); if(op!=5) feed(*c2,{pat?"PSUBSCRIBE":"SUBSCRIBE",pat?"*":"a"}); CHECK(x1.out==a,"subscription acknowledged"); int h[3]={0,0,0};
  sym_threads(SWITCHES); std::thread t([&]{ h[0]=p.publish("a","1"); h[1]=p.publish("a","2"); });
  if(op==0) feed(*c1,{pat?"PUNSUBSCRIBE":"UNSUBSCRIBE",pat?"*":"a"}); else if(op==1){ c1.reset(); } else if(op==2) h[2]=p.publish("a","3"); else if(op==3) p.purgeListeners(Formatter::err("gone")); else if(op==4) feed(*c1,{"SUBSCRIBE","b"}); else feed(*c2,{pat?"PSUBSCRIBE":"SUBSCRIBE",pat?"*":"a"});
  t.join(); sym_threads(-1);
  auto one=[&](const std::string&o,std::vector<std::string> ok){ for(auto&s:ok) if(o==s) return; CHECK(false,"each message published during a subscription is delivered once, in order, and none outside of it"); };
  std::string m1=in("1"),m2=in("2"),m3=in("3"),g=Formatter::err("gone").val,all=m1+m2;
  if(op==0){ std::string u=ack(pat?"punsubscribe":"unsubscribe",pat?"*":"a",0); one(x1.out,{a+u,a+m1+u,a+m1+m2+u}); one(x2.out,{a+all}); }
  else if(op==1){ one(x1.out,{a,a+m1,a+m1+m2}); one(x2.out,{a+all}); }
  else if(op==2){ for(auto*o:{&x1.out,&x2.out}) one(*o,{a+m3+m1+m2,a+m1+m3+m2,a+m1+m2+m3}); CHECK(h[0]==2&&h[1]==2&&h[2]==2,"publishing tells how many got the message"); }
  else if(op==3) for(auto*o:{&x1.out,&x2.out}) one(*o,{a+g,a+m1+g,a+m1+m2+g});
  else if(op==4){ std::string b=ack("subscribe","b",2); one(x1.out,{a+b+all,a+m1+b+m2,a+all+b}); one(x2.out,{a+all}); }
  else { one(x1.out,{a+all}); one(x2.out,{a,a+m2,a+all,m2+a,m1+m2+a,m1+a+m2,m2+a}); }
  std::string o1=x1.out,o2=x2.out; bool s2=op!=3; CHECK(p.publish("a","4")==((op==0||op==1||op==3)?0:1)+(s2?1:0),"publishing tells how many got the message"); CHECK(x2.out==o2+(s2?in("4"):""),"a remaining subscriber goes on"); CHECK(x1.out==o1+((op==2||op==4||op==5)?in("4"):""),"subscriptions last as long as they should"); sym_reach("end"); }
