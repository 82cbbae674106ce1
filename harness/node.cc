// A leader, its clients and its replicas.
#include "node.hh"
#ifndef OPS
#define OPS 4
#endif
HARNESS(node_basic){
  Node n(SA,{SA,SB,SC}); n.tracker(); n.elect(5); n.g->commitTracker()->updateTargets({SB,SC}); CHECK(n.j().getLogSize()==2,"leadership marker"); n.g->commitTracker()->getHandler(SB).update(1); n.settle(1);
  Client c; c.feed(wire({"SET","k","v"})+wire({"GET","k"}),&n.d()); CHECK(c.x.out.empty(),"no reply before commit"); n.g->commitTracker()->getHandler(SC).update(2); n.settle(2); CHECK(c.x.out==rOk()+rStr("v"),"reply after commit"); sym_reach("end"); sym_end();
}
// What clients of a leader may see. Entries are (client, words of one transaction); reads wait for the writes the same client sent before.
struct Item { LogIndex index=0; std::vector<Words> tx; bool real=false; std::string raw; }; // index 0: reads
struct World {
  Node n; RaftTerm term=0; bool leader=false; RaftServer ldr; LogIndex commit=0; struct Ent { int client; std::vector<Words> tx; bool real; }; std::vector<Ent> log; std::map<std::string,std::string> db; std::vector<std::unique_ptr<Client>> cl; std::vector<std::deque<Item>> pend; std::vector<std::string> out;
  World(size_t clients):n(SA,{SA,SB,SC}){ n.tracker(); log.push_back({-1,{},false}); for(size_t i=0;i<clients;i++) join(); }
  void join(){ cl.emplace_back(new Client); pend.emplace_back(); out.emplace_back(); }
  void elect(){ term+=5; n.elect(term); n.g->commitTracker()->reset(); n.g->commitTracker()->updateTargets({SB,SC}); leader=true; ldr=SA; log.push_back({-1,{},false}); CHECK(n.j().getLogSize()==(LogIndex)log.size(),"a new leader appends its marker"); }
  std::string one(const Words&w){ if(w[0]=="SET"){ db[w[1]]=w[2]; return rOk(); } return db.count(w[1])?rStr(db[w[1]]):rNull(); }
  std::string run(const Item&i){ std::string r=!i.raw.empty()?i.raw:i.real?"*"+std::to_string(i.tx.size())+"\r\n":""; for(auto&w:i.tx) r+=one(w); return r; }
  void apply(LogIndex i){ Ent&e=log[i]; std::string r=run({i,e.tx,e.real}); for(size_t c=0;c<pend.size();c++){ auto&q=pend[c]; if(!q.empty()&&q.front().index==i){ out[c]+=r; q.pop_front(); while(!q.empty()&&q.front().index==0){ out[c]+=run(q.front()); q.pop_front(); } } } }
  void commitTo(LogIndex i){ for(LogIndex k=commit+1;k<=i;k++) apply(k); commit=i; n.settle(i); check(); }
  void ack(LogIndex i){ n.g->commitTracker()->getHandler(SB).update(i); CHECK(n.j().getCommitIndex()==std::max(i,commit),"a majority has it"); commitTo(n.j().getCommitIndex()); }
  // what the client sends: pipelined in one packet; writes of one packet form one entry
  void send(size_t c,const std::vector<Words>&batch,bool multi){ std::string s; if(multi) s+=wire({"MULTI"}); for(auto&w:batch) s+=wire(w); if(multi) s+=wire({"EXEC"}); cl[c]->feed(s,&n.d()); if(!cl[c]->c) return;
    auto say=[&](const std::string&t){ if(pend[c].empty()) out[c]+=t; else { Item it; it.raw=t; pend[c].push_back(it); } };
    auto add=[&](std::vector<Words> tx,bool real){ bool w=false; for(auto&x:tx) w|=x[0]=="SET"; if(!leader){ std::string m=ldr.empty()?"-ERR unavailable\r\n":Formatter::moved(0,ldr).val; if(real) say(m); else for(size_t i=0;i<tx.size();i++) say(m); return; } Item it; it.tx=tx; it.real=real; if(w){ it.index=log.size(); log.push_back({(int)c,tx,real}); pend[c].push_back(it); } else if(pend[c].empty()) out[c]+=run(it); else pend[c].push_back(it); };
    if(multi){ say(rOk()); for(size_t i=0;i<batch.size();i++) say("+QUEUED\r\n"); add(batch,true); }
    else { std::vector<Words> cur; for(auto&w:batch){ if(w[0]=="SET") cur.push_back(w); else { if(!cur.empty()) add(cur,false); cur.clear(); add({w},false); } } if(!cur.empty()) add(cur,false); }
    check(); }
  // another leader takes over from position `keep` on
  void stepDown(LogIndex keep,bool entry){ term+=5; leader=false; ldr=SB; RaftAppendEntriesRequest r; r.leader=SB; r.term=term; r.prevIndex=keep; n.j().fetch(keep,r.prevTerm); r.commitIndex=commit; if(entry) r.entries.emplace_back(RaftEntry(term,"JOURNAL_LEADERSHIP_MARKER",std::to_string(term),"b"));
    RaftAppendEntriesResponse a=n.d().appendEntries(std::move(r)); CHECK(a.outcome,"a valid leader's entries are accepted"); std::string m=Formatter::moved(0,ldr).val; for(size_t c=0;c<pend.size();c++){ for(auto&i:pend[c]){ if(!i.raw.empty()){ out[c]+=i.raw; continue; } size_t k=i.real?1:i.tx.size(); while(k--) out[c]+=m; } pend[c].clear(); } if(entry){ log.resize(keep+1); log.push_back({-1,{},false}); } CHECK(n.j().getLogSize()==(LogIndex)log.size(),"entries of the old leader are replaced"); check(); }
  void follow(LogIndex i){ RaftAppendEntriesRequest r; r.leader=SB; r.term=term; r.prevIndex=log.size()-1; n.j().fetch(r.prevIndex,r.prevTerm); r.commitIndex=i; CHECK(n.d().appendEntries(std::move(r)).outcome,"a valid leader's heartbeat is accepted"); commitTo(std::max(commit,i)); }
  void check(){ for(size_t c=0;c<cl.size();c++) if(cl[c]->c) CHECK(sym::eq(cl[c]->x.out,out[c]),"a client gets one reply per request, in order, and for a write only once it is committed"); }
  void finish(){ for(auto&c:cl) if(c->c){ c->c.reset(); } RedisRequest r=request({"GET","k"}); Publisher*p=n.g->publisher(); RedisDispatcher d(n.sm(),*p); CHECK(sym::eq(d.dispatch(r,0).val,db.count("k")?rStr(db["k"]):rNull()),"the state is that of the committed entries"); CHECK(n.sm().getLastApplied()==commit,"every committed entry is applied once"); }
};
HARNESS(node_clients){
  World w(2); w.elect(); w.ack(1); 
  for(int i=0;i<OPS;i++){ unsigned op=sym::choose("op",5); 
    if(op==0){ size_t c=sym::choose("client",2); if(!w.cl[c]->c) sym_prune(); unsigned kind=sym::choose("batch",5); Words set={"SET","k",sym::bytes("value",1)},get={"GET","k"}; std::vector<Words> b; bool multi=false; if(kind==0) b={set}; else if(kind==1) b={get}; else if(kind==2){ b={set,get,{"SET","k",sym::bytes("value",1)}}; } else if(kind==3){ b={set,get}; multi=true; } else { b={set,{"SET","k",sym::bytes("value",1)}}; } w.send(c,b,multi); }
    else if(op==1){ if(w.commit+1>=(LogIndex)w.log.size()) sym_prune(); LogIndex to=w.commit+1; if(sym::flip("all")) to=w.log.size()-1; if(w.leader) w.ack(to); else w.follow(to); }
    else if(op==2){ if(!w.leader) sym_prune(); LogIndex keep=w.commit+sym::choose("keep",(unsigned)(w.log.size()-w.commit)); w.stepDown(keep,sym::flip("entry")); }
    else if(op==3){ if(w.leader) sym_prune(); w.elect(); w.ack(w.log.size()-1); }
    else { size_t c=sym::choose("client",2); if(!w.cl[c]->c) sym_prune(); w.cl[c]->c.reset(); } }
  LogIndex end=w.log.size()-1; if(end>w.commit){ if(w.leader) w.ack(end); else w.follow(end); }
  w.finish(); sym_reach("end"); sym_end();
}
