// Loading data in bulk: after finalizing and reopening it is what an ordinary server would hold.
#include "node.hh"
#include "smmodel.hh"
#include "ShardDirectory.hh"
#include "Shard.hh"
#include "raft/RaftTimeouts.hh"
#ifndef OPS
#define OPS 2
#endif
#ifndef MORE
#define MORE 2
#endif
#ifndef LEN
#define LEN 1
#endif
static std::vector<std::string> KEYS, FIELDS={"f","g"};
static ShardDirectory* create(){ symdb::reset(); symfs::reset(); Status st; ShardDirectory*d=ShardDirectory::create("/s","cid","sid",nullptr,st); CHECK(d&&st.ok(),"setup"); return d; }
static std::unique_ptr<Shard> shard(ShardDirectory*d,Mode m){ return std::make_unique<Shard>(d,RaftServer(),m,RaftTimeouts(milliseconds(1000),milliseconds(2000),milliseconds(250)),""); }
struct Talker { Client c; Shard&s; Talker(Shard&sh):s(sh){ c.c->authorization=true; } std::string say(const Words&w){ size_t k=c.x.out.size(); CHECK(c.feed(wire(w),&s)==1,"the connection stays usable"); return c.x.out.substr(k); } };
static void keys(){ KEYS={sym::str("key",1,LEN),sym::str("key",1,LEN)}; sym_assume(!sym::eq(KEYS[0],KEYS[1])); for(auto&k:KEYS) sym_assume(k.back()!=0x7c); }
static std::string value(){ return sym::str("value",1,LEN); }
static std::string field(){ return FIELDS[sym::choose("field",2)]; }
// a command that loads something into a key of the given kind
static Words load(unsigned kind,const std::string&k){
  switch(kind){ case 0: return {"SET",k,value()}; case 1: if(sym::flip("multi")) return {"HMSET",k,"f",value(),"g",value()}; return {"HSET",k,field(),value()}; case 2: if(sym::flip("multi")) return {"SADD",k,"f","g"}; return {"SADD",k,field()};
    case 3: if(sym::flip("multi")) return {"LHMSET",k,"f","h",value(),"g","i",value()}; { std::string f=field(); return {"LHSET",k,f,f=="f"?"h":"i",value()}; } }
  return {}; }
static void loading(size_t max){
  ShardDirectory*d=create(); Ref ref; unsigned kind[2]={sym::choose("kind",4),sym::choose("kind",4)};
  { auto s=shard(d,Mode::bulkload); Talker t(*s); bool tx=sym::flip("transaction"); size_t n=1+sym::choose("commands",max); if(tx) CHECK(t.say({"MULTI"})==rOk(),"transactions work");
    for(size_t i=0;i<n;i++){ unsigned k=sym::choose("which",2); Words w=load(kind[k],KEYS[k]); ref.begin(); ref.exec(w); std::string r=t.say(w); CHECK(!r.empty()&&r[0]!='-',"loading works"); } if(tx) CHECK(t.say({"EXEC"})[0]=='*',"transactions work");
    CHECK(t.say({"QUARKDB_BULKLOAD_FINALIZE"})==rOk(),"finalizing works"); CHECK(t.say({"SET","late","1"})[0]=='-',"nothing can be written after finalizing"); }
  delete d; unsigned power=sym::choose("power failure",3); const char*sm="/s/current/state-machine"; if(power) symdb::crash(sm,power==1?0:symdb::unsynced(sm)); d=new ShardDirectory("/s");
  // after a power failure the data may be refused, but is never incomplete
  bool refused=sym::throws([&]{ d->getStateMachine(); }); CHECK(!refused||power,"finalized data can be used"); if(refused){ sym_reach("refused"); sym_end(); }
  { auto s=shard(d,Mode::standalone); Talker t(*s); for(auto&w:ref.reads(KEYS,FIELDS)){ std::string want=ref.exec(w); CHECK(match(t.say(w),want),"what was loaded in bulk reads back as written"); }
    CHECK(t.say({"GET","late"})==rNull(),"nothing can be written after finalizing");
    // and it can be worked with
    int i=sym::choose("changed",2); Words w={"DEL",KEYS[i]}; if(sym::flip("add")) w=load(kind[i],KEYS[i]); ref.begin(); std::string want=ref.exec(w); CHECK(match(t.say(w),want),"what was loaded in bulk can be changed like any other data"); for(auto&w:ref.reads(KEYS,FIELDS)){ std::string want=ref.exec(w); CHECK(match(t.say(w),want),"what was loaded in bulk can be changed like any other data"); } }
  sym_reach("end"); sym_end(); }
HARNESS(bulk_load){ keys(); loading(OPS); }
HARNESS(bulk_sequence){ KEYS={"a","a#b"}; loading(MORE); }
// whatever is sent while loading, the server survives it
HARNESS(bulk_any){
  static const std::vector<Words> CMDS={{"FLUSHALL"},{"DEL","k"},{"SREM","k","f"},{"HDEL","k","f"},{"LHDEL","k","f"},{"LHLOCDEL","k","f","h"},{"SMOVE","k","l","f"},{"HCLONE","k","l"},{"HINCRBY","k","f","1"},{"HINCRBYMULTI","k","f","1"},{"HSETNX","k","f","v"},{"DEQUE_PUSH_BACK","k","v"},{"DEQUE_POP_FRONT","k"},{"DEQUE_POP_BACK","k"},{"DEQUE_TRIM_FRONT","k","1"},{"DEQUE_CLEAR","k"},{"VHSET","k","f","v"},{"VHDEL","k","f"},{"LHSET_AND_DEL_FALLBACK","k","f","h","v","l"},{"LHDEL_WITH_FALLBACK","k","f","l"},{"CONVERT_HASH_FIELD_TO_LHASH","k","f","l","f","h"},{"LEASE_ACQUIRE","k","x","1000"},{"LEASE_RELEASE","k"},{"LEASE_GET","k"},{"CONFIG_SET","k","v"},{"GET","k"},{"HGETALL","k"},{"SCAN","0"},{"KEYS","*"},{"DEQUE_SCAN_BACK","k","0"},{"HSCAN","k","0"},{"LEASE_GET_PENDING_EXPIRATION_EVENTS"},{"RAW_SCAN","k"},{"RAW_GET_ALL_VERSIONS","k"},{"CLOCK_GET"},{"QUARKDB_CHECKPOINT","/c"},{"QUARKDB_DETACH"},{"QUARKDB_ATTACH"},{"QUARKDB_START_RESILVERING","x"},{"QUARKDB_MANUAL_COMPACTION"},{"QUARKDB_HEALTH"},{"QUARKDB_INFO"},{"QUARKDB_BULKLOAD_FINALIZE"},{"RAFT_INFO"},{"RAFT_HANDSHAKE","a","b","c"},{"RAFT_APPEND_ENTRIES"},{"PUBLISH","c","m"},{"SUBSCRIBE","c"},{"RECOVERY_GET","x"}};
  ShardDirectory*d=create(); { auto s=shard(d,Mode::bulkload); Talker t(*s); Words w[2]; if(sym::flip("data")) for(unsigned i=0;i<4;i++) t.say(load(i,"k")); bool tx=sym::flip("transaction"); if(tx) t.say({"MULTI"}); std::string r=t.say(CMDS[sym::choose("command",CMDS.size())]); CHECK(!r.empty(),"every command is answered"); if(tx){ r=t.say({"EXEC"}); CHECK(!r.empty(),"every command is answered"); } r=t.say({"SET","s","1"}); CHECK(!r.empty(),"every command is answered"); }
  sym_reach("end"); sym_end(); }
static void odd(unsigned kind,bool once){ ShardDirectory*d=create(); KEYS={"k"}; Ref ref; { auto s=shard(d,Mode::bulkload); Talker t(*s); size_t n=once?1:1+sym::choose("commands",2); for(size_t i=0;i<n;i++){ Words w; if(kind==0) w={sym::flip("front")?"DEQUE_PUSH_FRONT":"DEQUE_PUSH_BACK","k",value(),value()}; if(kind==1) w={"VHSET","k",field(),value()}; if(kind==2) w={"LHSET","k","f",sym::flip("hint")?"h":"i",value()}; ref.begin(); ref.exec(w); CHECK(t.say(w)[0]!='-',"loading works"); } CHECK(t.say({"QUARKDB_BULKLOAD_FINALIZE"})==rOk(),"finalizing works"); }
  delete d; d=new ShardDirectory("/s"); auto s=shard(d,Mode::standalone); Talker t(*s); if(kind==1) ref.keys["k"].version=1; /* all of it is one version */ for(auto&w:ref.reads(KEYS,{"f","g"})){ std::string want=ref.exec(w); CHECK(match(t.say(w),want),"what was loaded in bulk reads back as written"); } if(kind==0) while(ref.len("k")){ Words w={"DEQUE_POP_FRONT","k"}; CHECK(match(t.say(w),ref.exec(w)),"what was loaded in bulk reads back as written"); } sym_reach("end"); sym_end(); }
HARNESS(bulk_odd){ unsigned k=sym::choose("kind",3); odd(k,k==0); }
HARNESS(kf_bulk_deque){ odd(0,false); }
