// every client command with every number of arguments, against every kind of key
#include "smmodel.hh"
static const char*const WR[]={"FLUSHALL","SET","DEL","HSET","HSETNX","HMSET","HINCRBY","HINCRBYFLOAT","HINCRBYMULTI","HDEL","HCLONE","SADD","SREM","SMOVE","DEQUE_PUSH_FRONT","DEQUE_POP_FRONT","DEQUE_PUSH_BACK","DEQUE_POP_BACK","DEQUE_TRIM_FRONT","DEQUE_CLEAR","CONFIG_SET","LHSET","LHDEL","LHLOCDEL","LHMSET","LHDEL_WITH_FALLBACK","LHSET_AND_DEL_FALLBACK","CONVERT_HASH_FIELD_TO_LHASH","VHSET","VHDEL"};
static const char*const RD[]={"GET","EXISTS","HGET","HEXISTS","HKEYS","HGETALL","HLEN","HVALS","HSCAN","SISMEMBER","SMEMBERS","SCARD","SSCAN","DEQUE_LEN","DEQUE_SCAN_BACK","CONFIG_GET","CONFIG_GETALL","LHGET","LHLEN","LHSCAN","LHGET_WITH_FALLBACK","TYPE","VHGETALL","VHLEN","KEYS","SCAN","CLOCK_GET","LEASE_GET_PENDING_EXPIRATION_EVENTS","RAW_SCAN"};
#define N(a) (sizeof(a)/sizeof(*a))
#ifndef EXTRA
#define EXTRA 3
#endif
#ifndef MAXARGS
#define MAXARGS 4
#endif
static const char*const KINDS[]={"","SET k v","HSET k a 0","SADD k a","DEQUE_PUSH_BACK k a b","LHSET k a h v","VHSET k a v"};
static Words plain(const char*t){ Words w(1); for(;*t;t++) if(*t==' ') w.emplace_back(); else w.back().push_back(*t); return w; }
// key: "k" or empty; then any byte, nothing, a number or a cursor
static std::string arg(unsigned i){ unsigned c=sym::choose("arg",i==0?3:i==1?4:3); if(c==0) return i?"0":"k"; if(c==1) return ""; if(c==2) return std::string(1,(char)sym_u8("byte")); return "next:a##b"; }
static std::string one(Machine&m,const Words&w,bool tx){ if(!tx) return m.run(w); Transaction t; t.push_back(request(w)); LogIndex c=0; if(m.index&&t.containsWrites()) c=m.index++; return m.disp->dispatch(t,c).val; }
static std::string state(Machine&m){ std::string s; StagingArea st(*m.sm,true); auto it=st.getIterator(); for(it->SeekToFirst();it->Valid();it->Next()){ std::string k=it->key().ToString(); if(k=="__last-applied") continue; s+=std::to_string(k.size())+":"+k+std::to_string(it->value().ToString().size())+":"+it->value().ToString(); } return s; }
static void anyCommand(const char*const*ops,unsigned n){
  Machine m; unsigned mode=sym::choose("mode",3); m.index=mode>0; unsigned kind=sym::choose("kind",N(KINDS)); if(kind) m.run(plain(KINDS[kind]));
  std::string before=state(m); Words w{ops[sym::choose("op",n)]}; unsigned args=sym::choose("args",MAXARGS+EXTRA); for(unsigned i=0;i<args;i++){ if(i<MAXARGS) w.push_back(arg(i)); else w.push_back("a"); }
  bool tx=mode==2; std::string r=one(m,w,tx); if(tx){ CHECK(r.compare(0,4,"*1\r\n")==0,"a transaction of one request has one reply"); r=r.substr(4); }
  CHECK(!r.empty(),"every request gets a reply");
  if(isErr(r)) CHECK(state(m)==before,"a command that fails changes nothing");
  if(m.index){ CHECK(m.sm->getLastApplied()==m.index-1,"every applied entry counts, even when it fails"); }
  m.reopen(); if(isErr(r)) CHECK(state(m)==before,"a command that fails changes nothing");
  CHECK(one(m,{"DEL","k"},false)[0]==':',"a key can be deleted"); CHECK(one(m,{"SET","k","v"},false)==rOk(),"the key can be used again"); CHECK(one(m,{"GET","k"},false)==rStr("v"),"the key can be used again");
  sym_reach("end"); }
HARNESS(any_write){ anyCommand(WR,N(WR)); }
HARNESS(any_read){ anyCommand(RD,N(RD)); }
