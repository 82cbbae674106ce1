// Requests and transactions: what was queued is what is replicated and executed.
#include "sym.hh"
#include "RedisRequest.hh"
#include "redis/Transaction.hh"
#include "Commands.hh"
using namespace quarkdb;
#ifndef LEN
#define LEN 2
#endif
#ifndef RAW
#define RAW 17
#endif
#ifndef FLIPS
#define FLIPS 1
#endif
#ifndef REQS
#define REQS 2
#endif
static RedisRequest mkReq(bool&write,unsigned extra){ write=sym::flip("write"); RedisRequest r; r.emplace_back(std::string(write?"set":"hget")); for(unsigned i=0;i<extra;i++) r.emplace_back(sym::str("arg",0,LEN)); return r; }
static void sameRequest(const RedisRequest&a,const RedisRequest&b){
  CHECK(a.size()==b.size(),"request keeps its number of arguments"); if(a.size()!=b.size()) return;
  for(size_t i=0;i<a.size();i++) CHECK(sym::eq(a[i],b[i]),"request keeps every argument byte");
  CHECK(a.getCommand()==b.getCommand(),"request keeps its command"); CHECK(a.getCommandType()==b.getCommandType(),"request keeps its command type");
}
static void sameTx(const Transaction&t,const Transaction&u,bool writes,bool phantom){
  CHECK(t.size()==u.size(),"transaction keeps its number of requests"); if(t.size()!=u.size()) return;
  for(size_t i=0;i<t.size();i++) sameRequest(t[i],u[i]);
  CHECK(u.containsWrites()==writes,"transaction knows whether it contains writes");
  CHECK(u.isPhantom()==phantom,"transaction keeps whether it is phantom");
  CHECK(u.expectedResponses()==(phantom?(int64_t)t.size():1),"transaction expects the right number of responses");
}
HARNESS(tx_roundtrip){
  unsigned n=1+sym::choose("n",REQS); bool anyWrite=false; Transaction t; std::vector<RedisRequest> orig;
  for(unsigned i=0;i<n;i++){ bool w; RedisRequest r=mkReq(w,sym::choose("extra",n==1?3:2)); anyWrite=anyWrite||w; orig.push_back(r); t.push_back(std::move(r)); }
  bool ph=sym::flip("phantom"); t.setPhantom(ph);
  CHECK(t.containsWrites()==anyWrite,"transaction with a write says so");
  CHECK(t.size()==n,"transaction holds what was queued"); for(unsigned i=0;i<n;i++) sameRequest(orig[i],t[i]);
  std::string s=t.serialize(); Transaction u; CHECK(u.deserialize(PinnedBuffer(std::string_view(s))),"serialized transaction can be read back"); u.setPhantom(ph); sameTx(t,u,anyWrite,ph);
  RedisRequest fused=t.toRedisRequest();
  if(ph&&n==1){ sym_reach("single"); sameRequest(fused,orig[0]); return; }
  sym_reach("fused");
  CHECK(fused.size()==3,"fused transaction has three arguments"); CHECK(fused.getCommand()==(anyWrite?RedisCommand::TX_READWRITE:RedisCommand::TX_READONLY),"fused command reflects writes");
  CHECK(fused.getCommandType()==(anyWrite?CommandType::WRITE:CommandType::READ),"fused command type reflects writes");
  Transaction v; v.fromRedisRequest(fused); sameTx(t,v,anyWrite,ph);
  Transaction w; CHECK(w.deserialize(fused),"fused transaction can be deserialized"); sameTx(t,w,anyWrite,ph);
  t.clear(); CHECK(t.size()==0&&t.empty()&&!t.containsWrites()&&!t.isPhantom(),"cleared transaction is empty");
}
// the same, but the serialized transaction lives in a shared memory region
static char low(char c){ return c=='-'?'_':(c>='A'&&c<='Z'?(char)(c+32):c); }
// a command is recognised regardless of letter case and - versus _
HARNESS(command_spelling){
  static const char*const names[]={"get","set","tx_readwrite","hmac_auth_generate_challenge","raft_append_entries","timestamped_lease_get"};
  const char*n=names[sym::choose("cmd",6)]; std::string spelled=sym::bytes("spelled",strlen(n)); bool same=true;
  for(size_t i=0;i<spelled.size();i++) same=sym_and(same,low(spelled[i])==n[i]);
  sym_assume(same); sym_reach("spelled");
  auto it=redis_cmd_map.find(std::string(n)); CHECK(it!=redis_cmd_map.end(),"canonical spelling is known"); RedisRequest r; r.push_back(spelled);
  CHECK(r.getCommand()==it->second.first,"command recognised regardless of spelling"); CHECK(r.getCommandType()==it->second.second,"command type recognised regardless of spelling");
}
// nothing else is recognised
HARNESS(command_unknown){
  std::string s=sym::bytes("s",sym::choose("len",LEN+3)); RedisRequest r; r.push_back(s);
  bool isKnown=false; uint64_t which=(uint64_t)RedisCommand::INVALID, type=(uint64_t)CommandType::INVALID;
  for(auto&x:redis_cmd_map){ if(x.first.size()!=s.size()) continue; bool same=true; for(size_t i=0;i<s.size();i++){ char w=low(x.first[i]); same=sym_and(same,sym_or(s[i]==w,sym_or(w=='_'&&true?s[i]=='-':false,w>='a'&&w<='z'?s[i]==(char)(w-32):false))); } isKnown=sym_or(isKnown,same); which=sym_ite(same,(uint64_t)x.second.first,which); type=sym_ite(same,(uint64_t)x.second.second,type); }
  CHECK((uint64_t)r.getCommand()==which,"exactly the listed commands are recognised"); CHECK((uint64_t)r.getCommandType()==type,"exactly the listed command types are recognised");
  if(r.getCommand()==RedisCommand::INVALID) sym_reach("unknown"); else sym_reach("known");
}
// whatever bytes are given as a serialized transaction: either they are one, or they are refused
HARNESS(tx_garbage){
  std::string s; unsigned kind=sym::choose("kind",3);
  if(kind==0) s=sym::bytes("raw",sym::choose("n",RAW+1));
  else { Transaction t; unsigned which=sym::choose("base",4); if(which>0) t.emplace_back("GET","a"); if(which>1) t.emplace_back("SET","a","bc"); if(which>2) t.emplace_back("HGETALL","h"); s=t.serialize(); }
  if(kind==1){ for(int k=0;k<FLIPS;k++){ size_t at=sym::choose("at",(unsigned)s.size()); s[at]=(char)sym_u8("byte"); } }
  if(kind==2){ if(sym::flip("cut")) s.resize(sym::choose("size",(unsigned)s.size())); else s+=sym::bytes("extra",1+sym::choose("n",9)); }
  PinnedBuffer b{std::string_view(s)}; Transaction t; bool ok=t.deserialize(b);
  if(ok){ sym_reach("accepted"); CHECK(sym::eq(t.serialize(),s),"what is accepted as a transaction is exactly that transaction"); bool w=false; for(size_t i=0;i<t.size();i++){ CHECK(t[i].getCommandType()==CommandType::READ||t[i].getCommandType()==CommandType::WRITE,"a transaction consists of reads and writes"); w=w||t[i].getCommandType()==CommandType::WRITE; } CHECK(t.containsWrites()==w,"transaction knows whether it contains writes"); } else { sym_reach("refused"); CHECK(t.empty()&&!t.containsWrites(),"nothing is left of a refused transaction"); }
  RedisRequest r; r.emplace_back(std::string(sym::flip("rw")?"TX_READWRITE":"TX_READONLY")); r.push_back(s); static const char*const M[]={"phantom","real","x"}; unsigned m=sym::choose("mark",4); if(m<3) r.emplace_back(std::string(M[m])); Transaction u; bool ok2=u.deserialize(r); CHECK(ok2==(ok&&m<2&&t.containsWrites()==(r.getCommand()==RedisCommand::TX_READWRITE)),"a fused transaction is accepted exactly if its contents, kind and marker are right"); if(ok2) CHECK(u.isPhantom()==(m==0),"transaction keeps whether it is phantom");
  if(kind==1) r.toPrintableString();
}
