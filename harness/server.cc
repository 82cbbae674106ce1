// The whole server: any command a client may send.
#include "node.hh"
#include "resp_decode.hh"
#include "QuarkDBNode.hh"
#include "Shard.hh"
#include "Configuration.hh"
#ifndef ARGS
#define ARGS 3
#endif
#ifndef MODES
#define MODES 4
#endif
#ifndef WITH
#define WITH 1
#endif
static const char*const ALL[]={"activate_push_types","activate_stale_reads","auth","client","client_id","clock_get","command_stats","config_get","config_getall","config_set","convert_hash_field_to_lhash","convert_int_to_string","convert_string_to_int","debug","del","deque_clear","deque_len","deque_pop_back","deque_pop_front","deque_push_back","deque_push_front","deque_scan_back","deque_trim_front","discard","exec","exists","flushall","get","hclone","hdel","hexists","hget","hgetall","hincrby","hincrbyfloat","hincrbymulti","hkeys","hlen","hmac_auth_generate_challenge","hmac_auth_validate_challenge","hmset","hscan","hset","hsetnx","hvals","keys","lease_acquire","lease_get","lease_get_pending_expiration_events","lease_release","lhdel","lhdel_with_fallback","lhget","lhget_with_fallback","lhlen","lhlocdel","lhmset","lhscan","lhset","lhset_and_del_fallback","monitor","multi","multiop_read","multiop_readwrite","nosuch","ping","psubscribe","publish","punsubscribe","quarkdb_attach","quarkdb_bulkload_finalize","quarkdb_cancel_resilvering","quarkdb_checkpoint","quarkdb_compression_stats","quarkdb_detach","quarkdb_finish_resilvering","quarkdb_health","quarkdb_info","quarkdb_invalid_command","quarkdb_level_stats","quarkdb_manual_compaction","quarkdb_resilvering_copy_file","quarkdb_start_resilvering","quarkdb_verify_checksum","quarkdb_version","raft_add_observer","raft_append_entries","raft_attempt_coup","raft_checkpoint","raft_demote_to_observer","raft_fetch","raft_fetch_last","raft_handshake","raft_heartbeat","raft_info","raft_journal_manual_compaction","raft_journal_scan","raft_leader_info","raft_observe_term","raft_promote_observer","raft_remove_member","raft_request_pre_vote","raft_request_vote","raft_set_fsync_policy","raw_get_all_versions","raw_scan","raw_scan_tombstones","recovery_del","recovery_force_reconfigure_journal","recovery_get","recovery_get_all_versions","recovery_info","recovery_scan","recovery_set","sadd","scan","scard","set","sismember","smembers","smove","srem","sscan","subscribe","timestamped_lease_acquire","timestamped_lease_get","timestamped_lease_release","tx_readonly","tx_readwrite","type","unsubscribe","vhdel","vhgetall","vhlen","vhset"};
#define NALL (sizeof(ALL)/sizeof(*ALL))
struct Server { ShardDirectory*dir; Configuration conf; QuarkDBNode*node; bool raft;
  Server(int mode,const char*pw=""):raft(mode>0){ symdb::reset(); symfs::reset(); Status st; std::string c="redis.database /shard\n"; if(*pw) c+=std::string("redis.password ")+pw+"\n"; 
    if(raft){ dir=ShardDirectory::create("/shard","cid","shard",std::vector<RaftServer>{SA,SB,SC},0,FsyncPolicy::kSyncImportantUpdates,nullptr,st); c="redis.mode raft\nredis.myself a:1\n"+c; } else { dir=ShardDirectory::create("/shard","cid","shard",nullptr,st); c="redis.mode standalone\n"+c; }
    CHECK(Configuration::fromString(c,conf),"configuration"); sym_threads(1000); node=new QuarkDBNode(conf,RaftTimeouts(milliseconds(1000),milliseconds(2000),milliseconds(250)),dir);
    if(raft){ g()->commitTracker()->updateTargets({SB,SC}); if(mode==1){ g()->state()->observed(5,{}); g()->state()->becomeCandidate(5); g()->state()->ascend(5); commit(); } if(mode==2) g()->state()->observed(5,SB); } }
  RaftGroup*g(){ return node->getShard()->getRaftGroup(); }
  void idle(){ for(int k=0;k<4;k++) dir->getStateMachine()->waitUntilTargetLastApplied(1000000,milliseconds(1)); }
  void commit(){ LogIndex e=g()->journal()->getLogSize()-1; g()->commitTracker()->getHandler(SB).update(e); idle(); CHECK(g()->stateMachine()->getLastApplied()==e,"committed entries are applied"); } };
static std::string arg(unsigned i){ static const char*const A[]={"k","x","0","b:2","-1"}; unsigned c=sym::choose("arg",i<2?6:3); if(c==5) return std::string(1,(char)sym_u8("byte")); return A[c]; }
static size_t values(const std::string&s){ RespIn in(s); size_t n=0; while(in.p<s.size()){ in.get(); CHECK(!in.bad,"replies are well-formed"); n++; } return n; }
static void any(unsigned modes,bool with){
  unsigned mode=sym::choose("mode",modes); Server s(mode); Client c; static const char*const PRE[]={"SET k v","HSET k 0 0","LHSET k a h v","MULTI","RAFT_HANDSHAKE v cid 1000:2000:250"}; 
  Words w{ALL[sym::choose("command",NALL)]}; unsigned n=sym::choose("args",ARGS+1); for(unsigned i=0;i<n;i++) w.push_back(arg(i)); unsigned pre=with?sym::choose("before",6):0; size_t expect=1;
  std::string in; if(pre){ in=wire(words(PRE[pre-1])); expect++; } in+=wire(w); if(with&&sym::flip("after")){ in+=wire(words("HGET k 0")); expect++; }
  bool sub=w[0]=="subscribe"||w[0]=="psubscribe"||w[0]=="unsubscribe"||w[0]=="punsubscribe"; if(sub&&n>1&&mode<2&&pre!=4) expect+=n-1;
  CHECK(c.feed(wire({"PING"}),s.node)==1,"the connection stays usable"); c.x.out.clear(); CHECK(c.feed(in,s.node)==1,"the connection stays usable"); if(mode==1) s.commit();
  if(w[0]=="monitor"&&pre!=4){ CHECK(values(c.x.out)>0,"every request gets one reply"); } else { CHECK(values(c.x.out)==expect,"every request gets one reply"); std::string before=c.x.out; if(mode!=1||true){ c.x.out.clear(); CHECK(c.feed(wire({"PING"}),s.node)==1,"the connection stays usable"); if(mode==1) s.commit(); CHECK(values(c.x.out)==1,"every request gets one reply"); } }
  sym_reach("end"); sym_end(); }
HARNESS(server_any){ any(4,WITH); }
HARNESS(server_ctx){ any(MODES,true); }
#ifndef STEPS
#define STEPS 4
#endif
// Who may do what: only a client which proved it knows the password.
static std::string noauth(size_t n){ std::string s; while(n--) s+=Formatter::noauth("Authentication required.").val; return s; }
static std::string different(std::string s,const char*name){ uint8_t d=sym_u8(name); sym_assume(d!=0); size_t at=sym::choose("position",3); at=at==0?0:at==1?s.size()/2:s.size()-1; s[at]^=d; return s; }
HARNESS(server_auth){
  std::string pw="0123456789abcdefghijklmnopqrstuvwxyz"; unsigned cfg=sym::choose("server",3); bool secret=cfg>0; Server s(cfg==2?1:0,secret?pw.c_str():""); bool local=sym::flip("localhost"); Client c(local?"localhost":"client.example"); bool must=secret&&!local; bool auth=false, pending=false; long issued=0; std::string challenge,old; std::string value; bool has=false;
  auto say=[&](const std::string&in){ c.x.out.clear(); CHECK(c.feed(in,s.node)==1,"the connection stays usable"); if(s.raft&&s.g()->journal()->getCommitIndex()<s.g()->journal()->getLogSize()-1) s.commit(); return c.x.out; };
  for(int i=0;i<STEPS;i++){ unsigned op=sym::choose("op",10); bool in=auth||!must; std::string v=std::to_string(i);
    if(op==0) CHECK(say(wire({"PING"}))==(in?Formatter::pong().val:noauth(1)),"without authentication, only an error is given");
    else if(op==1){ CHECK(say(wire({"SET","k",v})+wire({"SET","k",v+v}))==(in?rOk()+rOk():noauth(2)),"without authentication, every request gets an error"); if(in){ value=v+v; has=true; } }
    else if(op==2) CHECK(say(wire({"GET","k"}))==(in?(has?rStr(value):rNull()):noauth(1)),"without authentication, nothing is read");
    else if(op==3){ CHECK(say(wire({"MULTI"})+wire({"SET","k",v})+wire({"GET","k"})+wire({"EXEC"}))==rOk()+"+QUEUED\r\n+QUEUED\r\n"+(in?"*2\r\n"+rOk()+rStr(v):noauth(1)),"without authentication, a transaction is refused"); if(in){ value=v; has=true; } }
    else if(op==4){ bool right=sym::flip("right"); std::string o=say(wire({"AUTH",right?pw:different(pw,"password")})); CHECK((o==rOk())==(secret&&right),"AUTH succeeds exactly with the password"); CHECK(o==rOk()||values(o)==1,"AUTH fails with an error"); auth=!secret||right; }
    else if(op==5){ std::string o=say(wire({"AUTH",pw.substr(0,pw.size()-1)})); CHECK(o[0]=='-'&&values(o)==1,"AUTH fails with an error"); auth=!secret; }
    else if(op==6){ std::string rnd(64,'a'+i); std::string o=say(wire({"HMAC_AUTH_GENERATE_CHALLENGE",rnd})); auth=!secret; if(secret){ RespIn r(o); Resp x=r.get(); CHECK(!r.bad&&x.t=='$'&&r.p==o.size(),"a challenge is given"); CHECK(x.s.size()>128&&x.s.compare(0,64,rnd)==0,"the challenge includes the bytes of the client"); old=challenge; challenge=x.s; CHECK(old!=challenge,"no challenge is given twice"); pending=true; issued=symx_now_ns; } else CHECK(o[0]=='-',"no challenge without a password"); }
    else if(op==7){ bool right=sym::flip("right"); std::string sig=Authenticator::generateSignature(challenge,pw); if(!right) sig=different(sig,"signature"); bool late=symx_now_ns-issued>60000000000l; std::string o=say(wire({"HMAC_AUTH_VALIDATE_CHALLENGE",sig})); bool ok=secret&&pending&&right&&!late; CHECK((o==rOk())==ok,"a challenge is met exactly by its signature, once and in time"); CHECK(values(o)==1&&(ok||o[0]=='-'),"otherwise an error is given"); auth=!secret||ok; pending=false; }
    else if(op==8){ if(!pending||old.empty()) sym_prune(); std::string o=say(wire({"HMAC_AUTH_VALIDATE_CHALLENGE",Authenticator::generateSignature(old,pw)})); CHECK(o!=rOk()&&o[0]=='-',"the signature of an earlier challenge is refused"); auth=!secret; pending=false; }
    else symx_now_ns+=sym::flip("long")?61000000000l:20000000000l; }
  sym_reach("end"); sym_end(); }
// the very first request of a client which needs no password
HARNESS(server_first){
  Server s(0); Client c; unsigned n=3+sym::choose("arguments",3); Words w={"SET","k"}; if(n==3) w.push_back("v"); else { w={"HMSET","k","f","v"}; if(n==5) w.push_back("g"); } c.feed(wire(w),s.node); if(n==5) CHECK(values(c.x.out)==1,"a first request of five words is answered"); else CHECK(values(c.x.out)==1,"a first request is answered"); sym_reach("end"); sym_end();
}
