#include "smmodel.hh"
#ifndef OPS
#define OPS 2
#endif
#ifndef PRE
#define PRE 1
#endif
// '$' stands for an arbitrary byte, '#' for a digit (0, 4 or 9); the words l, b and g for a key, a field and a hint that start like k, a and h
static Words fill(const char*t0){ std::string s0; for(const char*p=t0;*p;p++){ bool whole=p!=t0&&p[-1]==' '&&(p[1]==' '||!p[1]); if(whole&&*p=='l') s0+="kl"; else if(whole&&*p=='b') s0+="ab"; else if(whole&&*p=='g') s0+="hg"; else s0+=*p; } const char*t=s0.c_str(); Words w(1); for(;*t;t++){ if(*t==' ') w.emplace_back(); else if(*t=='$') w.back().push_back((char)sym_u8("value")); else if(*t=='#') w.back().push_back("049"[sym::choose("digit",3)]); else w.back().push_back(*t); } return w; }
static Words pick(const char*const*ops,unsigned n){ return fill(ops[sym::choose("op",n)]); }
#define N(a) (sizeof(a)/sizeof(*a))
static const std::vector<std::string> KS={"k","kl"}, FS={"a","ab"};
// an arbitrary state built by up to PRE commands, then OPS arbitrary commands: one by one through the log, or inside one transaction
static void drive(const char*const*pre,unsigned npre,const char*const*ops,unsigned nops,int count=OPS){
  Machine m; Ref ref; unsigned mode=sym::choose("mode",2); if(mode==0) m.index=1; LogIndex applied=0;
  for(int i=0;i<PRE;i++){ unsigned c=sym::choose("pre",npre+1); if(c==npre) break; step(m,ref,fill(pre[c])); }
  if(mode==0){ for(int i=0;i<count;i++){ step(m,ref,pick(ops,nops)); } verifyReads(m,ref,KS,FS); m.reopen(); CHECK(m.sm->getLastApplied()==m.index-1,"every applied entry is counted exactly once"); verifyReads(m,ref,KS,FS); verifyEmptied(m,ref); }
  else { ref.begin(); std::vector<Words> all; std::vector<std::string> want; for(int i=0;i<count;i++){ Words w=pick(ops,nops); want.push_back(ref.exec(w)); all.push_back(w); for(auto&r:ref.reads(KS,FS)){ want.push_back(ref.exec(r)); all.push_back(r); } } CHECK(matchAll(transact(m,all),want),"each reply of a transaction sees the commands before it"); verifyReads(m,ref,KS,FS); verifyEmptied(m,ref); }
  sym_reach("end");
}
static const char*const hashPre[]={"HSET k a $","HMSET k a # b $","HMSET k a  b $","HSET l a $","SET k $"};
static const char*const hashOps[]={"HSET k a $","HSET k b $","HSETNX k a $","HMSET k a $ b $","HMSET k a $ a $","HDEL k a","HDEL k a b","HDEL k a a","HCLONE k l","HCLONE l k","HCLONE k k","DEL k","DEL k l","SADD k a","HSET k a","HSETNX k b "};
HARNESS(sm_hash){ drive(hashPre,N(hashPre),hashOps,N(hashOps)); }
static const char*const incPre[]={"HSET k a #","HSET k a -12","HSET k a x","SET k #"};
static const char*const incOps[]={"HINCRBY k a #","HINCRBY k b -#","HINCRBY k a +13","HINCRBYMULTI k a 3 k a -# l b 1","HINCRBY k a x","HINCRBY k a #x","HSET k a 9223372036854775800","HDEL k a","HINCRBY k a -9000000000000000000"};
HARNESS(sm_hincr){ drive(incPre,N(incPre),incOps,N(incOps)); }
static const char*const setPre[]={"SADD k a b","SADD k a","SADD l b","HSET k a $"};
static const char*const setOps[]={"SADD k a","SADD k a b","SADD k b b","SREM k a","SREM k a b","SREM k a a","SMOVE k l a","SMOVE l k b","SMOVE k k a","SMOVE k l c","DEL k","HSET k a $","SET l $","SADD k"};
HARNESS(sm_set){ drive(setPre,N(setPre),setOps,N(setOps)); }
static const char*const strPre[]={"SET k $","SET k ","HSET k a $","SET l $$"};
static const char*const strOps[]={"SET k $","SET k $$","SET k ","SET l $","DEL k","DEL k k","DEL k l","FLUSHALL","CONFIG_SET a $","HSET k a $","DEQUE_PUSH_BACK l $","SET k","SADD k a","LHSET k a h $","VHSET k a $"};
HARNESS(sm_string){ drive(strPre,N(strPre),strOps,N(strOps)); }
static const char*const dqPre[]={"DEQUE_PUSH_BACK k $","DEQUE_PUSH_FRONT k $ $ $","DEQUE_PUSH_BACK l $","SET k $","DEQUE_PUSH_BACK k "};
static const char*const dqOps[]={"DEQUE_PUSH_BACK k $","DEQUE_PUSH_FRONT k $","DEQUE_PUSH_BACK k $ $","DEQUE_PUSH_FRONT k $ $","DEQUE_POP_FRONT k","DEQUE_POP_BACK k","DEQUE_TRIM_FRONT k 0","DEQUE_TRIM_FRONT k 1","DEQUE_TRIM_FRONT k 2","DEQUE_TRIM_FRONT k -1","DEQUE_CLEAR k","DEQUE_POP_BACK l","DEL k","SADD k a"};
static void deque(Machine&m,Ref&ref){ for(int i=0;i<8;i++){ bool had=ref.kind("k")==DEQUE; step(m,ref,{i%2?"DEQUE_POP_BACK":"DEQUE_POP_FRONT","k"}); if(!had) break; } }
HARNESS(sm_deque){ Machine m; Ref ref; unsigned mode=sym::choose("mode",2); if(!mode) m.index=1; unsigned c=sym::choose("pre",N(dqPre)+1); if(c<N(dqPre)) step(m,ref,fill(dqPre[c]));
  if(mode){ std::vector<Words> all; std::vector<std::string> want; for(int i=0;i<OPS;i++){ Words w=pick(dqOps,N(dqOps)); want.push_back(ref.exec(w)); all.push_back(w); for(auto&r:ref.reads(KS,FS)){ want.push_back(ref.exec(r)); all.push_back(r); } } CHECK(matchAll(transact(m,all),want),"each reply of a transaction sees the commands before it"); }
  else for(int i=0;i<OPS;i++) step(m,ref,pick(dqOps,N(dqOps)));
  verifyReads(m,ref,KS,FS); if(sym::flip("reopen")) m.reopen();
  // the whole content, in order, then popping it off both ends
  if(ref.kind("k")==DEQUE){ std::vector<std::string> v(ref.keys["k"].q.begin(),ref.keys["k"].q.end()); CHECK(match(m.run({"DEQUE_SCAN_BACK","k","0","COUNT","50"}),Formatter::scan("0",v).val),"a deque lists its items in order"); deque(m,ref); verifyReads(m,ref,KS,FS); }
  verifyEmptied(m,ref); sym_reach("end"); }
static const char*const lhPre[]={"LHSET k a h $","LHMSET k a h  b g $","HSET l a $","SET k $"};
static const char*const lhOps[]={"LHSET k a h $","LHSET k a g $","LHSET k b g $","LHMSET k a g $ a h $","LHMSET k a g $ b g $","LHDEL k a","LHDEL k a b","LHDEL k a a","LHLOCDEL k a h","LHLOCDEL k b h","LHSET_AND_DEL_FALLBACK k a h $ l","LHDEL_WITH_FALLBACK k a l","CONVERT_HASH_FIELD_TO_LHASH l a k a h","CONVERT_HASH_FIELD_TO_LHASH k a l a h","DEL k","HSET l a $","SADD k a"};
HARNESS(sm_lhash){ drive(lhPre,N(lhPre),lhOps,N(lhOps)); }
static const char*const vhPre[]={"VHSET k a $","VHSET k a ","VHSET k b $","VHSET l a $","SET k $"};
static const char*const vhOps[]={"VHSET k a $","VHSET k b $","VHSET l b $","VHDEL k a","VHDEL k a b","VHDEL k a a","VHDEL k c","VHDEL l a","DEL k","FLUSHALL","HSET k a $","VHSET k a"};
HARNESS(sm_vhash){ drive(vhPre,N(vhPre),vhOps,N(vhOps)); }
// keys, fields and hints of arbitrary bytes through the whole machine: nothing about the layout may show
#ifndef KB
#define KB 1
#endif
static std::string anyStr(const char*n,unsigned max){ return sym::str(n,max,1); }
static void symbolic(unsigned kinds,const char*const*ops,unsigned n){ Machine m; Ref ref; std::string k[2]={"k","k#"}; if(kinds){ k[0]=anyStr("key",KB); k[1]=anyStr("key",KB); } std::string f[2]={anyStr("field",1),anyStr("field",1)}; std::vector<std::string> ks{k[0]}; if(k[0]!=k[1]) ks.push_back(k[1]); std::vector<std::string> fs{f[0]}; if(f[0]!=f[1]) fs.push_back(f[1]); if(sym::flip("log")) m.index=1;
  // the recorded ambiguity of the key escaping (P04): a key that ends with '|' next to a key that ends with '#', or with a field that starts with '#'
  bool bar=sym_or(k[0].back()=='|',k[1].back()=='|'); sym_assume(sym_not(sym_and(bar,sym_or(sym_or(k[0].back()=='#',k[1].back()=='#'),sym_or(f[0][0]=='#',f[1][0]=='#')))));
  for(int i=0;i<OPS;i++){ const char*t=ops[sym::choose("op",n)]; Words w(1); for(;*t;t++){ if(*t==' ') w.emplace_back(); else if(*t=='k') w.back()+=k[0]; else if(*t=='l') w.back()+=k[1]; else if(*t=='a') w.back()+=f[0]; else if(*t=='b') w.back()+=f[1]; else w.back().push_back(*t); } step(m,ref,w); }
  verifyReads(m,ref,ks,fs); m.reopen(); verifyReads(m,ref,ks,fs); verifyEmptied(m,ref); sym_reach("end"); }
static const char*const symHash[]={"HSET k a X","HSET l b Y","HMSET k a X b Y","HDEL k b","HCLONE k l","DEL l","SET l Z"};
HARNESS(sym_hash){ symbolic(1,symHash,N(symHash)); }
static const char*const symLhash[]={"LHSET k a b X","LHSET l b a Y","LHMSET k a a X b b Y","LHDEL k b","LHLOCDEL k a a","DEL k","LHSET_AND_DEL_FALLBACK k a b X l","HSET l b Z"};
#ifndef LKEYS
#define LKEYS 0
#endif
HARNESS(sym_lhash){ symbolic(LKEYS,symLhash,N(symLhash)); }
static const char*const symSet[]={"SADD k a b","SADD l a","SREM k b","SMOVE k l a","DEL k","DEQUE_PUSH_BACK l X Y","SET l Z","VHSET l a X"};
HARNESS(sym_set){ symbolic(1,symSet,N(symSet)); }
