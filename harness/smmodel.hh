// What each command means: typed values, written independently of the implementation.
#pragma once
#include "sm.hh"
#include <map>
#include <deque>
enum Kind { NONE,STRING,HASH,SET,DEQUE,LHASH,VHASH,LEASE };
struct Val { Kind kind=NONE; std::string str; std::map<std::string,std::string> h, hint; std::deque<std::string> q; uint64_t version=0; };
static const char* ERR="-";
static bool parseInt(const std::string&s,int64_t&v){ size_t i=0; bool neg=false; v=0; if(i<s.size()&&(s[i]=='-'||s[i]=='+')){ neg=s[i]=='-'; i++; } if(i==s.size()) return false; for(;i<s.size();i++){ if(sym_or(s[i]<'0',s[i]>'9')) return false; v=v*10+(s[i]-'0'); } if(neg) v=-v; return true; }
struct Ref {
  std::map<std::string,Val> keys; std::map<std::string,std::string> config; std::map<std::string,bool> bumped; // bumped: version already advanced in this transaction
  Kind kind(const std::string&k){ auto it=keys.find(k); return it==keys.end()?NONE:it->second.kind; }
  bool wrong(const std::string&k,Kind w){ Kind x=kind(k); return x!=NONE&&x!=w; }
  Val& at(const std::string&k,Kind w){ Val&v=keys[k]; v.kind=w; return v; }
  void tidy(const std::string&k){ auto it=keys.find(k); if(it==keys.end()) return; Val&v=it->second; bool e=false; if(v.kind==HASH||v.kind==SET||v.kind==LHASH) e=v.h.empty(); if(v.kind==DEQUE) e=v.q.empty(); if(e) keys.erase(it); }
  size_t len(const std::string&k){ Val&v=keys[k]; size_t n=v.kind==DEQUE?v.q.size():v.h.size(); if(v.kind==NONE) keys.erase(k); return n; }
  static const char* typeName(Kind k){ static const char*n[]={"none","string","hash","set","deque","locality hash","versioned hash","lease"}; return n[k]; }
  std::string versioned(const std::string&k){ std::vector<std::string> v; uint64_t ver=0; if(kind(k)==VHASH){ ver=keys[k].version; for(auto&x:keys[k].h){ v.push_back(x.first); v.push_back(x.second); } } return Formatter::versionedVector(ver,v).val; }
  void begin(){ bumped.clear(); }
  std::string hdel(const Words&w,const std::string&key,size_t from,size_t to){ if(wrong(key,HASH)) return ERR; Val&v=at(key,HASH); int64_t n=0; for(size_t i=from;i<to;i++) n+=v.h.erase(w[i]); tidy(key); return rInt(n); }
  std::string lhset(const std::string&key,const std::string&f,const std::string&hint,const std::string&value){ if(wrong(key,LHASH)) return ERR; Val&v=at(key,LHASH); bool c=!v.h.count(f); v.h[f]=value; v.hint[f]=hint; return rInt(c); }
  std::string lhdel(const Words&w,size_t from,size_t to){ if(wrong(w[1],LHASH)) return ERR; Val&v=at(w[1],LHASH); int64_t n=0; for(size_t i=from;i<to;i++){ n+=v.h.erase(w[i]); v.hint.erase(w[i]); } tidy(w[1]); return rInt(n); }
  std::string lhget(const std::string&key,const std::string&f){ if(wrong(key,LHASH)) return ERR; if(kind(key)==NONE||!keys[key].h.count(f)) return rNull(); return rStr(keys[key].h[f]); }
  std::string hget(const std::string&key,const std::string&f){ if(wrong(key,HASH)) return ERR; if(kind(key)==NONE||!keys[key].h.count(f)) return rNull(); return rStr(keys[key].h[f]); }
  std::string hincrby(const std::string&key,const std::string&f,const std::string&by,int64_t*res=nullptr){ int64_t d; if(!parseInt(by,d)) return ERR; if(wrong(key,HASH)) return ERR; int64_t cur=0; if(kind(key)==HASH&&keys[key].h.count(f)&&!parseInt(keys[key].h[f],cur)) return ERR; if(__builtin_add_overflow(cur,d,&cur)) return ERR; at(key,HASH).h[f]=std::to_string(cur); if(res) *res=cur; return rInt(cur); }
  std::string exec(const Words&w){
    const std::string&c=w[0]; std::string k=w.size()>1?w[1]:""; size_t n=w.size();
    if(c=="FLUSHALL"){ keys.clear(); return rOk(); }
    if(c=="SET"){ if(n!=3||wrong(k,STRING)) return ERR; at(k,STRING).str=w[2]; return rOk(); }
    if(c=="GET"){ if(n!=2||wrong(k,STRING)) return ERR; return kind(k)==NONE?rNull():rStr(keys[k].str); }
    if(c=="DEL"){ if(n<2) return ERR; int64_t r=0; for(size_t i=1;i<n;i++) if(keys.erase(w[i])) r++; return rInt(r); }
    if(c=="EXISTS"){ if(n<2) return ERR; int64_t r=0; for(size_t i=1;i<n;i++) if(kind(w[i])!=NONE) r++; return rInt(r); }
    if(c=="TYPE"){ if(n!=2) return ERR; return Formatter::status(typeName(kind(k))).val; }
    if(c=="CONFIG_SET"){ if(n!=3) return ERR; config[k]=w[2]; return rOk(); }
    if(c=="CONFIG_GET"){ if(n!=2) return ERR; return config.count(k)?rStr(config[k]):rNull(); }
    if(c=="CONFIG_GETALL"){ Words v; for(auto&x:config){ v.push_back(x.first); v.push_back(x.second); } return rVec(v); }
    // hashes
    if(c=="HSET"){ if(n!=4||wrong(k,HASH)) return ERR; Val&v=at(k,HASH); bool cr=!v.h.count(w[2]); v.h[w[2]]=w[3]; return rInt(cr); }
    if(c=="HSETNX"){ if(n!=4||wrong(k,HASH)) return ERR; Val&v=at(k,HASH); bool cr=!v.h.count(w[2]); if(cr) v.h[w[2]]=w[3]; return rInt(cr); }
    if(c=="HMSET"){ if(n<4||n%2||wrong(k,HASH)) return ERR; Val&v=at(k,HASH); for(size_t i=2;i<n;i+=2) v.h[w[i]]=w[i+1]; return rOk(); }
    if(c=="HDEL"){ if(n<3) return ERR; return hdel(w,k,2,n); }
    if(c=="HINCRBY"){ if(n!=4) return ERR; return hincrby(k,w[2],w[3]); }
    if(c=="HINCRBYMULTI"){ if(n<4||(n-1)%3) return ERR; int64_t sum=0; bool bad=false; for(size_t i=1;i<n;i+=3){ int64_t r=0; if(hincrby(w[i],w[i+1],w[i+2],&r)==ERR) bad=true; sum+=r; } return bad?"?":rInt(sum); }
    if(c=="HCLONE"){ if(n!=3||wrong(w[2],HASH)||kind(w[2])!=NONE) return ERR; if(kind(k)==NONE) return rOk(); if(kind(k)!=HASH) return ERR; Val v=keys[k]; keys[w[2]]=v; return rOk(); }
    if(c=="HGET"){ if(n!=3) return ERR; return hget(k,w[2]); }
    if(c=="HEXISTS"){ if(n!=3||wrong(k,HASH)) return ERR; return rInt(kind(k)==HASH&&keys[k].h.count(w[2])); }
    if(c=="HKEYS"||c=="HVALS"||c=="HGETALL"){ if(n!=2||wrong(k,HASH)) return ERR; Words r; if(kind(k)==HASH) for(auto&x:keys[k].h){ if(c!="HVALS") r.push_back(x.first); if(c!="HKEYS") r.push_back(x.second); } return rVec(r); }
    if(c=="HLEN"){ if(n!=2||wrong(k,HASH)) return ERR; return rInt(len(k)); }
    // sets
    if(c=="SADD"){ if(n<3||wrong(k,SET)) return ERR; Val&v=at(k,SET); int64_t r=0; for(size_t i=2;i<n;i++) if(!v.h.count(w[i])){ v.h[w[i]]=""; r++; } return rInt(r); }
    if(c=="SREM"){ if(n<3||wrong(k,SET)) return ERR; Val&v=at(k,SET); int64_t r=0; for(size_t i=2;i<n;i++) r+=v.h.erase(w[i]); tidy(k); return rInt(r); }
    if(c=="SMOVE"){ if(n!=4||wrong(k,SET)||wrong(w[2],SET)) return ERR; if(kind(k)==NONE||!keys[k].h.count(w[3])) return rInt(0); keys[k].h.erase(w[3]); at(w[2],SET).h[w[3]]=""; tidy(k); return rInt(1); }
    if(c=="SISMEMBER"){ if(n!=3||wrong(k,SET)) return ERR; return rInt(kind(k)==SET&&keys[k].h.count(w[2])); }
    if(c=="SMEMBERS"){ if(n!=2||wrong(k,SET)) return ERR; Words r; if(kind(k)==SET) for(auto&x:keys[k].h) r.push_back(x.first); return rVec(r); }
    if(c=="SCARD"){ if(n!=2||wrong(k,SET)) return ERR; return rInt(len(k)); }
    // deques
    if(c=="DEQUE_PUSH_FRONT"||c=="DEQUE_PUSH_BACK"){ if(n<3||wrong(k,DEQUE)) return ERR; Val&v=at(k,DEQUE); for(size_t i=2;i<n;i++) if(c=="DEQUE_PUSH_FRONT") v.q.push_front(w[i]); else v.q.push_back(w[i]); return rInt(v.q.size()); }
    if(c=="DEQUE_POP_FRONT"||c=="DEQUE_POP_BACK"){ if(n!=2||wrong(k,DEQUE)) return ERR; if(kind(k)==NONE) return rNull(); Val&v=keys[k]; std::string r; if(c=="DEQUE_POP_FRONT"){ r=v.q.front(); v.q.pop_front(); } else { r=v.q.back(); v.q.pop_back(); } tidy(k); return rStr(r); }
    if(c=="DEQUE_TRIM_FRONT"||c=="DEQUE_CLEAR"){ int64_t keep=0; if(c=="DEQUE_CLEAR"?n!=2:(n!=3||!parseInt(w[2],keep)||keep<0)) return ERR; if(wrong(k,DEQUE)) return ERR; int64_t r=0; if(kind(k)==DEQUE) while((int64_t)keys[k].q.size()>keep){ keys[k].q.pop_front(); r++; } tidy(k); return rInt(r); }
    if(c=="DEQUE_LEN"){ if(n!=2||wrong(k,DEQUE)) return ERR; return rInt(len(k)); }
    // locality hashes
    if(c=="LHSET"){ if(n!=5) return ERR; return lhset(k,w[2],w[3],w[4]); }
    if(c=="LHMSET"){ if(n<5||(n-2)%3||wrong(k,LHASH)) return ERR; for(size_t i=2;i<n;i+=3) lhset(k,w[i],w[i+1],w[i+2]); return rOk(); }
    if(c=="LHDEL"){ if(n<3) return ERR; return lhdel(w,2,n); }
    if(c=="LHLOCDEL"){ if(n!=4||wrong(k,LHASH)) return ERR; if(kind(k)==NONE||!keys[k].h.count(w[2])||keys[k].hint[w[2]]!=w[3]) return rInt(0); return lhdel(w,2,3); }
    if(c=="LHGET"){ if(n!=3&&n!=4) return ERR; return lhget(k,w[2]); }
    if(c=="LHLEN"){ if(n!=2||wrong(k,LHASH)) return ERR; return rInt(len(k)); }
    if(c=="LHSET_AND_DEL_FALLBACK"){ if(n!=6) return ERR; std::string r=lhset(k,w[2],w[3],w[4]); hdel(w,w[5],2,3); return r; }
    if(c=="LHDEL_WITH_FALLBACK"){ if(n!=4) return ERR; std::string r=lhdel(w,2,3); if(r!=rInt(1)) return hdel(w,w[3],2,3); return r; }
    if(c=="LHGET_WITH_FALLBACK"){ if(n!=4&&n!=5) return ERR; std::string r=lhget(k,w[2]); if(r!=rNull()) return r; return hget(w[n-1],w[2]); }
    if(c=="CONVERT_HASH_FIELD_TO_LHASH"){ if(n!=6) return ERR; if(kind(w[3])==LHASH&&keys[w[3]].h.count(w[4])) return ERR; std::string r=hget(k,w[2]); if(r==ERR) return ERR; if(r==rNull()) return "?"; if(wrong(w[3],LHASH)) return ERR; std::string v=keys[k].h[w[2]]; lhset(w[3],w[4],w[5],v); hdel(w,k,2,3); return rOk(); }
    // versioned hashes
    if(c=="VHSET"){ if(n!=4||wrong(k,VHASH)) return ERR; Val&v=at(k,VHASH); if(!bumped[k]){ v.version++; bumped[k]=true; } v.h[w[2]]=w[3]; return rInt(v.version); }
    if(c=="VHDEL"){ if(n<3||wrong(k,VHASH)) return ERR; if(kind(k)==NONE) return rInt(0); Val&v=keys[k]; int64_t r=0; for(size_t i=2;i<n;i++) r+=v.h.erase(w[i]); if(r&&!bumped[k]){ v.version++; bumped[k]=true; } return rInt(v.version); }
    if(c=="VHGETALL"){ if(n!=2||wrong(k,VHASH)) return ERR; return versioned(k); }
    if(c=="VHLEN"){ if(n!=2||wrong(k,VHASH)) return ERR; return rInt(len(k)); }
    sym_fail("model: unknown command"); return ERR;
  }
  // every read of the whole state
  std::vector<Words> reads(const std::vector<std::string>&ks,const std::vector<std::string>&fs){
    std::vector<Words> r; for(auto&k:ks){ r.push_back({"TYPE",k}); r.push_back({"EXISTS",k}); Kind t=kind(k);
      if(t==NONE||t==STRING) r.push_back({"GET",k});
      if(t==NONE||t==HASH){ r.push_back({"HGETALL",k}); r.push_back({"HLEN",k}); } if(t==HASH){ r.push_back({"HKEYS",k}); r.push_back({"HVALS",k}); for(auto&f:fs){ r.push_back({"HGET",k,f}); r.push_back({"HEXISTS",k,f}); } }
      if(t==NONE||t==SET){ r.push_back({"SMEMBERS",k}); r.push_back({"SCARD",k}); } if(t==SET) for(auto&f:fs) r.push_back({"SISMEMBER",k,f});
      if(t==NONE||t==DEQUE) r.push_back({"DEQUE_LEN",k});
      if(t==NONE||t==LHASH) r.push_back({"LHLEN",k}); if(t==LHASH) for(auto&f:fs){ r.push_back({"LHGET",k,f}); r.push_back({"LHGET",k,f,"h"}); }
      if(t==NONE||t==VHASH){ r.push_back({"VHGETALL",k}); r.push_back({"VHLEN",k}); } }
    return r; }
};
// does a reply (or the replies inside a transaction's reply) match the expected ones?
static bool matchAt(const std::string&r,size_t&pos,const std::string&want){ if(want=="?"||want==ERR){ if(pos>=r.size()) return false; if(want==ERR&&r[pos]!='-') return false; size_t e=r.find("\r\n",pos); if(e==std::string::npos) return false; pos=e+2; return true; } if(r.size()-pos<want.size()) return false; bool ok=sym_bytes_equal(r.data()+pos,want.data(),want.size()); pos+=want.size(); return ok; }
static bool match(const std::string&r,const std::string&want){ size_t p=0; if(!matchAt(r,p,want)) return false; return p==r.size(); }
static bool matchAll(const std::string&r,const std::vector<std::string>&want){ std::string h="*"+std::to_string(want.size())+"\r\n"; size_t p=0; if(!matchAt(r,p,h)) return false; for(auto&w:want) if(!matchAt(r,p,w)) return false; return p==r.size(); }
// the same items in any order
static bool matchSet(const std::string&r,Words v){ std::sort(v.begin(),v.end()); for(int n=0;n<24;n++){ if(match(r,rVec(v))) return true; if(!std::next_permutation(v.begin(),v.end())) break; } return false; }
// runs commands one by one or as one transaction, on the real state machine and on the model
static void verifyReads(Machine&m,Ref&ref,const std::vector<std::string>&ks,const std::vector<std::string>&fs){ for(auto&w:ref.reads(ks,fs)){ std::string want=ref.exec(w); CHECK(match(m.run(w),want),"what a read returns"); } Words all; for(auto&x:ref.keys) all.push_back(x.first); CHECK(matchSet(m.run({"KEYS","*"}),all),"the keys that exist"); }
static void step(Machine&m,Ref&ref,const Words&w){ ref.begin(); std::string want=ref.exec(w); CHECK(match(m.run(w),want),"the reply of a command"); }
static std::string transact(Machine&m,const std::vector<Words>&ops){ Transaction t; for(auto&w:ops) t.push_back(request(w)); LogIndex c=0; if(m.index&&t.containsWrites()) c=m.index++; return m.disp->dispatch(t,c).val; }
static void stepTx(Machine&m,Ref&ref,const std::vector<Words>&ops){ ref.begin(); std::vector<std::string> want; for(auto&w:ops) want.push_back(ref.exec(w)); CHECK(matchAll(transact(m,ops),want),"the replies of a transaction"); }
// emptying the store leaves nothing behind
static void verifyEmptied(Machine&m,Ref&ref){ Words del={"DEL"}; for(auto&x:ref.keys) del.push_back(x.first); if(del.size()>1) step(m,ref,del); StagingArea st(*m.sm,true); auto it=st.getIterator(); bool clean=true; for(it->SeekToFirst();it->Valid();it->Next()) if(it->key().ToString()[0]!='_'&&it->key().ToString()[0]!='~') clean=false; CHECK(clean,"deleting every key leaves nothing behind"); }
