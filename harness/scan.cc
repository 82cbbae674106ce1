// iterating over a collection page by page
#include "smmodel.hh"
#ifndef ITEMS
#define ITEMS 3
#endif
#ifndef NL
#define NL 2
#endif
// decodes the reply of a scan command: *2, cursor, *n items
struct Page { std::string cursor; Words items; bool ok=false; };
static std::string bulk(const std::string&r,size_t&p,bool&ok){ ok=false; if(p>=r.size()||r[p]!='$') return ""; size_t e=r.find("\r\n",p); if(e==std::string::npos) return ""; size_t n=0; for(size_t i=p+1;i<e;i++) n=n*10+(r[i]-'0'); p=e+2; if(p+n+2>r.size()) return ""; std::string v=r.substr(p,n); p+=n+2; ok=true; return v; }
static Page page(const std::string&r){ Page g; size_t p=4; if(r.compare(0,4,"*2\r\n")) return g; bool ok; g.cursor=bulk(r,p,ok); if(!ok||p>=r.size()||r[p]!='*') return g; size_t e=r.find("\r\n",p); size_t n=0; for(size_t i=p+1;i<e;i++) n=n*10+(r[i]-'0'); p=e+2; for(size_t i=0;i<n;i++){ g.items.push_back(bulk(r,p,ok)); if(!ok) return g; } g.ok=p==r.size(); return g; }
// names: any bytes out of an alphabet with the separators the key layout uses
static std::string name(const char*n,unsigned lo,unsigned alphabet=4){ unsigned len=sym::range(n,lo,NL); std::string s; for(unsigned i=0;i<len;i++) s.push_back("a#|*"[sym::choose("char",alphabet)]); return s; }
static bool has(const Words&v,const std::string&x){ for(auto&y:v) if(y==x) return true; return false; }
static void collect(Machine&m,Words cmd,const std::string&count,unsigned per,unsigned width,Words&all,unsigned limit,const Words&change=Words(),bool*changed=nullptr){
  std::string cursor="0"; for(unsigned round=0;;round++){ CHECK(round<limit,"a scan comes to an end"); Words c=cmd; c.insert(c.begin()+(cmd[0]=="SCAN"?1:2),cursor); if(!count.empty()){ c.push_back("COUNT"); c.push_back(count); }
    Page g=page(m.run(c)); CHECK(g.ok,"a scan replies with a cursor and a list"); CHECK(g.items.size()%width==0&&g.items.size()<=per*width,"a page holds at most the requested number of items"); for(auto&x:g.items) all.push_back(x); cursor=g.cursor; if(cursor=="0") return; CHECK(cursor.compare(0,5,"next:")==0,"what a cursor looks like");
    if(!change.empty()&&!*changed&&sym::flip("change")){ m.run(change); *changed=true; } } }
static std::vector<std::string> distinct(const char*n,unsigned lo,unsigned alphabet=4){ std::vector<std::string> v; unsigned k=sym::range("items",0,ITEMS); for(unsigned i=0;i<k;i++){ std::string s=name(n,lo,alphabet); if(i&&!(v.back()<s)) sym_assume(false); v.push_back(s); } return v; }
// SSCAN / HSCAN: every field exactly once, in any page size, with another field disappearing or appearing meanwhile
static void fields(bool hash){ Machine m; m.index=sym::flip("log"); std::vector<std::string> f=distinct("field",0,3); std::map<std::string,char> val; for(auto&x:f){ if(hash){ char v=(char)sym_u8("value"); val[x]=v; m.run({"HSET","k#",x,std::string(1,v)}); } else m.run({"SADD","k#",x}); }
  m.run({hash?"HSET":"SADD","k#2","z","z"}); m.run({hash?"HSET":"SADD","k","z","z"});
  unsigned c=sym::range("count",1,ITEMS); Words change; std::string touched; bool changed=false; unsigned what=sym::choose("what",3); if(what==1){ touched=name("removed",0,3); change={hash?"HDEL":"SREM","k#",touched}; } if(what==2){ touched=name("added",0,3); if(hash) change={"HSETNX","k#",touched,"n"}; else change={"SADD","k#",touched}; }
  Words got; collect(m,{hash?"HSCAN":"SSCAN","k#"},std::to_string(c),c,hash?2:1,got,ITEMS+3,change,&changed);
  std::map<std::string,int> seen; for(size_t i=0;i<got.size();i+=hash?2:1){ CHECK(seen[got[i]]++==0,"no item is returned twice"); if(hash&&val.count(got[i])) CHECK(got[i+1].size()==1&&sym::eq(got[i+1],std::string(1,val[got[i]])),"each field comes with its value"); }
  for(auto&x:f) if(!(changed&&x==touched)) CHECK(seen.count(x),"every item present throughout is returned"); for(auto&x:seen) CHECK(has(f,x.first)||(changed&&x.first==touched),"only items of this key are returned"); sym_reach("end"); }
HARNESS(scan_set){ fields(false); } HARNESS(scan_hash){ fields(true); }
// SCAN and KEYS, with patterns
static bool glob(const char*p,const char*e,const char*s,const char*t){ for(;p<e;p++){ if(*p=='*'){ for(const char*q=s;q<=t;q++) if(glob(p+1,e,q,t)) return true; return false; } if(s==t||(*p!='?'&&*p!=*s)) return false; s++; } return s==t; }
static bool globs(const std::string&p,const std::string&s){ return glob(p.data(),p.data()+p.size(),s.data(),s.data()+s.size()); }
static const char*const PAT[]={"","*","a*","#*","|*","?","a?","*a","a","#","*#*","|","a#","?#"};
HARNESS(scan_keys){ Machine m; std::vector<std::string> k=distinct("key",1); unsigned t=0; for(auto&x:k){ switch(t++%3){ case 0: m.run({"SET",x,"v"}); break; case 1: m.run({"HSET",x,"f","v"}); break; default: m.run({"DEQUE_PUSH_BACK",x,"v","w"}); } } m.run({"CONFIG_SET","c","d"});
  std::string pat=PAT[sym::choose("pattern",sizeof(PAT)/sizeof(*PAT))]; unsigned c=sym::range("count",1,ITEMS); Words cmd={"SCAN"}; if(!pat.empty()){ cmd.push_back("MATCH"); cmd.push_back(pat); }
  Words got,want; for(auto&x:k) if(pat.empty()||globs(pat,x)) want.push_back(x); collect(m,cmd,std::to_string(c),c,1,got,ITEMS+3); CHECK(got==want,"SCAN returns every matching key once, and no other"); if(!pat.empty()) CHECK(match(m.run({"KEYS",pat}),rVec(want)),"KEYS returns every matching key"); sym_reach("end"); }
// LHSCAN with locality patterns
HARNESS(scan_lhash){ Machine m; unsigned n=sym::range("items",0,ITEMS); std::map<std::string,std::string> hint; std::map<std::string,char> val; for(unsigned i=0;i<n;i++){ std::string f(1,"abc"[i]),h=name("hint",1); char v=(char)sym_u8("value"); hint[f]=h; val[f]=v; m.run({"LHSET","k",f,h,std::string(1,v)}); } m.run({"LHSET","k2","a","a","v"});
  std::string pat=PAT[sym::choose("pattern",sizeof(PAT)/sizeof(*PAT))]; unsigned c=sym::range("count",1,2); Words cmd={"LHSCAN","k"}; if(!pat.empty()){ cmd.push_back("MATCHLOC"); cmd.push_back(pat); }
  Words got; collect(m,cmd,std::to_string(c),c,3,got,ITEMS+3); std::map<std::string,int> seen; for(size_t i=0;i<got.size();i+=3){ CHECK(seen[got[i+1]]++==0,"no field is returned twice"); CHECK(hint.count(got[i+1])&&hint[got[i+1]]==got[i]&&sym::eq(got[i+2],std::string(1,val[got[i+1]])),"each field comes with its locality hint and value"); CHECK(pat.empty()||globs(pat,got[i]),"only matching hints are returned"); }
  for(auto&x:hint) if(pat.empty()||globs(pat,x.second)) CHECK(seen.count(x.first),"every matching field is returned"); sym_reach("end"); }
// DEQUE_SCAN_BACK: pages from the back, each page in order
HARNESS(scan_deque){ Machine m; std::deque<std::string> q; unsigned n=sym::range("items",0,ITEMS+1); for(unsigned i=0;i<n;i++){ std::string v(1,(char)sym_u8("value")); if(sym::flip("front")){ q.push_front(v); m.run({"DEQUE_PUSH_FRONT","k",v}); } else { q.push_back(v); m.run({"DEQUE_PUSH_BACK","k",v}); } }
  unsigned c=sym::range("count",1,ITEMS+1); std::string cursor="0"; size_t left=q.size(); for(unsigned round=0;;round++){ CHECK(round<ITEMS+3,"a scan comes to an end"); Page g=page(m.run({"DEQUE_SCAN_BACK","k",cursor,"COUNT",std::to_string(c)})); CHECK(g.ok,"a scan replies with a cursor and a list"); CHECK(g.items.size()==std::min<size_t>(c,left),"a page of a deque is full unless it is the last"); for(size_t i=0;i<g.items.size();i++) CHECK(sym::eq(g.items[i],q[left-g.items.size()+i]),"the items of a deque in order"); left-=g.items.size(); cursor=g.cursor; if(cursor=="0") break; }
  CHECK(left==0,"every item of a deque is returned"); sym_reach("end"); }
