// A RESP reader written from the protocol description; used as the oracle for everything QuarkDB sends.
#pragma once
#include "sym.hh"
#include <vector>
struct Resp { char t=0; int64_t n=0; std::string s; std::vector<Resp> a; bool nil=false; };
struct RespIn { std::string_view d; size_t p=0; bool bad=false;
  RespIn(std::string_view x):d(x){}
  bool line(std::string&o){ o.clear(); while(true){ if(p>=d.size()){ bad=true; return false; } char c=d[p++]; if(c=='\r'){ if(p>=d.size()||d[p]!='\n'){ bad=true; return false; } p++; return true; } o.push_back(c); } }
  int64_t num(const std::string&s){ bool neg=false; size_t i=0; if(i<s.size()&&s[i]=='-'){ neg=true; i++; } if(i>=s.size()){ bad=true; return 0; } uint64_t v=0; for(;i<s.size();i++){ if(s[i]<'0'||s[i]>'9'){ bad=true; return 0; } v=v*10+(s[i]-'0'); } return neg?(int64_t)(0-v):(int64_t)v; }
  Resp get(){ Resp r; if(p>=d.size()){ bad=true; return r; } r.t=d[p++];
    if(r.t=='$'||r.t=='*'||r.t=='>'||r.t==':'){ std::string l; if(!line(l)) return r; r.n=num(l); if(bad) return r;
      if(r.t=='$'){ if(r.n<0){ r.nil=true; return r; } if(p+r.n+2>d.size()){ bad=true; return r; } r.s=std::string(d.substr(p,r.n)); p+=r.n; if(d[p]!='\r'||d[p+1]!='\n'){ bad=true; return r; } p+=2; }
      else if(r.t!=':') for(int64_t i=0;i<r.n&&!bad;i++) r.a.push_back(get()); }
    else if(r.t=='+'||r.t=='-') line(r.s); else bad=true; return r; }
};
inline Resp decodeAll(const std::string&s,const char*msg){ RespIn in(s); Resp r=in.get(); CHECK(!in.bad&&in.p==s.size(),msg); return r; }
