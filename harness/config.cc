// Configuration files.
#include "sym.hh"
#include "symfs.hh"
#include "Configuration.hh"
#include "config/ConfigurationReader.hh"
#include "utils/FileUtils.hh"
#include "Utils.hh"
#include <sys/stat.h>
#ifndef LINES
#define LINES 3
#endif
#ifndef PORT
#define PORT 2
#endif
#ifndef LEN
#define LEN 4
#endif
using namespace quarkdb;
// what a file means, line by line, word by word
struct Conf { int mode=0; std::string db,host; long port=0; int trace=-1; std::string cert,key,pwf,pw; bool local=false,wal=true; };
static std::vector<std::string> words(const std::string&l){ std::vector<std::string> v; std::string w; for(char c:l){ if(c==' '||(c>='\t'&&c<='\r')){ if(!w.empty()) v.push_back(w); w.clear(); } else w+=c; } if(!w.empty()) v.push_back(w); return v; }
static bool boolean(const std::string&s,bool&b){ if(s=="true") b=true; else if(s=="false") b=false; else return false; return true; }
static bool digits(const std::string&s){ if(s.empty()) return false; for(char c:s) if(c<'0'||c>'9') return false; return true; }
static bool applyLine(Conf&c,const std::vector<std::string>&w){
  if(w.empty()||w[0].compare(0,6,"redis.")) return true; std::string o=w[0].substr(6); static const char*const MODES[]={"standalone","raft","bulkload"}; if(w.size()<2) return false; const std::string&v=w[1];
  if(o=="mode"){ for(int i=0;i<3;i++) if(v==MODES[i]){ c.mode=i; return true; } return false; }
  if(o=="trace"){ struct { const char*n; TraceLevel l; } T[]={{"off",TraceLevel::off},{"error",TraceLevel::error},{"warn",TraceLevel::warning},{"warning",TraceLevel::warning},{"info",TraceLevel::info},{"debug",TraceLevel::debug},{"all",TraceLevel::debug}}; for(auto&t:T) if(v==t.n){ c.trace=(int)t.l; return true; } return false; }
  if(o=="database") c.db=v; else if(o=="certificate") c.cert=v; else if(o=="certificate_key") c.key=v; else if(o=="password_file") c.pwf=v; else if(o=="password") c.pw=v;
  else if(o=="write_ahead_log") return boolean(v,c.wal); else if(o=="require_password_for_localhost") return boolean(v,c.local);
  else if(o=="myself"){ size_t p=v.find(':'); std::string n=p==std::string::npos?"":v.substr(p+1); if(!n.empty()&&(n[0]=='-'||n[0]=='+')) n=n.substr(1); if(p==0||v.substr(0,p).find_first_of(",|")!=std::string::npos||!digits(n)) return false; c.host=v.substr(0,p); c.port=atol(v.c_str()+p+1); return true; }
  else return false; return true; }
static bool legal(const Conf&c){ if(c.db.empty()||c.db.back()=='/') return false; if((c.mode==1)!=!c.host.empty()) return false; if(c.cert.empty()!=c.key.empty()) return false; if(!c.pwf.empty()&&!c.pw.empty()) return false; return !(c.local&&c.pw.empty()&&c.pwf.empty()); }
static void compare(const std::string&text){
  Conf c; bool ok=true; std::string l; for(char ch:text+"\n"){ if(ch=='\n'){ ok=ok&&applyLine(c,words(l)); l.clear(); } else l+=ch; } ok=ok&&legal(c);
  Configuration*k=new Configuration; bool got=Configuration::fromString(text,*k); CHECK(got==ok,"a configuration file is accepted exactly if every option in it is known and legal");
  if(ok){ sym_reach("accepted"); CHECK((int)k->getMode()==c.mode,"the mode is the one configured"); CHECK(sym::eq(k->getDatabase(),c.db),"the database is the one configured"); CHECK(sym::eq(k->getCertificatePath(),c.cert)&&sym::eq(k->getCertificateKeyPath(),c.key),"the certificate and key are those configured"); CHECK(sym::eq(k->getPassword(),c.pw)&&sym::eq(k->getPasswordFilePath(),c.pwf),"the password is the one configured"); CHECK(k->getRequirePasswordForLocalhost()==c.local&&k->getWriteAheadLog()==c.wal,"the switches are those configured"); CHECK(sym::eq(k->getMyself().hostname,c.host)&&k->getMyself().port==c.port,"the server is the one configured"); if(c.trace>=0) CHECK((int)k->getTraceLevel()==c.trace,"the trace level is the one configured"); } else sym_reach("refused");
  delete k; }
static const char*const OPTS[]={"mode","database","myself","trace","certificate","certificate_key","write_ahead_log","password_file","password","require_password_for_localhost"};
// option lines after a minimal legal file, each with one of the values that matter for it
HARNESS(config_options){
  static const char*const VALS[][4]={{"raft","bulkload","standalone","Raft"},{"/e","/e/","/","x"},{"h:1","h","h:1x",":5"},{"off","warning","all","verbose"},{"/c","x","/","-"},{"/k","x","/","-"},{"true","false","TRUE","1"},{"/p","x","/","-"},{"pw","x","/","-"},{"true","false","yes","0"}};
  std::string text; if(sym::flip("base")) text="redis.mode raft\nredis.database /d\nredis.myself h:77\n"; else text="xrd.port 1 redis.mode\nredis.database /d # where\n";
  for(int i=0;i<LINES;i++){ unsigned o=sym::choose("option",10), form=sym::choose("form",i?2:11); std::string name=std::string("redis.")+OPTS[o], v=VALS[o][form==0||form>=5?sym::choose("value",o>=4&&o!=6&&o!=9&&o!=5?1:(form==0?4:1)):0];
    if(form==0) text+=name+" "+v+"\n"; else if(form==1) text+=name+"\n"; else if(form==2) text+=name+"x "+v+"\n"; else if(form==3) text+=name.substr(0,name.size()-1)+" "+v+"\n"; else if(form==4) text+="#"+name+" "+v+"\n"; else if(form==5) text+=" \t"+name+"\t\t"+v+" \r\n"; else if(form==6) text+="\n\n"+name+" "+v+" junk redis.mode\n"; else if(form==7) text+=name+"  \nplain words here\n"; else if(form==9) text+="my"+name+" "+v+"\n"; else if(form==10) text+=name.substr(6)+" "+name+" "+v+"\n"; else { text+=name+" "+v; break; } }
  compare(text); sym_reach("end"); }
// arbitrary bytes as value, and arbitrary small files
HARNESS(config_bytes){
  std::string v=sym::str("value",1,LEN), text; unsigned o=sym::choose("option",3); if(o==2) text="redis.mode raft\nredis.database /d\nredis.myself "+v+"\n"; else if(o==0) text="redis.database "+v+"\nredis.trace all\n"; else text="redis.database /d\nredis.password "+v+"\nredis.trace all\n";
  compare(text); sym_reach("end"); }
// the reader: words of the file, in order; lines
HARNESS(config_reader){
  std::string t=sym::str("text",0,LEN), plain=t; ConfigurationReader r(t); std::vector<std::pair<size_t,std::string>> ws; std::vector<size_t> line; size_t nl=0; bool sp=true; auto space=[](char c){ return c==' '||(c>='\t'&&c<='\r'); };
  for(size_t i=0;i<t.size();i++){ if(space(t[i])){ sp=true; if(t[i]=='\n') nl++; } else { if(sp){ ws.push_back({i,""}); line.push_back(nl); } ws.back().second+=t[i]; sp=false; } }
  size_t at=0; int steps=0; while(!r.eof()){ CHECK(++steps<20,"reading ends"); if(at>=ws.size()) break; CHECK(sym::eq(r.getCurrentWord(),ws[at].second),"words are read in order"); if(sym::flip("line")){ size_t l=line[at]; while(at<ws.size()&&line[at]==l) at++; r.advanceLine(); } else { at++; r.advanceWord(); } }
  CHECK(at==ws.size()&&r.eof(),"reading ends exactly at the last word"); CHECK(r.getCurrentWord().empty(),"nothing after the end"); sym_reach("end"); }
// password files
HARNESS(config_password){
  symfs::reset(); symfs::dir("/d"); unsigned mode=sym_u16("mode")&0777; std::string body=sym::str("content",0,LEN); bool there=sym::flip("exists"); symfs::fs().readError=there&&sym::flip("error"); if(there) symfs::put("/d/pw",body,mode);
  Configuration c; CHECK(Configuration::fromString("redis.mode standalone\nredis.database /d\nredis.password_file /d/pw\n",c),"legal"); std::string pw; bool threw=sym::throws([&]{ pw=c.extractPasswordOrDie(); });
  bool ok=there&&!symfs::fs().readError&&mode==0400; CHECK(threw==!ok,"a password file is used exactly if it can be read and only its owner may read it");
  if(ok){ size_t n=body.size(); while(n&&(body[n-1]==' '||(body[n-1]>='\t'&&body[n-1]<='\r'))) n--; CHECK(sym::eq(pw,body.substr(0,n)),"the password is the content without trailing white space"); sym_reach("read"); } sym_reach("end"); }
// host:port and lists of them
HARNESS(server_names){
  std::string t=sym::str("text",0,LEN); std::vector<RaftServer> v; bool got=parseServers(t,v); std::vector<std::string> parts(1); for(char c:t) if(c==',') parts.emplace_back(); else parts.back()+=c;
  bool ok=true,plain=true; std::vector<std::pair<std::string,long>> want; for(auto&p:parts){ size_t k=p.find(':'); if(k==std::string::npos){ ok=false; break; } std::string n=p.substr(k+1),h=p.substr(0,k); while(!n.empty()&&(n[0]==' '||(n[0]>='\t'&&n[0]<='\r'))){ n=n.substr(1); plain=false; } bool neg=!n.empty()&&n[0]=='-'; if(neg||(!n.empty()&&n[0]=='+')){ n=n.substr(1); plain=false; } if(!digits(n)||h.find('|')!=std::string::npos||h.empty()){ ok=false; break; } if(h.find('\0')!=std::string::npos) plain=false; long q=0; for(char c:n) q=q*10+(c-'0'); want.push_back({h,neg?-q:q}); }
  if(!ok) CHECK(!got,"only servers that can be written and read back are accepted"); else { bool dup=false; for(size_t i=0;i<want.size();i++) for(size_t j=0;j<i;j++) if(want[i]==want[j]) dup=true; if(dup) CHECK(!got,"each server appears once"); else if(plain) CHECK(got,"a list of servers is accepted"); if(got){ CHECK(v.size()==want.size(),"every server is parsed"); for(size_t i=0;i<v.size();i++) CHECK(v[i].hostname==want[i].first&&v[i].port==want[i].second,"host and port are those written"); std::vector<RaftServer> w2; CHECK(parseServers(serializeNodes(v),w2)&&w2==v,"a list of servers survives being written and read"); sym_reach("parsed"); } } sym_reach("end"); }
HARNESS(server_port){
  static const char*const P[]={"","6","21474836","429496729","-","-214748364","92233720368547758"}; std::string d=P[sym::choose("prefix",7)]; bool neg=d[0]=='-'; __int128 v=d.size()>neg?atoll(d.c_str()+neg):0; unsigned n=sym::range("digits",1,PORT); for(unsigned i=0;i<n;i++){ unsigned c=sym_u8("digit"); if(c<'0'||c>'9') sym_prune(); d+=(char)c; v=v*10+(c-'0'); } if(neg) v=-v; RaftServer s("?",-7); bool got=parseServer("h:"+d,s); if(v>=0&&v<=65535) CHECK(got,"a port is accepted"); if(got){ CHECK((__int128)s.port==v,"host and port are those written"); sym_reach("parsed"); } sym_reach("end"); }
