#include <string.h>
#include "symfs.hh"
#include <rocksdb/db.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#ifdef SYMX
#define LBL(x) asm(#x)
#else
#define LBL(x) asm("__wrap_" #x)
#endif
namespace symfs {
FS& fs(){ static FS*f=new FS; return *f; }
static std::string norm(std::string p){ std::string r; for(size_t i=0;i<p.size();i++) if(!(p[i]=='/'&&!r.empty()&&r.back()=='/')) r.push_back(p[i]); while(r.size()>1&&r.back()=='/') r.pop_back(); return r; }
static bool under(const std::string&p,const std::string&d){ return p.size()>d.size()&&p.compare(0,d.size(),d)==0&&(p[d.size()]=='/'||d=="/"); }
static bool db(const std::string&p){ auto it=symdb::world().disks.find(p); return it!=symdb::world().disks.end()&&it->second->exists; }
bool exists(const std::string&q){ std::string p=norm(q); return p=="/"||p=="."||fs().nodes.count(p)||db(p); }
bool isDir(const std::string&q){ std::string p=norm(q); if(p=="/"||p==".") return true; auto it=fs().nodes.find(p); if(it!=fs().nodes.end()) return it->second.dir; return db(p); }
void put(const std::string&q,const std::string&data,unsigned mode){ Node n; n.data=data; n.mode=mode; fs().nodes[norm(q)]=n; }
void dir(const std::string&q){ Node n; n.dir=true; n.mode=0755; fs().nodes[norm(q)]=n; }
void remove(const std::string&q){ std::string p=norm(q); auto&m=fs().nodes; for(auto it=m.begin();it!=m.end();) if(it->first==p||under(it->first,p)) it=m.erase(it); else ++it; auto&d=symdb::world().disks; for(auto it=d.begin();it!=d.end();) if(it->first==p||under(it->first,p)) it=d.erase(it); else ++it; }
void move(const std::string&a,const std::string&b){ std::string f=norm(a),t=norm(b); std::map<std::string,Node> add; auto&m=fs().nodes; for(auto it=m.begin();it!=m.end();) if(it->first==f||under(it->first,f)){ add[t+it->first.substr(f.size())]=it->second; it=m.erase(it); } else ++it; for(auto&x:add) m[x.first]=x.second;
  std::map<std::string,std::shared_ptr<symdb::Disk>> ad; auto&d=symdb::world().disks; for(auto it=d.begin();it!=d.end();) if(it->first==f||under(it->first,f)){ ad[t+it->first.substr(f.size())]=it->second; it=d.erase(it); } else ++it; for(auto&x:ad) d[x.first]=x.second; }
std::vector<std::string> list(const std::string&q){ std::string p=norm(q); std::vector<std::string> r; auto add=[&](const std::string&x){ if(!under(x,p)) return; std::string n=x.substr(p=="/"?1:p.size()+1); size_t s=n.find('/'); if(s!=std::string::npos) n=n.substr(0,s); for(auto&y:r) if(y==n) return; r.push_back(n); }; for(auto&x:fs().nodes) add(x.first); for(auto&x:symdb::world().disks) if(x.second->exists) add(x.first); return r; }
void reset(){ fs()=FS(); }
static std::string parent(const std::string&p){ size_t s=p.rfind('/'); if(s==std::string::npos) return "."; return s==0?"/":p.substr(0,s); }
static bool step(){ long i=fs().ops++; if(i==fs().crashAt) throw symdb::Crash(); if(i==fs().failAt){ errno=EIO; return false; } return true; }
struct File { std::string path; size_t pos=0; bool eof=false,write=false,random=false,bad=false; };
struct Dir { std::vector<std::string> names; std::string path; size_t pos=0; struct dirent e; };
static unsigned char rnd;
static int doStat(const std::string&q,struct stat*s){ std::string p=norm(q); if(!exists(p)){ errno=ENOENT; return -1; } memset(s,0,sizeof *s); auto it=fs().nodes.find(p); if(isDir(p)) s->st_mode=S_IFDIR|0755; else s->st_mode=S_IFREG|(it->second.mode&07777); s->st_dev=1; s->st_size=it==fs().nodes.end()?0:it->second.data.size(); return 0; }
}
using namespace symfs;
extern "C" {
int fs_stat(const char*p,struct stat*s) LBL(stat);
int fs_fstat(int fd,struct stat*s) LBL(fstat);
int fs_fileno(FILE*f) LBL(fileno);
int fs_mkdir(const char*p,mode_t) LBL(mkdir);
FILE* fs_fopen(const char*p,const char*m) LBL(fopen);
size_t fs_fread(void*b,size_t s,size_t n,FILE*g) LBL(fread);
size_t fs_fwrite(const void*b,size_t s,size_t n,FILE*g) LBL(fwrite);
int fs_fclose(FILE*f) LBL(fclose);
int fs_feof(FILE*f) LBL(feof);
int fs_ferror(FILE*f) LBL(ferror);
int fs_rename(const char*a,const char*b) LBL(rename);
int fs_unlink(const char*p) LBL(unlink);
int fs_system(const char*c) LBL(system);
DIR* fs_opendir(const char*p) LBL(opendir);
struct dirent* fs_readdir(DIR*g) LBL(readdir);
int fs_closedir(DIR*d) LBL(closedir);
int fs_statfs(const char*p,struct statfs*s) LBL(statfs);
int fs_stat(const char*p,struct stat*s) { return doStat(p,s); }
int fs_fstat(int fd,struct stat*s) { auto&m=fs().nodes; int i=100; for(auto&x:m){ if(i==fd) return doStat(x.first,s); i++; } errno=EBADF; return -1; }
int fs_fileno(FILE*f) { File*x=(File*)f; int i=100; for(auto&n:fs().nodes){ if(n.first==x->path) return i; i++; } return -1; }
int fs_mkdir(const char*p,mode_t) { if(!step()) return -1; std::string q=norm(p); if(exists(q)){ errno=EEXIST; return -1; } if(!isDir(parent(q))){ errno=ENOENT; return -1; } dir(q); return 0; }
FILE* fs_fopen(const char*p,const char*m){ std::string q=norm(p); if(q=="/dev/urandom"){ File*f=new File; f->random=true; return (FILE*)f; } bool w=m[0]=='w'; if(w){ if(!step()) return 0; if(isDir(q)||!isDir(parent(q))){ errno=ENOENT; return 0; } put(q,"",0644); } else if(!exists(q)){ errno=ENOENT; return 0; } File*f=new File; f->path=q; f->write=w; return (FILE*)f; }
size_t fs_fread(void*b,size_t s,size_t n,FILE*g){ File*f=(File*)g; size_t k=s*n; if(f->random){ for(size_t i=0;i<k;i++) ((unsigned char*)b)[i]=++rnd; return n; } if(fs().readError||isDir(f->path)) return 0; std::string&d=fs().nodes[f->path].data; size_t a=d.size()>f->pos?d.size()-f->pos:0; if(k>a){ k=a; f->eof=true; } if(k) memcpy(b,d.data()+f->pos,k); f->pos+=k; return s?k/s:0; }
size_t fs_fwrite(const void*b,size_t s,size_t n,FILE*g){ File*f=(File*)g; if(s*n==0) return 0; if(!step()){ if(fs().failKind==0) return 0; size_t k=fs().failKind==1?n/2:n; fs().nodes[f->path].data.append((const char*)b,s*k); if(fs().failKind==2){ f->bad=true; fs().nodes[f->path].data.resize(fs().nodes[f->path].data.size()-1); } return k; } fs().nodes[f->path].data.append((const char*)b,s*n); return n; }
int fs_fclose(FILE*g){ File*f=(File*)g; bool bad=f->bad; delete f; return bad?EOF:0; }
int fs_feof(FILE*f) { return ((File*)f)->eof; }
int fs_ferror(FILE*f) { return fs().readError; }
int fs_rename(const char*a,const char*b) { if(!step()) return -1; if(!exists(a)){ errno=ENOENT; return -1; } std::string q=norm(b); if(!isDir(parent(q))){ errno=ENOENT; return -1; } if(exists(q)){ if(isDir(q)){ if(!list(q).empty()||db(q)||!isDir(a)){ errno=ENOTEMPTY; return -1; } } else if(isDir(a)){ errno=ENOTDIR; return -1; } symfs::remove(q); } symfs::move(a,b); return 0; }
int fs_unlink(const char*p) { if(!step()) return -1; if(!exists(p)||isDir(p)){ errno=ENOENT; return -1; } symfs::remove(p); return 0; }
// the two shell commands the code issues: rm -rf PATH and mv "A" "B"
int fs_system(const char*c){ fs().commands.push_back(c); std::vector<std::string> w; bool in=false; char q=0; std::string cur; for(const char*p=c;;p++){ if(!*p){ if(in) w.push_back(cur); break; } if(q){ if(*p==q) q=0; else cur.push_back(*p); } else if(*p=='\''||*p=='"'){ q=*p; in=true; } else if(*p=='&'||*p==';'||*p=='|'||*p=='\n'||*p=='<'||*p=='>'||*p=='$'||*p=='('){ if(in) w.push_back(cur); break; } else if(*p==' '){ if(in) w.push_back(cur); cur.clear(); in=false; } else { cur.push_back(*p); in=true; } }
  if(!step()) return 256; if(w.size()>=3&&w[0]=="rm"&&w[1]=="-rf"){ for(size_t i=2;i<w.size();i++) symfs::remove(w[i]); return 0; }
  if(w.size()==3&&w[0]=="mv"){ if(!exists(w[1])) return 256; std::string t=w[2]; if(isDir(t)){ size_t s=norm(w[1]).rfind('/'); t=norm(t)+"/"+norm(w[1]).substr(s+1); } else if(!isDir(parent(norm(t)))) return 256; symfs::move(w[1],t); return 0; } return 32512; }
DIR* fs_opendir(const char*p){ if(!isDir(p)){ errno=ENOENT; return 0; } Dir*d=new Dir; d->path=norm(p); d->names={".",".."}; for(auto&x:list(p)) d->names.push_back(x); return (DIR*)d; }
struct dirent* fs_readdir(DIR*g){ Dir*d=(Dir*)g; if(fs().readError){ errno=EIO; return 0; } if(d->pos>=d->names.size()) return 0; std::string&n=d->names[d->pos++]; memset(&d->e,0,sizeof d->e); memcpy(d->e.d_name,n.c_str(),n.size()+1); d->e.d_type=(n=="."||n==".."||isDir(d->path+"/"+n))?DT_DIR:DT_REG; return &d->e; }
int fs_closedir(DIR*d){ delete (Dir*)d; return 0; }
int fs_statfs(const char*p,struct statfs*s) { if(fs().statfsFails||!exists(p)){ errno=EIO; return -1; } memset(s,0,sizeof *s); s->f_bavail=fs().bavail; s->f_bfree=fs().bfree; s->f_blocks=fs().blocks; s->f_bsize=fs().bsize; return 0; }
}
