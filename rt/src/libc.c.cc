// C library functions, written without input-dependent branching where that is practical
#include <stddef.h>
#include <stdint.h>
#include <time.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
extern "C" {
double symx_strtod(const char*,unsigned long*); void sym_yield(); unsigned long sym_concretize(unsigned long); void symx_external(const char*);
extern long symx_now_ns;
static int symx_errno_; int* __errno_location(){ return &symx_errno_; }
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int strcmp(const char*a,const char*b){ size_t i=0; while(a[i]&&a[i]==b[i]) i++; return (int)(unsigned char)a[i]-(int)(unsigned char)b[i]; }
int strncmp(const char*a,const char*b,size_t n){ size_t i=0; while(i<n&&a[i]&&a[i]==b[i]) i++; if(i==n) return 0; return (int)(unsigned char)a[i]-(int)(unsigned char)b[i]; }
int strcasecmp(const char*a,const char*b){ size_t i=0; for(;;i++){ unsigned char x=a[i],y=b[i]; x=(x>='A'&&x<='Z')?x+32:x; y=(y>='A'&&y<='Z')?y+32:y; if(x!=y) return (int)x-(int)y; if(!x) return 0; } }
int strncasecmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ unsigned char x=a[i],y=b[i]; x=(x>='A'&&x<='Z')?x+32:x; y=(y>='A'&&y<='Z')?y+32:y; if(x!=y) return (int)x-(int)y; if(!x) return 0; } return 0; }
char* strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
void* memchr(const void*p,int c,size_t n){ const unsigned char*s=(const unsigned char*)p; for(size_t i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return 0; }
char* strstr(const char*h,const char*n){ size_t l=strlen(n); for(;;h++){ size_t i=0; while(i<l&&h[i]&&h[i]==n[i]) i++; if(i==l) return (char*)h; if(!*h) return 0; } }
char* strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char* strerror(int){ static char e[]="error"; return e; }
int isspace(int c){ return (c==' ')|((c>=9)&(c<=13)); }
int isdigit(int c){ return (unsigned)(c-'0')<10u; }
int isprint(int c){ return (unsigned)(c-32)<95u; }
int isalpha(int c){ return (unsigned)((c|32)-'a')<26u; }
int isalnum(int c){ return isalpha(c)|isdigit(c); }
int isxdigit(int c){ return isdigit(c)|((unsigned)((c|32)-'a')<6u); }
int isupper(int c){ return (unsigned)(c-'A')<26u; }
int islower(int c){ return (unsigned)(c-'a')<26u; }
int ispunct(int c){ return ((unsigned)(c-33)<94u)&!isalnum(c); }
int iscntrl(int c){ return ((unsigned)c<32u)|(c==127); }
int tolower(int c){ return isupper(c)?c+32:c; }
int toupper(int c){ return islower(c)?c-32:c; }
// strtoll family, base 10 (or 16), with errno on overflow
static long long sto(const char*s,char**end,int base){
  const char*p=s; while(isspace((unsigned char)*p)) p++; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; }
  if(base==0) base=10; if(base!=10) symx_external("strtol base");
  bool any=false,ovf=false; unsigned long long v=0; unsigned long long lim=neg?9223372036854775808ull:9223372036854775807ull;
  while(isdigit((unsigned char)*p)){ unsigned d=(unsigned)(*p-'0'); any=true; if(!ovf){ if(v>(lim-d)/10) ovf=true; else v=v*10+d; } p++; }
  if(end) *end=(char*)(any?p:s);
  if(ovf){ symx_errno_=34; return neg?(-9223372036854775807ll-1):9223372036854775807ll; }
  return neg?(long long)(0ull-v):(long long)v; }
long __isoc23_strtol(const char*s,char**e,int b){ return (long)sto(s,e,b); }
long long __isoc23_strtoll(const char*s,char**e,int b){ return sto(s,e,b); }
static unsigned long long stou(const char*s,char**end,int base){
  const char*p=s; while(isspace((unsigned char)*p)) p++; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; }
  if(base!=10&&base!=0) symx_external("strtoul base"); bool any=false,ovf=false; unsigned long long v=0;
  while(isdigit((unsigned char)*p)){ unsigned d=(unsigned)(*p-'0'); any=true; if(!ovf){ if(v>(~0ull-d)/10) ovf=true; else v=v*10+d; } p++; }
  if(end) *end=(char*)(any?p:s); if(ovf){ symx_errno_=34; return ~0ull; } return neg?0ull-v:v; }
unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return stou(s,e,b); }
unsigned long long __isoc23_strtoull(const char*s,char**e,int b){ return stou(s,e,b); }
double strtod(const char*s,char**e){ unsigned long n=0; double d=symx_strtod(s,&n); if(e) *e=(char*)s+n; return d; }
time_t time(time_t*t){ time_t r=symx_now_ns/1000000000; if(t)*t=r; return r; }
int clock_gettime(clockid_t,struct timespec*t) noexcept { t->tv_sec=symx_now_ns/1000000000; t->tv_nsec=symx_now_ns%1000000000; return 0; }
int symx_simtime=0;
static void symx_sleep(long ns){ if(!symx_simtime){ sym_yield(); return; } pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c=PTHREAD_COND_INITIALIZER; long t=symx_now_ns+ns; struct timespec ts; ts.tv_sec=t/1000000000; ts.tv_nsec=t%1000000000; pthread_mutex_lock(&m); while(symx_now_ns<t) pthread_cond_timedwait(&c,&m,&ts); pthread_mutex_unlock(&m); }
int nanosleep(const struct timespec*t,struct timespec*){ symx_sleep(t->tv_sec*1000000000+t->tv_nsec); return 0; }
int usleep(unsigned u){ symx_sleep(u*1000L); return 0; }
unsigned sleep(unsigned u){ symx_sleep(u*1000000000L); return 0; }
int sched_yield() noexcept { sym_yield(); return 0; }
int symx_cpu=0; int sched_getcpu() noexcept { return symx_cpu; }
int getpid_symx(){ return 4242; } pid_t getpid() noexcept { return 4242; }
char* getenv(const char*) noexcept { return 0; }
long sysconf(int) noexcept { return 4; }
int rand(){ return 4; } void srand(unsigned){}
int puts(const char*){ return 0; }
}
extern "C" { static unsigned char symx_uuid_ctr; void uuid_generate_random(unsigned char*u){ symx_uuid_ctr++; for(int i=0;i<16;i++) u[i]=symx_uuid_ctr; } void uuid_generate(unsigned char*u){ uuid_generate_random(u); } void uuid_unparse(const unsigned char*u,char*o){ int k=0; for(int i=0;i<16;i++){ if(i==4||i==6||i==8||i==10) o[k++]='-'; o[k++]="0123456789abcdef"[u[i]>>4]; o[k++]="0123456789abcdef"[u[i]&15]; } o[k]=0; } }
