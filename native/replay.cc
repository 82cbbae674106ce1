// Native side of the harness interface: replays one recorded input (or schedule-free sample) against the
// real code compiled with the ordinary compiler and the real C++ library.
#include "../rt/api/sym.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <exception>
#include <unistd.h>
#include <typeinfo>
static std::vector<uint64_t> vals; static size_t pos;
static uint64_t nxt(){ return pos<vals.size()?vals[pos++]:(pos++,0); }
static void out(const char*a,const char*b){ std::string s=std::string(a)+b+"\n"; if(write(1,s.data(),s.size())<0){} }
extern "C" {
uint8_t sym_u8(const char*){ return (uint8_t)nxt(); } uint16_t sym_u16(const char*){ return (uint16_t)nxt(); } uint32_t sym_u32(const char*){ return (uint32_t)nxt(); } uint64_t sym_u64(const char*){ return nxt(); }
void sym_bytes(void*p,size_t n,const char*){ for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]=(unsigned char)nxt(); }
void sym_assume(bool c){ if(!c){ out("REPLAY-DIVERGED ","assumption false"); _exit(12); } }
void sym_check(bool c,const char*m){ if(!c){ out("REPLAY-VIOLATION ",m); _exit(11); } }
void sym_fail(const char*m){ out("REPLAY-VIOLATION ",m); _exit(11); }
void sym_reach(const char*l){ out("REACH ",l); } void sym_note(const char*){}
uint64_t sym_concretize(uint64_t v){ return v; } bool sym_is_symbolic(uint64_t){ return false; } void sym_prune(){ out("REPLAY-DIVERGED ","pruned"); _exit(12); } void sym_end(){ out("REPLAY-END",""); _exit(0); } void sym_print(const char*n,uint64_t v){ out(n,(" = "+std::to_string(v)).c_str()); } void sym_print_bytes(const char*n,const void*p,size_t k){ std::string s; for(size_t i=0;i<k;i++){ char b[8]; snprintf(b,8," %02x",((unsigned char*)p)[i]); s+=b; } out(n,s.c_str()); }
bool sym_and(bool a,bool b){ return a&&b; } bool sym_or(bool a,bool b){ return a||b; } bool sym_not(bool a){ return !a; } uint64_t sym_ite(bool c,uint64_t a,uint64_t b){ return c?a:b; } bool sym_bytes_equal(const void*a,const void*b,size_t n){ return n==0||memcmp(a,b,n)==0; }
void sym_threads(int){} void sym_yield(){}
long symx_now_ns=1000000000000L; long symx_tick_ns=0; int symx_cpu=0;
unsigned long symx_thread_create(void(*)(void*),void*){ return 0; } void symx_thread_join(unsigned long){} unsigned long symx_cur_thread(){ return 0; }
double symx_strtod(const char*p,unsigned long*n){ char*e; double d=strtod(p,&e); *n=e-p; return d; }
void ENTRY();
}
#include <chrono>
#include <thread>
// background threads never run in a replay, exactly as in the symbolic run
namespace std {
void thread::_M_start_thread(_State_ptr s,void(*)()){ _M_id=thread::id((native_handle_type)100); }
void thread::join(){ _M_id=id(); }
void thread::detach(){ _M_id=id(); }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { symx_now_ns+=symx_tick_ns; return time_point(duration(symx_now_ns)); }
system_clock::time_point system_clock::now() noexcept { symx_now_ns+=symx_tick_ns; return time_point(duration(symx_now_ns)); }
} } }
int main(int argc,char**argv){ std::ifstream in(argv[1]); uint64_t v; while(in>>v) vals.push_back(v);
  try { ENTRY(); } catch(std::exception&e){ out("REPLAY-EXCEPTION ",typeid(e).name()); _exit(13); } catch(...){ out("REPLAY-EXCEPTION ","?"); _exit(13); }
  out("REPLAY-END",""); fflush(stdout); _exit(0); }
#include <random>
namespace std { void random_device::_M_init(const std::string&){} void random_device::_M_fini(){} random_device::result_type random_device::_M_getval(){ return 42; } }
