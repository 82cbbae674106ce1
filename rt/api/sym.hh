// Interface between harnesses and the symbolic executor (or, natively, the replayer).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
extern "C" {
uint8_t sym_u8(const char*name); uint16_t sym_u16(const char*name); uint32_t sym_u32(const char*name); uint64_t sym_u64(const char*name);
void sym_bytes(void*p,size_t n,const char*name);
void sym_assume(bool c); void sym_check(bool c,const char*msg); void sym_fail(const char*msg); void sym_reach(const char*label); void sym_note(const char*);
uint64_t sym_concretize(uint64_t v); bool sym_is_symbolic(uint64_t v); void sym_prune(); void sym_end(); void sym_print(const char*,uint64_t); void sym_print_bytes(const char*,const void*,size_t);
bool sym_and(bool,bool); bool sym_or(bool,bool); bool sym_not(bool); uint64_t sym_ite(bool,uint64_t,uint64_t); bool sym_bytes_equal(const void*,const void*,size_t);
void sym_threads(int maxPreempt); void sym_yield(); // sym_threads: -1 off, k: at most k preemptions, 1000: one fixed fair schedule
extern long symx_now_ns; extern long symx_tick_ns; extern int symx_cpu; extern int symx_simtime;
}
#define HARNESS(name) extern "C" void h_##name()
namespace sym {
// a value in [lo,hi], kept symbolic
inline uint64_t range(const char*n,uint64_t lo,uint64_t hi){ if(hi-lo<256&&hi<256){ uint8_t v=sym_u8(n); sym_assume(sym_and(v>=lo,v<=hi)); return v; } uint64_t v=sym_u64(n); sym_assume(sym_and(v>=lo,v<=hi)); return v; }
// a choice in [0,n): explored value by value
inline unsigned choose(const char*n,unsigned k){ if(k<=1) return 0; uint8_t v=sym_u8(n); sym_assume(v<k); return (unsigned)sym_concretize(v); }
inline bool flip(const char*n){ return choose(n,2)!=0; }
inline bool boolean(const char*n){ uint8_t v=sym_u8(n); sym_assume(v<2); return v==1; }
// a string of exactly n arbitrary bytes
inline std::string bytes(const char*name,size_t n){ std::string s(n,'\0'); if(n) sym_bytes(&s[0],n,name); return s; }
// a string of lo..hi arbitrary bytes (length explored value by value)
inline std::string str(const char*name,size_t lo,size_t hi){ size_t n=lo+choose("len",(unsigned)(hi-lo+1)); return bytes(name,n); }
// a string over a given alphabet, characters stay symbolic
inline std::string over(const char*name,size_t n,const char*alpha,size_t na){ std::string s=bytes(name,n); for(size_t i=0;i<n;i++){ bool ok=false; for(size_t j=0;j<na;j++) ok=sym_or(ok,s[i]==alpha[j]); sym_assume(ok); } return s; }
inline bool eq(std::string_view a,std::string_view b){ if(a.size()!=b.size()) return false; return sym_bytes_equal(a.data(),b.data(),a.size()); }
inline bool implies(bool a,bool b){ return sym_or(sym_not(a),b); }
template<class F> bool throws(F f){ try { f(); return false; } catch(...) { return true; } }
}
#define CHECK(c,msg) sym_check((c),(msg))
