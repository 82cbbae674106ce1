// Stand-ins for the parts of libstdc++/libc that exist only as shared objects, compiled to IR and linked
// into every harness.  Each is a functional re-implementation of the documented behaviour.
#include <bits/stl_tree.h>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <list>
#include <map>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <new>
#include <typeinfo>
#include <variant>
#include <optional>
#include <future>
#include <unordered_map>
extern "C" { unsigned long symx_thread_create(void(*)(void*),void*); void symx_thread_join(unsigned long); unsigned long symx_cur_thread(); void symx_external(const char*); void sym_yield(); double symx_strtod(const char*,unsigned long*); }

// ---------------------------------------------------------------- red-black trees
namespace std {
typedef _Rb_tree_node_base N;
static N* inc_(N*x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { N*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static N* dec_(N*x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ N*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { N*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
N* _Rb_tree_increment(N*x) throw(){ return inc_(x); }
const N* _Rb_tree_increment(const N*x) throw(){ return inc_(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N*x) throw(){ return dec_(x); }
const N* _Rb_tree_decrement(const N*x) throw(){ return dec_(const_cast<N*>(x)); }
static void rotl(N*x,N*&root){ N*y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(N*x,N*&root){ N*y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,N*x,N*p,N&h) throw(){
  N*&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ N*const xpp=x->_M_parent->_M_parent;
    if(x->_M_parent==xpp->_M_left){ N*const y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotr(xpp,root); } }
    else { N*const y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotl(xpp,root); } } }
  root->_M_color=_S_black;
}
N* _Rb_tree_rebalance_for_erase(N*const z,N&h) throw(){
  N*&root=h._M_parent; N*&lm=h._M_left; N*&rm=h._M_right; N*y=z; N*x=0; N*xp=0;
  if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if(lm==z){ if(z->_M_right==0) lm=z->_M_parent; else { N*m=x; while(m->_M_left) m=m->_M_left; lm=m; } } if(rm==z){ if(z->_M_left==0) rm=z->_M_parent; else { N*m=x; while(m->_M_right) m=m->_M_right; rm=m; } } }
  if(y->_M_color!=_S_red){
    while(x!=root&&(x==0||x->_M_color==_S_black)){
      if(x==xp->_M_left){ N*w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
        if((w->_M_left==0||w->_M_left->_M_color==_S_black)&&(w->_M_right==0||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(w->_M_right==0||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
      else { N*w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
        if((w->_M_right==0||w->_M_right->_M_color==_S_black)&&(w->_M_left==0||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(w->_M_left==0||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } } }
    if(x) x->_M_color=_S_black; }
  return y;
}
// ---------------------------------------------------------------- lists, hash tables
namespace __detail {
void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base*n=_M_next,*p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; auto t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[]={2,5,11,23,47,97,199,409,823,1741}; for(size_t p:pr) if(p>=n){ _M_next_resize=p; return p; } _M_next_resize=n; return n|1; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize||nb==1){ size_t w=ne+ni; if(w<11) w=11; if(w>=nb) return {true,_M_next_bkt(w+1>nb*2?w+1:nb*2)}; _M_next_resize=nb; } return {false,0}; }
}
// one bucket for everything: equality decides, no symbolic hash arithmetic
size_t _Hash_bytes(const void*,size_t,size_t){ return 7; }
// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
struct CowRaw { char*p; };
static void cowset(void*c,const char*s){ size_t n=__builtin_strlen(s); char*p=(char*)malloc(n+1); __builtin_memcpy(p,s,n+1); *(char**)c=p; }
__cow_string::__cow_string(){ cowset(this,""); } __cow_string::__cow_string(const std::string&s){ cowset(this,s.c_str()); } __cow_string::__cow_string(const char*s,size_t n){ std::string t(s,n); cowset(this,t.c_str()); }
__cow_string::__cow_string(const __cow_string&o) noexcept { cowset(this,*(char*const*)&o); } __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { if(this!=&o){ free(*(char**)this); cowset(this,*(char*const*)&o);} return *this; } __cow_string::~__cow_string(){ free(*(char**)this); }
__cow_string::__cow_string(__cow_string&&o) noexcept { cowset(this,*(char**)&o); } __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { if(this!=&o){ free(*(char**)this); cowset(this,*(char**)&o);} return *this; }
#define LE(B) B::B(const std::string&s):_M_msg(s){} B::B(const char*s):_M_msg(s,__builtin_strlen(s)){} B::B(const B&o) noexcept:exception(o),_M_msg(o._M_msg){} B& B::operator=(const B&o) noexcept { _M_msg=o._M_msg; return *this; } B::B(B&&o) noexcept:_M_msg(o._M_msg){} B& B::operator=(B&&o) noexcept { _M_msg=o._M_msg; return *this; } B::~B() noexcept {} const char* B::what() const noexcept { return *(char*const*)&_M_msg; }
LE(logic_error) LE(runtime_error)
#define DE(D,B) D::D(const std::string&s):B(s){} D::D(const char*s):B(s){} D::~D() noexcept {}
DE(domain_error,logic_error) DE(invalid_argument,logic_error) DE(length_error,logic_error) DE(out_of_range,logic_error) DE(range_error,runtime_error) DE(overflow_error,runtime_error) DE(underflow_error,runtime_error)
system_error::~system_error() noexcept {}
void __throw_bad_exception(){ throw bad_exception(); } void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_typeid(){ throw bad_typeid(); }
void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_underflow_error(const char*s){ throw underflow_error(s); }
void __throw_system_error(int){ throw runtime_error("system_error"); } void __throw_bad_function_call(){ throw bad_function_call(); }
type_info::~type_info(){}
// ---------------------------------------------------------------- threads, condition variables, clocks
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>&l){ _M_cond.wait(*l.mutex()); }
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); } void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
thread::_State::~_State(){}
void thread::_M_start_thread(_State_ptr s,void(*)()){ unsigned long id=symx_thread_create([](void*p){ _State_ptr s((_State*)p); s->_M_run(); },s.get()); if(id) s.release(); _M_id=thread::id((native_handle_type)(id+100)); }
void thread::join(){ symx_thread_join((unsigned long)_M_id._M_thread-100); _M_id=id(); }
void thread::detach(){ _M_id=id(); }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
}
extern "C" { long symx_now_ns=1000000000000L; long symx_tick_ns=0; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { symx_now_ns+=symx_tick_ns; return time_point(duration(symx_now_ns)); }
system_clock::time_point system_clock::now() noexcept { symx_now_ns+=symx_tick_ns; return time_point(duration(symx_now_ns)); }
} } }
#include <random>
namespace std {
void random_device::_M_init(const std::string&){} void random_device::_M_fini(){} random_device::result_type random_device::_M_getval(){ return 42; }
void random_device::_M_init_pretr1(const std::string&){} random_device::result_type random_device::_M_getval_pretr1(){ return 42; } double random_device::_M_getentropy() const noexcept { return 32; }
}
#include <memory>
#include <pthread.h>
static pthread_mutex_t symx_sp_mutex=PTHREAD_MUTEX_INITIALIZER;
namespace std {
_Sp_locker::_Sp_locker(const void*) noexcept : _M_key1(0), _M_key2(0) { pthread_mutex_lock(&symx_sp_mutex); }
_Sp_locker::_Sp_locker(const void*,const void*) noexcept : _M_key1(0), _M_key2(0) { pthread_mutex_lock(&symx_sp_mutex); }
_Sp_locker::~_Sp_locker(){ pthread_mutex_unlock(&symx_sp_mutex); }
}

// std::to_string(double): the library version is variadic
extern "C" unsigned long symx_format_double(double,const char*,char*);
extern "C" __attribute__((used)) std::string __symx_override__ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z(void*,unsigned long,const char*fmt,double v){ char b[512]; unsigned long k=symx_format_double(v,fmt,b); return std::string(b,k); }

// ---------------------------------------------------------------- futures, call_once
#if 1
static pthread_mutex_t symx_futex_mutex=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t symx_futex_cond=PTHREAD_COND_INITIALIZER;
namespace std {
__future_base::_Result_base::_Result_base()=default; __future_base::_Result_base::~_Result_base()=default;
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return logic_error::what(); }
void __throw_future_error(int){ throw std::logic_error("future_error"); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*a,unsigned v,bool timed,chrono::seconds,chrono::nanoseconds){ if(timed){ sym_yield(); return *a!=v; } pthread_mutex_lock(&symx_futex_mutex); while(*(volatile unsigned*)a==v) pthread_cond_wait(&symx_futex_cond,&symx_futex_mutex); pthread_mutex_unlock(&symx_futex_mutex); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned*a,unsigned v,bool timed,chrono::seconds s,chrono::nanoseconds n){ return _M_futex_wait_until(a,v,timed,s,n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*){ pthread_mutex_lock(&symx_futex_mutex); pthread_cond_broadcast(&symx_futex_cond); pthread_mutex_unlock(&symx_futex_mutex); }
__thread void* __once_callable; __thread void (*__once_call)();
const error_category& future_category() noexcept { static char dummy[64]; return *(const error_category*)dummy; }
}
extern "C" void __once_proxy(){ std::__once_call(); }
extern "C" int pthread_once(pthread_once_t*o,void(*f)()){ if(*o==0){ *o=1; f(); } return 0; }
#endif
