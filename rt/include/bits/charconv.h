// digit-by-digit stand-in for libstdc++'s table driven conversion (same results)
#pragma once
#include <type_traits>
namespace std { namespace __detail {
template<typename T> constexpr unsigned __to_chars_len(T v,int base=10) noexcept { unsigned n=1; while(v>=(unsigned)base){ v/=base; n++; } return n; }
template<typename T> void __to_chars_10_impl(char*first,unsigned len,T v) noexcept { unsigned i=len; while(i>0){ i--; first[i]=(char)('0'+(unsigned)(v%10)); v/=10; } }
} }
