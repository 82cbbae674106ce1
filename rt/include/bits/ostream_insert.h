// symbolic-execution stand-in for libstdc++'s stream insertion helper
#pragma once
#include <iosfwd>
namespace std { 
template<typename C,typename T> basic_ostream<C,T>& __ostream_insert(basic_ostream<C,T>& o,const C*s,streamsize n){ o.write(s,n); return o; }
template<typename C,typename T> void __ostream_write(basic_ostream<C,T>& o,const C*s,streamsize n){ o.write(s,n); }
template<typename C,typename T> void __ostream_fill(basic_ostream<C,T>&,streamsize){}
}
