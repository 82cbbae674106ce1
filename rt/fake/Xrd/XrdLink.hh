// stand-in for the network side of a connection: a byte queue of which only the first `avail` bytes have arrived
#pragma once
#include <string>
#include <cstring>
class XrdLink { public: std::string in, out; size_t pos=0, avail=0; bool closed=false, broken=false; int sendFailAfter=-1;
  void feed(const std::string&s){ in+=s; avail=in.size(); }
  int Recv(char*b,int n,int){ if(closed||broken) return -1; int k=0; while(k<n&&pos<avail) b[k++]=in[pos++]; return k; }
  int Send(const char*b,int n){ if(closed||broken) return -1; if(sendFailAfter>=0&&sendFailAfter--==0) return -1; out.append(b,n); return n; }
  int Close(int=0){ closed=true; return 0; } bool isTLS() const { return false; } const char*Host() const { return host.c_str(); } std::string host="client.example"; char*ID=nullptr; int FDnum(){ return 0; } };
