// what the other side makes of a reply: the redisReply structures of hiredis
#pragma once
#include "sym.hh"
#include <qclient/QClient.hh>
static redisReply* parse(const std::string&s,size_t&p){ redisReply*r=new redisReply; char k=s[p++]; size_t e=s.find("\r\n",p); CHECK(e!=std::string::npos,"replies are well-formed"); std::string line=s.substr(p,e-p); p=e+2; auto put=[&](const std::string&t){ r->len=t.size(); r->str=(char*)malloc(t.size()+1); memcpy(r->str,t.data(),t.size()); r->str[t.size()]=0; };
  if(k=='+'||k=='-'){ r->type=k=='+'?REDIS_REPLY_STATUS:REDIS_REPLY_ERROR; put(line); } else if(k==':'){ r->type=REDIS_REPLY_INTEGER; r->integer=atoll(line.c_str()); } else if(k=='$'){ long n=atol(line.c_str()); if(n<0) r->type=REDIS_REPLY_NIL; else { r->type=REDIS_REPLY_STRING; put(s.substr(p,n)); p+=n+2; } } else { CHECK(k=='*',"replies are well-formed"); r->type=REDIS_REPLY_ARRAY; r->elements=atol(line.c_str()); r->element=(redisReply**)malloc(r->elements*sizeof(void*)+1); for(size_t i=0;i<r->elements;i++) r->element[i]=parse(s,p); } return r; }
