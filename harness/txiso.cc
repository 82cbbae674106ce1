// concurrent readers never see half of a transaction
#include "smmodel.hh"
#include <thread>
#ifndef SWITCHES
#define SWITCHES 2
#endif
static std::string tx(Machine&m,const std::vector<Words>&ops){ Transaction t; for(auto&w:ops) t.push_back(request(w)); return m.disp->dispatch(t,0).val; }
HARNESS(tx_isolation){
  Machine m; bool initial=sym::flip("initial"); if(initial) tx(m,{{"SET","a","old"},{"HSET","h","a","old"},{"SADD","s","old"}});
  std::string r[2]; std::vector<Words> reads={{"GET","a"},{"HGET","h","a"},{"SMEMBERS","s"},{"TYPE","a"}};
  std::vector<std::string> v0={initial?rStr("old"):rNull(),initial?rStr("old"):rNull(),initial?rVec({"old"}):rVec({}),Formatter::status(initial?"string":"none").val}, v1={rStr("new"),rStr("new"),initial?rVec({"new","old"}):rVec({"new"}),Formatter::status("string").val};
  sym_threads(SWITCHES);
  std::thread w([&]{ tx(m,{{"SET","a","new"},{"HSET","h","a","new"},{"SADD","s","new"}}); });
  std::thread rd([&]{ r[0]=tx(m,reads); r[1]=tx(m,reads); });
  w.join(); rd.join();
  bool o0=matchAll(r[0],v0),n0=matchAll(r[0],v1),o1=matchAll(r[1],v0),n1=matchAll(r[1],v1); CHECK(o0||n0,"a read transaction sees all of another transaction or nothing of it"); CHECK(o1||n1,"a read transaction sees all of another transaction or nothing of it"); CHECK(!(n0&&!o0&&!n1),"a change once seen stays");
  CHECK(matchAll(tx(m,reads),v1),"the transaction took effect"); if(o0) sym_reach("before"); if(n0) sym_reach("after"); sym_reach("end"); }
