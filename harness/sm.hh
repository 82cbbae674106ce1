// The state machine, driven through the command dispatcher, the way a client or the raft log drives it.
#pragma once
#include "sym.hh"
#include "symfs.hh"
#include <rocksdb/db.h>
#include "StateMachine.hh"
#include "Dispatcher.hh"
#include "Formatter.hh"
#include "redis/Transaction.hh"
#include "redis/ArrayResponseBuilder.hh"
#include "pubsub/Publisher.hh"
#include "storage/StagingArea.hh"
#include "utils/IntToBinaryString.hh"
#include "Utils.hh"
using namespace quarkdb;
static const char* SMP="/sm";
typedef std::vector<std::string> Words;
static RedisRequest request(const Words&w){ RedisRequest r; for(auto&x:w) r.push_back(x); return r; }
struct Machine {
  std::unique_ptr<StateMachine> sm; std::unique_ptr<Publisher> pub; std::unique_ptr<RedisDispatcher> disp; LogIndex index=0; // 0: standalone
  Machine(bool fresh=true){ if(fresh){ symdb::reset(); symfs::reset(); } open(); }
  void open(){ sm.reset(new StateMachine(SMP)); pub.reset(new Publisher()); disp.reset(new RedisDispatcher(*sm,*pub)); }
  void reopen(){ disp.reset(); pub.reset(); sm.reset(); open(); }
  bool isWrite(const Words&w){ RedisRequest r=request(w); return r.getCommandType()==CommandType::WRITE; }
  std::string run(const Words&w){ RedisRequest r=request(w); LogIndex c=0; if(index&&r.getCommandType()==CommandType::WRITE) c=index++; return disp->dispatch(r,c).val; }
};
static std::string rInt(int64_t v){ return Formatter::integer(v).val; }
static std::string rStr(const std::string&s){ return Formatter::string(s).val; }
static std::string rNull(){ return Formatter::null().val; }
static std::string rOk(){ return Formatter::ok().val; }
static std::string rVec(const Words&v){ return Formatter::vector(v).val; }
static bool isErr(const std::string&r){ return !r.empty()&&r[0]=='-'; }
static bool isWrongType(const std::string&r){ return isErr(r)&&r.find("WRONGTYPE")!=std::string::npos; }
