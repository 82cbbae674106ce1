// Shutting down while requests run, and counting them.
#include "sym.hh"
#include "utils/InFlightTracker.hh"
#include "utils/CoreLocalArray.hh"
#include "utils/RequestCounter.hh"
#include "utils/Statistics.hh"
#include "redis/Transaction.hh"
#include "RedisRequest.hh"
#include <thread>
#include <atomic>
#ifndef PRE
#define PRE 2
#endif
#ifndef REQS
#define REQS 3
#endif
using namespace quarkdb;
// the processor a thread runs on changes as it likes, and there may be more of them than the process is allowed to use
static void migrate(){ symx_cpu=(int)sym::choose("cpu",6)-1; }
HARNESS(inflight_shutdown){
  InFlightTracker t; std::atomic<int> inside{0}; std::atomic<bool> gone{false}; int served[2]={0,0}; migrate(); sym_threads(PRE);
  auto client=[&](int i){ InFlightRegistration r(t); if(r.ok()){ inside++; CHECK(!gone,"no request is worked on after shut-down"); sym_yield(); CHECK(!gone,"no request is worked on after shut-down"); served[i]=1; inside--; } };
  std::thread a(client,0), b(client,1); t.setAcceptingRequests(false); t.spinUntilNoRequestsInFlight(); gone=true; CHECK(inside==0,"shut-down waits for every request"); InFlightRegistration late(t); CHECK(!late.ok(),"no request is accepted after shut-down"); a.join(); b.join(); sym_threads(-1); CHECK(t.getInFlight()==0,"every request that began has ended"); sym_reach(served[0]||served[1]?"served":"none"); }
HARNESS(inflight_count){
  InFlightTracker t; CHECK(t.isAcceptingRequests(),"requests are accepted at first"); { std::vector<std::unique_ptr<InFlightRegistration>> r; for(int i=0;i<REQS;i++){ unsigned op=sym::choose("op",3); migrate(); bool acc=t.isAcceptingRequests(); if(op==0){ r.emplace_back(new InFlightRegistration(t)); CHECK(r.back()->ok()==acc,"requests are accepted exactly while accepting"); if(!r.back()->ok()) r.pop_back(); } else if(op==1){ if(r.empty()) sym_prune(); r.erase(r.begin()+sym::choose("which",r.size())); } else t.setAcceptingRequests(sym::flip("accept")); CHECK(t.getInFlight()==(int64_t)r.size(),"every request that has begun and not ended is counted"); } } CHECK(t.getInFlight()==0,"every request that began has ended"); sym_reach("end"); }
// what is counted is what was done
struct Sum { int64_t r=0,w=0,tr=0,tw=0; bool is(const Statistics&s){ return s.reads==r&&s.writes==w&&s.txread==tr&&s.txreadwrite==tw; } };
HARNESS(count_requests){
  sym_threads(1000); RequestCounter c{std::chrono::seconds(10)}; c.setReportingStatus(false); Sum all; static const char*const CMD[]={"GET","SET","PING","HSET"}; auto one=[&](unsigned k,Sum&s){ if(k==0) s.r++; else if(k!=2) s.w++; };
  for(int i=0;i<REQS;i++){ migrate(); unsigned k=sym::choose("what",6); if(k<4){ RedisRequest q{CMD[k],"k","f","v"}; c.account(q); one(k,all); } else { Transaction tx; size_t n=1+sym::choose("size",2); bool w=false; for(size_t j=0;j<n;j++){ unsigned x=k==4?0:sym::choose("what",2); if(x==0) tx.emplace_back("GET","k"); else { tx.emplace_back("SET","k","v"); w=true; } one(x,all); } if(w) all.tw++; else all.tr++; c.account(tx); } CHECK(all.is(c.getOverallStats()),"every request is counted once, as what it is"); }
  std::vector<std::string> h; std::vector<std::vector<std::string>> d; c.fillHistorical(h,d); CHECK(h.size()==d.size()&&h[0]=="TOTALS","totals come first"); Statistics s=c.getOverallStats(); CHECK(d[0]==s.serialize(),"totals come first"); CHECK(d[0]==(std::vector<std::string>{"READS "+std::to_string(all.r),"WRITES "+std::to_string(all.w),"TXREAD "+std::to_string(all.tr),"TXREADWRITE "+std::to_string(all.tw)}),"the counts are shown as they are"); sym_threads(-1); sym_reach("end"); sym_end(); }
static Statistics stat(){ Statistics s; s.reads=(int64_t)sym_u64("reads"); s.writes=(int64_t)sym_u64("writes"); s.txread=(int64_t)sym_u64("txread"); s.txreadwrite=(int64_t)sym_u64("txreadwrite"); return s; }
HARNESS(count_history){
  // intervals add up to the total
  StatAggregator a; Statistics sum; for(int i=0;i<REQS;i++){ migrate(); Statistics x=stat(); *a.getStats()+=x; if(sym::flip("look")) sum+=a.getOverallStatsSinceLastTime(); } sum+=a.getOverallStatsSinceLastTime(); Statistics all=a.getOverallStats(); CHECK(sym_and(sym_and(sum.reads==all.reads,sum.writes==all.writes),sym_and(sum.txread==all.txread,sum.txreadwrite==all.txreadwrite)),"the intervals add up to the total");
  // the latest ones are kept, newest first
  size_t limit=1+sym::choose("limit",2), n=sym::choose("points",4); HistoricalStatistics h(limit); std::vector<Statistics> v; for(size_t i=0;i<n;i++){ Statistics s; s.reads=i+1; s.writes=2*i; s.txread=3*i; s.txreadwrite=4*i; v.push_back(s); h.push(s,std::chrono::system_clock::time_point(std::chrono::seconds(100+i))); } std::vector<std::string> hd; std::vector<std::vector<std::string>> d; h.serialize(hd,d); size_t k=std::min(limit,n); CHECK(hd.size()==k&&d.size()==k,"the latest intervals are kept"); for(size_t i=0;i<k;i++){ CHECK(hd[i]=="TIMESTAMP "+std::to_string(100+n-1-i),"newest first"); CHECK(d[i]==v[n-1-i].serialize(),"newest first"); } sym_reach("end"); }
