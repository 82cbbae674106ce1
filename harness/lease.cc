// leases: exclusive until they expire, by the clock the log carries
#include "smmodel.hh"
#ifndef OPS
#define OPS 3
#endif
struct Lease { std::string holder; uint64_t from,until; };
struct World { Machine m; std::map<std::string,Lease> leases; uint64_t clock=0; std::set<std::string> other; };
static void advance(World&w,uint64_t t){ if(t>w.clock){ w.clock=t; for(auto it=w.leases.begin();it!=w.leases.end();) if(it->second.until<=t) it=w.leases.erase(it); else ++it; } }
// WIDE: any 64-bit time; otherwise any of 65536 times around a point where the low bytes wrap
static uint64_t when(const char*n){
#ifdef WIDE
  return sym_u64(n);
#else
  return 0xffff80+(uint64_t)sym_u16(n);
#endif
}
static uint64_t howLong(const char*n){
#ifdef WIDE
  return sym_u64(n);
#else
  return sym_u16(n);
#endif
}
static void verify(World&w){ ClockValue c=0; w.m.sm->getClock(c); CHECK(c==w.clock,"the clock is the latest time seen, and never goes back");
  StagingArea st(*w.m.sm,true); ClockValue s=0,d=0; std::vector<StateMachine::ExpirationEvent> ev; w.m.sm->lease_get_pending_expiration_events(st,s,d,ev); CHECK(s==w.clock,"the clock"); CHECK(ev.size()==w.leases.size(),"one expiration is pending for each lease"); for(size_t i=0;i<ev.size();i++){ auto it=w.leases.find(std::string(ev[i].key)); CHECK(it!=w.leases.end()&&it->second.until==ev[i].deadline,"the pending expiration of a lease"); if(i) CHECK(ev[i-1].deadline<=ev[i].deadline,"expirations come in order of time"); }
  for(auto k:{"k","l"}){ std::string type; if(w.leases.count(k)) type="lease"; else if(w.other.count(k)) type="string"; else type="none"; CHECK(w.m.run({"TYPE",k})==Formatter::status(type).val,"a lease exists until it is released or expires"); } }
// a first operation may as well be on the key "k" by the holder "A"
static void op(World&w,unsigned kinds,bool first=false){ std::string key=!first&&sym::flip("key")?"l":"k"; LogIndex idx=w.m.index?w.m.index++:0; LeaseInfo info; auto&sm=*w.m.sm; switch(sym::choose("op",kinds)){
  case 0: { std::string holder=!first&&sym::flip("holder")?"B":"A"; uint64_t t=when("time"),d=howLong("duration"); sym_assume(t<=(1ull<<62)); sym_assume(sym_and(d>=1,d<=(1ull<<62))); LeaseAcquisitionStatus s=sm.lease_acquire(key,holder,t,d,info,idx); advance(w,t);
    if(w.other.count(key)){ CHECK(s==LeaseAcquisitionStatus::kKeyTypeMismatch,"a lease cannot replace other data"); break; }
    auto it=w.leases.find(key); if(it!=w.leases.end()&&it->second.holder!=holder){ CHECK(s==LeaseAcquisitionStatus::kFailedDueToOtherOwner,"a lease held by someone else cannot be acquired"); }
    else { CHECK(s==(it==w.leases.end()?LeaseAcquisitionStatus::kAcquired:LeaseAcquisitionStatus::kRenewed),"a free lease can be acquired, and extended by its holder"); w.leases[key]=Lease{holder,w.clock,w.clock+d}; it=w.leases.find(key); }
    CHECK(info.getValue()==it->second.holder,"who holds the lease"); CHECK(sym_and(info.getDeadline()==it->second.until,info.getLastRenewal()==it->second.from),"until when the lease is held"); break; }
  case 1: { uint64_t t=when("time"); sym_assume(t<=(1ull<<62)); rocksdb::Status s=sm.lease_get(key,t,info,idx); advance(w,t); if(w.leases.count(key)){ CHECK(s.ok()&&info.getValue()==w.leases[key].holder&&info.getDeadline()==w.leases[key].until,"the holder and deadline of a lease"); } else CHECK(!s.ok()&&(w.other.count(key)?!s.IsNotFound():s.IsNotFound()),"an expired or released lease is gone"); break; }
  case 2: { uint64_t t=when("time"); sym_assume(sym_and(t>=1,t<=(1ull<<62))); rocksdb::Status s=sm.lease_release(key,t,idx); advance(w,t); if(w.other.count(key)) CHECK(!s.ok()&&!s.IsNotFound(),"other data is not a lease"); else if(w.leases.erase(key)) CHECK(s.ok(),"a held lease can be released"); else CHECK(s.IsNotFound(),"only a held lease can be released"); break; }
  case 3: { if(w.m.index) w.m.index--; int64_t n=w.leases.erase(key)+w.other.erase(key); CHECK(w.m.run({"DEL",key})==rInt(n),"a lease can be deleted"); break; }
  case 4: { if(w.m.index) w.m.index--; std::string r=w.m.run({"SET",key,"v"}); if(w.leases.count(key)) CHECK(isErr(r),"other data cannot replace a lease"); else { CHECK(r==rOk(),"a key can be used once its lease expired"); w.other.insert(key); } break; }
  case 5: { uint64_t t=when("time"); sym_assume(sym_and(t>=w.clock,t<=(1ull<<62))); StagingArea st(sm); sm.advanceClock(st,t); st.commit(idx); advance(w,t); break; }
  case 6: { if(w.m.index) w.m.index--; CHECK(w.m.run({"FLUSHALL"})==rOk(),"FLUSHALL"); w.leases.clear(); w.other.clear(); break; } } }
HARNESS(lease_ops){ World w; w.m.index=1; op(w,1,true); for(int i=0;i<OPS;i++) op(w,3); verify(w); sym_reach("end"); }
HARNESS(lease_mixed){ World w; w.m.index=1; op(w,1,true); for(int i=0;i<OPS;i++) op(w,7); verify(w); w.m.reopen(); verify(w); sym_reach("end"); }
HARNESS(lease_reopen){ World w; w.m.index=1; op(w,1,true); op(w,1); w.m.reopen(); op(w,3); verify(w); sym_reach("end"); }
