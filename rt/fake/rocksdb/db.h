// In-memory, ordered key-value store with the interface of rocksdb that QuarkDB uses.
// Modelled: ordered iteration, atomic batches, snapshots, write-ahead-log durability (a crash keeps every
// batch up to the last synced one plus an arbitrary prefix of the later ones), write failures, checkpoints.
#pragma once
#define ROCKSDB_MAJOR 9
#define ROCKSDB_MINOR 0
#define ROCKSDB_PATCH 0
#include <string>
#include <string_view>
#include <map>
#include <vector>
#include <memory>
#include <mutex>
#include <functional>
#include <cstring>
#include <cstdint>
#include <utility>
namespace rocksdb {
struct Slice { const char*d_=""; size_t n_=0; Slice(){} Slice(const char*s):d_(s),n_(strlen(s)){} Slice(const char*s,size_t n):d_(s),n_(n){} Slice(const std::string&s):d_(s.data()),n_(s.size()){} Slice(std::string_view s):d_(s.data()),n_(s.size()){}
  const char*data() const { return d_; } size_t size() const { return n_; } bool empty() const { return n_==0; } char operator[](size_t i) const { return d_[i]; } std::string ToString(bool hex=false) const { return std::string(d_,n_); } std::string_view ToStringView() const { return std::string_view(d_,n_); } bool starts_with(const Slice&o) const { return n_>=o.n_&&memcmp(d_,o.d_,o.n_)==0; } int compare(const Slice&o) const { return std::string_view(d_,n_).compare(std::string_view(o.d_,o.n_)); } void remove_prefix(size_t k){ d_+=k; n_-=k; } };
inline bool operator==(const Slice&a,const Slice&b){ return a.n_==b.n_&&memcmp(a.d_,b.d_,a.n_)==0; }
inline bool operator!=(const Slice&a,const Slice&b){ return !(a==b); }
class PinnableSlice : public Slice { std::string self; public: std::string* GetSelf(){ return &self; } void PinSelf(){ d_=self.data(); n_=self.size(); } void Reset(){ self.clear(); PinSelf(); } };
class Status { public: enum Code { kOk,kNotFound,kCorruption,kNotSupported,kInvalidArgument,kIOError,kMergeInProgress,kIncomplete,kBusy=11,kAborted=10 }; Code c_=kOk; std::string m_; Status(){} Status(Code c,std::string m):c_(c),m_(std::move(m)){}
  static Status OK(){ return Status(); }
#define SYM_ST(N) static Status N(){ return Status(k##N,""); } static Status N(const Slice&s){ return Status(k##N,s.ToString()); } static Status N(const Slice&s,const Slice&t){ return Status(k##N,s.ToString()+": "+t.ToString()); } bool Is##N() const { return c_==k##N; }
  SYM_ST(NotFound) SYM_ST(InvalidArgument) SYM_ST(IOError) SYM_ST(Corruption) SYM_ST(NotSupported) SYM_ST(Aborted) SYM_ST(Busy) SYM_ST(Incomplete)
  bool ok() const { return c_==kOk; } Code code() const { return c_; } std::string ToString() const { static const char*n[]={"OK","NotFound","Corruption","Not implemented","Invalid argument","IO error"}; if(c_==kOk) return "OK"; std::string r=(int)c_<6?n[c_]:"error"; r+=": "; r+=m_; return r; } const char* getState() const { return m_.c_str(); } 
  bool operator==(const Status&o) const { return c_==o.c_; } bool operator!=(const Status&o) const { return c_!=o.c_; } };
}
namespace symdb {
typedef std::map<std::string,std::string> Map;
struct Op { bool del; std::string k,v; Op(bool d,std::string a,std::string b):del(d),k(std::move(a)),v(std::move(b)){} };
typedef std::vector<Op> Batch;
struct Crash {};
struct Disk { std::shared_ptr<Map> cur=std::make_shared<Map>(), durable=std::make_shared<Map>(); std::vector<Batch> log; bool exists=false; int open=0; uint64_t writes=0, syncs=0; };
struct World { std::map<std::string,std::shared_ptr<Disk>> disks; long writes=0; long crashAt=-1; bool crashAfter=false; long failAt=-1; bool readFail=false; std::function<void(const std::string&,const Batch&,bool)> onWrite; std::function<bool(const std::string&,Map&)> import; std::function<bool(const std::string&)> canCreate; std::function<void(const std::string&,const Map&)> onCheckpoint; };
inline World& world(){ static World*w=new World; return *w; }
inline std::shared_ptr<Disk> disk(const std::string&p){ auto&d=world().disks[p]; if(!d) d=std::make_shared<Disk>(); return d; }
inline void applyBatch(Map&m,const Batch&b){ for(auto&o:b) if(o.del) m.erase(o.k); else m[o.k]=o.v; }
inline void mut(Disk&d){ if(d.cur.use_count()>1) d.cur=std::make_shared<Map>(*d.cur); }
// a machine crash: the store comes back with the synced state plus the first `keep` later batches
inline void crash(const std::string&p,size_t keep){ auto d=disk(p); auto m=std::make_shared<Map>(*d->durable); for(size_t i=0;i<keep&&i<d->log.size();i++) applyBatch(*m,d->log[i]); d->cur=m; d->durable=std::make_shared<Map>(*m); d->log.clear(); d->open=0; }
// everything written so far reaches the disk
inline void settle(const std::string&p){ crash(p,disk(p)->log.size()); }
inline size_t unsynced(const std::string&p){ return disk(p)->log.size(); }
inline void reset(){ world()=World(); }
}
namespace rocksdb {
class Snapshot { public: std::shared_ptr<const symdb::Map> m; virtual ~Snapshot(){} virtual uint64_t GetSequenceNumber() const { return 0; } };
typedef uint64_t SequenceNumber;
enum ReadTier { kReadAllTier, kBlockCacheTier };
struct ReadOptions { const Snapshot*snapshot=nullptr; bool total_order_seek=false, prefix_same_as_start=false, fill_cache=true, verify_checksums=true, tailing=false; const Slice*iterate_upper_bound=nullptr; const Slice*iterate_lower_bound=nullptr; size_t readahead_size=0; uint64_t iter_start_seqnum=0; ReadOptions(){} };
struct WriteOptions { bool sync=false, disableWAL=false, no_slowdown=false, low_pri=false; };
struct FlushOptions { bool wait=true; bool allow_write_stall=false; };
class Iterator { public: virtual ~Iterator(){} virtual bool Valid() const=0; virtual void SeekToFirst()=0; virtual void SeekToLast()=0; virtual void Seek(const Slice&)=0; virtual void SeekForPrev(const Slice&)=0; virtual void Next()=0; virtual void Prev()=0; virtual Slice key() const=0; virtual Slice value() const=0; virtual Status status() const { return Status(); } };
class MapIterator : public Iterator { public: std::shared_ptr<const symdb::Map> m; symdb::Map::const_iterator it; bool v=false; MapIterator(std::shared_ptr<const symdb::Map> x):m(x),it(m->end()){}
  bool Valid() const override { return v; } void SeekToFirst() override { it=m->begin(); v=it!=m->end(); } void SeekToLast() override { v=!m->empty(); if(v){ it=m->end(); --it; } } void Seek(const Slice&s) override { it=m->lower_bound(s.ToString()); v=it!=m->end(); } void SeekForPrev(const Slice&s) override { it=m->upper_bound(s.ToString()); if(it==m->begin()) v=false; else { --it; v=true; } }
  void Next() override { ++it; v=it!=m->end(); } void Prev() override { if(it==m->begin()) v=false; else --it; } Slice key() const override { return Slice(it->first); } Slice value() const override { return Slice(it->second); } };
inline Iterator* NewEmptyIterator(){ return new MapIterator(std::make_shared<symdb::Map>()); }
class Comparator { public: int x=0; }; inline const Comparator* BytewiseComparator(){ static Comparator c; return &c; }
class WriteBatch { public: symdb::Batch b; WriteBatch(size_t=0,size_t=0){} Status Put(const Slice&k,const Slice&v){ b.push_back(symdb::Op(false,k.ToString(),v.ToString())); return Status(); } Status Delete(const Slice&k){ b.push_back(symdb::Op(true,k.ToString(),std::string())); return Status(); } Status SingleDelete(const Slice&k){ return Delete(k); } void Clear(){ b.clear(); } int Count() const { return (int)b.size(); } uint32_t CountU() const { return b.size(); } size_t GetDataSize() const { return b.size()*16; } WriteBatch* GetWriteBatch(){ return this; } };
enum CompressionType { kNoCompression, kZSTD, kLZ4Compression, kSnappyCompression }; enum class BottommostLevelCompaction { kSkip,kIfHaveCompactionFilter,kForce,kForceOptimized };
struct CompactRangeOptions { BottommostLevelCompaction bottommost_level_compaction=BottommostLevelCompaction::kSkip; bool exclusive_manual_compaction=true; };
class FilterPolicy {}; inline FilterPolicy* NewBloomFilterPolicy(double,bool=false){ return new FilterPolicy; } class Cache {}; inline std::shared_ptr<Cache> NewLRUCache(size_t,int=-1,bool=false,double=0){ return std::make_shared<Cache>(); }
struct BlockBasedTableOptions { std::shared_ptr<FilterPolicy> filter_policy; std::shared_ptr<Cache> block_cache; size_t block_size=0; bool cache_index_and_filter_blocks=false, pin_l0_filter_and_index_blocks_in_cache=false, whole_key_filtering=true; int format_version=0; };
class TableFactory {}; inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& =BlockBasedTableOptions()){ return new TableFactory; }
class MemTableRepFactory { public: virtual ~MemTableRepFactory(){} }; class VectorRepFactory : public MemTableRepFactory {};
enum class WriteStallCondition { kNormal,kDelayed,kStopped }; struct WriteStallInfo { std::string cf_name; struct { WriteStallCondition cur,prev; } condition; };
struct CompactionJobInfo { Status status; std::string cf_name; }; struct FlushJobInfo { std::string cf_name; }; enum class BackgroundErrorReason { kFlush, kCompaction };
class DB;
class EventListener { public: virtual ~EventListener(){} virtual void OnStallConditionsChanged(const WriteStallInfo&){} virtual void OnCompactionCompleted(DB*,const CompactionJobInfo&){} virtual void OnFlushCompleted(DB*,const FlushJobInfo&){} virtual void OnBackgroundError(BackgroundErrorReason,Status*){} };
class Statistics {}; inline std::shared_ptr<Statistics> CreateDBStatistics(){ return nullptr; }
class MergeOperator { public: virtual ~MergeOperator(){} virtual const char*Name() const=0; }; class AssociativeMergeOperator : public MergeOperator { public: virtual bool Merge(const Slice&,const Slice*,const Slice&,std::string*,void*) const { return false; } };
struct DBOptions { bool create_if_missing=false, error_if_exists=false, paranoid_checks=true, use_direct_reads=false, use_fsync=false, allow_concurrent_memtable_write=true, enable_write_thread_adaptive_yield=true, manual_wal_flush=false, disable_auto_compactions=false, optimize_filters_for_hits=false, compaction_readahead=false, level_compaction_dynamic_level_bytes=false, allow_mmap_reads=false; uint64_t max_manifest_file_size=0,bytes_per_sync=0,wal_bytes_per_sync=0,max_total_wal_size=0,delayed_write_rate=0,target_file_size_base=0,max_bytes_for_level_base=0; int max_open_files=-1,max_background_jobs=2,max_background_compactions=1,max_background_flushes=1,max_subcompactions=1,max_write_buffer_number=2,min_write_buffer_number_to_merge=1,level0_slowdown_writes_trigger=0,level0_stop_writes_trigger=0,level0_file_num_compaction_trigger=4,num_levels=7,row_cache_s=0; size_t write_buffer_size=0,compaction_readahead_size=0; uint64_t soft_pending_compaction_bytes_limit=0,hard_pending_compaction_bytes_limit=0; CompressionType compression=kNoCompression,bottommost_compression=kNoCompression; std::vector<CompressionType> compression_per_level; std::shared_ptr<TableFactory> table_factory; std::shared_ptr<MemTableRepFactory> memtable_factory; std::vector<std::shared_ptr<EventListener>> listeners; std::shared_ptr<MergeOperator> merge_operator; std::shared_ptr<Statistics> statistics; std::shared_ptr<Cache> row_cache; int unused=0; void PrepareForBulkLoad(){} void IncreaseParallelism(int=16){} };
struct Options : DBOptions { Options* PrepareForBulkLoad(){ return this; } Options* OptimizeForSmallDb(){ return this; } Options* OptimizeLevelStyleCompaction(uint64_t=0){ return this; } };
struct ColumnFamilyHandle { virtual ~ColumnFamilyHandle(){} };
struct Range { Slice start,limit; };
class DB { public:
  struct Properties { static const inline std::string kLevelStats="l",kCompressionRatioAtLevelPrefix="c",kStats="s",kNumFilesAtLevelPrefix="n"; };
  std::shared_ptr<symdb::Disk> disk; std::string name; Options opts; ColumnFamilyHandle cfh;
  static Status Open(const Options&o,const std::string&path,DB**out){ auto&W=symdb::world(); auto d=symdb::disk(path); if(!d->exists&&W.import){ symdb::Map m; if(W.import(path,m)){ d->exists=true; d->cur=std::make_shared<symdb::Map>(m); d->durable=std::make_shared<symdb::Map>(m); } } if(!d->exists&&W.canCreate&&!W.canCreate(path)) return Status::IOError("no such directory: "+path); if(!d->exists&&!o.create_if_missing) return Status::InvalidArgument(path+": does not exist (create_if_missing is false)"); if(d->exists&&o.error_if_exists) return Status::InvalidArgument(path+": exists"); if(d->open) return Status::IOError("lock "+path+"/LOCK: held"); d->exists=true; d->open=1; DB*x=new DB; x->disk=d; x->name=path; x->opts=o; *out=x; return Status(); }
  static Status OpenForReadOnly(const Options&o,const std::string&path,DB**out,bool=false){ auto d=symdb::disk(path); if(!d->exists) return Status::InvalidArgument(path); DB*x=new DB; x->disk=d; x->name=path; *out=x; return Status(); }
  virtual ~DB(){ disk->open=0; }
  std::shared_ptr<const symdb::Map> view(const ReadOptions&r){ if(r.snapshot) return r.snapshot->m; return disk->cur; }
  Status Get(const ReadOptions&r,const Slice&k,std::string*v){ if(symdb::world().readFail) return Status::IOError("injected"); auto m=view(r); auto it=m->find(k.ToString()); if(it==m->end()) return Status::NotFound(); *v=it->second; return Status(); }
  Status Get(const ReadOptions&r,ColumnFamilyHandle*,const Slice&k,std::string*v){ return Get(r,k,v); }
  Status Get(const ReadOptions&r,ColumnFamilyHandle*,const Slice&k,PinnableSlice*v){ Status s=Get(r,k,v->GetSelf()); v->PinSelf(); return s; }
  Status Get(const ReadOptions&r,const Slice&k,PinnableSlice*v){ return Get(r,nullptr,k,v); }
  std::vector<Status> MultiGet(const ReadOptions&r,const std::vector<Slice>&k,std::vector<std::string>*v){ std::vector<Status> o; v->resize(k.size()); for(size_t i=0;i<k.size();i++) o.push_back(Get(r,k[i],&(*v)[i])); return o; }
  Status commit(const WriteOptions&w,const symdb::Batch&b){ auto&W=symdb::world(); long i=W.writes++; if(i==W.crashAt&&!W.crashAfter) throw symdb::Crash(); if(i==W.failAt) return Status::IOError("injected"); disk->writes++; symdb::mut(*disk); symdb::applyBatch(*disk->cur,b); if(!w.disableWAL) disk->log.push_back(b); if(w.sync){ disk->syncs++; flush(); } if(W.onWrite) W.onWrite(name,b,w.sync); if(i==W.crashAt&&W.crashAfter) throw symdb::Crash(); return Status(); }
  void flush(){ for(auto&x:disk->log){ if(disk->durable.use_count()>1) disk->durable=std::make_shared<symdb::Map>(*disk->durable); symdb::applyBatch(*disk->durable,x); } disk->log.clear(); }
  Status Put(const WriteOptions&w,const Slice&k,const Slice&v){ symdb::Batch b; b.push_back(symdb::Op(false,k.ToString(),v.ToString())); return commit(w,b); }
  Status Delete(const WriteOptions&w,const Slice&k){ symdb::Batch b; b.push_back(symdb::Op(true,k.ToString(),std::string())); return commit(w,b); }
  Status SingleDelete(const WriteOptions&w,const Slice&k){ return Delete(w,k); }
  Status Write(const WriteOptions&w,WriteBatch*b){ return commit(w,b->b); }
  Iterator* NewIterator(const ReadOptions&r){ return new MapIterator(view(r)); }
  Iterator* NewIterator(const ReadOptions&r,ColumnFamilyHandle*){ return new MapIterator(view(r)); }
  const Snapshot* GetSnapshot(){ auto*s=new Snapshot; s->m=disk->cur; return s; } void ReleaseSnapshot(const Snapshot*s){ delete s; }
  ColumnFamilyHandle* DefaultColumnFamily(){ return &cfh; }
  Status FlushWAL(bool sync){ if(sync){ disk->syncs++; flush(); } return Status(); } Status SyncWAL(){ disk->syncs++; flush(); return Status(); } void flushAll(){ disk->durable=std::make_shared<symdb::Map>(*disk->cur); disk->log.clear(); } Status Flush(const FlushOptions&){ flushAll(); return Status(); }
  Status CompactRange(const CompactRangeOptions&,const Slice*,const Slice*){ flushAll(); return Status(); } Status EnableAutoCompaction(const std::vector<ColumnFamilyHandle*>&){ return Status(); } Status SetOptions(const std::map<std::string,std::string>&){ return Status(); }
  template<class M> Status SetOptionsT(const M&){ return Status(); }
  bool GetProperty(const Slice&,std::string*v){ v->clear(); return true; } bool GetIntProperty(const Slice&,uint64_t*v){ *v=0; return true; } bool GetMapProperty(const Slice&,std::map<std::string,std::string>*){ return true; }
  const std::string& GetName() const { return name; } uint64_t GetLatestSequenceNumber() const { return disk->writes; } Status VerifyChecksum(){ return Status(); } Status Close(){ disk->open=0; return Status(); } Status GetApproximateSizes(const Range*,int,uint64_t*s,uint8_t=0){ *s=0; return Status(); } void GetApproximateSizes(const Range*,int n,uint64_t*s){ *s=0; } Status CancelAll(){ return Status(); } Status EnableFileDeletions(bool=true){ return Status(); } Status DisableFileDeletions(){ return Status(); }
};
inline void CancelAllBackgroundWork(DB*,bool=false){}
inline Status DestroyDB(const std::string&p,const Options&){ symdb::world().disks.erase(p); return Status(); }
class WriteBatchWithIndex { public: symdb::Batch b; std::map<std::string,std::pair<bool,std::string>> idx; WriteBatchWithIndex(const Comparator* =nullptr,size_t=0,bool=false,size_t=0){}
  Status Put(const Slice&k,const Slice&v){ b.push_back(symdb::Op(false,k.ToString(),v.ToString())); idx[k.ToString()]=std::make_pair(false,v.ToString()); return Status(); } Status Delete(const Slice&k){ b.push_back(symdb::Op(true,k.ToString(),std::string())); idx[k.ToString()]=std::make_pair(true,std::string()); return Status(); } Status SingleDelete(const Slice&k){ return Delete(k); } void Clear(){ b.clear(); idx.clear(); }
  WriteBatch wb_; WriteBatch* GetWriteBatch(){ wb_.b=b; return &wb_; }
  Status GetFromBatch(const DBOptions&,const Slice&k,std::string*v){ auto it=idx.find(k.ToString()); if(it==idx.end()||it->second.first) return Status::NotFound(); *v=it->second.second; return Status(); }
  Status GetFromBatchAndDB(DB*db,const ReadOptions&r,const Slice&k,std::string*v){ auto it=idx.find(k.ToString()); if(it!=idx.end()){ if(it->second.first) return Status::NotFound(); *v=it->second.second; return Status(); } return db->Get(r,k,v); }
  Status GetFromBatchAndDB(DB*db,const ReadOptions&r,const Slice&k,PinnableSlice*v){ Status s=GetFromBatchAndDB(db,r,k,v->GetSelf()); v->PinSelf(); return s; }
  Iterator* NewIteratorWithBase(Iterator*base){ auto*mi=static_cast<MapIterator*>(base); auto m=std::make_shared<symdb::Map>(*mi->m); for(auto&x:idx) if(x.second.first) m->erase(x.first); else (*m)[x.first]=x.second.second; delete base; return new MapIterator(m); }
  int Count() const { return (int)b.size(); } };
class Checkpoint { DB*db; public: virtual ~Checkpoint(){} static Status Create(DB*d,Checkpoint**c){ *c=new Checkpoint; (*c)->db=d; return Status(); } Status CreateCheckpoint(const std::string&p,uint64_t=0,uint64_t* =nullptr){ auto t=symdb::disk(p); if(t->exists) return Status::InvalidArgument("Directory exists"); t->exists=true; t->cur=std::make_shared<symdb::Map>(*db->disk->cur); t->durable=std::make_shared<symdb::Map>(*t->cur); auto&W=symdb::world(); if(W.onCheckpoint) W.onCheckpoint(p,*t->cur); return Status(); } };
struct KeyVersion { std::string user_key,value; SequenceNumber sequence=0; int type=0; std::string GetTypeName() const { return "v"; } }; inline Status GetAllKeyVersions(DB*,Slice,Slice,size_t,std::vector<KeyVersion>*){ return Status(); }
inline Status GetAllKeyVersions(DB*,Slice,Slice,std::vector<KeyVersion>*){ return Status(); }
struct LDBTool { void Run(int,char**){} template<class...A> void Run(int,char**,A...){} int RunAndReturn(int,char**){ return 0; } }; struct SSTDumpTool { int Run(int,char**){ return 0; } template<class...A> int Run(int,char**,A...){ return 0; } };
struct ParsedEntryInfo { Slice user_key; SequenceNumber sequence=0; int type=0; };
struct FullKey { Slice user_key; SequenceNumber sequence=0; int type=0; }; inline bool ParseFullKey(const Slice&k,FullKey*f){ f->user_key=k; return true; }
}
