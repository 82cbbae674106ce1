// stand-in for the qclient library: requests are handed to a settable handler
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <future>
#include <functional>
#include <chrono>
#include <cstring>
#include <cstdlib>
#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
#define REDIS_REPLY_PUSH 12
struct redisReply { int type=0; long long integer=0; double dval=0; size_t len=0; char*str=nullptr; size_t elements=0; redisReply**element=nullptr; };
inline void freeReplyObject(void*p){ redisReply*r=(redisReply*)p; if(!r) return; for(size_t i=0;i<r->elements;i++) freeReplyObject(r->element[i]); ::free(r->element); ::free(r->str); delete r; }
namespace qclient {
typedef std::shared_ptr<redisReply> redisReplyPtr;
inline std::string describeRedisReply(const redisReplyPtr&){ return ""; }
inline std::string describeRedisReply(const redisReply*,const std::string&s=""){ return ""; }
enum class LogLevel { kError,kWarn,kInfo,kDebug };
class Logger { public: virtual ~Logger(){} virtual void print(LogLevel,int,const std::string&,const std::string&)=0; LogLevel logLevel; typedef qclient::LogLevel LogLevel_; static std::string logLevelToString(LogLevel){ return ""; } };
class Handshake { public: enum class Status { INVALID=0, VALID_INCOMPLETE, VALID_COMPLETE }; virtual ~Handshake(){} virtual std::vector<std::string> provideHandshake()=0; virtual Status validateResponse(const redisReplyPtr&)=0; virtual void restart()=0; virtual std::unique_ptr<Handshake> clone() const=0; };
class SetClientNameHandshake : public Handshake { public: SetClientNameHandshake(const std::string&,bool=true){} std::vector<std::string> provideHandshake() override { return {}; } Status validateResponse(const redisReplyPtr&) override { return Status::VALID_COMPLETE; } void restart() override {} std::unique_ptr<Handshake> clone() const override { return nullptr; } };
class HmacAuthHandshake : public Handshake { public: HmacAuthHandshake(const std::string&){} std::vector<std::string> provideHandshake() override { return {}; } Status validateResponse(const redisReplyPtr&) override { return Status::VALID_COMPLETE; } void restart() override {} std::unique_ptr<Handshake> clone() const override { return nullptr; } };
struct RetryStrategy { static RetryStrategy NoRetries(){ return {}; } static RetryStrategy InfiniteRetries(){ return {}; } }; struct BackpressureStrategy { static BackpressureStrategy Default(){ return {}; } };
struct TlsConfig { bool active=false; std::string certificatePath,keyPath,certificateCApath; };
enum class FilterType { SERVER, CLIENT };
struct RecvStatus { bool connectionAlive; int errorNumber; int bytesRead; RecvStatus(bool c=true,int e=0,int b=0):connectionAlive(c),errorNumber(e),bytesRead(b){} };
typedef int LinkStatus;
class TlsFilter { std::function<RecvStatus(char*,int,int)> r; std::function<LinkStatus(const char*,int)> w; public: TlsFilter(const TlsConfig&,FilterType,std::function<RecvStatus(char*,int,int)> a,std::function<LinkStatus(const char*,int)> b):r(a),w(b){} LinkStatus send(const char*b,int n){ return w(b,n); } RecvStatus recv(char*b,int n,int t){ return r(b,n,t); } LinkStatus close(int=0){ return 0; } };
struct Options { bool transparentRedirects=false, ensureConnectionIsPrimed=false; std::chrono::seconds tcpTimeout{30}; RetryStrategy retryStrategy; BackpressureStrategy backpressureStrategy; std::shared_ptr<Logger> logger; TlsConfig tlsconfig; std::vector<std::unique_ptr<Handshake>> hs; std::unique_ptr<Handshake> handshake; Options& withFluentSettings(){ return *this; } void chainHandshake(std::unique_ptr<Handshake> h){ hs.push_back(std::move(h)); } void chainHmacHandshake(const std::string&){} };
class QClient { public: std::string host; int port; Options opts; static inline std::function<redisReplyPtr(const std::string&,int,const std::vector<std::string>&)> handler;
  QClient(const std::string&h,int p,Options&&o):host(h),port(p),opts(std::move(o)){}
  std::future<redisReplyPtr> go(const std::vector<std::string>&v){ std::promise<redisReplyPtr> p; auto f=p.get_future(); p.set_value(handler?handler(host,port,v):redisReplyPtr()); return f; }
  template<class C> std::future<redisReplyPtr> execute(const C&c){ return go(std::vector<std::string>(c.begin(),c.end())); }
  template<class...A> std::future<redisReplyPtr> exec(const A&...a){ return go(std::vector<std::string>{std::string(a)...}); }
  std::future<redisReplyPtr> execute(size_t n,const char**b,const size_t*l){ std::vector<std::string> v; for(size_t i=0;i<n;i++) v.emplace_back(b[i],l[i]); return go(v); }
};
}
