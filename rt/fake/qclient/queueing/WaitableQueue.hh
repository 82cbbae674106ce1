#pragma once
#include <deque>
#include <mutex>
#include <condition_variable>
namespace qclient {
// single-consumer queue with blocking iteration
template<typename T,size_t N> class WaitableQueue { std::deque<T> q; size_t base=0; bool blocking=true; std::mutex m; std::condition_variable cv; public:
  template<class...A> int64_t emplace_back(A&&...a){ std::unique_lock<std::mutex> l(m); q.emplace_back(std::forward<A>(a)...); cv.notify_all(); return (int64_t)(base+q.size()-1); }
  void pop_front(){ std::unique_lock<std::mutex> l(m); q.pop_front(); base++; } T& front(){ return q.front(); } size_t size(){ return q.size(); } void reset(){ q.clear(); }
  void setBlockingMode(bool b){ std::unique_lock<std::mutex> l(m); blocking=b; cv.notify_all(); }
  class Iterator { WaitableQueue*w; size_t i; public: Iterator(WaitableQueue*x,size_t k):w(x),i(k){} T* getItemBlockOrNull(){ std::unique_lock<std::mutex> l(w->m); while(w->blocking&&i>=w->base+w->q.size()) w->cv.wait(l); if(i>=w->base+w->q.size()) return nullptr; return &w->q[i-w->base]; } T& item(){ return w->q[i-w->base]; } void next(){ i++; } int64_t seq(){ return (int64_t)i; } bool itemHasArrived(){ return i<w->base+w->q.size(); } };
  Iterator begin(){ return Iterator(this,base); } };
}
