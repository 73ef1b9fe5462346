// Stand-in for roscpp's callback queue: the harness decides when a spinning thread gets to run the callbacks.
#pragma once

#include <ros/time.h>

#include <boost/function.hpp>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <mutex>
#include <utility>
#include <vector>

namespace ros {

class CallbackQueueInterface {
 public:
  virtual ~CallbackQueueInterface() {}
};

class CallbackQueue : public CallbackQueueInterface {
 public:
  typedef boost::function<void()> Callback;

  CallbackQueue() = default;
  CallbackQueue(const CallbackQueue&) = delete;
  ~CallbackQueue() {
    alive();
    magic_ = 0;
  }

  void addCallback(const Callback& c, const void* owner, size_t limit = 0) {
    alive();
    std::lock_guard<std::mutex> l(mutex_);
    if (limit) {
      size_t mine = 0;
      for (const auto& p : pending_) mine += p.first == owner;
      for (size_t k = 0; mine >= limit && k < pending_.size();)
        if (pending_[k].first == owner)
          pending_.erase(pending_.begin() + static_cast<std::ptrdiff_t>(k)), mine--;
        else
          k++;
    }
    pending_.emplace_back(owner, c);
  }
  void removeByID(const void* owner) {
    alive();
    std::lock_guard<std::recursive_mutex> calling(calling_);
    std::lock_guard<std::mutex> l(mutex_);
    std::deque<std::pair<const void*, Callback>> rest;
    for (auto& p : pending_)
      if (p.first != owner) rest.push_back(p);
    pending_.swap(rest);
  }
  void callAvailable(const WallDuration& = WallDuration()) {
    alive();
    std::lock_guard<std::recursive_mutex> calling(calling_);
    size_t n;
    {
      std::lock_guard<std::mutex> l(mutex_);
      n = pending_.size();
    }
    while (n-- > 0) {
      Callback c;
      {
        std::lock_guard<std::mutex> l(mutex_);
        if (pending_.empty()) return;
        c = pending_.front().second;
        pending_.pop_front();
      }
      c();
    }
  }
  /// What a thread of an AsyncSpinner does when it gets to run.
  void spinOnce() {
    std::lock_guard<std::recursive_mutex> calling(calling_);
    if (spinners_ > 0) callAvailable();
  }
  void addSpinner(int n) {
    alive();
    std::lock_guard<std::recursive_mutex> calling(calling_);
    spinners_ += n;
  }
  bool isEmpty() {
    std::lock_guard<std::mutex> l(mutex_);
    return pending_.empty();
  }
  void clear() {
    std::lock_guard<std::mutex> l(mutex_);
    pending_.clear();
  }

 private:
  /// A queue that is used after its end is an error of whoever owns it.
  void alive() const {
    if (magic_ != 0x5afe0c0deULL) std::fprintf(stderr, "a callback queue is used after its end\n"), std::abort();
  }
  volatile unsigned long long magic_ = 0x5afe0c0deULL;
  std::mutex mutex_;
  std::recursive_mutex calling_;
  std::deque<std::pair<const void*, Callback>> pending_;
  int spinners_ = 0;
};

CallbackQueue* getGlobalCallbackQueue();

}  // namespace ros
