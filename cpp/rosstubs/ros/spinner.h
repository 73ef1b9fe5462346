// Stand-in: a spinner only says that its queue may be served; the harness (playing its thread) serves it.
#pragma once

#include <ros/callback_queue.h>

#include <algorithm>
#include <cstdint>
#include <memory>
#include <mutex>
#include <vector>

namespace ros {

class AsyncSpinner {
 public:
  explicit AsyncSpinner(uint32_t thread_count, CallbackQueue* queue = nullptr)
      : state_(new State(queue ? queue : getGlobalCallbackQueue(), thread_count ? thread_count : 1)) {
    std::lock_guard<std::mutex> l(mutex());
    auto& v = all();
    v.erase(std::remove_if(v.begin(), v.end(), [](const std::weak_ptr<State>& w) { return w.expired(); }), v.end());
    v.push_back(state_);
  }
  void start() { state_->set(true); }
  void stop() { state_->set(false); }
  bool canStart() { return !state_->running; }

  /// The threads of all running spinners get to run.
  static void serve() {
    std::vector<std::shared_ptr<State>> states;
    {
      std::lock_guard<std::mutex> l(mutex());
      for (auto& w : all())
        if (auto s = w.lock()) states.push_back(s);
    }
    for (auto& s : states) {
      std::lock_guard<std::recursive_mutex> l(s->mutex);
      if (s->running) s->queue->spinOnce();
    }
  }

 private:
  struct State {
    std::recursive_mutex mutex;  // held while the thread runs callbacks: stopping waits for them
    CallbackQueue* const queue;
    const uint32_t threads;
    bool running = false;
    State(CallbackQueue* q, uint32_t n) : queue(q), threads(n) {}
    void set(bool on) {
      std::lock_guard<std::recursive_mutex> l(mutex);
      if (on != running) running = on, queue->addSpinner(on ? 1 : -1);
    }
  };
  struct Owner {
    std::shared_ptr<State> state;
    ~Owner() {
      if (state) state->set(false);
    }
  };
  static std::mutex& mutex() {
    static std::mutex m;
    return m;
  }
  static std::vector<std::weak_ptr<State>>& all() {
    static std::vector<std::weak_ptr<State>> v;
    return v;
  }
  std::shared_ptr<State> state_;
  std::shared_ptr<Owner> owner_{new Owner{state_}};
};

}  // namespace ros
