// Stand-in for roscpp: a simulated node whose parameters, topics, clock and life time the harness controls (ros::sim).
#pragma once

#include <ros/callback_queue.h>
#include <ros/console.h>
#include <ros/duration.h>
#include <ros/serialization.h>
#include <ros/spinner.h>
#include <ros/time.h>

#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace ros {

typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;

/// A value on the parameter server, with roscpp's conversions: integers are read as floating point numbers and the other
/// way round (rounded), booleans and text only as what they are, lists element by element.
struct ParamValue {
  enum Kind { Int, Double, Bool, Text, List } kind = Int;
  int i = 0;
  double d = 0;
  bool b = false;
  std::string s;
  std::vector<ParamValue> list;

  bool get(int& v) const {
    if (kind == Int) return v = i, true;
    if (kind == Double) return v = static_cast<int>(std::fmod(d, 1.0) < 0.5 ? std::floor(d) : std::ceil(d)), true;
    return false;
  }
  bool get(double& v) const {
    if (kind == Double) return v = d, true;
    if (kind == Int) return v = i, true;
    return false;
  }
  bool get(float& v) const {
    double x;
    return get(x) ? (v = static_cast<float>(x), true) : false;
  }
  bool get(bool& v) const { return kind == Bool ? (v = b, true) : false; }
  bool get(std::string& v) const { return kind == Text ? (v = s, true) : false; }
  template <typename T>
  bool get(std::vector<T>& v) const {
    if (kind != List) return false;
    v.assign(list.size(), T());  // as roscpp, which has resized the vector before it finds an element of another type
    for (size_t k = 0; k < list.size(); k++) {
      T x = T();
      if (!list[k].get(x)) return false;
      v[k] = x;
    }
    return true;
  }
};

struct SubscribeOptions {
  std::string topic;
  uint32_t queue_size = 1;
  boost::function<void(const void*)> deliver;  // takes a pointer to a T::ConstPtr
  CallbackQueueInterface* callback_queue = nullptr;
  VoidConstPtr tracked_object;

  template <class T>
  static SubscribeOptions create(const std::string& topic, uint32_t queue_size,
                                 const boost::function<void(typename T::ConstPtr const&)>& callback,
                                 const VoidConstPtr& tracked_object, CallbackQueueInterface* queue) {
    SubscribeOptions o;
    o.topic = topic;
    o.queue_size = queue_size;
    o.deliver = [callback](const void* m) { callback(*static_cast<const typename T::ConstPtr*>(m)); };
    o.callback_queue = queue;
    o.tracked_object = tracked_object;
    return o;
  }
};

namespace init_options {
enum InitOption { NoSigintHandler = 1 << 0, AnonymousName = 1 << 1, NoRosout = 1 << 2 };
}
typedef init_options::InitOption InitOption;

namespace sim {

struct Network {
  bool ok = true;
  double now = 0;
  long sleeps = 0;
  std::function<void(double)> on_sleep;  // called with the time slept
  std::map<std::string, ParamValue> params;  // by resolved name
  struct Sub {
    SubscribeOptions options;
    std::mutex mutex;
  };
  std::mutex mutex;
  std::vector<std::weak_ptr<Sub>> subs;
  struct Init {
    std::vector<std::string> argv;
    std::string name;
    uint32_t options;
  };
  std::vector<Init> inits;
  int shutdowns = 0;
  CallbackQueue global;
};

inline Network*& current() {
  static Network* n = nullptr;
  return n;
}
inline Network& net() { return *current(); }

/// Sends a message on a topic: it waits in the queues of the subscribers.
template <class T>
void publish(const std::string& topic, const typename T::ConstPtr& m) {
  std::vector<std::shared_ptr<Network::Sub>> to;
  {
    std::lock_guard<std::mutex> l(net().mutex);
    for (auto& w : net().subs)
      if (auto s = w.lock())
        if (s->options.topic == topic) to.push_back(s);
  }
  for (auto& s : to) {
    auto* q = static_cast<CallbackQueue*>(s->options.callback_queue ? s->options.callback_queue : &net().global);
    auto deliver = s->options.deliver;
    q->addCallback([deliver, m] { deliver(&m); }, s.get(), s->options.queue_size);
  }
}
/// The threads of all running spinners get to run.
inline void serve() { AsyncSpinner::serve(); }
}  // namespace sim

inline CallbackQueue* getGlobalCallbackQueue() { return &sim::net().global; }
inline bool ok() { return sim::net().ok; }
inline void shutdown() { sim::net().ok = false, sim::net().shutdowns++; }
inline void requestShutdown() { sim::net().ok = false; }
inline bool isInitialized() { return !sim::net().inits.empty(); }
inline bool isStarted() { return isInitialized(); }
inline void init(int& argc, char** argv, const std::string& name, uint32_t options = 0) {
  sim::Network::Init i;
  i.name = name, i.options = options;
  for (int k = 0; k < argc; k++) i.argv.push_back(argv[k]);
  sim::net().inits.push_back(i);
}

class Rate {
 public:
  explicit Rate(double hz) : period_(1.0 / hz) {}
  explicit Rate(const Duration& d) : period_(d.toSec()) {}
  bool sleep() {
    auto& n = sim::net();
    n.now += period_;
    n.sleeps++;
    if (n.on_sleep) n.on_sleep(period_);
    return true;
  }
  void reset() {}

 private:
  double period_;
};
typedef Rate WallRate;

class Subscriber {
 public:
  Subscriber() {}
  explicit Subscriber(const std::shared_ptr<sim::Network::Sub>& s) : impl_(new Impl{s}) {}
  void shutdown() {
    if (impl_) impl_->unsubscribe();
  }
  std::string getTopic() const { return impl_ && impl_->sub ? impl_->sub->options.topic : std::string(); }

 private:
  struct Impl {
    std::shared_ptr<sim::Network::Sub> sub;
    void unsubscribe() {
      if (!sub) return;
      auto* q = static_cast<CallbackQueue*>(sub->options.callback_queue ? sub->options.callback_queue : &sim::net().global);
      const void* id = sub.get();
      auto keep = sub;
      sub.reset();
      {
        std::lock_guard<std::mutex> l(sim::net().mutex);
        auto& v = sim::net().subs;
        v.erase(std::remove_if(v.begin(), v.end(), [&](const std::weak_ptr<sim::Network::Sub>& w) { return w.lock() == keep; }), v.end());
      }
      q->removeByID(id);
    }
    ~Impl() { unsubscribe(); }
  };
  std::shared_ptr<Impl> impl_;
};

class NodeHandle {
 public:
  NodeHandle(const std::string& ns = std::string()) : ns_(ns.empty() ? "/" : ns[0] == '/' ? ns : "/" + ns) {}
  std::string getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const {
    if (!n.empty() && n[0] == '/') return n;
    return ns_ == "/" ? "/" + n : ns_ + "/" + n;
  }
  template <typename T>
  bool getParam(const std::string& name, T& v) const {
    const auto it = sim::net().params.find(resolveName(name));
    return it != sim::net().params.end() && it->second.get(v);
  }
  bool hasParam(const std::string& name) const { return sim::net().params.count(resolveName(name)) > 0; }
  template <typename T>
  bool param(const std::string& name, T& v, const T& def) const {
    if (getParam(name, v)) return true;
    return v = def, false;
  }
  template <typename T>
  T param(const std::string& name, const T& def) const {
    T v;
    return getParam(name, v) ? v : def;
  }
  Subscriber subscribe(SubscribeOptions& o) {
    auto s = std::make_shared<sim::Network::Sub>();
    s->options = o;
    std::lock_guard<std::mutex> l(sim::net().mutex);
    sim::net().subs.push_back(s);
    // the subscriber holds the subscription
    return Subscriber(s);
  }
  bool ok() const { return ros::ok(); }

 private:
  std::string ns_;
};

}  // namespace ros
