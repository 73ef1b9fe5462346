#include "vp.hpp"

#include <atomic>
#include <thread>

#include <arc_utilities/listener.hpp>

namespace {

std::atomic<long> g_errors{0};
const char* g_error = "";
void error(const char* what) {
  if (g_errors++ == 0) g_error = what;
}
/// The memory of the listener, and what happens when a message pointer in it ends.
const char *g_begin = nullptr, *g_end = nullptr;

/// A message pointer that knows whether it is still there and whether two threads use it at once.
class Pointer {
 public:
  Pointer(std::nullptr_t = nullptr) {}
  explicit Pointer(int id) : id_(id) {}
  Pointer(const Pointer& o) : id_(o.read()) {}
  Pointer& operator=(const Pointer& o) { return write(o.read()), *this; }
  Pointer& operator=(std::nullptr_t) { return write(0), *this; }
  ~Pointer() {
    check();
    magic_ = 0;
    const char* at = reinterpret_cast<const char*>(this);
    // a spinning thread may run just now
    if (at >= g_begin && at < g_end) ros::sim::serve();
  }
  explicit operator bool() const { return read() != 0; }
  bool operator==(std::nullptr_t) const { return read() == 0; }
  bool operator!=(std::nullptr_t) const { return read() != 0; }
  int id() const { return read(); }
  void reset() { write(0); }

 private:
  void check() const {
    if (magic_ != 0x600d) error("a message pointer is used after its end");
  }
  void pause() const {
    for (volatile int k = 0; k < 500; k = k + 1) {
    }
    std::this_thread::yield();
  }
  int read() const {
    check();
    readers_++;
    if (writers_ > 0) error("a message is read while another thread replaces it");
    if (g_slow) pause();
    const int v = id_;
    if (writers_ > 0) error("a message is read while another thread replaces it");
    readers_--;
    return v;
  }
  void write(int v) {
    check();
    if (writers_++ > 0 || readers_ > 0) error("a message is replaced while another thread uses it");
    if (g_slow) pause();
    id_ = v;
    if (readers_ > 0) error("a message is replaced while another thread uses it");
    writers_--;
  }
  volatile int magic_ = 0x600d;
  int id_ = 0;
  mutable std::atomic<int> readers_{0};
  std::atomic<int> writers_{0};

 public:
  static bool g_slow;
};
bool Pointer::g_slow = false;

struct Message {
  typedef Pointer ConstPtr;
  typedef Pointer Ptr;
};
using L = Listener<Message>;

struct World {
  ros::sim::Network net;
  World() {
    ros::sim::current() = &net;
    g_errors = 0;
  }
  ~World() {
    g_begin = g_end = nullptr;
    ros::sim::current() = nullptr;
  }
};
void watch(L* l) {
  g_begin = reinterpret_cast<const char*>(l);
  g_end = l ? g_begin + sizeof(L) : nullptr;
}

}  // namespace

/// Histories of messages, reads, waits, stops and starts on one or two listeners.
VP_PROP(listeners_have_the_latest_message, 500000, 8000000) {
  World w;
  ros::NodeHandle nh;
  struct One {
    std::unique_ptr<L> l;
    std::string topic;
    bool running = false;
    int latest = 0, pending = 0;
    bool unsure = false;  // after a wait that was interrupted
  };
  std::vector<std::unique_ptr<One>> all;
  const size_t n = s.len(1, 2);
  const std::vector<std::string> topics{"joint_states", "image"};
  for (size_t k = 0; k < n; k++) {
    all.emplace_back(new One);
    One& o = *all.back();
    o.topic = s.pick(topics);
    o.running = s.chance(3, 4);
    if (o.running && s.b())
      o.l.reset(new L(nh, o.topic));
    else
      o.l.reset(new L(nh, o.topic, o.running));
    if (s.noting()) s.note(vp::cat("listener ", k, " on ", o.topic, o.running ? "" : ", not started"));
  }
  int next = 0, reads = 0, messages = 0;
  const auto publish = [&] {
    const std::string topic = s.pick(topics);
    next++, messages++;
    ros::sim::publish<Message>(topic, Pointer(next));
    for (auto& o : all)
      if (o->topic == topic) o->pending = next;
    if (s.noting()) s.note(vp::cat("message ", next, " on ", topic));
  };
  const auto serve = [&] {
    ros::sim::serve();
    for (auto& o : all)
      if (o->running && o->pending) o->latest = o->pending, o->pending = 0, o->unsure = false;
    if (s.noting()) s.note("threads run");
  };
  const auto check = [&](One& o, const char* when) {
    const int got = o.l->get().id();
    VP_CHECK(got == o.latest || (o.unsure && got == 0), when, ": get() on ", o.topic, " returned message ", got, ", the latest is ", o.latest);
  };
  const size_t steps = s.len(1, 12);
  for (size_t k = 0; k < steps; k++) {
    One& o = *all[s.choice(all.size())];
    switch (s.choice(8)) {
      case 0:
      case 1: publish(); break;
      case 2:
      case 3: serve(); break;
      case 4:
        check(o, "in between"), reads++;
        if (s.noting()) s.note(vp::cat("get() on ", o.topic));
        break;
      case 5:
        if (s.b())
          o.l->stop(), o.running = false;
        else
          o.l->start(), o.running = true;
        if (s.noting()) s.note(vp::cat(o.running ? "start()" : "stop()", " on ", o.topic));
        break;
      default: {
        // wait: while the caller sleeps messages are sent, threads run and ROS may be shut down
        const double freq = s.pick(std::vector<double>{1, 10, 100});
        const size_t plan = s.len(0, 4);
        size_t slept = 0;
        bool arrived = false, down = !w.net.ok;
        const int before = o.latest;
        o.unsure = true;
        if (s.noting()) s.note(vp::cat("waitForNew() on ", o.topic, " after message ", before));
        w.net.on_sleep = [&](double) {
          slept++;
          if (arrived && !down) vp::fail("waitForNew() goes on waiting although a message has arrived");
          if (slept > plan) {
            if (slept > plan + 3) vp::fail("waitForNew() goes on waiting although ROS is down");
            w.net.ok = false, down = true;
            return;
          }
          if (s.chance(2, 3)) publish();
          if (s.chance(2, 3)) {
            arrived |= o.running && o.pending;
            serve();
          }
          if (s.chance(1, 8)) w.net.ok = false, down = true;
        };
        bool threw = false;
        int got = 0;
        try {
          got = o.l->waitForNew(freq).id();
        } catch (const std::runtime_error&) {
          threw = true;
        }
        w.net.on_sleep = nullptr;
        VP_CHECK(!threw || down, "waitForNew() gave up although ROS is up");
        if (!threw) {
          VP_CHECK(arrived, "waitForNew() returned message ", got, " although none has arrived since it was called");
          VP_CHECK(got == o.latest, "waitForNew() returned message ", got, " instead of ", o.latest);
          o.unsure = false;
          s.label("waited for a message");
        } else {
          VP_CHECK(!arrived || down, "waitForNew() gave up although a message arrived");
          if (arrived) o.unsure = false;
        }
        w.net.ok = true;
        reads++;
      }
    }
    VP_CHECK(g_errors == 0, g_error);
  }
  for (auto& o : all) check(*o, "at the end");
  // the listeners end while messages are waiting
  if (s.b()) publish();
  for (auto& o : all) {
    watch(o->l.get());
    o->l.reset();
    watch(nullptr);
  }
  VP_CHECK(g_errors == 0, "ending a listener: ", g_error);
  VP_CHECK(w.net.subs.empty(), "a listener that has ended is still subscribed");
  s.nontrivialIf(messages >= 2 && reads >= 1);
}

namespace {
/// One round: a spinning thread, readers, and messages in the meantime.
void threads(int messages, int readers, bool destroyEarly) {
  World w;
  ros::NodeHandle nh;
  std::unique_ptr<L> l(new L(nh, "t"));
  std::atomic<bool> done{false};
  std::atomic<long> backwards{0};
  Pointer::g_slow = true;
  std::vector<std::thread> reading;
  std::thread spinner([&] {
    while (!done) ros::sim::serve(), std::this_thread::yield();
  });
  for (int k = 0; k < readers; k++)
    reading.emplace_back([&] {
      int last = 0;
      for (int j = 0; j < 20; j++) {
        const int got = l->get().id();
        if (got < last) backwards++;
        last = got;
        std::this_thread::yield();
      }
    });
  for (int k = 1; k <= messages; k++) {
    ros::sim::publish<Message>("t", Pointer(k));
    std::this_thread::yield();
  }
  for (auto& t : reading) t.join();
  if (!destroyEarly) {
    done = true;
    spinner.join();
    ros::sim::serve();
    const int got = l->get().id();
    VP_CHECK(got == messages, "after ", messages, " messages the latest is ", got);
    l.reset();
  } else {
    l.reset();
    done = true;
    spinner.join();
  }
  Pointer::g_slow = false;
  VP_CHECK(backwards == 0, "a reader got an older message after a newer one");
  VP_CHECK(g_errors == 0, g_error);
}
}  // namespace

/// A thread receives messages while others read them.
VP_PROP(listeners_are_safe_between_threads, 900, 15000) {
  const int messages = static_cast<int>(s.i(2, 12)), readers = static_cast<int>(s.i(1, 3));
  const bool destroyEarly = s.chance(1, 4);
  s.nontrivial();
  if (s.noting()) s.note(vp::cat(messages, " messages, ", readers, " readers", destroyEarly ? ", ended early" : ""));
  // the same again and again: what happens depends on the threads
  for (int round = 0; round < 40; round++) threads(messages, readers, destroyEarly);
}
