// Stand-in for roscpp's header of the same name: the parts that arc_utilities and the messages use.
#pragma once

#include <cmath>
#include <cstdint>
#include <ostream>
#include <stdexcept>

namespace ros {

/// Seconds and nanoseconds with 0 <= nsec < 1e9, like roscpp's Duration.
class Duration {
 public:
  int32_t sec = 0, nsec = 0;
  Duration() = default;
  Duration(int32_t s, int32_t ns) { set(static_cast<int64_t>(s) * 1000000000LL + ns); }
  explicit Duration(double t) { set(static_cast<int64_t>(std::floor(t)) * 1000000000LL + std::llround((t - std::floor(t)) * 1e9)); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  Duration& fromNSec(int64_t t) { return set(t), *this; }
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double x) const { return Duration(toSec() * x); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
  bool isZero() const { return toNSec() == 0; }
  bool sleep() const { return true; }

 private:
  void set(int64_t t) {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) s--, n += 1000000000LL;
    if (s > INT32_MAX || s < INT32_MIN) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s), nsec = static_cast<int32_t>(n);
  }
};

class WallDuration : public Duration {
 public:
  WallDuration() = default;
  explicit WallDuration(double t) : Duration(t) {}
};

class Time {
 public:
  uint32_t sec = 0, nsec = 0;
  Time() = default;
  Time(uint32_t s, uint32_t ns) : sec(s), nsec(ns) {}
  static Time now() { return Time(); }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
};

inline std::ostream& operator<<(std::ostream& o, const Duration& d) { return o << d.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.sec << "." << t.nsec; }

}  // namespace ros
