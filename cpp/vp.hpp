// Property-based testing engine of /verif: choice-sequence generators, forked
// workers, integrated shrinking, replay files.
//
// A property is a function of a Src.  Everything it generates is decoded from
// Src::choice(n), so a case *is* its sequence of choices: shrinking deletes and
// lowers choices and replay feeds the saved sequence back.  Cases run in forked
// workers, so an assert(), a sanitizer report or a hang in the code under test
// is an ordinary failing case and is shrunk like any other.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <iostream>
#include <map>
#include <algorithm>
#include <functional>
#include <memory>

namespace vp {

struct Discard {};
struct Failure {
  std::string msg;
};

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
[[noreturn]] inline void discard() { throw Discard{}; }

struct Stats;

class Src {
 public:
  // Uniform in [0, n); n >= 1.  n == 0 means all 64 bits.
  uint64_t choice(uint64_t n);

  // Integer in [lo, hi], shrinks towards lo.
  int64_t i(int64_t lo, int64_t hi) {
    const uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1u;
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + choice(span));
  }
  size_t u(size_t lo, size_t hi) { return static_cast<size_t>(i(static_cast<int64_t>(lo), static_cast<int64_t>(hi))); }
  // Integer in [-m, m], shrinks towards 0.
  int64_t si(int64_t m) {
    const uint64_t c = choice(2u * static_cast<uint64_t>(m) + 1u);
    return (c & 1u) ? static_cast<int64_t>((c + 1) / 2) : -static_cast<int64_t>(c / 2);
  }
  bool b() { return choice(2) == 1; }
  // True with probability num/den, shrinks towards false.
  bool chance(uint64_t num, uint64_t den) { return choice(den) >= den - num; }
  // A length in [lo, hi], usually small.
  size_t len(size_t lo, size_t hi);
  // A length in [lo, hi], spread over the orders of magnitude and often next to a power of two.
  size_t big(size_t lo, size_t hi);
  // Real in [lo, hi]: end points, round numbers and arbitrary values.
  double real(double lo, double hi);
  // Strictly inside generic position: never a special value.
  double generic(double lo, double hi) {
    const double f = (static_cast<double>(choice(1ull << 40)) + 0.5) / static_cast<double>(1ull << 40);
    return lo + f * (hi - lo);
  }
  // Any double at all, special values included.
  double anyDouble();
  uint64_t bits64() { return choice(0); }
  uint8_t byte() { return static_cast<uint8_t>(choice(256)); }
  std::string str(size_t max, bool binary = true);
  std::vector<uint8_t> bytes(size_t max);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[static_cast<size_t>(choice(v.size()))];
  }
  // Calls f between lo and hi times; each call is preceded by its own "go on"
  // choice so that shrinking can drop single iterations.
  template <class F>
  void repeat(size_t lo, size_t hi, F f) {
    static const uint64_t stop[4] = {250, 120, 60, 20};
    const uint64_t st = stop[choice(4)];
    for (size_t k = 0; k < hi; ++k) {
      if (k >= lo && choice(1000) < st) break;
      f();
    }
  }
  template <class F>
  auto list(size_t lo, size_t hi, F f) -> std::vector<decltype(f())> {
    std::vector<decltype(f())> out;
    repeat(lo, hi, [&] { out.push_back(f()); });
    return out;
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t k = v.size(); k > 1; --k) {
      const size_t j = static_cast<size_t>(choice(k));
      // 0 keeps the element where it is, so shuffles shrink to identity.
      std::swap(v[k - 1], v[k - 1 - j]);
    }
  }

  // Lets d generate the bulk of a large case; whatever it draws takes a single choice here.
  void detach(Src& d) {
    d.mode_ = RANDOM;
    d.rng_ = bits64();
  }

  // --- classification -------------------------------------------------
  void label(const std::string& l);
  void nontrivial() { nontrivial_ = true; }
  void nontrivialIf(bool c) {
    if (c) nontrivial_ = true;
  }
  // Describes the case in evidence samples and failure reports.
  template <class T>
  Src& note(const T& t) {
    if (noting_) {
      note_ << t;
    }
    return *this;
  }
  bool noting() const { return noting_; }

  // engine side
  enum Mode { RANDOM, REPLAY };
  Mode mode_ = RANDOM;
  uint64_t rng_ = 0;
  const uint64_t* replay_ = nullptr;
  size_t nreplay_ = 0;
  size_t pos_ = 0;
  uint64_t* rec_ = nullptr;
  uint64_t* nrec_ = nullptr;
  size_t cap_ = 0;
  bool nontrivial_ = false;
  bool noting_ = false;
  std::ostringstream note_;
  uint64_t hash_ = 1469598103934665603ull;
  Stats* stats_ = nullptr;
};

using PropFn = void (*)(Src&);

struct Reg {
  Reg(const char* name, size_t quick, size_t thorough, PropFn fn);
};

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  int dummy[] = {0, ((o << a), 0)...};
  (void)dummy;
  return o.str();
}

template <class T>
std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t k = 0; k < v.size(); ++k) {
    if (k) o << ",";
    o << v[k];
  }
  o << "]";
  return o.str();
}
inline std::string show(const std::vector<uint8_t>& v) {
  std::ostringstream o;
  o << "x'";
  static const char* h = "0123456789abcdef";
  for (uint8_t c : v) o << h[c >> 4] << h[c & 15];
  o << "'";
  return o.str();
}

inline bool near(double a, double b, double tol) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= tol;
}
// Relative-or-absolute closeness.
inline bool close(double a, double b, double tol) {
  return near(a, b, tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))));
}
inline bool sameBits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

// A directory below the worker's scratch folder, unique to this process and emptied when asked for.
std::string scratchDir();

}  // namespace vp

#define VP_PROP(name, quick, thorough)                                            \
  static void vp_prop_##name(vp::Src& s);                                         \
  static vp::Reg vp_reg_##name(#name, quick, thorough, vp_prop_##name);           \
  static void vp_prop_##name(vp::Src& s)

#define VP_CHECK(cond, ...)                                                                        \
  do {                                                                                             \
    if (!(cond)) vp::fail(vp::cat(__FILE__, ":", __LINE__, ": not (" #cond ") ", ##__VA_ARGS__)); \
  } while (0)

// The expression must throw something derived from std::exception.
#define VP_THROWS(expr, ...)                                                                              \
  do {                                                                                                    \
    bool vp_threw = false;                                                                                \
    try {                                                                                                 \
      expr;                                                                                               \
    } catch (const std::exception&) {                                                                     \
      vp_threw = true;                                                                                    \
    }                                                                                                     \
    if (!vp_threw) vp::fail(vp::cat(__FILE__, ":", __LINE__, ": no error from " #expr " ", ##__VA_ARGS__)); \
  } while (0)
