#include "vp.hpp"

#include <queue>
#include <random>
#include <arc_utilities/path_utils.hpp>

namespace {

using Path = EigenHelpers::VectorVector3d;
using V3 = Eigen::Vector3d;

V3 genPoint(vp::Src& s, bool exact) {
  V3 p;
  for (int k = 0; k < 3; ++k) p(k) = exact ? (double)s.si(6) : s.generic(-10, 10);
  return p;
}
// Along one axis, with steps next to (multiples of) the unit.
Path fineAlong(vp::Src& s, size_t lo, size_t hi, double unit) {
  Path p;
  double at = 0;
  const bool multiples = s.b();
  const double sign = s.b() ? 1 : -1;
  s.repeat(lo, hi, [&] {
    p.push_back(V3(at, 0, 0));
    const double off = (double)s.si(2) * std::ldexp(1.0, -(int)s.u(16, 24));
    at += sign * unit * (multiples ? (double)s.u(0, 3) + std::abs(off) * (s.b() ? 1 : 1024) : 1 + off);
  });
  return p;
}
Path genPath(vp::Src& s, size_t lo, size_t hi, bool exact) {
  Path p;
  s.repeat(lo, hi, [&] {
    if (!p.empty() && s.chance(1, 8))
      p.push_back(p.back());
    else if (!p.empty() && s.chance(1, 4))
      p.push_back(p[(size_t)s.choice(p.size())]);
    else
      p.push_back(genPoint(s, exact));
  });
  return p;
}
double len(const V3& a, const V3& b) { return (a - b).norm(); }
double len(const Path& p) {
  double l = 0;
  for (size_t k = 1; k < p.size(); ++k) l += len(p[k - 1], p[k]);
  return l;
}
V3 lerp(const V3& a, const V3& b, double r) { return a * (1 - r) + b * r; }
const auto distFn = [](const V3& a, const V3& b) { return len(a, b); };
const auto lerpFn = [](const V3& a, const V3& b, const double r) { return lerp(a, b, r); };
bool near(const V3& a, const V3& b) { return (a - b).norm() <= 1e-9; }
std::string show(const Path& p) {
  std::ostringstream o;
  for (const V3& v : p) o << "(" << v.transpose() << ") ";
  return o.str();
}
struct Quiet {
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  ~Quiet() { std::cerr.rdbuf(old); }
};

// `got` follows the vertices path[lo..hi) in order; between two of them it has equally spaced points on the segment.
// counts[k] are the points inserted on segment k.
std::vector<size_t> follows(const Path& got, const Path& path, size_t lo, size_t hi) {
  std::vector<size_t> counts;
  VP_CHECK(!got.empty() && near(got[0], path[lo]), "does not start at the first state");
  size_t at = 0;
  for (size_t k = lo; k + 1 < hi; ++k) {
    const double l = len(path[k], path[k + 1]);
    if (l == 0) {  // repeated states are dropped
      counts.push_back(0);
      continue;
    }
    size_t n = 0;  // points up to and including the next vertex
    bool reached = false;
    for (size_t q = at + 1; q < got.size() && !reached; ++q) {
      ++n;
      reached = near(got[q], path[k + 1]);
    }
    VP_CHECK(reached, "state ", k + 1, " of the path is missing: ", show(got));
    for (size_t q = 1; q <= n; ++q)
      VP_CHECK(near(got[at + q], lerp(path[k], path[k + 1], (double)q / (double)n)), "point ", at + q, " is not equally spaced on segment ", k);
    counts.push_back(n - 1);
    at += n;
  }
  VP_CHECK(at + 1 == got.size(), "there are ", got.size() - at - 1, " states after the end");
  return counts;
}

// Resampling; duplicate states in a row may be dropped.
VP_PROP(resample, 200000, 3000000) {
  const bool exact = s.b();
  const bool large = s.chance(1, 800), fine = !large && s.chance(1, 6);
  const double step = large && s.b() ? std::ldexp(1.0, -(int)s.u(3, 8)) : exact || fine ? (double)s.u(1, 12) * 0.5 : s.generic(0.3, 15);
  const Path p = fine ? fineAlong(s, 1, 6, step) : genPath(s, 1, large && s.b() ? 400 : 10, exact);
  const size_t lo = s.u(0, p.size() - 1), hi = s.u(lo + 1, p.size());
  const Path got = path_utils::ResamplePathPartial(p, lo, hi, step, distFn, lerpFn);
  if (s.noting()) s.note(vp::cat("[", lo, ", ", hi, ") of ", p.size(), " states, step ", step));
  const auto counts = follows(got, p, lo, hi);
  size_t inserted = 0;
  for (size_t k = 0; k < counts.size(); ++k) {
    const double l = len(p[lo + k], p[lo + k + 1]);
    VP_CHECK(l <= step * (double)(counts[k] + 1) * (1 + 1e-12), "steps of ", l / (double)(counts[k] + 1), " on segment ", k, " exceed ", step);
    // no more points than it takes
    VP_CHECK(counts[k] == 0 || l > step * (double)counts[k] * (1 - 1e-12), counts[k], " points on segment ", k, " of length ", l, " for steps of ", step);
    inserted += counts[k];
  }
  s.nontrivialIf(inserted > 0 && hi - lo > 2);
  if (lo == 0 && hi == p.size()) {
    const Path whole = path_utils::ResamplePath(p, step, distFn, lerpFn);
    VP_CHECK(whole == got, "the whole path and its full range are resampled differently");
  }
  const Path part(p.begin() + (ssize_t)lo, p.begin() + (ssize_t)hi);
  VP_CHECK(path_utils::ResamplePath(part, step, distFn, lerpFn) == got, "resampling a part differs from resampling that part alone");
}

VP_PROP(resample_bad_ranges, 30000, 500000) {
  const Path p = genPath(s, 0, 6, true);
  const size_t lo = s.u(0, 9), hi = s.u(0, 9);
  if (lo < hi && hi <= p.size()) vp::discard();
  s.nontrivial();
  if (s.noting()) s.note(vp::cat("[", lo, ", ", hi, ") of ", p.size()));
  VP_THROWS(path_utils::ResamplePathPartial(p, lo, hi, 1.0, distFn, lerpFn), "range outside the path was resampled");
}

VP_PROP(upsample, 200000, 3000000) {
  Quiet quiet;
  const bool exact = s.b();
  const bool large = s.chance(1, 800);
  Path p = !large && s.chance(1, 6) ? fineAlong(s, 1, 6, (double)s.u(1, 4)) : genPath(s, 1, large && s.b() ? 200 : 9, exact);
  const size_t lo = s.u(0, p.size() - 1), hi = s.u(lo + 1, p.size());
  size_t want = large ? s.big(30, 3000) : s.u(1, 30);
  if (hi - lo == 1) want = 1;  // nothing to put points between
  const Path got = path_utils::UpsamplePathPartial(p, (ssize_t)lo, (ssize_t)hi, (ssize_t)want, distFn, lerpFn);
  if (s.noting()) s.note(vp::cat("[", lo, ", ", hi, ") of ", p.size(), " states to ", want));
  const Path part(p.begin() + (ssize_t)lo, p.begin() + (ssize_t)hi);
  VP_CHECK(path_utils::UpsamplePath(part, (ssize_t)want, distFn, lerpFn) == got, "upsampling a part differs from upsampling that part alone");
  if (want <= hi - lo) {
    VP_CHECK(got == part, "there are enough states already, but it returned ", show(got), "for ", show(part));
    return;
  }
  VP_CHECK(got.size() == want, got.size(), " points instead of ", want);
  VP_CHECK(near(got.front(), part.front()) && near(got.back(), part.back()), "end points moved");
  // every state of the path is there, in order, with equally spaced points between: match greedily, preferring few
  double longest = 0, total = 0;
  for (size_t k = 0; k + 1 < part.size(); ++k) total += len(part[k], part[k + 1]);
  bool degenerate = false;
  for (size_t k = 0; k + 1 < part.size(); ++k) degenerate = degenerate || len(part[k], part[k + 1]) < 1e-9;
  for (size_t k = 0; k + 1 < got.size(); ++k) longest = std::max(longest, len(got[k], got[k + 1]));
  VP_CHECK(vp::close(len(got), total, 1e-9), "the path is ", len(got), " long instead of ", total);
  s.nontrivialIf(part.size() > 2 && total > 0);
  s.label(degenerate ? "with repeated states" : "plain");
  if (!degenerate) {
    const auto counts = follows(got, part, 0, part.size());
    // splitting the longest step first is optimal: fewer points cannot make every step shorter than the longest one
    size_t needed = 0;
    const double shorter = longest * (1 - 1e-9) - 1e-13;  // beyond rounding
    if (shorter < 1e-9) return;
    for (size_t k = 0; k + 1 < part.size(); ++k) needed += (size_t)std::ceil(len(part[k], part[k + 1]) / shorter);
    VP_CHECK(needed + 1 > want, "the longest step is ", longest, " but ", needed + 1, " points suffice to make all steps shorter");
    (void)counts;
  }
}

// Configurations with an identity, so that every state and step is traceable.
VP_PROP(shortcut, 200000, 3000000) {
  const size_t n = s.chance(1, 1000) ? s.big(40, 1000) : s.len(0, 40);
  std::vector<size_t> path(n);
  for (size_t k = 0; k < n; ++k) path[k] = k;
  const uint64_t salt = s.bits64();
  const uint64_t yes = s.u(0, 4);
  std::vector<std::pair<size_t, size_t>> approved;
  size_t checks = 0, rejected = 0;
  std::vector<size_t> now = path;  // the path with the shortcuts approved so far
  const double fraction = s.pick(std::vector<double>{0.0, 0.1, 0.25, 0.5, 1.0});
  const auto valid = [&](const size_t& a, const size_t& b) {
    VP_CHECK(a < b && b < n && b != a + 1, "a pointless or backward edge ", a, "-", b, " was checked");
    ++checks;
    const bool ok = ((a * 1000003u) ^ (b * 7919u) ^ salt) % 5 <= yes && yes;
    const auto from = std::find(now.begin(), now.end(), a), to = std::find(now.begin(), now.end(), b);
    VP_CHECK(from != now.end() && to != now.end(), "an edge between states that are no longer on the path was checked");
    VP_CHECK((double)(to - from) <= fraction * (double)now.size() + 1e-9, "a shortcut over ", to - from, " of ", now.size(), " states was tried with fraction ", fraction);
    if (ok) {
      approved.emplace_back(a, b);
      now.erase(from + 1, to);
    } else {
      ++rejected;
    }
    return ok;
  };
  const uint32_t iterations = (uint32_t)s.u(0, 60), failures = (uint32_t)s.u(0, 30);
  std::mt19937_64 prng(s.choice(1u << 30));
  if (s.noting()) s.note(vp::cat(n, " states, ", iterations, " iterations, ", failures, " failures, fraction ", fraction));
  const auto got = path_utils::ShortcutSmoothPath(path, iterations, failures, fraction, valid, prng);
  VP_CHECK(checks <= iterations, checks, " checks in ", iterations, " iterations");
  VP_CHECK(rejected <= failures, rejected, " failed shortcuts of at most ", failures);
  if (n == 0) {
    VP_CHECK(got.empty(), "states appeared in an empty path");
    return;
  }
  VP_CHECK(!got.empty() && got.front() == 0 && got.back() == n - 1, "an end point of the path was lost");
  size_t shortcuts = 0;
  for (size_t k = 1; k < got.size(); ++k) {
    VP_CHECK(got[k] > got[k - 1] && got[k] < n, "states are not in order");
    if (got[k] == got[k - 1] + 1) continue;
    ++shortcuts;
    VP_CHECK(std::find(approved.begin(), approved.end(), std::make_pair(got[k - 1], got[k])) != approved.end(), "step ", got[k - 1], "-", got[k], " was never approved");
  }
  VP_CHECK(approved.empty() || got.size() < n, "an approved shortcut was not taken");
  s.nontrivialIf(shortcuts > 0 && rejected > 0);
}

// In a metric space with obstacles the path gets no longer and stays free.
VP_PROP(shortcut_metric, 50000, 1000000) {
  const Path p = genPath(s, 1, 25, false);
  const V3 centre = genPoint(s, false);
  const double r = s.generic(0, 5);
  const auto valid = [&](const V3& a, const V3& b) {
    for (int k = 0; k <= 10; ++k)
      if (len(lerp(a, b, k * 0.1), centre) < r) return false;
    return true;
  };
  std::mt19937_64 prng(s.choice(1u << 30));
  const Path got = path_utils::ShortcutSmoothPath(p, (uint32_t)s.u(0, 100), (uint32_t)s.u(0, 50), s.pick(std::vector<double>{0.2, 0.5, 1.0}), valid, prng);
  if (s.noting()) s.note(vp::cat(p.size(), " states to ", got.size()));
  VP_CHECK(!got.empty() && got.front() == p.front() && got.back() == p.back(), "an end point of the path was lost");
  VP_CHECK(len(got) <= len(p) * (1 + 1e-12) + 1e-12, "the path became longer: ", len(got), " from ", len(p));
  for (size_t k = 1; k < got.size(); ++k) {
    bool original = false;
    for (size_t q = 1; q < p.size(); ++q) original = original || (p[q - 1] == got[k - 1] && p[q] == got[k]);
    VP_CHECK(original || valid(got[k - 1], got[k]), "step ", k, " is neither of the path nor free");
  }
  s.nontrivialIf(got.size() < p.size() && got.size() > 2);
}

}  // namespace
