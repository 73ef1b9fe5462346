// Independent time-optimal parametrization used as the oracle of P28: the blended polyline is rebuilt from its
// definition and the fastest velocity profile is found by backward and forward reachability over a fine grid.
#pragma once
#include "vp.hpp"

#include <map>

#include <arc_utilities/time_optimal_trajectory_parametrization.hpp>

namespace topp {

using V = Eigen::VectorXd;
namespace lib = time_optimal_trajectory_parametrization;

struct Problem {
  std::vector<V> points;
  V vmax, amax;
  double deviation = 0, dt = 0.001;
  std::map<size_t, size_t> repeats;  // waypoints that are given several times in a row
  std::list<V> list() const {
    std::list<V> l;
    for (size_t k = 0; k < points.size(); k++) {
      l.push_back(points[k]);
      const auto r = repeats.find(k);
      if (r != repeats.end()) l.insert(l.end(), r->second, points[k]);
    }
    return l;
  }
  std::string describe() const {
    std::ostringstream o;
    o.precision(17);
    for (const auto& p : points) o << "(" << p.transpose() << ") ";
    for (const auto& r : repeats) o << "waypoint " << r.first << " " << r.second << " more times ";
    o << "vmax (" << vmax.transpose() << ") amax (" << amax.transpose() << ") deviation " << deviation << " dt " << dt;
    return o.str();
  }
};

struct Seg {
  double start, length, radius;  // radius 0: straight
  V a, b, x, y;                  // straight: from a along b;  arc: centre a, axes x and y
  V pos(double t) const { return radius > 0 ? V(a + radius * (x * std::cos(t / radius) + y * std::sin(t / radius))) : V(a + t * b); }
  V tan(double t) const { return radius > 0 ? V(-x * std::sin(t / radius) + y * std::cos(t / radius)) : b; }
  V cur(double t) const { return radius > 0 ? V(-(x * std::cos(t / radius) + y * std::sin(t / radius)) / radius) : V(V::Zero(a.size())); }
};

struct RefPath {
  std::vector<Seg> segs;
  double length = 0;
  void add(Seg s) {
    if (s.length <= 1e-12) return;
    s.start = length;
    length += s.length;
    segs.push_back(s);
  }
  void line(const V& from, const V& to) {
    Seg s;
    s.length = (to - from).norm();
    s.radius = 0;
    s.a = from;
    s.b = s.length > 0 ? V((to - from) / s.length) : V(V::Zero(from.size()));
    add(s);
  }
  explicit RefPath(const Problem& p) {
    V at = p.points.front();
    for (size_t i = 1; i + 1 < p.points.size(); i++) {
      const V in = p.points[i] - p.points[i - 1], out = p.points[i + 1] - p.points[i];
      const V d = in.normalized(), e = out.normalized();
      // atan2 form: accurate for small and large angles
      const double angle = 2 * std::atan2((d - e).norm(), (d + e).norm());
      if (p.deviation <= 0 || angle < 1e-6) {
        line(at, p.points[i]);
        at = p.points[i];
        continue;
      }
      const double reach = std::min(std::min(in.norm(), out.norm()) / 2, p.deviation * std::sin(angle / 2) / (1 - std::cos(angle / 2)));
      Seg s;
      s.radius = reach / std::tan(angle / 2);
      s.length = s.radius * angle;
      s.a = p.points[i] + (e - d).normalized() * (s.radius / std::cos(angle / 2));
      const V first = p.points[i] - reach * d;
      s.x = (first - s.a).normalized();
      s.y = d;
      line(at, first);
      add(s);
      at = p.points[i] + reach * e;
    }
    line(at, p.points.back());
  }
  const Seg& segAt(double s) const {
    size_t k = 0;
    while (k + 1 < segs.size() && s >= segs[k + 1].start) k++;
    return segs[k];
  }
  V pos(double s) const { const Seg& g = segAt(s); return g.pos(s - g.start); }
};

// u-interval with |tan u + cur x| <= amax
inline bool range(const V& t, const V& c, const V& amax, double x, double& lo, double& hi) {
  lo = -1e300;
  hi = 1e300;
  for (long k = 0; k < t.size(); k++) {
    if (std::fabs(t[k]) < 1e-12) {
      if (std::fabs(c[k]) * x > amax[k]) return false;
      continue;
    }
    double l = (-amax[k] - c[k] * x) / t[k], h = (amax[k] - c[k] * x) / t[k];
    if (l > h) std::swap(l, h);
    lo = std::max(lo, l);
    hi = std::min(hi, h);
  }
  return lo <= hi;
}

inline double reference_duration(const Problem& p, const RefPath& path, double resolution) {
  struct Node {
    V t, c;
    double xmax, step;
  };
  std::vector<Node> nodes;
  const auto xlimit = [&](const V& t, const V& c) {
    double x = 1e300;
    for (long k = 0; k < t.size(); k++)
      if (std::fabs(t[k]) > 1e-12) x = std::min(x, std::pow(p.vmax[k] / t[k], 2));
    double lo, hi;
    if (!range(t, c, p.amax, x, lo, hi)) {
      double a = 0, b = x;
      for (int i = 0; i < 60; i++) {
        const double m = (a + b) / 2;
        if (range(t, c, p.amax, m, lo, hi))
          a = m;
        else
          b = m;
      }
      x = a;
    }
    return x;
  };
  double carry = 1e300;
  for (const Seg& s : path.segs) {
    const int n = std::max(30, static_cast<int>(std::ceil(s.length / resolution)));
    for (int i = 0; i < n; i++) {
      const double t = s.length * i / n;
      Node nd{s.tan(t), s.cur(t), 0, s.length / n};
      nd.xmax = std::min(xlimit(nd.t, nd.c), i == 0 ? carry : 1e300);
      nodes.push_back(nd);
    }
    carry = xlimit(s.tan(s.length), s.cur(s.length));
  }
  const size_t N = nodes.size();
  std::vector<double> K(N + 1, 0.0);
  for (size_t i = N; i-- > 0;) {
    const Node& nd = nodes[i];
    const auto ok = [&](double x) {
      double lo, hi;
      if (!range(nd.t, nd.c, p.amax, x, lo, hi)) return false;
      return std::max(lo, -x / (2 * nd.step)) <= std::min(hi, (K[i + 1] - x) / (2 * nd.step));
    };
    double a = 0, b = nd.xmax;
    if (ok(b)) {
      K[i] = b;
      continue;
    }
    for (int k = 0; k < 50; k++) {
      const double m = (a + b) / 2;
      if (ok(m))
        a = m;
      else
        b = m;
    }
    K[i] = a;
  }
  double x = 0, time = 0;
  for (size_t i = 0; i < N; i++) {
    const Node& nd = nodes[i];
    double lo, hi;
    x = std::min(x, K[i]);
    range(nd.t, nd.c, p.amax, x, lo, hi);
    const double next = std::max(0.0, std::min(x + 2 * nd.step * hi, K[i + 1]));
    const double v = std::sqrt(x) + std::sqrt(next);
    time += 2 * nd.step / std::max(v, 1e-9);
    x = next;
  }
  return time;
}

inline double polyline_distance(const std::vector<V>& w, const V& p) {
  double best = (p - w[0]).norm();
  for (size_t j = 0; j + 1 < w.size(); j++) {
    const V e = w[j + 1] - w[j];
    const double u = std::min(1.0, std::max(0.0, (p - w[j]).dot(e) / e.squaredNorm()));
    best = std::min(best, (p - w[j] - u * e).norm());
  }
  return best;
}

}  // namespace topp
