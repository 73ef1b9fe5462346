#include "P28.hpp"

namespace {

using namespace topp;

Problem gen(vp::Src& s, size_t max_points, bool blend) {
  Problem p;
  const size_t d = s.u(1, 4), n = s.u(2, max_points);
  const bool lattice = s.chance(1, 3);
  p.vmax = V(d);
  p.amax = V(d);
  for (size_t k = 0; k < d; k++) {
    p.vmax[k] = s.chance(1, 3) ? 1.0 : s.generic(0.3, 3);
    p.amax[k] = s.chance(1, 3) ? 1.0 : s.generic(0.3, 5);
  }
  p.deviation = blend ? s.generic(0.005, 0.2) : 0.0;
  // Every corner turns by less than about 155 degrees: exact reversals are a known finding.
  for (size_t i = 0; i < n; i++) {
    V v(d);
    for (size_t k = 0; k < d; k++) v[k] = lattice ? 0.5 * static_cast<double>(s.u(0, 4)) : s.generic(-1, 1);
    if (!p.points.empty() && (v - p.points.back()).norm() < 0.1) continue;
    if (p.points.size() > 1) {
      const V a = (p.points.back() - p.points[p.points.size() - 2]).normalized(), b = (v - p.points.back()).normalized();
      if (a.dot(b) < -0.9) continue;
    }
    p.points.push_back(v);
  }
  if (p.points.size() < 2) vp::discard();
  if (s.chance(1, 4))
    for (size_t k = s.u(1, 2); k > 0; k--) p.repeats[s.choice(p.points.size())] = s.u(1, 2);
  return p;
}

lib::Trajectory build(Problem& p, bool from_path) {
  for (int k = 0;; k++) {
    try {
      if (from_path) return lib::Trajectory(lib::Path(p.list(), p.deviation), p.vmax, p.amax, p.dt);
      return lib::Trajectory(p.list(), p.vmax, p.amax, p.deviation, p.dt);
    } catch (const std::exception& e) {
      // Failing to integrate is allowed for single numerically unlucky problems only.
      if (k == 3) vp::fail(vp::cat("no trajectory even for changed limits: ", e.what(), " ", p.describe()));
      p.vmax *= 1.013;
      p.amax *= 0.991;
    }
  }
}

void audit(const Problem& p, const lib::Trajectory& t, double velocity_tolerance, double spikes) {
  const double T = t.Duration();
  const size_t d = static_cast<size_t>(p.vmax.size());
  VP_CHECK(std::isfinite(T) && T > 0, "duration ", T, " of ", p.describe());
  const auto first = t.GetPositionVelocity(0.0), last = t.GetPositionVelocity(T);
  VP_CHECK((first.first - p.points.front()).norm() <= 1e-6 && first.second.norm() <= 1e-6, "start ", first.first.transpose(), " with velocity ", first.second.transpose(), " for ", p.describe());
  VP_CHECK((last.first - p.points.back()).norm() <= 1e-5 && last.second.norm() <= 2e-3 * p.vmax.norm(), "end ", last.first.transpose(), " with velocity ", last.second.transpose(), " for ", p.describe());
  const int M = std::max(500, std::min(6000, static_cast<int>(T / p.dt)));
  const double h = T / M;
  V pos = first.first, vel = first.second;
  int over = 0;
  double worst = 0;
  for (int i = 1; i <= M; i++) {
    const double time = i == M ? T : T * i / M;
    const auto st = t.GetPositionVelocity(time);
    double a = 0;
    for (size_t k = 0; k < d; k++) {
      VP_CHECK(std::fabs(st.second[k]) <= p.vmax[k] * (1 + velocity_tolerance), "velocity ", st.second[k], " of joint ", k, " beyond ", p.vmax[k], " at ", time, " of ", T, " for ", p.describe());
      a = std::max(a, std::fabs(st.second[k] - vel[k]) / h / p.amax[k]);
    }
    over += a > 1.05;
    worst = std::max(worst, a);
    VP_CHECK(a <= 12, "acceleration ", a, " times the limit at ", time, " of ", T, " for ", p.describe());
    const double gap = (st.first - pos - 0.5 * h * (st.second + vel)).norm();
    VP_CHECK(gap <= 0.05 * p.vmax.norm() * h + 1e-6, "positions jump by ", gap, " at ", time, " of ", T, " for ", p.describe());
    if (i % 7 == 0) {
      const double off = polyline_distance(p.points, st.first);
      VP_CHECK(off <= p.deviation + 1e-6, "deviates by ", off, " at ", time, " of ", T, " for ", p.describe());
    }
    pos = st.first;
    vel = st.second;
  }
  VP_CHECK(over <= spikes * M + 4, "acceleration limit exceeded in ", over, " of ", M, " steps, by a factor up to ", worst, " for ", p.describe());
}

VP_PROP(limits_and_optimality, 2500, 40000) {
  Problem p = gen(s, 7, true);
  p.dt = s.chance(1, 4) ? s.pick(std::vector<double>{0.0005, 0.002}) : 0.001;
  if (s.noting()) s.note(p.describe());
  const lib::Trajectory t = build(p, s.b());
  audit(p, t, 0.01, 0.02);
  const RefPath path(p);
  const double R = reference_duration(p, path, 0.004), T = t.Duration();
  VP_CHECK(T >= 0.97 * R && T <= 1.03 * R, "takes ", T, " instead of ", R, " for ", p.describe());
  s.nontrivialIf(path.segs.size() >= 3);
  s.label(path.segs.size() >= 5 ? "several corners" : "few corners");
}

VP_PROP(straight_lines, 3000, 100000) {
  Problem p;
  const size_t d = s.u(1, 7), n = s.chance(1, 30) ? s.u(6, 40) : s.u(2, 5);
  V a(d), dir(d);
  p.vmax = V(d);
  p.amax = V(d);
  for (size_t k = 0; k < d; k++) {
    a[k] = s.generic(-2, 2);
    dir[k] = s.chance(1, 4) && d > 1 ? 0.0 : s.generic(-1, 1);
    p.vmax[k] = s.generic(0.2, 3);
    p.amax[k] = s.generic(0.2, 5);
  }
  if (dir.norm() < 0.05) vp::discard();
  dir.normalize();
  double at = 0;
  for (size_t i = 0; i < n; i++) {
    p.points.push_back(a + at * dir);
    at += s.generic(0.02, 1);
  }
  p.deviation = s.generic(0.001, 0.2);
  p.dt = s.pick(std::vector<double>{0.001, 0.004});
  if (s.noting()) s.note(p.describe());
  const double L = (p.points.back() - p.points.front()).norm();
  double A = 1e300, W = 1e300;
  for (size_t k = 0; k < d; k++)
    if (dir[k] != 0) {
      A = std::min(A, p.amax[k] / std::fabs(dir[k]));
      W = std::min(W, p.vmax[k] / std::fabs(dir[k]));
    }
  const double T = L >= W * W / A ? L / W + W / A : 2 * std::sqrt(L / A);
  if (T < 20 * p.dt) vp::discard();
  const lib::Trajectory t = build(p, s.b());
  audit(p, t, 1e-3, 0.02);
  VP_CHECK(std::fabs(t.Duration() - T) <= 0.01 * T + 2 * p.dt, "straight line takes ", t.Duration(), " instead of ", T, " for ", p.describe());
  s.nontrivialIf(n > 2 && d > 1);
}

VP_PROP(query_history, 400, 10000) {
  Problem p = gen(s, 5, true);
  p.dt = 0.004;
  if (s.noting()) s.note(p.describe());
  std::vector<lib::Trajectory> all;
  all.push_back(build(p, false));
  const double T = all[0].Duration();
  std::vector<std::pair<double, std::pair<V, V>>> seen;
  const auto same = [](const std::pair<V, V>& a, const std::pair<V, V>& b) { return (a.first - b.first).norm() <= 1e-9 && (a.second - b.second).norm() <= 1e-9; };
  size_t back = 0;
  double previous = -1;
  s.repeat(2, 20, [&] {
    lib::Trajectory& t = all.back();
    switch (s.choice(6)) {
      case 0: {  // a copy takes over, the original is gone
        const lib::Trajectory copy(t);
        all.clear();
        all.push_back(copy);
        break;
      }
      case 1: {
        if (seen.empty()) break;
        const auto& old = s.pick(seen);
        VP_CHECK(same(t.GetPositionVelocity(old.first), old.second), "state for ", old.first, " of ", T, " changed");
        break;
      }
      default: {
        double time = s.chance(1, 5) ? 0.0 : s.chance(1, 5) ? T : s.chance(1, 5) && !seen.empty() ? seen.back().first : s.generic(0, T);
        if (time < previous) back++;
        previous = time;
        const auto st = t.GetPositionVelocity(time);
        const lib::Trajectory fresh = build(p, false);
        VP_CHECK(fresh.Duration() == T, "duration of an equal trajectory");
        VP_CHECK(same(fresh.GetPositionVelocity(time), st), "state for ", time, " of ", T, " depends on earlier queries");
        seen.push_back({time, st});
      }
    }
  });
  s.nontrivialIf(back >= 2);
}

VP_PROP(staying_in_place_takes_no_time, 6000, 100000) {
  const size_t d = s.u(1, 4);
  V at(d), limit(d);
  for (size_t k = 0; k < d; k++) {
    at[k] = s.generic(-2, 2);
    limit[k] = s.generic(0.2, 3);
  }
  const std::list<V> points(s.u(1, 4), at);
  const double deviation = s.b() ? 0.0 : 0.1;
  const lib::Trajectory t = s.b() ? lib::Trajectory(points, limit, limit, deviation, 0.001) : lib::Trajectory(lib::Path(points, deviation), limit, limit, 0.001);
  VP_CHECK(t.Duration() == 0, "staying at (", at.transpose(), ") takes ", t.Duration());
  for (const double time : {0.0, 0.5}) {
    const auto st = t.GetPositionVelocity(time);
    VP_CHECK(st.first == at && st.second.size() == at.size() && st.second.norm() == 0, "staying at (", at.transpose(), ") is at ", st.first.transpose(), " with velocity ", st.second.transpose());
  }
  s.nontrivialIf(points.size() >= 2);
}

VP_PROP(path_geometry, 96000, 3200000) {
  const bool blend = s.chance(4, 5);
  Problem p = gen(s, 7, blend);
  if (s.noting()) s.note(p.describe());
  lib::Path path(p.list(), p.deviation);
  if (s.chance(1, 3)) {
    const lib::Path copy(path);
    Problem q = gen(s, 3, true);
    path = lib::Path(q.list(), q.deviation);
    path = copy;
  }
  const RefPath ref(p);
  // Pieces of straight line of up to a micrometre between two corners may be left out
  double left_out = 0;
  for (const Seg& g : ref.segs)
    if (g.radius == 0 && g.length < 2e-6) left_out += g.length;
  VP_CHECK(vp::near(path.Length(), ref.length, 1e-7 + left_out), "length ", path.Length(), " instead of ", ref.length, " for ", p.describe());
  VP_CHECK((path.GetConfig(0) - p.points.front()).norm() <= 1e-6 + left_out && (path.GetConfig(path.Length()) - p.points.back()).norm() <= 1e-6 + left_out, "end points of ", p.describe());
  for (int k = 0; k < 12; k++) {
    const double q = s.generic(0, ref.length);
    const Seg& g = ref.segAt(q);
    if (q - g.start < 1e-5 || g.start + g.length - q < 1e-5) continue;
    VP_CHECK((path.GetConfig(q) - g.pos(q - g.start)).norm() <= 1e-6 + 2 * left_out, "config at ", q, " of ", p.describe());
    VP_CHECK((path.GetTangent(q) - g.tan(q - g.start)).norm() <= 1e-5 + 2 * left_out * (1 + g.cur(q - g.start).norm()), "tangent at ", q, " of ", p.describe());
    VP_CHECK((path.GetCurvature(q) - g.cur(q - g.start)).norm() <= (1e-5 + 2 * left_out * (1 + g.cur(q - g.start).norm())) * (1 + g.cur(q - g.start).norm()), "curvature at ", q, " of ", p.describe());
    VP_CHECK(polyline_distance(p.points, path.GetConfig(q)) <= p.deviation + 1e-6 + left_out, "deviation at ", q, " of ", p.describe());
  }
  // Switching points: sorted, every segment border is a discontinuity, and every other one is a turning point of a joint.
  const auto sw = path.SwitchingPoints();
  double before = 0;
  bool disc = false;
  for (const auto& pt : sw) {
    VP_CHECK(pt.first >= before && pt.first < path.Length() + 1e-9, "switching points are not sorted for ", p.describe());
    if (pt.first > before) {
      bool flag = !pt.second;
      const double next = path.GetNextSwitchingPoint(before, flag);
      VP_CHECK(next > before && next <= pt.first, "next switching point after ", before, " is ", next, " for ", p.describe());
    }
    before = pt.first;
  }
  VP_CHECK(path.GetNextSwitchingPoint(path.Length(), disc) == path.Length() && disc, "switching point behind the end");
  for (size_t k = 0; k + 1 < ref.segs.size(); k++) {
    const double border = ref.segs[k].start + ref.segs[k].length;
    bool found = false;
    for (const auto& pt : sw) found = found || (pt.second && std::fabs(pt.first - border) <= 1e-6 + left_out);
    VP_CHECK(found, "border at ", border, " is no switching point of ", p.describe());
  }
  for (const Seg& g : ref.segs) {
    if (g.radius <= 0) continue;
    for (long k = 0; k < g.x.size(); k++) {
      double angle = std::atan2(g.y[k], g.x[k]);
      if (angle < 0) angle += M_PI;
      if (std::fabs(g.y[k]) + std::fabs(g.x[k]) < 1e-6 || angle * g.radius < 1e-5 || angle * g.radius > g.length - 1e-5) continue;
      bool found = false;
      for (const auto& pt : sw) found = found || std::fabs(pt.first - g.start - angle * g.radius) <= 1e-6;
      VP_CHECK(found, "turning point of joint ", k, " at ", g.start + angle * g.radius, " is no switching point of ", p.describe());
    }
  }
  for (const auto& pt : sw) {
    if (pt.second) {
      bool found = false;
      for (const Seg& g : ref.segs) found = found || std::fabs(pt.first - g.start) <= 1e-5 + left_out;
      VP_CHECK(found, "discontinuity at ", pt.first, " inside a segment of ", p.describe());
    }
  }
  s.nontrivialIf(ref.segs.size() >= 4 && blend);
}

}  // namespace
