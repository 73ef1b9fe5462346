#include "vp.hpp"

#include <arc_utilities/math_helpers.hpp>

namespace {

using namespace EigenHelpers;
const double PI = M_PI, TAU = 2 * M_PI;
constexpr double EPS = 1e-9;

struct Quiet {
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  ~Quiet() { std::cerr.rdbuf(old); }
};

// The representative in (-pi, pi], in extended precision.
double wrap(double a) {
  const long double r = remainderl((long double)a, (long double)TAU);
  return (double)(r <= -(long double)PI ? r + (long double)TAU : r);
}
double ulps(double a) { return EPS * (1 + std::fabs(a)); }
bool congruent(double a, double b, double tol) { return std::fabs(remainder(a - b, TAU)) <= tol; }

double genAngle(vp::Src& s) {
  double a;
  switch (s.choice(6)) {
    case 0: a = s.pick(std::vector<double>{0.0, PI, -PI, PI / 2, -PI / 2, TAU, -TAU, 3 * PI, -3 * PI, std::nextafter(PI, 4), std::nextafter(-PI, -4), std::nextafter(-PI, 0)}); break;
    case 1: a = (s.b() ? PI : -PI) + s.generic(-0.01, 0.01); break;
    case 2: a = s.real(-4, 4); break;
    default: a = s.generic(-PI, PI);
  }
  if (s.chance(1, 4)) a += TAU * (double)s.si(4);
  if (s.chance(1, 20)) a = s.generic(-1e4, 1e4);
  return a;
}

VP_PROP(wrapping, 300000, 5000000) {
  const double a = genAngle(s);
  const double w = EnforceContinuousRevoluteBounds(a);
  if (s.noting()) s.note(vp::cat(a, " -> ", w));
  s.nontrivialIf(std::fabs(a) > PI);
  VP_CHECK(w > -PI && w <= PI, "the wrapped angle ", w, " of ", a, " is outside (-pi, pi]");
  VP_CHECK(congruent(w, a, ulps(a)), "the wrapped angle ", w, " is not equivalent to ", a);
  if (a > -PI && a <= PI) VP_CHECK(w == a, "an angle inside the bounds was changed: ", a, " to ", w);
  VP_CHECK(EnforceContinuousRevoluteBounds(w) == w, "wrapping twice changes ", w);
}

VP_PROP(distances, 300000, 5000000) {
  const double a = genAngle(s), b = genAngle(s);
  const double tol = ulps(std::fabs(a) + std::fabs(b));
  const double d = ContinuousRevoluteSignedDistance(a, b), m = ContinuousRevoluteDistance(a, b);
  if (s.noting()) s.note(vp::cat(a, " to ", b, ": ", d));
  VP_CHECK(d > -PI - EPS && d <= PI + EPS, "signed distance ", d, " is longer than half a turn");
  VP_CHECK(congruent(a + d, b, tol), "rotating ", a, " by the signed distance ", d, " does not lead to ", b);
  VP_CHECK(m == std::fabs(d), "distance ", m, " is not the magnitude of ", d);
  VP_CHECK(vp::near(ContinuousRevoluteDistance(b, a), m, tol), "the distance is not symmetric: ", m, " and ", ContinuousRevoluteDistance(b, a));
  const double want = std::fabs(wrap(b - a));
  VP_CHECK(vp::near(m, want, tol), "distance ", m, " of ", a, " and ", b, " expected ", want);
  VP_CHECK(ContinuousRevoluteDistance(a, a) == 0, "an angle is away from itself");
  s.nontrivialIf(std::fabs(wrap(a) - wrap(b)) > PI);
  VP_CHECK(congruent(AddContinuousRevoluteValues(a, b), a + b, tol), "sum of ", a, " and ", b);
  const double sum = AddContinuousRevoluteValues(a, b);
  VP_CHECK(sum > -PI && sum <= PI, "sum ", sum, " is outside (-pi, pi]");
  VP_CHECK(congruent(AddContinuousRevoluteValues(a, d), b, tol), "adding the signed distance to ", a, " does not lead to ", b);
}

VP_PROP(interpolation, 300000, 5000000) {
  Quiet quiet;
  const double a = genAngle(s), b = genAngle(s);
  const double r = s.chance(1, 5) ? s.pick(std::vector<double>{0, 1, 0.5}) : s.chance(1, 8) ? s.generic(-1, 2) : s.generic(0, 1);
  const double t = std::min(1.0, std::max(0.0, r));
  const double tol = 10 * ulps(std::fabs(a) + std::fabs(b));
  const double got = InterpolateContinuousRevolute(a, b, r);
  const double way = wrap(wrap(b) - wrap(a));
  if (s.noting()) s.note(vp::cat(a, " to ", b, " at ", r, ": ", got));
  s.nontrivialIf(std::fabs(wrap(a) - wrap(b)) > PI && t > 0 && t < 1);
  VP_CHECK(got >= -PI - EPS && got <= PI + EPS, "interpolated angle ", got, " is outside the bounds");
  const bool opposite = std::fabs(std::fabs(way) - PI) < 1e-6;  // both directions are shortest
  VP_CHECK(congruent(got, a + t * way, tol) || (opposite && congruent(got, a - t * way, 1e-5)), "interpolating ", a, " to ", b, " at ", r, " gives ", got, " expected ", wrap(a + t * way));
  VP_CHECK(congruent(InterpolateContinuousRevolute(a, b, 0), a, tol), "does not start at ", a);
  VP_CHECK(congruent(InterpolateContinuousRevolute(a, b, 1), b, tol), "does not end at ", b);
  if (!opposite) VP_CHECK(congruent(InterpolateContinuousRevolute(b, a, 1 - t), got, tol), "the way back passes elsewhere");
}

VP_PROP(ranges, 300000, 5000000) {
  const double start = genAngle(s), end = genAngle(s), val = genAngle(s);
  const double tol = ulps(std::fabs(start) + std::fabs(end) + std::fabs(val));
  const auto ccw = [](double from, double to) {  // rotation from one to the other in the positive direction
    const long double r = remainderl((long double)to - (long double)from, (long double)TAU);
    return (double)(r < 0 ? r + (long double)TAU : r);
  };
  const double range = ccw(start, end);
  const double got = GetContinuousRevoluteRange(start, end);
  if (s.noting()) s.note(vp::cat(start, " to ", end, " range ", got, " value ", val));
  VP_CHECK(got >= 0 && got <= TAU + EPS, "range ", got);
  VP_CHECK(congruent(got, range, tol) && (std::fabs(got - range) <= tol || range < tol || range > TAU - tol), "range from ", start, " to ", end, " is ", got, " expected ", range);
  const double at = ccw(start, val);
  const auto check = [&](double r, bool in, const char* what) {
    if (at > TAU - 1e-7 || std::fabs(at - r) < 1e-7 || at < 1e-7) return;  // rounding decides
    VP_CHECK(in == (at < r), what, ": value ", val, in ? " is" : " is not", " in the arc of ", r, " from ", start, " (it is ", at, " further)");
  };
  s.nontrivialIf(wrap(start) + range > PI || wrap(start) + at > PI);
  check(got, CheckInContinuousRevoluteBounds(start, end, val), "bounds");
  const double r2 = s.generic(0, 6.28);
  check(r2, CheckInContinuousRevoluteRange(start, r2, val), "range");
  // the end points belong to the arc
  VP_CHECK(CheckInContinuousRevoluteRange(start, r2, start), "the start ", start, " is not in its own range");
  VP_CHECK(CheckInContinuousRevoluteBounds(start, end, start), "the start ", start, " is not in its own bounds");
  const double q1 = 0.25 * (double)s.si(12), q2 = 0.25 * (double)s.si(12);
  if (q1 <= q2 && q2 - q1 <= 3) VP_CHECK(CheckInContinuousRevoluteBounds(q1, q2, q2), "the end ", q2, " is not in its own bounds");
}

}  // namespace
