#include "pose_common.hpp"

namespace {

// The exponential by its series, after halving until it converges fast.
M4 expSeries(const M4& m) {
  int halvings = 0;
  while (std::ldexp(m.norm(), -halvings) > 0.25) ++halvings;
  const M4 a = m * std::ldexp(1.0, -halvings);
  M4 sum = M4::Identity(), term = M4::Identity();
  for (int k = 1; k < 20; ++k) {
    term = M4(term * a) / (double)k;
    sum += term;
  }
  while (halvings-- > 0) sum = M4(sum * sum);
  return sum;
}

VP_PROP(twist_exponential, 90000, 1800000) {
  Quiet quiet;
  V6 w;
  const int kind = (int)s.choice(5);
  w << genVec(s, 3), (kind == 0 ? V3(V3::Zero()) : kind == 1 ? V3(genAxis(s) * std::ldexp(1.0, -(int)s.u(1, 80))) : genVec(s, 2));
  if (kind == 2) w.head<3>().setZero();
  const double t1 = s.chance(1, 8) ? 0 : s.generic(-2, 2), t2 = s.generic(-2, 2);
  const T e = ExpTwist(w, t1);
  if (s.noting()) s.note(vp::cat("twist ", w.transpose(), " for ", t1));
  s.nontrivialIf(w.head<3>().norm() > 0 && w.tail<3>().norm() > 0.1);
  const double tol = 1e-7 * (1 + w.head<3>().norm());
  VP_CHECK(rigid(e.linear()) && e.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "the exponential is not rigid");
  M4 hat = M4::Zero();
  hat.block<3, 3>(0, 0) = cross(w.tail<3>());
  hat.block<3, 1>(0, 3) = w.head<3>();
  const M4 ref = expSeries(hat * t1);
  VP_CHECK((e.matrix() - ref).norm() <= tol, "the exponential differs from the matrix exponential by ", (e.matrix() - ref).norm());
  VP_CHECK((ExpTwist(w, 0.0).matrix() - M4::Identity()).norm() <= 1e-12, "the exponential for no time is not the identity");
  VP_CHECK(((e * ExpTwist(w, t2)).matrix() - ExpTwist(w, t1 + t2).matrix()).norm() <= 4 * tol, "moving on along a twist");
  VP_CHECK(((e * ExpTwist(w, -t1)).matrix() - M4::Identity()).norm() <= 4 * tol, "moving back along a twist");
  {
    // slower for longer is the same motion
    const int k = (int)s.si(60);
    VP_CHECK((ExpTwist(V6(w * std::ldexp(1.0, -k)), std::ldexp(t1, k)).matrix() - e.matrix()).norm() <= tol, "moving 2^", k, " times as long at 2^-", k, " of the speed ends elsewhere");
  }
  const double w0 = w.tail<3>().norm();
  if (w0 > 1e-3) {
    const V3 axis = w.tail<3>() / w0;
    VP_CHECK((ExpMatrixExact(cross(axis), t1) - Eigen::AngleAxisd(t1, axis).toRotationMatrix()).norm() <= 1e-12, "exponential of a rotation about ", axis.transpose());
  }
  // and back
  const T a = genPose(s);
  const T b = a * e;
  if (w0 * std::fabs(t1) < 2.8) {
    const V6 between = TwistBetweenTransforms(a, b);
    VP_CHECK((between - w * t1).norm() <= 1e-5 * (1 + w.norm() + a.translation().norm()), "twist between transforms is ", between.transpose(), " expected ", (w * t1).transpose());
    VP_CHECK(((a * ExpTwist(between, 1.0)).matrix() - b.matrix()).norm() <= 1e-5 * (1 + b.matrix().norm() + a.matrix().norm()), "following the twist between two transforms misses the second");
  }
}

}  // namespace
