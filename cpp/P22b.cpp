#include "pose_common.hpp"

namespace {

using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;

// Columns orthonormal, by Gram-Schmidt.
MX genOrtho(vp::Src& s, ssize_t n, ssize_t k) {
  MX q(n, k);
  for (ssize_t c = 0; c < k; ++c) {
    VX v(n);
    do {
      for (ssize_t r = 0; r < n; ++r) v(r) = s.generic(-1, 1) + (r == c ? 0.1 : 0.0);
      for (int twice = 0; twice < 2; ++twice)
        for (ssize_t p = 0; p < c; ++p) v -= q.col(p) * q.col(p).dot(v);
      if (v.norm() < 1e-3) v = VX::Unit(n, c);
      for (int twice = 0; twice < 2; ++twice)
        for (ssize_t p = 0; p < c; ++p) v -= q.col(p) * q.col(p).dot(v);
    } while (v.norm() < 1e-6);
    q.col(c) = v.normalized();
  }
  return q;
}

VP_PROP(pseudo_inverse, 60000, 1000000) {
  const size_t most = s.chance(1, 300) ? 40 : 6;
  const ssize_t m = (ssize_t)s.u(1, most), n = (ssize_t)s.u(1, most), k = std::min(m, n);
  const MX u = genOrtho(s, m, k), v = genOrtho(s, n, k);
  const double rcond = s.pick(std::vector<double>{SuggestedRcond(), 1e-6, 0.1});
  VX sv(k), inv(k);
  ssize_t rank = 0;
  for (ssize_t q = 0; q < k; ++q) {  // clearly above or below the threshold
    const bool keep = !s.chance(1, 3);
    sv(q) = keep ? rcond * s.pick(std::vector<double>{2, 10, 300}) * s.generic(1, 3) : s.chance(1, 2) ? 0.0 : rcond * s.generic(0.01, 0.5);
    inv(q) = keep ? 1 / sv(q) : 0.0;
    rank += keep;
  }
  const MX a = u * sv.asDiagonal() * v.transpose(), want = v * inv.asDiagonal() * u.transpose();
  const bool flip = s.b();
  const MX got = flip ? Pinv(a, rcond) : Pinv(a, rcond, false);
  if (s.noting()) s.note(vp::cat(m, "x", n, " of rank ", rank, " above ", rcond));
  s.nontrivialIf(m != n && rank > 1);
  s.label(m > n ? "tall" : m < n ? "wide" : "square");
  s.label(rank < k ? "deficient" : "full rank");
  VP_CHECK(got.rows() == n && got.cols() == m, "the pseudo-inverse is ", got.rows(), "x", got.cols());
  VP_CHECK((got - want).norm() <= 1e-6 * (1 + want.norm()), "the pseudo-inverse is off by ", (got - want).norm(), " of ", want.norm());
}

VP_PROP(least_squares, 54000, 900000) {
  const ssize_t n = (ssize_t)s.u(1, 4), m = n + (ssize_t)(s.chance(1, 100) ? s.u(6, 100) : s.u(1, 5));
  MX a(m, n);
  for (ssize_t k = 0; k < a.size(); ++k) a(k) = s.generic(-3, 3);
  const bool deficient = s.chance(1, 4);
  if (deficient) a.col(n - 1) = n > 1 ? VX(a.col(0) * 2) : VX(VX::Zero(m));
  VX b(m), w(m);
  for (ssize_t k = 0; k < m; ++k) b(k) = s.generic(-5, 5), w(k) = s.generic(0.1, 4);
  const MX lhs = a.transpose() * w.asDiagonal() * a;
  const VX rhs = a.transpose() * w.asDiagonal() * b;
  const double smallest = std::max(0.0, Eigen::SelfAdjointEigenSolver<MX>(lhs).eigenvalues()(0));
  const double threshold = deficient ? 1e-3 : s.pick(std::vector<double>{1e-3, 1e-2, 5.0}), damping = s.generic(0.01, 1);
  if (std::fabs(smallest - threshold) < 1e-6) vp::discard();
  const bool damped = smallest < threshold;
  if (!damped && smallest < 1e-3) vp::discard();
  const VX x = WeightedLeastSquaresSolver(a, b, w, threshold, damping);
  if (s.noting()) s.note(vp::cat(m, "x", n, damped ? ", damped" : ""));
  s.label(damped ? "damped" : "undamped");
  s.nontrivialIf(n > 1);
  VP_CHECK(x.size() == n, "size of the solution");
  const VX residual = lhs * x + (damped ? damping : 0.0) * x - rhs;
  VP_CHECK(residual.norm() <= 1e-7 * (1 + lhs.norm() * x.norm() + rhs.norm()), "the normal equations are violated by ", residual.norm());
  // the wide case: the (damped) minimum norm solution
  const MX wide = a.transpose();
  VX c(n);
  for (ssize_t k = 0; k < n; ++k) c(k) = s.generic(-5, 5);
  const MX gram = wide * wide.transpose();
  const double smallest2 = std::max(0.0, Eigen::SelfAdjointEigenSolver<MX>(gram).eigenvalues()(0));
  if (std::fabs(smallest2 - threshold) < 1e-6) return;
  const bool damped2 = smallest2 < threshold;
  if (!damped2 && smallest2 < 1e-3) return;
  const VX y = UnderdeterminedSolver(wide, c, threshold, damping);
  VP_CHECK(y.size() == m, "size of the underdetermined solution");
  // y = A' z with (A A' + d I) z = c; A' is injective on the range used, so recover z by least squares
  const MX sys = gram + (damped2 ? damping : 0.0) * MX::Identity(n, n);
  const VX z = sys.fullPivLu().solve(c);
  VP_CHECK((y - wide.transpose() * z).norm() <= 1e-6 * (1 + y.norm()), "underdetermined solution");
  if (!damped2) VP_CHECK((wide * y - c).norm() <= 1e-7 * (1 + c.norm()) * (1 + wide.norm()), "the underdetermined system is not solved");
}

}  // namespace
