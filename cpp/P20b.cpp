#include "vp.hpp"

#include <arc_utilities/eigen_helpers.hpp>

namespace {

using namespace EigenHelpers;
using LD = long double;

struct Quiet {
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  ~Quiet() { std::cerr.rdbuf(old); }
};

double val(vp::Src& s) { return s.chance(1, 4) ? (double)s.si(5) : s.chance(1, 8) ? s.generic(-1e6, 1e6) : s.generic(-10, 10); }
std::vector<double> vals(vp::Src& s, size_t n) {
  std::vector<double> v(n);
  for (double& x : v) x = val(s);
  return v;
}
double maxAbs(const std::vector<double>& v) {
  double m = 0;
  for (const double x : v) m = std::max(m, std::fabs(x));
  return m;
}

std::vector<double> genWeights(vp::Src& s, size_t n) {
  std::vector<double> w;
  if (s.chance(1, 3)) return w;
  const bool zeros = s.b();
  for (size_t i = 0; i < n; ++i) w.push_back(zeros && s.chance(1, 3) ? 0.0 : s.chance(1, 3) ? (double)s.u(1, 4) : s.generic(0.01, 10));
  bool any = false;
  for (const double x : w) any = any || x > 0;
  if (!any) w[(size_t)s.choice(n)] = 1.0;
  return w;
}
double wsum(const std::vector<double>& w, size_t n) {
  LD t = 0;
  for (size_t i = 0; i < n; ++i) t += w.empty() ? 1.0 : w[i];
  return (double)t;
}

VP_PROP(averages, 200000, 3000000) {
  const size_t n = s.chance(1, 2000) ? s.big(12, 3000) : s.u(1, 12);
  std::vector<double> v = vals(s, n);
  if (s.chance(1, 6)) v.assign(n, v[0]);
  const std::vector<double> w = genWeights(s, n);
  if (s.noting()) s.note(vp::cat(n, " values", w.empty() ? "" : ", weighted"));
  s.nontrivialIf(n > 1 && !w.empty());
  const double total = wsum(w, n), tol = 1e-12 * (1 + maxAbs(v));
  LD mean = 0;
  for (size_t i = 0; i < n; ++i) mean += (w.empty() ? 1.0L : (LD)w[i]) * v[i] / total;
  const double got = AverageStdVectorDouble(v, w);
  VP_CHECK(std::fabs(got - (double)mean) <= tol, "average ", got, " expected ", (double)mean);
  VP_CHECK(std::fabs(AverageContinuousRevolute(v, w) - (double)mean) <= tol, "average of angles");
  // standard deviation
  LD plain = 0, ss = 0;
  for (const double x : v) plain += (LD)x / n;
  for (const double x : v) ss += ((LD)x - plain) * ((LD)x - plain);
  const double sd = n == 1 ? 0.0 : (double)std::sqrt(ss / (n - 1));
  VP_CHECK(std::fabs(ComputeStdDevStdVectorDouble(v) - sd) <= 1e-7 * (sd + tol) + tol, "standard deviation ", ComputeStdDevStdVectorDouble(v), " expected ", sd);
  if (n > 1) {
    const double m0 = val(s);
    LD s0 = 0;
    for (const double x : v) s0 += ((LD)x - m0) * ((LD)x - m0);
    const double sd0 = (double)std::sqrt(s0 / (n - 1));
    VP_CHECK(vp::close(ComputeStdDevStdVectorDouble(v, m0), sd0, 1e-9), "standard deviation about ", m0, " is ", ComputeStdDevStdVectorDouble(v, m0), " expected ", sd0);
  }
  // the same in three and in any dimensions
  VectorVector3d e3;
  std::vector<Eigen::VectorXd> ex;
  const ssize_t dim = (ssize_t)s.u(1, 6);
  for (size_t i = 0; i < n; ++i) {
    e3.push_back(Eigen::Vector3d(v[i], v[(i + 1) % n], -v[i]));
    Eigen::VectorXd x(dim);
    for (ssize_t k = 0; k < dim; ++k) x(k) = (double)(k + 1) * v[i] + (double)k;
    ex.push_back(x);
  }
  LD shifted = 0;
  for (size_t i = 0; i < n; ++i) shifted += (w.empty() ? 1.0L : (LD)w[i]) * v[(i + 1) % n] / total;
  const Eigen::Vector3d a3 = AverageEigenVector3d(e3, w);
  VP_CHECK((a3 - Eigen::Vector3d((double)mean, (double)shifted, -(double)mean)).norm() <= 3 * tol, "average of vectors");
  const Eigen::VectorXd ax = AverageEigenVectorXd(ex, w);
  VP_CHECK(ax.size() == dim, "dimension of the average");
  for (ssize_t k = 0; k < dim; ++k) VP_CHECK(std::fabs(ax(k) - ((double)(k + 1) * (double)mean + (double)k)) <= 10 * tol + 1e-11, "average of dimension ", k);
  VP_CHECK((AverageEigenVector(e3, w) - a3).norm() <= tol, "generic average");
}

Eigen::Quaterniond genQuat(vp::Src& s) {
  if (s.chance(1, 5)) {
    Eigen::Quaterniond q(0, 0, 0, 0);
    q.coeffs()((ssize_t)s.choice(4)) = s.b() ? 1 : -1;
    return q;
  }
  Eigen::Quaterniond q(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1));
  if (q.norm() < 1e-3) q = Eigen::Quaterniond::Identity();
  return q.normalized();
}
bool sameRotation(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, double tol) { return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()) <= tol; }

VP_PROP(rotation_averages, 60000, 1200000) {
  const size_t n = s.chance(1, 2000) ? s.big(8, 500) : s.u(1, 8);
  const Eigen::Quaterniond centre = genQuat(s);
  const bool close = s.chance(2, 3), equal = s.chance(1, 6);
  VectorQuaterniond q;
  for (size_t i = 0; i < n; ++i) {
    Eigen::Quaterniond x = equal ? centre : close ? centre * Eigen::Quaterniond(Eigen::AngleAxisd(s.generic(-0.7, 0.7), Eigen::Vector3d(s.generic(-1, 1), s.generic(-1, 1), s.generic(0.1, 1)).normalized())) : genQuat(s);
    if (s.b()) x.coeffs() *= -1;  // the same rotation
    q.push_back(x);
  }
  const std::vector<double> w = genWeights(s, n);
  if (s.noting()) s.note(vp::cat(n, close ? " close" : "", equal ? " equal" : "", " rotations", w.empty() ? "" : ", weighted"));
  const Eigen::Quaterniond got = AverageEigenQuaterniond(q, w);
  VP_CHECK(vp::near(got.norm(), 1, 1e-9), "the average has norm ", got.norm());
  if (equal || n == 1) VP_CHECK(sameRotation(got, centre, 1e-7) || n == 1, "the average of equal rotations is another one");
  if (n == 1) VP_CHECK(sameRotation(got, q[0], 1e-12), "the average of one rotation is another one");
  // it maximizes the weighted sum of squared cosines of half the angles
  Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
  for (size_t i = 0; i < n; ++i) {
    const double k = w.empty() ? 1.0 : w[i];
    M += k * k * q[i].coeffs() * q[i].coeffs().transpose();
  }
  const Eigen::Vector4d ev = Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(M).eigenvalues();
  if (n > 1) VP_CHECK(vp::close(got.coeffs().dot(M * got.coeffs()), ev(3), 1e-9), "the average does not maximize agreement: ", got.coeffs().dot(M * got.coeffs()), " of ", ev(3));
  const bool unique = ev(3) - ev(2) > 1e-3 * ev(3);
  s.label(unique ? "unique average" : "ambiguous average");
  s.nontrivialIf(unique && n > 1 && !equal);
  // transforms: translation and rotation separately
  VectorIsometry3d t;
  VectorVector3d v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(Eigen::Vector3d(val(s), val(s), val(s)));
    t.push_back(Eigen::Translation3d(v.back()) * q[i]);
  }
  const Eigen::Isometry3d avg = AverageEigenIsometry3d(t, w);
  VP_CHECK((avg.translation() - AverageEigenVector3d(v, w)).norm() <= 1e-9 * (1 + v[0].norm()), "translation of the average transform");
  VP_CHECK((avg.linear() * avg.linear().transpose() - Eigen::Matrix3d::Identity()).norm() <= 1e-9 && avg.linear().determinant() > 0, "the average transform is not rigid");
  if (!unique) return;
  VP_CHECK(sameRotation(Eigen::Quaterniond(avg.linear()), got, 1e-6), "rotation of the average transform");
  // scaling the weights and reordering changes nothing
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  s.shuffle(order);
  const double k = s.generic(0.1, 10);
  VectorQuaterniond q2;
  std::vector<double> w2;
  for (const size_t i : order) {
    q2.push_back(q[i]);
    if (!w.empty()) w2.push_back(k * w[i]);
  }
  VP_CHECK(sameRotation(AverageEigenQuaterniond(q2, w2), got, 1e-6), "reordering or scaling the weights changes the average rotation");
}

}  // namespace
