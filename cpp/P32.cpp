#include "vp.hpp"

#include <arc_utilities/thin_plate_spline.hpp>

namespace {

using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using DM = Eigen::MatrixXd;

// The thin plate spline from its definition, in extended precision: affine part plus radial parts whose
// weights are orthogonal to affine functions.
struct Reference {
  LM p, w, affine;
  long double scale = 0;
  int d;
  long double kernel(long double r2) const {
    if (r2 == 0) return 0;
    return d == 2 ? r2 * std::log(std::sqrt(r2)) : std::sqrt(r2);
  }
  Reference(const DM& from, const DM& to) : d(static_cast<int>(from.rows())) {
    const long n = from.cols();
    p = from.cast<long double>();
    LM A = LM::Zero(n + d + 1, n + d + 1), B = LM::Zero(n + d + 1, d);
    for (long i = 0; i < n; i++) {
      for (long j = 0; j < n; j++) A(i, j) = kernel((p.col(i) - p.col(j)).squaredNorm());
      A(i, n) = A(n, i) = 1;
      for (long k = 0; k < d; k++) A(i, n + 1 + k) = A(n + 1 + k, i) = p(k, i);
      B.row(i) = to.col(i).transpose().cast<long double>();
    }
    const LM X = A.fullPivLu().solve(B);
    w = X.topRows(n);
    affine = X.bottomRows(d + 1);
    scale = w.cwiseAbs().maxCoeff();
  }
  DM operator()(const DM& q) const {
    DM out(d, q.cols());
    for (long c = 0; c < q.cols(); c++) {
      LM v = affine.row(0).transpose();
      for (long k = 0; k < d; k++) v += affine.row(1 + k).transpose() * static_cast<long double>(q(k, c));
      for (long i = 0; i < p.cols(); i++) v += w.row(i).transpose() * kernel((p.col(i) - q.col(c).cast<long double>()).squaredNorm());
      out.col(c) = v.cast<double>();
    }
    return out;
  }
};

// Control points in general position: well separated and not (nearly) in a line or plane.
DM gen_template(vp::Src& s, int d, double size) {
  const bool large = s.chance(1, 300);
  const size_t want = s.u(static_cast<size_t>(d) + 1, large ? 70 : 12);
  const double apart = large ? 0.03 : 0.1;
  std::vector<Eigen::VectorXd> pts;
  const bool grid = s.chance(1, 3);
  for (size_t t = 0; t < 3 * want && pts.size() < want; t++) {
    Eigen::VectorXd v(d);
    for (int k = 0; k < d; k++) v[k] = size * (grid ? 0.5 * static_cast<double>(s.si(2)) : s.generic(-1, 1));
    bool ok = true;
    for (const auto& o : pts) ok = ok && (o - v).norm() > apart * size;
    if (ok) pts.push_back(v);
  }
  if (pts.size() < static_cast<size_t>(d) + 1) vp::discard();
  DM m(d, static_cast<long>(pts.size()));
  for (size_t k = 0; k < pts.size(); k++) m.col(static_cast<long>(k)) = pts[k];
  DM centred = m.colwise() - m.rowwise().mean();
  const Eigen::JacobiSVD<DM> svd(centred);
  if (svd.singularValues().minCoeff() < 0.15 * size) vp::discard();
  return m;
}
DM gen_points(vp::Src& s, long d, long n, double size) {
  DM m(d, n);
  for (long c = 0; c < n; c++)
    for (long k = 0; k < d; k++) m(k, c) = s.chance(1, 4) ? 0.5 * size * static_cast<double>(s.si(3)) : s.generic(-2 * size, 2 * size);
  return m;
}

template <int D>
struct Model {
  DM from, to;
};

template <int D>
void compare(arc_utilities::ThinPlateSpline<D>& tps, const DM& from, const DM& to, const DM& q, double size, const char* what) {
  const Reference ref(from, to);
  const double out = to.cwiseAbs().maxCoeff() + size;
  const DM at = tps.interpolate(from);
  VP_CHECK(at.rows() == D && at.cols() == from.cols(), what, ": size of the result");
  VP_CHECK((at - to).cwiseAbs().maxCoeff() <= 1e-8 * out, what, ": control points are missed by ", (at - to).cwiseAbs().maxCoeff());
  const DM want = ref(q), got = tps.interpolate(q);
  VP_CHECK(got.rows() == D && got.cols() == q.cols(), what, ": size of the result");
  const double tol = 1e-8 * (out + (want.size() ? want.cwiseAbs().maxCoeff() : 0.0));
  for (long c = 0; c < q.cols(); c++) VP_CHECK((got.col(c) - want.col(c)).norm() <= tol, what, ": ", q.col(c).transpose(), " goes to ", got.col(c).transpose(), " instead of ", want.col(c).transpose());
}

template <int D>
void interpolation(vp::Src& s) {
  const double size = s.pick(std::vector<double>{1.0, 0.05, 30.0});
  const DM from = gen_template(s, D, size);
  const DM to = gen_points(s, D, from.cols(), size);
  const DM q = gen_points(s, D, static_cast<long>(s.chance(1, 300) ? s.big(6, 2000) : s.u(0, 5)), size);
  arc_utilities::ThinPlateSpline<D> tps(from, to);
  compare<D>(tps, from, to, q, size, "spline");
  // Any order of the points gives the same spline.
  std::vector<long> order;
  for (long k = 0; k < from.cols(); k++) order.push_back(k);
  s.shuffle(order);
  DM f2(D, from.cols()), t2(D, from.cols());
  for (long k = 0; k < from.cols(); k++) {
    f2.col(k) = from.col(order[static_cast<size_t>(k)]);
    t2.col(k) = to.col(order[static_cast<size_t>(k)]);
  }
  arc_utilities::ThinPlateSpline<D> shuffled(f2, t2);
  if (q.cols() > 0) {
    const DM a = tps.interpolate(q), b = shuffled.interpolate(q);
    VP_CHECK((a - b).cwiseAbs().maxCoeff() <= 2e-8 * (a.cwiseAbs().maxCoeff() + to.cwiseAbs().maxCoeff() + size), "order of the points changes the spline");
  }
  s.nontrivialIf(from.cols() > D + 1 && q.cols() > 0);
}
VP_PROP(interpolation_2d, 30000, 1000000) { interpolation<2>(s); }
VP_PROP(interpolation_3d, 30000, 1000000) { interpolation<3>(s); }

template <int D>
void affine(vp::Src& s) {
  const double size = s.pick(std::vector<double>{1.0, 0.05, 30.0});
  const DM from = gen_template(s, D, size);
  DM A(D, D);
  Eigen::VectorXd b(D);
  for (int r = 0; r < D; r++) {
    b[r] = size * s.generic(-2, 2);
    for (int c = 0; c < D; c++) A(r, c) = s.chance(1, 3) ? static_cast<double>(s.si(2)) : s.generic(-2, 2);
  }
  const DM to = (A * from).colwise() + b;
  const DM q = gen_points(s, D, 6, size);
  arc_utilities::ThinPlateSpline<D> tps(from, to);
  const DM got = tps.interpolate(q), want = (A * q).colwise() + b;
  VP_CHECK((got - want).cwiseAbs().maxCoeff() <= 1e-8 * (want.cwiseAbs().maxCoeff() + size), "affine map is missed by ", (got - want).cwiseAbs().maxCoeff());
  s.nontrivialIf(from.cols() > D + 1);
}
VP_PROP(affine_2d, 50000, 500000) { affine<2>(s); }
VP_PROP(affine_3d, 60000, 600000) { affine<3>(s); }

// Setters, solving and interpolating in any order; copies are independent.
template <int D>
void history(vp::Src& s) {
  using TPS = arc_utilities::ThinPlateSpline<D>;
  const double size = 1.0;
  DM from(D, 0), to(D, 0);
  std::unique_ptr<TPS> tps(new TPS());
  size_t changes = 0, used = 0;
  s.repeat(3, 14, [&] {
    switch (s.choice(6)) {
      case 0:
        from = s.chance(1, 8) ? DM(D, 0) : gen_template(s, D, size);
        if (s.b()) {
          tps->setTemplatePoints(from);
        } else {
          const Eigen::Matrix<double, D, Eigen::Dynamic> fixed = from;
          tps->setTemplatePoints(fixed);
        }
        changes++;
        break;
      case 1:
      case 2: {
        const long n = s.chance(1, 6) ? static_cast<long>(s.u(0, 12)) : from.cols();
        to = gen_points(s, D, n, size);
        tps->setTargetPoints(to);
        changes++;
        break;
      }
      case 3: {
        const bool bad = from.cols() < 1 || to.cols() < 1 || from.cols() != to.cols();
        if (bad)
          VP_THROWS(tps->solveForCoeffs(), "solved with ", from.cols(), " and ", to.cols(), " points");
        else
          tps->solveForCoeffs();
        break;
      }
      case 4: {
        std::unique_ptr<TPS> copy(new TPS(*tps));
        if (s.b()) {
          copy->setTargetPoints(gen_points(s, D, from.cols(), size));
          if (from.cols() > 0) copy->interpolate(from);
        } else {
          tps.swap(copy);
        }
        break;
      }
      default: {
        const DM q = gen_points(s, D, 2, size);
        const bool bad = from.cols() < 1 || to.cols() < 1 || from.cols() != to.cols();
        if (bad)
          VP_THROWS(tps->interpolate(q), "interpolated with ", from.cols(), " and ", to.cols(), " points");
        else {
          compare<D>(*tps, from, to, q, size, "after changes");
          used++;
        }
      }
    }
  });
  s.nontrivialIf(changes >= 3 && used >= 1);
}
VP_PROP(history_2d, 48000, 160000) { history<2>(s); }
VP_PROP(history_3d, 30000, 100000) { history<3>(s); }

}  // namespace
