#include "vp.hpp"

#include <arc_utilities/eigen_helpers.hpp>

namespace {

using namespace EigenHelpers;
using LD = long double;

struct Quiet {
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  ~Quiet() { std::cerr.rdbuf(old); }
};

double val(vp::Src& s) { return s.chance(1, 4) ? (double)s.si(5) : s.chance(1, 8) ? s.generic(-1e6, 1e6) : s.generic(-10, 10); }
std::vector<double> vals(vp::Src& s, size_t n) {
  std::vector<double> v(n);
  for (double& x : v) x = val(s);
  return v;
}
double maxAbs(const std::vector<double>& v) {
  double m = 0;
  for (const double x : v) m = std::max(m, std::fabs(x));
  return m;
}

template <class T>
void elementwise(vp::Src& s, T (*gen)(vp::Src&)) {
  const size_t n = s.chance(1, 2000) ? s.big(12, 3000) : s.len(0, 12), m = s.chance(1, 5) ? s.len(0, 12) : n;
  std::vector<T> a(n), b(m);
  for (T& x : a) x = gen(s);
  for (T& x : b) {
    x = gen(s);
    if (x == 0) x = 1;
  }
  T k = gen(s);
  if (k == 0) k = 2;
  if (s.noting()) s.note(vp::cat(n, " and ", m, " elements"));
  s.nontrivialIf(n > 1 && n == m);
  const auto same = [&](const std::vector<T>& got, T (*f)(T, T), T (*g)(T), const char* what, bool scalar) {
    if (!g && !scalar && n != m) {
      VP_CHECK(got.empty(), what, " of ", n, " and ", m, " elements has ", got.size());
      return;
    }
    VP_CHECK(got.size() == n, what, " of ", n, " elements has ", got.size());
    for (size_t i = 0; i < n; ++i) {
      const T want = g ? g(a[i]) : f(a[i], scalar ? k : b[i]);
      VP_CHECK(got[i] == want || (!std::is_integral<T>::value && vp::close((double)got[i], (double)want, 1e-6 * (sizeof(T) == 8 ? 1e-8 : 1))), what, " element ", i, " is ", got[i], " expected ", want);
    }
  };
  using F = T (*)(T, T);
  const F add = [](T x, T y) { return (T)(x + y); }, sub = [](T x, T y) { return (T)(x - y); }, mul = [](T x, T y) { return (T)(x * y); }, div = [](T x, T y) { return (T)(x / y); };
  T (*absf)(T) = [](T x) { return x < 0 ? (T)-x : x; };
  same(Abs(a), nullptr, absf, "Abs", false);
  same(Add(a, b), add, nullptr, "Add", false);
  same(Sub(a, b), sub, nullptr, "Sub", false);
  same(Multiply(a, b), mul, nullptr, "Multiply", false);
  same(Divide(a, b), div, nullptr, "Divide", false);
  same(Add(a, k), add, nullptr, "Add scalar", true);
  same(Sub(a, k), sub, nullptr, "Sub scalar", true);
  same(Multiply(a, k), mul, nullptr, "Multiply scalar", true);
  same(Divide(a, k), div, nullptr, "Divide scalar", true);
  LD sum = 0, mag = 0;
  for (const T x : a) sum += (LD)x, mag += std::fabs((LD)x);
  VP_CHECK(std::fabs((double)((LD)Sum(a) - sum)) <= (std::is_integral<T>::value ? 0 : (double)mag * (sizeof(T) == 8 ? 1e-13 : 1e-5)), "sum ", Sum(a), " expected ", (double)sum);
  if (n > 1 && m > 1) {
    const std::pair<T, double> p(a[0], (double)a[1]), q(b[0], (double)b[1]);
    const auto is = [&](const std::pair<T, double>& g, T x, double y, const char* what) { VP_CHECK((g.first == x || vp::close((double)g.first, (double)x, sizeof(T) == 8 ? 1e-14 : 1e-6)) && vp::close(g.second, y, 1e-14), what, " of pairs is ", g.first, ", ", g.second); };
    is(Add(p, q), (T)(p.first + q.first), p.second + q.second, "Add");
    is(Sub(p, q), (T)(p.first - q.first), p.second - q.second, "Sub");
    is(Multiply(p, q), (T)(p.first * q.first), p.second * q.second, "Multiply");
    is(Divide(p, q), (T)(p.first / q.first), p.second / q.second, "Divide");
    is(Multiply(p, k), (T)(p.first * k), p.second * (double)k, "Multiply scalar");
    is(Divide(p, k), (T)(p.first / k), p.second / (double)k, "Divide scalar");
    is(Abs(p), absf(p.first), std::fabs(p.second), "Abs");
  }
}
VP_PROP(vector_arithmetic, 200000, 3000000) {
  switch (s.choice(4)) {
    case 0: s.label("int"); return elementwise<int>(s, [](vp::Src& r) { return (int)(r.b() ? r.si(12) : r.si(30000)); });
    case 1: s.label("int64"); return elementwise<int64_t>(s, [](vp::Src& r) { return r.b() ? r.si(100) : r.si(1000000); });
    case 2: s.label("float"); return elementwise<float>(s, [](vp::Src& r) { return (float)val(r); });
    default: s.label("double"); return elementwise<double>(s, val);
  }
}

VP_PROP(norms_and_distances, 200000, 3000000) {
  const size_t n = s.chance(1, 2000) ? s.big(8, 500) : s.len(0, 8);
  const std::vector<double> a = vals(s, n), b = s.chance(1, 6) ? a : vals(s, s.chance(1, 6) ? s.len(0, 8) : n);
  if (s.noting()) s.note(vp::cat(n, " and ", b.size(), " dimensions"));
  LD sq = 0;
  for (const double x : a) sq += (LD)x * x;
  VP_CHECK(vp::close(SquaredNorm(a), (double)sq, 1e-12), "squared norm ", SquaredNorm(a), " expected ", (double)sq);
  VP_CHECK(vp::close(Norm(a), (double)std::sqrt(sq), 1e-12), "norm ", Norm(a));
  if (b.size() != n) {
    VP_CHECK(std::isinf(Distance(a, b)) && std::isinf(SquaredDistance(a, b)), "distance between different dimensions");
    VP_CHECK(!CloseEnough(a, b, 1e300), "vectors of different sizes are close");
    return;
  }
  s.nontrivialIf(n > 1 && a != b);
  LD d = 0;
  double worst = 0;
  for (size_t i = 0; i < n; ++i) d += ((LD)a[i] - b[i]) * ((LD)a[i] - b[i]), worst = std::max(worst, std::fabs(a[i] - b[i]));
  const double want2 = (double)d, want = (double)std::sqrt(d);
  const auto is = [&](double g, double w, const char* what) { VP_CHECK(vp::close(g, w, 1e-12), what, " is ", g, " expected ", w); };
  is(SquaredDistance(a, b), want2, "squared distance");
  is(Distance(a, b), want, "distance");
  for (const double slack : {-1.0, 1.0}) {  // clearly inside and outside the threshold
    const double th = worst * (1 + slack * 1e-6) + slack * 1e-9;
    if (th < 0) continue;
    VP_CHECK(CloseEnough(a, b, th) == (slack > 0) && CloseEnough(a, b, -th) == (slack > 0), "closeness at largest difference ", worst, " with threshold ", th);
  }
  Eigen::VectorXd ea = StdVectorDoubleToEigenVectorXd(a), eb = StdVectorDoubleToEigenVectorXd(b);
  is(SquaredDistance(ea, eb), want2, "squared distance of VectorXd");
  is(Distance(ea, eb), want, "distance of VectorXd");
  if (n >= 3) {
    const Eigen::Vector3d u = ea.head<3>(), v = eb.head<3>();
    const double w2 = (u - v).squaredNorm();
    is(SquaredDistance(u, v), w2, "squared distance of Vector3d");
    is(Distance(u, v), std::sqrt(w2), "distance of Vector3d");
    is(SquaredDistance(Eigen::Vector2d(u.head<2>()), Eigen::Vector2d(v.head<2>())), (u - v).head<2>().squaredNorm(), "squared distance of Vector2d");
    is(Distance(Eigen::Vector2d(u.head<2>()), Eigen::Vector2d(v.head<2>())), (u - v).head<2>().norm(), "distance of Vector2d");
    Eigen::Vector3d w = u;  // equal to u in some coordinates
    for (ssize_t k = 0; k < 3; ++k)
      if (s.b()) w(k) = v(k);
    VP_CHECK(Equal3d(u, v) == (u == v) && Equal3d(u, w) == (u == w) && Equal3d(w, u) == (u == w) && Equal3d(u, u), "Equal3d");
    const double m3 = (u - v).cwiseAbs().maxCoeff(), m2 = (u - v).head<2>().cwiseAbs().maxCoeff();
    VP_CHECK(CloseEnough(u, v, m3 * 1.000001 + 1e-9) && (m3 == 0 || !CloseEnough(u, v, m3 * 0.999999)), "closeness of Vector3d");
    VP_CHECK(CloseEnough(Eigen::Vector2d(u.head<2>()), Eigen::Vector2d(v.head<2>()), m2 * 1.000001 + 1e-9) && (m2 == 0 || !CloseEnough(Eigen::Vector2d(u.head<2>()), Eigen::Vector2d(v.head<2>()), m2 * 0.999999)), "closeness of Vector2d");
  }
  if (n >= 4) {
    const Eigen::Vector4d u = ea.head<4>(), v = eb.head<4>();
    Eigen::Vector4d w = u;
    for (ssize_t k = 0; k < 4; ++k)
      if (s.b()) w(k) = v(k);
    VP_CHECK(Equal4d(u, v) == (u == v) && Equal4d(u, w) == (u == w) && Equal4d(w, u) == (u == w) && Equal4d(u, u), "Equal4d");
  }
  // weighted products
  Eigen::VectorXd w((ssize_t)n);
  for (ssize_t i = 0; i < w.size(); ++i) w(i) = s.chance(1, 5) ? 0.0 : s.generic(0.01, 5);
  LD dot = 0, na = 0, nb = 0, mag = 0;
  for (size_t i = 0; i < n; ++i) {
    dot += (LD)a[i] * b[i] * w((ssize_t)i);
    mag += std::fabs((LD)a[i] * b[i] * w((ssize_t)i));
    na += (LD)a[i] * a[i] * w((ssize_t)i);
    nb += (LD)b[i] * b[i] * w((ssize_t)i);
  }
  VP_CHECK(std::fabs(WeightedDotProduct(ea, eb, w) - (double)dot) <= 1e-12 * (double)mag, "weighted dot product");
  is(WeightedSquaredNorm(ea, w), (double)na, "weighted squared norm");
  is(WeightedNorm(ea, w), (double)std::sqrt(na), "weighted norm");
  if (na > 1e-6 && nb > 1e-6) {
    const double c = (double)(dot / std::sqrt(na * nb));
    VP_CHECK(vp::near(WeightedCosineAngleBetweenVectors(ea, eb, w), c, 1e-9), "weighted cosine");
    const double angle = WeightedAngleBetweenVectors(ea, eb, w);
    VP_CHECK(angle >= 0 && angle <= M_PI && vp::near(std::cos(angle), c, 1e-9), "weighted angle ", angle);
  }
  // clamped and safe norms
  const double limit = s.generic(0.01, 20);
  const Eigen::VectorXd clamped = ClampNorm(ea, limit);
  const double nrm = ea.norm();
  VP_CHECK(clamped.size() == ea.size() && (clamped - ea * (nrm > limit ? limit / nrm : 1.0)).norm() <= 1e-9 * (1 + nrm), "norm clamped to ", limit, " is ", clamped.norm(), " of ", nrm);
  const Eigen::VectorXd unit = SafeNormal(ea);
  VP_CHECK(nrm == 0 ? unit == ea : nrm < 1e-12 || (vp::near(unit.norm(), 1, 1e-12) && (unit * nrm - ea).norm() <= 1e-9 * nrm), "safe normal");
}

VP_PROP(point_sets, 100000, 2000000) {
  const bool large = s.chance(1, 2000);
  const ssize_t n = (ssize_t)(large ? s.big(10, 400) : s.u(1, 9)), m = (ssize_t)(large ? s.big(6, 200) : s.u(1, 6));
  const bool lattice = s.b();
  const auto coord = [&] { return lattice ? (double)s.si(2) : s.generic(-5, 5); };
  Eigen::Matrix3Xd A(3, n), B(3, m);
  for (ssize_t k = 0; k < A.size(); ++k) A(k) = coord();
  for (ssize_t k = 0; k < B.size(); ++k) B(k) = coord();
  if (s.noting()) s.note(vp::cat(n, " and ", m, " points"));
  s.nontrivialIf(n > 1 && m > 1);
  const auto is = [](double g, double w, const char* what) { VP_CHECK(vp::close(g, w, 1e-12), what, " is ", g, " expected ", w); };
  const Eigen::MatrixXd ab = SquaredDistancesBetweenPointSets(A, B);
  const auto aa2 = CalculateSquaredDistanceMatrix(A);
  const auto aa = CalculateDistanceMatrix(A);
  VP_CHECK(ab.rows() == n && ab.cols() == m && aa2.rows() == n && aa2.cols() == n && aa.rows() == n && aa.cols() == n, "sizes of distance matrices");
  for (ssize_t i = 0; i < n; ++i) {
    for (ssize_t j = 0; j < m; ++j) is(ab(i, j), (A.col(i) - B.col(j)).squaredNorm(), "squared distance between sets");
    for (ssize_t j = 0; j < n; ++j) {
      is(aa2(i, j), (A.col(i) - A.col(j)).squaredNorm(), "squared distance matrix");
      is(aa(i, j), (A.col(i) - A.col(j)).norm(), "distance matrix");
    }
  }
  const Eigen::Vector3d p = B.col(0);
  const auto to2 = CalculateSquaredDistanceToSet(A, p);
  const auto to = CalculateDistanceToSet(A, p);
  VP_CHECK(to2.rows() == n && to.rows() == n, "sizes of distances to a set");
  double best = INFINITY;
  for (ssize_t i = 0; i < n; ++i) {
    is(to2(i), (A.col(i) - p).squaredNorm(), "squared distance to set");
    is(to(i), (A.col(i) - p).norm(), "distance to set");
    best = std::min(best, (A.col(i) - p).norm());
  }
  const ssize_t nearest = ClosestPointInSet(A, p);
  VP_CHECK(nearest >= 0 && nearest < n, "nearest point ", nearest);
  is((A.col(nearest) - p).norm(), best, "distance of the nearest point");
  // distances along a path
  VectorVector3d path;
  for (ssize_t i = 0; i < n; ++i) path.push_back(A.col(i));
  if (s.chance(1, 10)) path.clear();
  const auto single = CalculateIndividualDistances(path), sum = CalculateCumulativeDistances(path);
  VP_CHECK(single.size() == path.size() && sum.size() == path.size(), "sizes of distances along a path");
  double along = 0;
  for (size_t i = 0; i < path.size(); ++i) {
    const double step = i ? (path[i] - path[i - 1]).norm() : 0.0;
    along += step;
    is(single[i], step, "individual distance");
    is(sum[i], along, "cumulative distance");
  }
  is(CalculateTotalDistance(path), along, "total distance");
  is(CalculateTotalDistance(path, [](const Eigen::Vector3d& x, const Eigen::Vector3d& y) { return (x - y).norm(); }), along, "total distance by function");
}

VP_PROP(interpolation, 150000, 3000000) {
  Quiet quiet;
  const size_t n = s.len(0, 6), m = s.chance(1, 6) ? s.len(0, 6) : n;
  const std::vector<double> a = vals(s, n), b = vals(s, m);
  const double r = s.chance(1, 4) ? s.pick(std::vector<double>{0, 1, 0.5, -0.5, 1.5}) : s.generic(0, 1), t = std::min(1.0, std::max(0.0, r));
  if (s.noting()) s.note(vp::cat(n, " and ", m, " dimensions at ", r));
  const auto got = Interpolate(a, b, r);
  Eigen::VectorXd ea = StdVectorDoubleToEigenVectorXd(a), eb = StdVectorDoubleToEigenVectorXd(b);
  VP_CHECK(SafetyCheckUnitInterval(r) == t && SafetyCheckUnitInterval((float)t) == (float)t, "ratio ", r, " became ", SafetyCheckUnitInterval(r));
  if (n != m) {
    VP_CHECK(got.empty(), "vectors of different sizes were interpolated");
    VP_THROWS(Interpolate(ea, eb, r), "Eigen vectors of different sizes were interpolated");
    return;
  }
  s.nontrivialIf(n > 0 && t > 0 && t < 1);
  const Eigen::VectorXd eg = Interpolate(ea, eb, r);
  VP_CHECK(got.size() == n && (size_t)eg.size() == n, "sizes of the interpolated vectors");
  for (size_t i = 0; i < n; ++i) {
    const LD want = (LD)a[i] * (1 - (LD)t) + (LD)b[i] * t;
    const double tol = 1e-14 * (std::fabs(a[i]) + std::fabs(b[i]));
    const auto is = [&](double g, const char* what) {
      VP_CHECK(std::fabs(g - (double)want) <= tol, what, " element ", i, " is ", g, " expected ", (double)want);
      if (t == 0) VP_CHECK(g == a[i], what, " does not start exactly at the start");
      if (t == 1) VP_CHECK(g == b[i], what, " does not end exactly at the end");
    };
    is(got[i], "interpolated vector");
    is(eg((ssize_t)i), "interpolated Eigen vector");
    is(Interpolate(a[i], b[i], r), "interpolated number");
    const auto p = Interpolate(std::make_pair(a[i], -a[i]), std::make_pair(b[i], -b[i]), r);
    is(p.first, "interpolated pair");
    is(-p.second, "interpolated pair");
  }
  if (n >= 3) {
    const Eigen::Vector3d g3 = Interpolate(Eigen::Vector3d(ea.head<3>()), Eigen::Vector3d(eb.head<3>()), r);
    VP_CHECK((g3 - eg.head<3>()).norm() == 0, "interpolated Vector3d");
  }
}

VP_PROP(conversions, 100000, 2000000) {
  const size_t n = s.len(0, 5);
  const std::vector<double> a = vals(s, 3 * n);
  if (s.noting()) s.note(vp::cat(3 * n, " elements"));
  s.nontrivialIf(n > 1);
  const Eigen::VectorXd e = StdVectorDoubleToEigenVectorXd(a);
  VP_CHECK((size_t)e.size() == a.size(), "size of VectorXd");
  for (size_t i = 0; i < a.size(); ++i) VP_CHECK(e((ssize_t)i) == a[i], "element ", i, " of VectorXd");
  VP_CHECK(EigenVectorXdToStdVectorDouble(e) == a && EigenVectorXToStdVector<double>(e) == a, "VectorXd to std::vector");
  VP_CHECK(StdVectorToEigenVectorX(a) == e, "std::vector to VectorX");
  std::vector<float> f(a.begin(), a.end());
  VP_CHECK(EigenVectorXToStdVector<float>(StdVectorToEigenVectorX(f)) == f, "float round trip");
  const auto split = StdVectorXToVectorEigenVector<double, 3>(a);
  const auto split2 = EigenVectorXToVectorEigenVector<double, 3>(e);
  VP_CHECK(split.size() == n && split2.size() == n, "number of vectors");
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < 3; ++k) VP_CHECK(split[i]((ssize_t)k) == a[3 * i + k] && split2[i]((ssize_t)k) == a[3 * i + k], "coordinate ", k, " of vector ", i);
  if (n) {
    VP_CHECK(VectorEigenVectorToEigenVectorX(split) == e, "joined vectors");
    const std::vector<double> three(a.begin(), a.begin() + 3);
    VP_CHECK(EigenVector3dToStdVectorDouble(StdVectorDoubleToEigenVector3d(three)) == three && StdVectorDoubleToEigenVector3d(three) == split[0], "Vector3d round trip");
    const std::vector<double> four{a[0], a[1], a[2], a[0] + 1};
    const Eigen::Quaterniond q = StdVectorDoubleToEigenQuaterniond(four);
    VP_CHECK(q.x() == four[0] && q.y() == four[1] && q.z() == four[2] && q.w() == four[3], "quaternion from x, y, z, w");
    VP_CHECK(EigenQuaterniondToStdVectorDouble(q) == four, "quaternion to x, y, z, w");
  }
}

}  // namespace
