#include "vp.hpp"

#include <Eigen/Dense>
#include <arc_utilities/aligned_eigen_types.hpp>

namespace {

template <typename S>
using Vec3 = Eigen::Matrix<S, 3, 1>;
template <typename S>
using Vec4 = Eigen::Matrix<S, 4, 1>;
template <typename S>
using Aligned = Eigen::Aligned4Vector3<S>;

template <typename S>
constexpr double eps() {
  return std::is_same<S, float>::value ? 1e-5 : 1e-13;
}

template <typename S>
S number(vp::Src& s) {
  switch (s.choice(4)) {
    case 0: return static_cast<S>(s.i(-8, 8));
    case 1: return static_cast<S>(static_cast<double>(s.i(-4000, 4000)) / 64);
    case 2: return static_cast<S>(s.real(-10, 10));
    default: {
      const double e = static_cast<double>(s.i(-10, 10));
      return static_cast<S>(s.real(-1, 1) * std::pow(10.0, e));
    }
  }
}

template <typename S>
Vec3<S> vec(vp::Src& s) {
  Vec3<S> v;
  for (int k = 0; k < 3; k++) v[k] = number<S>(s);
  return v;
}

template <typename S>
Eigen::Transform<S, 3, Eigen::Isometry> motion(vp::Src& s) {
  Eigen::Quaternion<S> q(static_cast<S>(s.real(-1, 1)), static_cast<S>(s.real(-1, 1)), static_cast<S>(s.real(-1, 1)), static_cast<S>(s.real(-1, 1)));
  if (!(q.norm() > S(0.1))) q = Eigen::Quaternion<S>::Identity();
  q.normalize();
  return Eigen::Translation<S, 3>(vec<S>(s)) * q;
}

template <typename S>
bool close(double a, double b, double scale) {
  return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= eps<S>() * scale + 1e-300;
}

template <typename S>
bool same(const Vec3<S>& a, const Vec3<S>& b, double scale) {
  for (int k = 0; k < 3; k++)
    if (!close<S>(a[k], b[k], scale)) return false;
  return true;
}

template <typename S>
std::string text(const Vec3<S>& v) {
  return vp::cat("(", v[0], " ", v[1], " ", v[2], ")");
}

/// The vector holds the components of the model and stays a homogeneous position: its fourth coordinate is one.
template <typename S>
void check(const Aligned<S>& a, const Vec3<S>& m, const std::string& after) {
  const Vec3<S> got(a.coeff(0), a.coeff(1), a.coeff(2));
  VP_CHECK(same<S>(got, m, m.norm()), text<S>(got), " instead of ", text<S>(m), " after ", after);
  VP_CHECK(a.coeffs()[3] == S(1), "the fourth coordinate is ", a.coeffs()[3], " after ", after);
}

template <typename S>
void itself(const Aligned<S>& got, const Aligned<S>& changed, const char* op) {
  VP_CHECK(&got == &changed, op, " returns another object than the one it changes");
}

template <typename S>
void history(vp::Src& s) {
  std::vector<Aligned<S>, Eigen::aligned_allocator<Aligned<S>>> a(3);
  std::vector<Vec3<S>> m(3, Vec3<S>::Zero());
  for (int k = 0; k < 3; k++) check<S>(a[static_cast<size_t>(k)], m[static_cast<size_t>(k)], "construction");
  size_t compound = 0, asked = 0;
  std::string log;
  const size_t steps = s.len(1, 16);
  for (size_t step = 0; step < steps; step++) {
    const size_t i = s.choice(3), j = s.choice(3), k = s.choice(3);
    S x = number<S>(s);
    const uint64_t what = s.choice(24);
    std::string op;
    const double before = m[i].norm();
    (void)before;
    switch (what) {
      case 0: {
        m[i] = vec<S>(s);
        a[i] = Aligned<S>(m[i][0], m[i][1], m[i][2]);
        op = "construct " + text<S>(m[i]);
        break;
      }
      case 1: {
        m[i] = vec<S>(s);
        if (s.b()) a[i] = m[i];
        else a[i] = Aligned<S>(m[i]);
        op = "from a vector " + text<S>(m[i]);
        break;
      }
      case 2: {
        const Vec3<S> v = vec<S>(s);
        Vec4<S> h(v[0], v[1], v[2], number<S>(s));
        m[i] = v;
        if (s.b()) a[i] = h;
        else a[i] = Aligned<S>(h);
        op = "from four coordinates " + text<S>(v);
        break;
      }
      case 3: a[i] = a[j], m[i] = m[j], op = "assign"; break;
      case 4: {
        const Aligned<S> copy(a[j]);
        a[i] = copy;
        m[i] = m[j];
        op = "copy";
        break;
      }
      case 5: a[i] = a[j] + a[k], m[i] = m[j] + m[k], op = "+"; break;
      case 6: a[i] = a[j] - a[k], m[i] = m[j] - m[k], op = "-"; break;
      case 7: {
        itself<S>(a[i] += a[j], a[i], "+=");
        m[i] += Vec3<S>(m[j]), op = "+=", compound++;
        break;
      }
      case 8: itself<S>(a[i] -= a[j], a[i], "-="), m[i] -= Vec3<S>(m[j]), op = "-=", compound++; break;
      case 9: itself<S>(a[i] *= x, a[i], "*="), m[i] *= x, op = "*=", compound++; break;
      case 10:
        if (x == S(0)) x = S(1);
        itself<S>(a[i] /= x, a[i], "/="), m[i] /= x, op = "/=", compound++;
        break;
      case 11: a[i] = a[j] * x, m[i] = m[j] * x, op = "v * x"; break;
      case 12: a[i] = x * a[j], m[i] = x * m[j], op = "x * v"; break;
      case 13:
        if (x == S(0)) x = S(1);
        a[i] = a[j] / x, m[i] = m[j] / x, op = "/";
        break;
      case 14: {
        // each component of the product is only as exact as its two terms
        const Vec3<S> c = a[j].cross(a[k]);
        VP_CHECK(same<S>(c, m[j].cross(m[k]), static_cast<double>(m[j].norm()) * static_cast<double>(m[k].norm())), "cross product");
        a[i] = c, m[i] = c, op = "cross";
        break;
      }
      case 15:
      case 16: {
        const double n = static_cast<double>(m[i].norm());
        if (!(n > 1e-12 && n < 1e12)) break;
        if (what == 15) a[i].normalize();
        else a[i] = a[i].normalized();
        m[i] = m[i] / m[i].norm();
        op = what == 15 ? "normalize" : "normalized";
        compound += what == 15;
        break;
      }
      case 17: a[i][static_cast<Eigen::Index>(x > 0)] = x, m[i][static_cast<Eigen::Index>(x > 0)] = x, op = "write"; break;
      case 18: {
        const auto t = motion<S>(s);
        const Vec3<S> want = t * m[j];
        const Vec3<S> got = t * a[j];
        const double scale = static_cast<double>(m[j].norm()) + static_cast<double>(t.translation().norm());
        VP_CHECK(same<S>(got, want, 8 * scale), "moved to ", text<S>(got), " instead of ", text<S>(want));
        const Vec4<S> h = t.matrix() * a[j].coeffs();
        VP_CHECK(same<S>(h.template head<3>(), want, 8 * scale), "the four coordinates move to ", text<S>(h.template head<3>()), " instead of ", text<S>(want));
        a[i] = got, m[i] = got, op = "move";
        break;
      }
      case 19: {
        const auto r = motion<S>(s).linear().eval();
        const Vec3<S> want = r * m[j], got = r * a[j];
        VP_CHECK(same<S>(got, want, 8 * static_cast<double>(m[j].norm())), "turned to ", text<S>(got), " instead of ", text<S>(want));
        a[i] = r * a[j];
        m[i] = Vec3<S>(a[i]);
        VP_CHECK(same<S>(m[i], want, 8 * static_cast<double>(want.norm())), "a product is assigned as ", text<S>(m[i]));
        op = "turn";
        break;
      }
      default: {
        const Vec3<S>&p = m[j], &q = m[k];
        const double np = static_cast<double>(p.norm()), nq = static_cast<double>(q.norm());
        if (!(np < 1e15 && nq < 1e15) || (np != 0 && np < 1e-15) || (nq != 0 && nq < 1e-15)) break;
        VP_CHECK(close<S>(a[j].dot(a[k]), p.dot(q), np * nq), "dot product ", a[j].dot(a[k]), " of ", text<S>(p), " and ", text<S>(q), log);
        VP_CHECK(close<S>(a[j].sum(), p.sum(), 3 * np), "sum ", a[j].sum(), " of ", text<S>(p), log);
        VP_CHECK(close<S>(a[j].squaredNorm(), np * np, np * np), "squared norm ", a[j].squaredNorm(), " of ", text<S>(p), log);
        VP_CHECK(close<S>(a[j].norm(), np, np), "norm ", a[j].norm(), " of ", text<S>(p), log);
        VP_CHECK(a[j].rows() == 3 && a[j].cols() == 1 && a[j].size() == 3, "size");
        if (p == q || (p - q).norm() > S(0.01) * std::max(p.norm(), q.norm())) VP_CHECK(a[j].isApprox(q) == (p == q), "isApprox of ", text<S>(p), " and ", text<S>(q), log);
        VP_CHECK(a[j].minCoeff() == p.minCoeff() && a[j].maxCoeff() == p.maxCoeff(), "extreme coefficients of ", text<S>(p), log);
        const Vec3<S> out = a[j], product = a[j].cwiseProduct(a[k]), positive = a[j].cwiseAbs();
        VP_CHECK(out == p && product == p.cwiseProduct(q) && positive == p.cwiseAbs(), "expressions of ", text<S>(p), log);
        VP_CHECK(a[j].data()[0] == p[0] && a[j].data()[1] == p[1] && a[j].data()[2] == p[2], "data");
        VP_CHECK(a[j].coeff(1, 0) == p[1] && a[j](2) == p[2] && a[j].x() == p[0], "coefficients");
        asked++;
        op = "ask";
        break;
      }
    }
    if (!m[i].allFinite() || m[i].norm() > S(1e30)) {  // overflow: start again from zero
      m[i].setZero();
      a[i] = Aligned<S>();
    }
    log += " / " + op;
    for (size_t n = 0; n < 3; n++) check<S>(a[n], m[n], log);
    for (size_t n = 0; n < 3; n++) m[n] = Vec3<S>(a[n].coeff(0), a[n].coeff(1), a[n].coeff(2));  // without drift
  }
  if (s.noting()) s.note(vp::cat(std::is_same<S, float>::value ? "float" : "double", log));
  s.nontrivialIf(compound >= 1 && asked >= 1);
}

VP_PROP(doubles, 1500000, 25000000) { history<double>(s); }

VP_PROP(floats, 1000000, 15000000) { history<float>(s); }

}  // namespace
