#include "vp.hpp"
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <arc_utilities/serialization_eigen.hpp>

#include "ser_common.hpp"

using namespace ser;
using namespace arc_utilities;

namespace ser {
template <class S, int R, int C>
struct Gen<Eigen::Matrix<S, R, C>> {
  using T = Eigen::Matrix<S, R, C>;
  static T make(vp::Src& s) {
    long r = R == Eigen::Dynamic ? static_cast<long>(s.len(0, 20)) : R;
    long c = C == Eigen::Dynamic ? static_cast<long>(s.len(0, 20)) : C;
    const uint64_t kind = s.choice(3);
    if (R == Eigen::Dynamic || C == Eigen::Dynamic) {
      if (const size_t n = takeLarge()) {
        (C == Eigen::Dynamic && (R != Eigen::Dynamic || s.b()) ? c : r) = static_cast<long>(n);
        vp::Src d;
        s.detach(d);
        T t(r, c);
        for (long j = 0; j < c; ++j)
          for (long i = 0; i < r; ++i) t(i, j) = Gen<S>::make(d);
        return t;
      }
    }
    T t(r, c);
    for (long j = 0; j < c; ++j)
      for (long i = 0; i < r; ++i)
        t(i, j) = kind == 0 ? static_cast<S>(i * 100 + j + 1) : kind == 1 ? static_cast<S>(s.si(1000)) : Gen<S>::make(s);
    return t;
  }
  static bool same(const T& a, const T& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (long j = 0; j < a.cols(); ++j)
      for (long i = 0; i < a.rows(); ++i)
        if (!Gen<S>::same(a(i, j), b(i, j))) return false;
    return true;
  }
  static void show(std::ostream& o, const T& v) {
    o << v.rows() << "x" << v.cols();
    if (v.size() > 0 && v.size() < 12) o << "=" << v.format(Eigen::IOFormat(6, Eigen::DontAlignCols, " ", ";"));
  }
};
template <>
struct Gen<Eigen::Isometry3d> {
  using T = Eigen::Isometry3d;
  static T make(vp::Src& s) {
    T t = T::Identity();
    Eigen::Quaterniond q(s.real(-1, 1) + 1e-3, s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
    q.normalize();
    t.linear() = q.toRotationMatrix();
    t.translation() << s.anyDouble(), s.anyDouble(), s.anyDouble();
    return t;
  }
  static bool same(const T& a, const T& b) { return std::memcmp(a.matrix().data(), b.matrix().data(), 16 * 8) == 0; }
  static void show(std::ostream& o, const T& v) { o << "iso t=" << v.translation().transpose(); }
};
}  // namespace ser

template <class T>
static uint64_t w(const T& v, Buf& b) {
  const uint64_t predicted = SerializedSizeEigen(v);
  const uint64_t n = SerializeEigen(v, b);
  VP_CHECK(predicted == n, "predicted size ", predicted, ", returned ", n);
  return n;
}
template <class T>
static uint64_t wGeneric(const T& v, Buf& b) {
  return SerializeEigen(v, b);
}
template <class T>
static std::pair<T, uint64_t> r(const Buf& b, const uint64_t c) {
  return DeserializeEigen<T>(b, c);
}

using V3 = Eigen::Vector3d;
using V6 = Eigen::Matrix<double, 6, 1>;
using V7 = Eigen::Matrix<double, 7, 1>;
using Iso = Eigen::Isometry3d;
using VecV3 = std::vector<V3>;
using VecM = std::vector<Eigen::MatrixXd>;
using VecIso = std::vector<Iso, Eigen::aligned_allocator<Iso>>;
using MapM = std::map<std::string, Eigen::MatrixXd>;

static Item anyItem(vp::Src& s) {
  switch (s.choice(14)) {
    case 0: return makeItem<V3>(s, "Vector3d", w<V3>, r<V3>);
    case 1: return makeItem<V6>(s, "Vector6d", w<V6>, r<V6>);
    case 2: return makeItem<V7>(s, "Vector7d", w<V7>, r<V7>);
    case 3: return makeItem<Eigen::VectorXd>(s, "VectorXd", w<Eigen::VectorXd>, r<Eigen::VectorXd>);
    case 4: return makeItem<Eigen::MatrixXd>(s, "MatrixXd", w<Eigen::MatrixXd>, r<Eigen::MatrixXd>);
    case 5: return makeItem<Eigen::Matrix3Xd>(s, "Matrix3Xd", w<Eigen::Matrix3Xd>, r<Eigen::Matrix3Xd>);
    case 6: return makeItem<Eigen::Matrix3Xf>(s, "Matrix3Xf", w<Eigen::Matrix3Xf>, r<Eigen::Matrix3Xf>);
    case 7: return makeItem<Eigen::MatrixXf>(s, "MatrixXf", w<Eigen::MatrixXf>, r<Eigen::MatrixXf>);
    case 8: return makeItem<Iso>(s, "Isometry3d", w<Iso>, r<Iso>);
    case 9:
      return makeItem<VecV3>(
          s, "vector<Vector3d>", [](const VecV3& v, Buf& b) { return SerializeVector<V3>(v, b, wGeneric<V3>); },
          [](const Buf& b, uint64_t c) { return DeserializeVector<V3>(b, c, r<V3>); });
    case 10:
      return makeItem<VecM>(
          s, "vector<MatrixXd>",
          [](const VecM& v, Buf& b) { return SerializeVector<Eigen::MatrixXd>(v, b, wGeneric<Eigen::MatrixXd>); },
          [](const Buf& b, uint64_t c) { return DeserializeVector<Eigen::MatrixXd>(b, c, r<Eigen::MatrixXd>); });
    case 11:
      return makeItem<VecIso>(
          s, "vector<Isometry3d>",
          [](const VecIso& v, Buf& b) {
            return SerializeVector<Iso, Eigen::aligned_allocator<Iso>>(v, b, wGeneric<Iso>);
          },
          [](const Buf& b, uint64_t c) { return DeserializeVector<Iso, Eigen::aligned_allocator<Iso>>(b, c, r<Iso>); });
    case 12:
      return makeItem<MapM>(
          s, "map<string,MatrixXd>",
          [](const MapM& v, Buf& b) {
            return SerializeMap<std::string, Eigen::MatrixXd>(v, b, SerializeString<char>, wGeneric<Eigen::MatrixXd>);
          },
          [](const Buf& b, uint64_t c) {
            return DeserializeMap<std::string, Eigen::MatrixXd>(b, c, DeserializeString<char>, r<Eigen::MatrixXd>);
          });
    default:
      return makeItem<std::string>(
          s, "string", [](const std::string& v, Buf& b) { return SerializeString<char>(v, b); },
          [](const Buf& b, uint64_t c) { return DeserializeString<char>(b, c); });
  }
}

VP_PROP(eigen_sequence_round_trip, 120000, 2000000) {
  std::vector<Item> items;
  s.repeat(1, 8, [&] { items.push_back(anyItem(s)); });
  roundTrip(s, items);
}

VP_PROP(large_eigen_values_round_trip, 500, 8000) { largeRoundTrip(s, 5000, [&] { return anyItem(s); }); }
