#include "vp.hpp"

#include <arc_utilities/eigen_helpers_conversions.hpp>
#include <arc_utilities/eigen_ros_conversions.hpp>
#include <arc_utilities/eigen_transforms.hpp>
#include <arc_utilities/geometry_msgs_builders.hpp>
#include <arc_utilities/shape_msgs_builders.hpp>

namespace ehc = EigenHelpersConversions;
namespace rmb = arc_utilities::rmb;
using geometry_msgs::Point;
using geometry_msgs::Quaternion;
using geometry_msgs::Vector3;

namespace {

bool same(double a, double b) { return vp::sameBits(a, b) || (std::isnan(a) && std::isnan(b)); }
template <typename A>
bool sameXyz(const A& a, double x, double y, double z) {
  return same(a.x, x) && same(a.y, y) && same(a.z, z);
}
template <typename E>
bool sameVec(const E& e, double x, double y, double z) {
  return same(e(0), x) && same(e(1), y) && same(e(2), z);
}

struct Xyz {
  double x, y, z;
};
/// Every number there is: a conversion must not touch them.
Xyz xyz(vp::Src& s) { return {s.anyDouble(), s.anyDouble(), s.anyDouble()}; }
Point point(const Xyz& v) {
  Point p;
  p.x = v.x, p.y = v.y, p.z = v.z;
  return p;
}
Vector3 vector(const Xyz& v) {
  Vector3 p;
  p.x = v.x, p.y = v.y, p.z = v.z;
  return p;
}

double finite(vp::Src& s) {
  switch (s.choice(4)) {
    case 0: return static_cast<double>(s.i(-5, 5));
    case 1: return s.real(-10, 10);
    case 2: return s.real(-1, 1) * 1e-6;
    default: return s.real(-1, 1) * 1e6;
  }
}

/// A unit quaternion: special turns, nearly no and nearly half a turn, anything.
Eigen::Quaterniond rotation(vp::Src& s) {
  double w, x, y, z;
  switch (s.choice(4)) {
    case 0:
      w = static_cast<double>(s.i(-1, 1)), x = static_cast<double>(s.i(-1, 1)), y = static_cast<double>(s.i(-1, 1)), z = static_cast<double>(s.i(-1, 1));
      break;
    case 1:
      w = s.b() ? 1 : -1, x = s.real(-1e-5, 1e-5), y = s.real(-1e-5, 1e-5), z = s.real(-1e-5, 1e-5);
      break;
    case 2:
      w = s.real(-1e-5, 1e-5), x = s.real(-1, 1), y = s.real(-1, 1), z = s.real(-1, 1);
      break;
    default:
      w = s.real(-1, 1), x = s.real(-1, 1), y = s.real(-1, 1), z = s.real(-1, 1);
  }
  const double n = std::sqrt(w * w + x * x + y * y + z * z);
  if (!(n > 1e-2)) return Eigen::Quaterniond(1, 0, 0, 0);
  return Eigen::Quaterniond(w / n, x / n, y / n, z / n);
}

/// The rotation matrix of a unit quaternion, written out.
Eigen::Matrix3d matrix(double w, double x, double y, double z) {
  Eigen::Matrix3d m;
  m(0, 0) = w * w + x * x - y * y - z * z, m(0, 1) = 2 * (x * y - w * z), m(0, 2) = 2 * (x * z + w * y);
  m(1, 0) = 2 * (x * y + w * z), m(1, 1) = w * w - x * x + y * y - z * z, m(1, 2) = 2 * (y * z - w * x);
  m(2, 0) = 2 * (x * z - w * y), m(2, 1) = 2 * (y * z + w * x), m(2, 2) = w * w - x * x - y * y + z * z;
  return m;
}

struct Rigid {
  Eigen::Quaterniond q;
  Eigen::Vector3d t;
  Eigen::Matrix3d m;
};
Rigid rigid(vp::Src& s) {
  Rigid r;
  r.q = rotation(s);
  for (int k = 0; k < 3; k++) r.t[k] = finite(s);
  r.m = matrix(r.q.w(), r.q.x(), r.q.y(), r.q.z());
  return r;
}
Quaternion quaternion(const Eigen::Quaterniond& q) {
  Quaternion g;
  g.w = q.w(), g.x = q.x(), g.y = q.y(), g.z = q.z();
  return g;
}
geometry_msgs::Pose pose(const Rigid& r) {
  geometry_msgs::Pose p;
  p.position = point({r.t[0], r.t[1], r.t[2]});
  p.orientation = quaternion(r.q);
  return p;
}
geometry_msgs::Transform transform(const Rigid& r) {
  geometry_msgs::Transform p;
  p.translation = vector({r.t[0], r.t[1], r.t[2]});
  p.rotation = quaternion(r.q);
  return p;
}
template <typename T>
T eigen(const Rigid& r) {
  T t = T::Identity();
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) t.matrix()(i, j) = static_cast<typename T::Scalar>(r.m(i, j));
    t.matrix()(i, 3) = static_cast<typename T::Scalar>(r.t[i]);
  }
  return t;
}

template <typename T>
void checkTransform(const char* what, const T& got, const Rigid& r) {
  for (int i = 0; i < 3; i++) {
    VP_CHECK(got.matrix()(i, 3) == r.t[i], what, ": translation ", i, " is ", got.matrix()(i, 3), " instead of ", r.t[i]);
    for (int j = 0; j < 3; j++)
      VP_CHECK(vp::near(got.matrix()(i, j), r.m(i, j), 1e-12), what, ": rotation (", i, ", ", j, ") is ", got.matrix()(i, j), " instead of ", r.m(i, j));
    VP_CHECK(got.matrix()(3, i) == 0, what, ": the last row is not 0 0 0 1");
  }
  VP_CHECK(got.matrix()(3, 3) == 1, what, ": the last row is not 0 0 0 1");
}

template <typename Q>
void checkRotation(const char* what, const Q& q, const Eigen::Matrix3d& m, double tol) {
  const double n = q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z;
  VP_CHECK(vp::near(n, 1, tol), what, ": a quaternion of squared norm ", n);
  const Eigen::Matrix3d got = matrix(q.w, q.x, q.y, q.z);
  VP_CHECK((got - m).cwiseAbs().maxCoeff() <= tol, what, ": another rotation, off by ", (got - m).cwiseAbs().maxCoeff());
}
template <typename P>
void checkPosition(const char* what, const P& p, const Eigen::Vector3d& t) {
  VP_CHECK(p.x == t[0] && p.y == t[1] && p.z == t[2], what, ": translation ", p.x, " ", p.y, " ", p.z, " instead of ", t.transpose());
}
bool blank(const std_msgs::Header& h) { return h.seq == 0 && h.stamp.sec == 0 && h.stamp.nsec == 0; }

}  // namespace

VP_PROP(vectors_keep_every_number, 1500000, 20000000) {
  const Xyz v = xyz(s);
  const double w = s.anyDouble();
  const std::string frame = s.str(8);
  const Point p = point(v);
  const Vector3 g = vector(v);
  const Eigen::Vector3d e(v.x, v.y, v.z);
  const Eigen::Vector4d e4(v.x, v.y, v.z, w);
  if (s.noting()) s.note(vp::cat(v.x, " ", v.y, " ", v.z, " in ", frame));
  s.nontrivialIf(v.x != v.y && v.y != v.z && v.x != v.z);

  VP_CHECK(sameVec(ehc::GeometryPointToEigenVector3d(p), v.x, v.y, v.z), "GeometryPointToEigenVector3d");
  VP_CHECK(sameXyz(ehc::EigenVector3dToGeometryPoint(e), v.x, v.y, v.z), "EigenVector3dToGeometryPoint");
  const auto p4 = ehc::GeometryPointToEigenVector4d(p);
  VP_CHECK(sameVec(p4, v.x, v.y, v.z) && p4(3) == 1, "GeometryPointToEigenVector4d: a point is (x, y, z, 1)");
  VP_CHECK(sameXyz(ehc::EigenVector4dToGeometryPoint(e4), v.x, v.y, v.z), "EigenVector4dToGeometryPoint");
  const auto stamped = ehc::EigenVector3dToGeometryPointStamped(e, frame);
  VP_CHECK(sameXyz(stamped.point, v.x, v.y, v.z) && stamped.header.frame_id == frame && blank(stamped.header), "EigenVector3dToGeometryPointStamped");
  VP_CHECK(sameVec(ehc::GeometryVector3ToEigenVector3d(g), v.x, v.y, v.z), "GeometryVector3ToEigenVector3d");
  VP_CHECK(sameXyz(ehc::EigenVector3dToGeometryVector3(e), v.x, v.y, v.z), "EigenVector3dToGeometryVector3");
  const auto g4 = ehc::GeometryVector3ToEigenVector4d(g);
  VP_CHECK(sameVec(g4, v.x, v.y, v.z) && g4(3) == 0, "GeometryVector3ToEigenVector4d: a direction is (x, y, z, 0)");
  VP_CHECK(sameXyz(ehc::EigenVector4dToGeometryVector3(e4), v.x, v.y, v.z), "EigenVector4dToGeometryVector3");

  VP_CHECK(sameVec(ConvertTo<Eigen::Vector3d>(p), v.x, v.y, v.z), "ConvertTo<Vector3d>(Point)");
  VP_CHECK(sameVec(ConvertTo<Eigen::Vector3d>(g), v.x, v.y, v.z), "ConvertTo<Vector3d>(Vector3)");
  VP_CHECK(sameXyz(ConvertTo<Point>(e), v.x, v.y, v.z), "ConvertTo<Point>(Vector3d)");
  VP_CHECK(sameXyz(ConvertTo<Vector3>(e), v.x, v.y, v.z), "ConvertTo<Vector3>(Vector3d)");

  VP_CHECK(sameXyz(rmb::MakePoint(v.x, v.y, v.z), v.x, v.y, v.z), "MakePoint");
  VP_CHECK(sameXyz(rmb::MakeVector3(v.x, v.y, v.z), v.x, v.y, v.z), "MakeVector3");
  const auto q = rmb::MakeQuaternion(v.x, v.y, v.z, w);
  VP_CHECK(sameXyz(q, v.x, v.y, v.z) && same(q.w, w), "MakeQuaternion");
  const Xyz u = xyz(s);
  for (const auto& tf : {rmb::MakeTransform(point(u), q), rmb::MakeTransform(vector(u), q)})
    VP_CHECK(sameXyz(tf.translation, u.x, u.y, u.z) && sameXyz(tf.rotation, v.x, v.y, v.z) && same(tf.rotation.w, w), "MakeTransform");
  for (const auto& ps : {rmb::MakePose(point(u), q), rmb::MakePose(vector(u), q)})
    VP_CHECK(sameXyz(ps.position, u.x, u.y, u.z) && sameXyz(ps.orientation, v.x, v.y, v.z) && same(ps.orientation.w, w), "MakePose");

  const Eigen::Quaterniond eq(w, v.x, v.y, v.z);
  for (const auto& back : {ehc::GeometryQuaternionToEigenQuaterniond(q), ConvertTo<Eigen::Quaterniond>(q)})
    VP_CHECK(same(back.x(), v.x) && same(back.y(), v.y) && same(back.z(), v.z) && same(back.w(), w), "Quaternion to Quaterniond");
  for (const auto& back : {ehc::EigenQuaterniondToGeometryQuaternion(eq), ConvertTo<Quaternion>(eq)})
    VP_CHECK(sameXyz(back, v.x, v.y, v.z) && same(back.w, w), "Quaterniond to Quaternion");

  geometry_msgs::Wrench wr;
  wr.force = vector(v), wr.torque = vector(u);
  const auto pair = ehc::GeometryWrenchToEigenPairVector(wr);
  VP_CHECK(sameVec(pair.first, v.x, v.y, v.z) && sameVec(pair.second, u.x, u.y, u.z), "GeometryWrenchToEigenPairVector: force and torque");
}

VP_PROP(floats_are_rounded_once, 500000, 8000000) {
  const Xyz v{finite(s), finite(s), finite(s)};
  const float x = static_cast<float>(v.x), y = static_cast<float>(v.y), z = static_cast<float>(v.z), w = static_cast<float>(finite(s));
  s.nontrivialIf(x != y && y != z);
  if (s.noting()) s.note(vp::cat(x, " ", y, " ", z));
  VP_CHECK(sameVec(ConvertTo<Eigen::Vector3f>(point(v)), x, y, z), "ConvertTo<Vector3f>(Point)");
  VP_CHECK(sameVec(ConvertTo<Eigen::Vector3f>(vector(v)), x, y, z), "ConvertTo<Vector3f>(Vector3)");
  const Eigen::Vector3f e(x, y, z);
  VP_CHECK(sameXyz(ConvertTo<Point>(e), x, y, z), "ConvertTo<Point>(Vector3f)");
  VP_CHECK(sameXyz(ConvertTo<Vector3>(e), x, y, z), "ConvertTo<Vector3>(Vector3f)");
  const auto g = ConvertTo<Quaternion>(Eigen::Quaternionf(w, x, y, z));
  VP_CHECK(sameXyz(g, x, y, z) && same(g.w, w), "ConvertTo<Quaternion>(Quaternionf)");
  const auto q = ConvertTo<Eigen::Quaternionf>(g);
  VP_CHECK(q.w() == w && q.x() == x && q.y() == y && q.z() == z, "ConvertTo<Quaternionf>(Quaternion)");
  const Rigid r = rigid(s);
  const Eigen::Affine3f a = eigen<Eigen::Affine3f>(r);
  const auto p = ehc::EigenAffine3fToGeometryPose(a);
  VP_CHECK(same(p.position.x, a.matrix()(0, 3)) && same(p.position.y, a.matrix()(1, 3)) && same(p.position.z, a.matrix()(2, 3)), "EigenAffine3fToGeometryPose: position");
  checkRotation("EigenAffine3fToGeometryPose", p.orientation, r.m, 1e-5);
  checkRotation("ConvertTo<Quaternion>(Matrix3f)", ConvertTo<Quaternion>(Eigen::Matrix3f(r.m.cast<float>())), r.m, 1e-5);
}

VP_PROP(transforms_keep_position_and_rotation, 400000, 6000000) {
  const Rigid r = rigid(s);
  const std::string frame = s.str(8);
  const geometry_msgs::Pose p = pose(r);
  const geometry_msgs::Transform g = transform(r);
  s.nontrivialIf(r.t.norm() > 0 && (r.m - Eigen::Matrix3d::Identity()).norm() > 1e-3);
  if (s.noting()) s.note(vp::cat("quaternion ", r.q.coeffs().transpose(), " translation ", r.t.transpose()));

  checkTransform("GeometryPoseToEigenIsometry3d", ehc::GeometryPoseToEigenIsometry3d(p), r);
  checkTransform("GeometryPoseToEigenAffine3d", ehc::GeometryPoseToEigenAffine3d(p), r);
  checkTransform("GeometryTransformToEigenIsometry3d", ehc::GeometryTransformToEigenIsometry3d(g), r);
  checkTransform("GeometryTransformToEigenAffine3d", ehc::GeometryTransformToEigenAffine3d(g), r);
  checkTransform("ConvertTo<Isometry3d>(Pose)", ConvertTo<Eigen::Isometry3d>(p), r);
  checkTransform("ConvertTo<Affine3d>(Pose)", ConvertTo<Eigen::Affine3d>(p), r);
  checkTransform("ConvertTo<Isometry3d>(Transform)", ConvertTo<Eigen::Isometry3d>(g), r);
  checkTransform("ConvertTo<Affine3d>(Transform)", ConvertTo<Eigen::Affine3d>(g), r);

  const Eigen::Isometry3d i = eigen<Eigen::Isometry3d>(r);
  const Eigen::Affine3d a = eigen<Eigen::Affine3d>(r);
  const double tol = 1e-12;
  const auto ofPose = [&](const char* what, const geometry_msgs::Pose& x) { checkPosition(what, x.position, r.t), checkRotation(what, x.orientation, r.m, tol); };
  const auto ofTransform = [&](const char* what, const geometry_msgs::Transform& x) { checkPosition(what, x.translation, r.t), checkRotation(what, x.rotation, r.m, tol); };
  ofPose("EigenIsometry3dToGeometryPose", ehc::EigenIsometry3dToGeometryPose(i));
  ofPose("EigenAffine3dToGeometryPose", ehc::EigenAffine3dToGeometryPose(a));
  ofTransform("EigenIsometry3dToGeometryTransform", ehc::EigenIsometry3dToGeometryTransform(i));
  ofTransform("EigenAffine3dToGeometryTransform", ehc::EigenAffine3dToGeometryTransform(a));
  ofTransform("ConvertTo<Transform>(Isometry3d)", ConvertTo<geometry_msgs::Transform>(i));
  ofTransform("ConvertTo<Transform>(Affine3d)", ConvertTo<geometry_msgs::Transform>(a));
  checkRotation("ConvertTo<Quaternion>(Matrix3d)", ConvertTo<Quaternion>(r.m), r.m, tol);
  const auto only = ConvertTo<geometry_msgs::Transform>(Eigen::Translation3d(r.t));
  checkPosition("ConvertTo<Transform>(Translation3d)", only.translation, r.t);
  checkRotation("ConvertTo<Transform>(Translation3d)", only.rotation, Eigen::Matrix3d::Identity(), 0);

  const auto ps = ehc::EigenIsometry3dToGeometryPoseStamped(i, frame);
  ofPose("EigenIsometry3dToGeometryPoseStamped", ps.pose);
  VP_CHECK(ps.header.frame_id == frame && blank(ps.header), "EigenIsometry3dToGeometryPoseStamped: frame ", ps.header.frame_id);
  const auto pa = ehc::EigenAffine3dToGeometryPoseStamped(i, frame);
  ofPose("EigenAffine3dToGeometryPoseStamped", pa.pose);
  VP_CHECK(pa.header.frame_id == frame && blank(pa.header), "EigenAffine3dToGeometryPoseStamped: frame ", pa.header.frame_id);
  const auto ts = ehc::EigenIsometry3dToGeometryTransformStamped(i, frame);
  ofTransform("EigenIsometry3dToGeometryTransformStamped", ts.transform);
  VP_CHECK(ts.header.frame_id == frame && blank(ts.header), "EigenIsometry3dToGeometryTransformStamped: frame ", ts.header.frame_id);
}

/// An affine transform that also stretches still has a rotation: the orthogonal factor of its polar decomposition.
VP_PROP(stretched_transforms_keep_the_rotation, 200000, 3000000) {
  Rigid r = rigid(s);
  const Rigid d = rigid(s);
  Eigen::Vector3d scale;
  for (int k = 0; k < 3; k++) scale[k] = s.real(0.25, 4);
  const Eigen::Matrix3d stretch = s.b() ? Eigen::Matrix3d(scale[0] * Eigen::Matrix3d::Identity()) : Eigen::Matrix3d(d.m * scale.asDiagonal() * d.m.transpose());
  const Eigen::Matrix3d rot = r.m;
  s.nontrivialIf((rot - Eigen::Matrix3d::Identity()).norm() > 1e-3);
  if (s.noting()) s.note(vp::cat("quaternion ", r.q.coeffs().transpose(), " stretched by ", scale.transpose()));
  r.m = rot * stretch;
  const Eigen::Affine3d a = eigen<Eigen::Affine3d>(r);
  checkRotation("EigenAffine3dToGeometryPose", ehc::EigenAffine3dToGeometryPose(a).orientation, rot, 1e-9);
  checkRotation("EigenAffine3dToGeometryTransform", ehc::EigenAffine3dToGeometryTransform(a).rotation, rot, 1e-9);
  checkRotation("ConvertTo<Transform>(Affine3d)", ConvertTo<geometry_msgs::Transform>(a).rotation, rot, 1e-9);
  checkRotation("EigenAffine3fToGeometryPose", ehc::EigenAffine3fToGeometryPose(eigen<Eigen::Affine3f>(r)).orientation, rot, 1e-4);
  checkPosition("EigenAffine3dToGeometryPose", ehc::EigenAffine3dToGeometryPose(a).position, r.t);
}

VP_PROP(lists_keep_order_and_length, 100000, 1500000) {
  const size_t n = s.len(0, 8);
  std::vector<Xyz> v;
  std::vector<Rigid> r;
  std::vector<Point> points;
  std::vector<Vector3> vectors;
  std::vector<geometry_msgs::Pose> poses;
  std::vector<geometry_msgs::Transform> transforms;
  EigenHelpers::VectorVector3d evectors;
  EigenHelpers::VectorIsometry3d isometries;
  EigenHelpers::VectorAffine3d affines;
  Eigen::Matrix3Xd m(3, n);
  for (size_t k = 0; k < n; k++) {
    v.push_back(xyz(s)), r.push_back(rigid(s));
    points.push_back(point(v[k])), vectors.push_back(vector(v[k]));
    poses.push_back(pose(r[k])), transforms.push_back(transform(r[k]));
    evectors.push_back(Eigen::Vector3d(v[k].x, v[k].y, v[k].z));
    isometries.push_back(eigen<Eigen::Isometry3d>(r[k])), affines.push_back(eigen<Eigen::Affine3d>(r[k]));
    m.col(static_cast<Eigen::Index>(k)) << v[k].x, v[k].y, v[k].z;
  }
  s.nontrivialIf(n > 1);
  if (s.noting()) s.note(vp::cat(n, " elements"));

  const auto matrixIs = [&](const char* what, const Eigen::Matrix3Xd& x) {
    VP_CHECK(static_cast<size_t>(x.cols()) == n, what, ": ", x.cols(), " columns for ", n, " elements");
    for (size_t k = 0; k < n; k++) VP_CHECK(sameVec(x.col(static_cast<Eigen::Index>(k)), v[k].x, v[k].y, v[k].z), what, ": column ", k);
  };
  matrixIs("VectorGeometryPointToEigenMatrix3Xd", ehc::VectorGeometryPointToEigenMatrix3Xd(points));
  matrixIs("VectorEigenVector3dToEigenMatrix3Xd", ehc::VectorEigenVector3dToEigenMatrix3Xd(evectors));
  matrixIs("VectorGeometryVector3ToEigenMatrix3Xd", ehc::VectorGeometryVector3ToEigenMatrix3Xd(vectors));
  const auto pointsAre = [&](const char* what, const std::vector<Point>& x) {
    VP_CHECK(x.size() == n, what, ": ", x.size(), " points for ", n);
    for (size_t k = 0; k < n; k++) VP_CHECK(sameXyz(x[k], v[k].x, v[k].y, v[k].z), what, ": point ", k);
  };
  pointsAre("EigenMatrix3XdToVectorGeometryPoint", ehc::EigenMatrix3XdToVectorGeometryPoint(m));
  pointsAre("VectorEigenVector3dToVectorGeometryPoint", ehc::VectorEigenVector3dToVectorGeometryPoint(evectors));
  const auto vectorsAre = [&](const char* what, const EigenHelpers::VectorVector3d& x) {
    VP_CHECK(x.size() == n, what, ": ", x.size(), " vectors for ", n);
    for (size_t k = 0; k < n; k++) VP_CHECK(sameVec(x[k], v[k].x, v[k].y, v[k].z), what, ": vector ", k);
  };
  vectorsAre("EigenMatrix3XdToVectorEigenVector3d", ehc::EigenMatrix3XdToVectorEigenVector3d(m));
  vectorsAre("VectorGeometryPointToVectorEigenVector3d", ehc::VectorGeometryPointToVectorEigenVector3d(points));
  vectorsAre("VectorGeometryVector3ToEigenVector3d", ehc::VectorGeometryVector3ToEigenVector3d(vectors));
  {
    const auto x = ConvertTo<Point, Eigen::Vector3d>(points);
    VP_CHECK(x.size() == n, "ConvertTo<Point, Vector3d>: ", x.size(), " for ", n);
    for (size_t k = 0; k < n; k++) VP_CHECK(sameVec(x[k], v[k].x, v[k].y, v[k].z), "ConvertTo<Point, Vector3d>: element ", k);
    const auto y = ConvertTo<geometry_msgs::Pose, Eigen::Isometry3d>(poses);
    VP_CHECK(y.size() == n, "ConvertTo<Pose, Isometry3d>: ", y.size(), " for ", n);
    for (size_t k = 0; k < n; k++) checkTransform("ConvertTo<Pose, Isometry3d>", y[k], r[k]);
  }
  const auto isometriesAre = [&](const char* what, const EigenHelpers::VectorIsometry3d& x) {
    VP_CHECK(x.size() == n, what, ": ", x.size(), " transforms for ", n);
    for (size_t k = 0; k < n; k++) checkTransform(what, x[k], r[k]);
  };
  isometriesAre("VectorGeometryPoseToVectorIsometry3d", ehc::VectorGeometryPoseToVectorIsometry3d(poses));
  isometriesAre("VectorGeometryTransformToVectorIsometry3d", ehc::VectorGeometryTransformToVectorIsometry3d(transforms));
  {
    const auto x = ehc::VectorGeometryTransformToVectorAffine3d(transforms);
    VP_CHECK(x.size() == n, "VectorGeometryTransformToVectorAffine3d: ", x.size(), " for ", n);
    for (size_t k = 0; k < n; k++) checkTransform("VectorGeometryTransformToVectorAffine3d", x[k], r[k]);
  }
  for (const auto& x : {ehc::VectorIsometry3dToVectorGeometryPose(isometries), ehc::VectorAffine3dToVectorGeometryPose(affines)}) {
    VP_CHECK(x.size() == n, "to geometry poses: ", x.size(), " for ", n);
    for (size_t k = 0; k < n; k++) checkPosition("to geometry poses", x[k].position, r[k].t), checkRotation("to geometry poses", x[k].orientation, r[k].m, 1e-12);
  }
  for (const auto& x : {ehc::VectorIsometry3dToVectorGeometryTransform(isometries), ehc::VectorAffine3dToVectorGeometryTransform(affines)}) {
    VP_CHECK(x.size() == n, "to geometry transforms: ", x.size(), " for ", n);
    for (size_t k = 0; k < n; k++) checkPosition("to geometry transforms", x[k].translation, r[k].t), checkRotation("to geometry transforms", x[k].rotation, r[k].m, 1e-12);
  }
  const uint32_t a = static_cast<uint32_t>(s.bits64()), b = static_cast<uint32_t>(s.bits64()), c = static_cast<uint32_t>(s.bits64());
  const auto tri = rmb::MakeMeshTriangle(a, b, c);
  VP_CHECK(tri.vertex_indices[0] == a && tri.vertex_indices[1] == b && tri.vertex_indices[2] == c, "MakeMeshTriangle");
}

/// Moving points, translations and poses by a pose.
VP_PROP(moving_by_a_pose, 200000, 3000000) {
  const Rigid r = rigid(s);
  const Pose by = eigen<Pose>(r);
  const size_t n = s.len(0, 5);
  std::vector<Rigid> rs;
  PoseSequence poses;
  PointSequence points;
  for (size_t k = 0; k < n; k++) rs.push_back(rigid(s)), poses.push_back(eigen<Pose>(rs[k])), points.push_back(rs[k].t);
  s.nontrivialIf(n > 1 && (r.m - Eigen::Matrix3d::Identity()).norm() > 1e-3);
  if (s.noting()) s.note(vp::cat(n, " poses moved by ", r.t.transpose()));
  const auto where = [&](const Eigen::Vector3d& p) { return Eigen::Vector3d(r.m * p + r.t); };
  const auto near3 = [&](const Eigen::Vector3d& x, const Eigen::Vector3d& y, double size) { return (x - y).cwiseAbs().maxCoeff() <= 1e-12 * (1 + size); };

  const auto movedPoints = Transform(by, points);
  VP_CHECK(movedPoints.size() == n, "moving ", n, " points gave ", movedPoints.size());
  for (size_t k = 0; k < n; k++)
    VP_CHECK(near3(movedPoints[k], where(points[k]), points[k].norm() + r.t.norm()), "point ", k, " moved to ", movedPoints[k].transpose(), " instead of ", where(points[k]).transpose());
  const auto movedPoses = Transform(by, poses);
  VP_CHECK(movedPoses.size() == n, "moving ", n, " poses gave ", movedPoses.size());
  for (size_t k = 0; k < n; k++) {
    VP_CHECK(near3(movedPoses[k].translation(), where(points[k]), points[k].norm() + r.t.norm()), "pose ", k, " moved wrongly");
    VP_CHECK((movedPoses[k].linear() - r.m * rs[k].m).cwiseAbs().maxCoeff() <= 1e-12, "pose ", k, " turned wrongly");
  }
  if (n >= 2) {
    const auto pair = Transform(by, std::make_pair(points[0], points[1]));
    VP_CHECK(near3(pair.first, where(points[0]), points[0].norm() + r.t.norm()) && near3(pair.second, where(points[1]), points[1].norm() + r.t.norm()), "a pair of points");
    const auto mixed = Transform(by, std::make_pair(poses[0], points[1]));
    VP_CHECK(near3(mixed.first.translation(), where(points[0]), points[0].norm() + r.t.norm()) && (mixed.first.linear() - r.m * rs[0].m).cwiseAbs().maxCoeff() <= 1e-12 &&
                 near3(mixed.second, where(points[1]), points[1].norm() + r.t.norm()),
             "a pose and a point");
    const auto tr = Transform(by, std::make_pair(Eigen::Translation3d(points[0]), Eigen::Translation3d(points[1])));
    for (int k = 0; k < 2; k++) {
      const Pose& x = k == 0 ? tr.first : tr.second;
      VP_CHECK(near3(x.translation(), where(points[static_cast<size_t>(k)]), points[static_cast<size_t>(k)].norm() + r.t.norm()) && (x.linear() - r.m).cwiseAbs().maxCoeff() <= 1e-12, "translation ", k, " of a pair");
    }
  }
}
