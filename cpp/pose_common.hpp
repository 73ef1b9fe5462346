// Generators of rotations and poses, built without the functions under test.
#pragma once
#include "vp.hpp"

#include <arc_utilities/eigen_helpers.hpp>

namespace {

using namespace EigenHelpers;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using Q = Eigen::Quaterniond;
using T = Eigen::Isometry3d;
using V6 = Eigen::Matrix<double, 6, 1>;
using M4 = Eigen::Matrix4d;

struct Quiet {
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  ~Quiet() { std::cerr.rdbuf(old); }
};

V3 genVec(vp::Src& s, double range = 10) {
  V3 v;
  for (int k = 0; k < 3; ++k) v(k) = s.chance(1, 4) ? (double)s.si(2) : s.generic(-range, range);
  return v;
}
V3 genAxis(vp::Src& s) {
  V3 v = s.chance(1, 3) ? V3((double)s.si(1), (double)s.si(1), (double)s.si(1)) : V3(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1));
  if (v.norm() < 1e-3) v = V3::UnitZ();
  return v.normalized();
}
double genAngle(vp::Src& s) {
  switch (s.choice(5)) {
    case 0: return s.pick(std::vector<double>{0, M_PI / 2, -M_PI / 2, M_PI, -M_PI});
    case 1: return std::ldexp(s.generic(-1, 1), -(int)s.u(1, 60));
    default: return s.generic(-M_PI, M_PI);
  }
}
// A rotation, built without the functions under test.
Q genQuat(vp::Src& s) {
  Q q(Eigen::AngleAxisd(genAngle(s), genAxis(s)));
  if (s.chance(1, 3)) q.coeffs() *= -1;
  return q;
}
T genPose(vp::Src& s) { return Eigen::Translation3d(genVec(s)) * genQuat(s); }
bool rigid(const M3& r) { return (r * r.transpose() - M3::Identity()).norm() < 1e-9 && r.determinant() > 0; }
double angleOf(const M3& r) {  // accurate everywhere
  const V3 w((r(2, 1) - r(1, 2)) / 2, (r(0, 2) - r(2, 0)) / 2, (r(1, 0) - r(0, 1)) / 2);
  return std::atan2(w.norm(), (r.trace() - 1) / 2);
}
M3 rx(double a) { M3 m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
M3 ry(double a) { M3 m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
M3 rz(double a) { M3 m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
M3 cross(const V3& v) { M3 m; m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return m; }

}  // namespace
