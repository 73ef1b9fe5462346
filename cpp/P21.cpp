#include "pose_common.hpp"

namespace {

VP_PROP(rotate_vectors, 100000, 2000000) {
  const Q q = genQuat(s);
  const V3 v = genVec(s);
  const double tol = 1e-12 * (1 + v.norm());
  if (s.noting()) s.note(vp::cat("rotation by ", angleOf(q.toRotationMatrix())));
  s.nontrivialIf(std::fabs(q.w()) < 0.99 && v.norm() > 0);
  VP_CHECK((RotateVector(q, v) - q.toRotationMatrix() * v).norm() <= tol, "rotated vector");
  VP_CHECK((RotateVectorReverse(q, v) - q.toRotationMatrix().transpose() * v).norm() <= tol, "reversely rotated vector");
  VectorVector3d data;
  s.repeat(0, 5, [&] { data.push_back(genVec(s)); });
  const T t = genPose(s);
  const auto moved = TransformData(t, data);
  VP_CHECK(moved.size() == data.size(), "number of transformed points");
  for (size_t k = 0; k < data.size(); ++k) VP_CHECK((moved[k] - (t.linear() * data[k] + t.translation())).norm() <= 1e-12 * (1 + moved[k].norm()), "transformed point ", k);
  VectorIsometry3d poses{t, T::Identity()};
  const auto moved2 = TransformData(t, poses);
  VP_CHECK(moved2.size() == 2 && moved2[0].isApprox(t * t) && moved2[1].isApprox(t), "transformed poses");
}

VP_PROP(hats, 100000, 2000000) {
  const V3 v = genVec(s), u = genVec(s);
  VP_CHECK(Skew(v) == cross(v), "skew form of ", v.transpose());
  VP_CHECK((Skew(v) * u - v.cross(u)).norm() <= 1e-12 * (1 + v.norm() * u.norm()), "the skew form is not the cross product");
  VP_CHECK(Unskew(Skew(v)) == v, "unskewing ", v.transpose());
  const M3 sym = u * u.transpose();
  VP_CHECK((Unskew(Skew(v) + sym) - v).norm() <= 1e-12 * (1 + u.squaredNorm()), "unskewing ignores the symmetric part");
  V6 w;
  w << u, v;
  M4 hat = M4::Zero();
  hat.block<3, 3>(0, 0) = cross(v);
  hat.block<3, 1>(0, 3) = u;
  VP_CHECK(TwistHat(w) == hat && TwistUnhat(hat) == w, "hat of a twist");
  s.nontrivialIf(v.norm() > 0 && u.norm() > 0);
  if (s.noting()) s.note(vp::cat("twist ", w.transpose()));
}

VP_PROP(adjoints, 100000, 2000000) {
  const T a = genPose(s), b = genPose(s);
  const V6 w = (V6() << genVec(s), genVec(s)).finished();
  const auto A = AdjointFromTransform(a);
  const double tol = 1e-10 * (1 + a.translation().norm()) * (1 + b.translation().norm()) * (1 + w.norm());
  if (s.noting()) s.note(vp::cat("translation ", a.translation().transpose()));
  s.nontrivialIf(a.translation().norm() > 0 && angleOf(a.linear()) > 1e-3);
  VP_CHECK((AdjointFromTransform(T(a * b)) - A * AdjointFromTransform(b)).norm() <= tol, "the adjoint of a product is not the product of adjoints");
  VP_CHECK((AdjointFromTransform(T(a.inverse())) * A - Eigen::Matrix<double, 6, 6>::Identity()).norm() <= tol, "the adjoint of the inverse is not the inverse");
  const V6 moved = TransformTwist(a, w);
  M4 hat = M4::Zero(), want;
  hat.block<3, 3>(0, 0) = cross(w.tail<3>());
  hat.block<3, 1>(0, 3) = w.head<3>();
  want = a.matrix() * hat * a.inverse().matrix();
  M4 got = M4::Zero();
  got.block<3, 3>(0, 0) = cross(moved.tail<3>());
  got.block<3, 1>(0, 3) = moved.head<3>();
  VP_CHECK((got - want).norm() <= tol, "the transformed twist is not the twist seen from the other frame");
  const Eigen::Affine3d af(a.matrix());
  VP_CHECK((AdjointFromTransform(af) - A).norm() <= tol && (TransformTwist(af, w) - moved).norm() <= tol, "affine and isometry transforms have different adjoints");
}

VP_PROP(rpy_conversions, 100000, 2000000) {
  double a[3];
  for (double& x : a) x = genAngle(s);
  if (s.chance(1, 6)) a[1] = s.b() ? M_PI / 2 : -M_PI / 2;
  const V3 p = genVec(s);
  const M3 xyz = rx(a[0]) * ry(a[1]) * rz(a[2]), zyx = rz(a[2]) * ry(a[1]) * rx(a[0]);
  if (s.noting()) s.note(vp::cat("angles ", a[0], ", ", a[1], ", ", a[2]));
  s.nontrivialIf(std::fabs(a[0]) > 1e-3 && std::fabs(a[1]) > 1e-3 && std::fabs(a[2]) > 1e-3);
  const auto is = [](const M3& g, const M3& w, const char* what) { VP_CHECK((g - w).norm() <= 1e-9, what, " is off by ", (g - w).norm()); };
  is(QuaternionFromRPY(a[0], a[1], a[2]).toRotationMatrix(), xyz, "rotation about X, Y', Z''");
  is(QuaternionFromUrdfRPY(a[0], a[1], a[2]).toRotationMatrix(), zyx, "URDF roll, pitch, yaw");
  const auto back = [&](const V3& e, const char* what) { is(rx(e(0)) * ry(e(1)) * rz(e(2)), xyz, what); };
  back(EulerAnglesFromRotationMatrix(xyz), "Euler angles of a matrix");
  back(EulerAnglesFromQuaternion(Q(xyz)), "Euler angles of a quaternion");
  const T t1 = TransformFromRPY(p.x(), p.y(), p.z(), a[0], a[1], a[2]), t2 = TransformFromRPY(p, V3(a[0], a[1], a[2]));
  Eigen::VectorXd c(6);
  c << p, a[0], a[1], a[2];
  const T t3 = TransformFromRPY(c);
  for (const T& t : {t1, t2, t3}) {
    is(t.linear(), xyz, "rotation of the transform");
    VP_CHECK((t.translation() - p).norm() <= 1e-12 * (1 + p.norm()), "translation of the transform");
  }
  back(EulerAnglesFromIsometry3d(t1), "Euler angles of a transform");
  const Eigen::VectorXd r = TransformToRPY(t1);
  VP_CHECK(r.size() == 6 && (r.head<3>() - p).norm() <= 1e-12 * (1 + p.norm()), "translation read back");
  back(r.tail<3>(), "angles read back");
  VP_CHECK((TransformFromRPY(r).matrix() - t1.matrix()).norm() <= 1e-8 * (1 + p.norm()), "transform round trip");
}

VP_PROP(interpolation, 100000, 2000000) {
  Quiet quiet;
  T a = genPose(s), b = s.chance(1, 6) ? a : genPose(s);
  const double r = s.chance(1, 4) ? s.pick(std::vector<double>{0, 1, 0.5, -1, 2}) : s.generic(0, 1), t = std::min(1.0, std::max(0.0, r));
  const double whole = angleOf(a.linear().transpose() * b.linear());
  if (s.noting()) s.note(vp::cat("over ", whole, " rad at ", r));
  s.nontrivialIf(whole > 0.01 && t > 0 && t < 1);
  const T m = Interpolate(a, b, r);
  VP_CHECK(rigid(m.linear()), "the interpolated transform is not rigid");
  const double scale = 1 + a.translation().norm() + b.translation().norm();
  VP_CHECK((m.translation() - (a.translation() * (1 - t) + b.translation() * t)).norm() <= 1e-12 * scale, "interpolated translation");
  const double from = angleOf(a.linear().transpose() * m.linear()), to = angleOf(m.linear().transpose() * b.linear());
  VP_CHECK(vp::near(from, t * whole, 1e-6) && vp::near(to, (1 - t) * whole, 1e-6), "at ", t, " the rotation is ", from, " from the start and ", to, " from the end, of ", whole);
  VP_CHECK((Interpolate(a, b, 0).matrix() - a.matrix()).norm() <= 1e-9 * scale && (Interpolate(a, b, 1).matrix() - b.matrix()).norm() <= 1e-9 * scale, "end points");
  Q qa(a.linear()), qb(b.linear());
  if (s.b()) qb.coeffs() *= -1;
  const Q q = Interpolate(qa, qb, r);
  VP_CHECK(vp::near(q.norm(), 1, 1e-9), "the interpolated quaternion has norm ", q.norm());
  const M3 qm = q.toRotationMatrix();
  VP_CHECK(vp::near(angleOf(a.linear().transpose() * qm), t * whole, 1e-6) && vp::near(angleOf(qm.transpose() * b.linear()), (1 - t) * whole, 1e-6), "interpolated quaternion");
}

VP_PROP(rotation_distances, 200000, 3000000) {
  const Q a = genQuat(s);
  Q b = genQuat(s);
  const int kind = (int)s.choice(4);
  if (kind == 0) b = a;
  if (kind == 1) b = a * Q(Eigen::AngleAxisd(std::ldexp(s.generic(-1, 1), -(int)s.u(1, 60)), genAxis(s)));
  if (kind == 2) b = a * Q(Eigen::AngleAxisd(M_PI - std::ldexp(s.generic(0, 1), -(int)s.u(1, 60)), genAxis(s)));
  if (s.b()) b.coeffs() *= -1;
  const M3 ma = a.toRotationMatrix(), mb = b.toRotationMatrix();
  const double want = angleOf(ma.transpose() * mb);
  if (s.noting()) s.note(vp::cat("angle ", want));
  s.label(want < 1e-6 ? "equal" : want > M_PI - 1e-6 ? "opposite" : "general");
  s.nontrivialIf(want > 1e-3);
  const auto is = [&](double g, const char* what) { VP_CHECK(std::isfinite(g) && vp::near(g, want, 1e-6), what, " is ", g, " expected ", want); };
  is(Distance(a, b), "distance of quaternions");
  is(Distance(b, a), "distance of quaternions, reversed,");
  is(Distance(ma, mb), "distance of rotation matrices");
  is(Distance(mb, ma), "distance of rotation matrices, reversed,");
  const V3 p = genVec(s), q = genVec(s);
  const T ta = Eigen::Translation3d(p) * a, tb = Eigen::Translation3d(q) * b;
  const double alpha = s.chance(1, 4) ? (double)s.b() : s.generic(0, 1);
  VP_CHECK(vp::near(Distance(ta, tb, alpha), (p - q).norm() * (1 - alpha) + want * alpha, 2e-6), "distance of transforms with weight ", alpha, " is ", Distance(ta, tb, alpha));
  VP_CHECK(vp::near(Distance(ta, tb), Distance(ta, tb, 0.5), 1e-12), "default weight");
}

}  // namespace
