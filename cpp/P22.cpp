#include "pose_common.hpp"

namespace {

using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;

VX genX(vp::Src& s, ssize_t n, double range = 10) {
  VX v(n);
  for (ssize_t k = 0; k < n; ++k) v(k) = s.chance(1, 4) ? (double)s.si(2) : s.generic(-range, range);
  return v;
}
// A direction of length at least 0.01, axis-aligned and diagonal ones included.
VX genDir(vp::Src& s, ssize_t n) {
  VX v(n);
  if (s.chance(1, 3))
    for (ssize_t k = 0; k < n; ++k) v(k) = (double)s.si(1);
  else
    v = genX(s, n);
  if (v.norm() < 0.01) v = VX::Unit(n, (ssize_t)s.choice((uint64_t)n));
  return v;
}

template <class B>
void splits(const B& base, const B& v) {
  const VX par = VectorProjection(base, v), orth = VectorRejection(base, v);
  const double scale = 1 + v.norm();
  VP_CHECK(par.size() == v.size() && orth.size() == v.size(), "sizes of the parts");
  VP_CHECK((par + orth - v).norm() <= 1e-12 * scale, "the parts do not add up");
  if (base.norm() == 0) {
    VP_CHECK(par.norm() == 0, "projection onto the zero vector is ", par.transpose());
    return;
  }
  VP_CHECK(std::fabs(orth.dot(base)) <= 1e-12 * scale * base.norm(), "the rejection is not orthogonal: ", orth.dot(base));
  const double along = v.dot(base) / base.squaredNorm();
  VP_CHECK((par - along * base).norm() <= 1e-12 * scale, "the projection is not parallel");
}

VP_PROP(projections, 100000, 1500000) {
  const ssize_t n = (ssize_t)s.u(1, 6);
  const VX base = s.chance(1, 15) ? VX(VX::Zero(n)) : VX(genDir(s, n) * std::pow(10.0, (double)s.si(3))), v = genX(s, n);
  if (s.noting()) s.note(vp::cat(n, " dimensions"));
  s.nontrivialIf(n > 1 && base.norm() > 0 && v.norm() > 0);
  splits(base, v);
  const V3 a = genDir(s, 3), b = genDir(s, 3), w = genVec(s);
  splits<V3>(a, w);
  const double c = std::fabs(a.normalized().dot(b.normalized()));
  if (c < 0.999) {
    const V3 inPlane = VectorProjectionToPlane(a, b, w);
    const V3 normal = a.cross(b).normalized();
    VP_CHECK(std::fabs(inPlane.dot(normal)) <= 1e-9 * (1 + w.norm()), "the projection is not in the plane");
    VP_CHECK((w - inPlane - normal * normal.dot(w)).norm() <= 1e-9 * (1 + w.norm()), "the projection is not the nearest point of the plane");
  }
  VP_THROWS(VectorProjectionToPlane(a, V3(a * (s.b() ? 2.0 : -1.0)), w), "parallel vectors were accepted as a plane");
}

VP_PROP(lines, 200000, 3000000) {
  Quiet quiet;
  const double far = s.chance(1, 4) ? std::pow(10.0, (double)s.u(2, 7)) : 1.0;
  const V3 p = genVec(s) * far, u = genDir(s, 3).normalized();
  const double t = s.chance(1, 6) ? 0 : s.generic(-20, 20);
  V3 side = u.cross(V3(genDir(s, 3)));
  if (side.norm() < 1e-3) side = u.unitOrthogonal();
  side.normalize();
  const double off = s.chance(1, 6) ? 0.0 : std::ldexp(s.generic(0, 10), -(int)s.u(0, 12));
  const V3 x = p + u * t + side * off;
  if (s.noting()) s.note(vp::cat("displacement ", t, ", distance ", off, " at ", p.norm()));
  s.nontrivialIf(t != 0 && off != 0);
  const auto r = DistanceToLine(p, u, x);
  const double tol = 1e-12 * (p.norm() + 20);
  VP_CHECK(vp::near(r.first, off, tol), "distance ", r.first, " expected ", off);
  VP_CHECK(vp::near(r.second, t, tol), "displacement ", r.second, " expected ", t);
  // directions of any length are normalized
  const double k = s.generic(0.1, 10);
  const auto r2 = DistanceToLine(p, V3(u * k), x);
  VP_CHECK(vp::near(r2.first, off, tol) && vp::near(r2.second, t, tol), "a direction of length ", k, " gives ", r2.first, " and ", r2.second);
}

VP_PROP(planes, 100000, 2000000) {
  const ssize_t n = (ssize_t)s.u(1, 5);
  const VX o = genX(s, n), normal = s.b() ? VX(genDir(s, n).normalized()) : genDir(s, n), x = genX(s, n);
  const Hyperplane h(o, normal);
  const VX unit = normal.normalized();
  const double height = unit.dot(x - o), scale = 1e-11 * (1 + x.norm() + o.norm());
  if (s.noting()) s.note(vp::cat(n, " dimensions, height ", height));
  s.nontrivialIf(n > 1 && height != 0);
  VP_CHECK(h.GetDimensionality() == (size_t)n && h.GetOrigin() == o && h.GetNormal() == normal, "the plane changed its definition");
  VP_CHECK(vp::near(h.GetDistanceToPlane(x), std::fabs(height), scale), "distance ", h.GetDistanceToPlane(x), " expected ", std::fabs(height));
  VP_CHECK(vp::near(h.GetSquaredDistanceToPlane(x), height * height, scale * (1 + 2 * std::fabs(height))), "squared distance");
  const VX foot = h.ProjectPointOntoPlane(x);
  VP_CHECK(std::fabs(unit.dot(foot - o)) <= scale, "the projected point is off the plane by ", unit.dot(foot - o));
  VP_CHECK((foot - (x - unit * height)).norm() <= scale, "the projected point is not the nearest");
  VP_CHECK((h.ProjectVectorOntoPlane(x) - (x - unit * unit.dot(x))).norm() <= scale, "projected vector");
  VP_CHECK((h.RejectVectorOntoPlane(x) - unit * unit.dot(x)).norm() <= scale, "rejected vector");
  VP_CHECK(vp::near(h.GetRawDotProduct(x), normal.dot(x - o), scale * normal.norm()), "raw dot product");
  if ((x - o).norm() > 1e-6) VP_CHECK(vp::near(h.GetNormedDotProduct(x), normal.dot((x - o).normalized()), 1e-10 * (1 + normal.norm())), "normed dot product");
}

VP_PROP(plane_fits, 30000, 600000) {
  const ssize_t n = (ssize_t)s.u(2, 4);
  const size_t count = s.u((size_t)n, 12);
  const VX normal = genDir(s, n).normalized(), o = genX(s, n);
  const double noise = s.chance(1, 2) ? 0.0 : 0.05;
  std::vector<VX> pts;
  VX mean = VX::Zero(n);
  for (size_t k = 0; k < count; ++k) {
    VX v(n);
    for (ssize_t q = 0; q < n; ++q) v(q) = s.generic(-5, 5);
    pts.push_back(o + v - normal * normal.dot(v) + normal * (noise * s.generic(-1, 1)));
    mean += pts.back() / (double)count;
  }
  MX cov = MX::Zero(n, n);
  for (const VX& p : pts) cov += (p - mean) * (p - mean).transpose();
  const VX ev = Eigen::SelfAdjointEigenSolver<MX>(cov).eigenvalues();
  if (ev(1) < 1e-2) vp::discard();  // points on a lower-dimensional set
  const Hyperplane h = FitPlaneToPoints(pts);
  if (s.noting()) s.note(vp::cat(count, " points in ", n, " dimensions", noise > 0 ? ", noisy" : ""));
  s.nontrivialIf(count > (size_t)n);
  VP_CHECK((h.GetOrigin() - mean).norm() <= 1e-9 * (1 + mean.norm()), "the plane does not pass through the centroid");
  VP_CHECK(vp::near(h.GetNormal().norm(), 1, 1e-9), "the normal has length ", h.GetNormal().norm());
  double sum = 0;
  for (const VX& p : pts) sum += h.GetSquaredDistanceToPlane(p);
  VP_CHECK(sum <= std::max(ev(0), 0.0) * (1 + 1e-6) + 1e-9, "the squared distances sum to ", sum, " but ", ev(0), " is possible");
  if (noise == 0) VP_CHECK(vp::near(std::fabs(h.GetNormal().dot(normal)), 1, 1e-6), "the normal is not that of the plane the points lie on");
}

VP_PROP(cones, 200000, 3000000) {
  const V3 axis = V3(genDir(s, 3)).normalized();
  const double c = s.chance(1, 5) ? s.pick(std::vector<double>{0.5, 0.99, 0.01}) : s.generic(0.01, 0.9999);
  const auto n = ConvertConeToPyramid(axis, c);
  if (s.noting()) s.note(vp::cat("axis ", axis.transpose(), ", cosine ", c));
  s.nontrivialIf(std::fabs(axis.sum()) > 0.1);
  s.label(std::fabs(std::fabs(axis.sum()) - std::sqrt(3.0)) < 1e-6 ? "along the diagonal" : "general");
  VP_CHECK(n.size() == 4, n.size(), " normals");
  for (const V3& v : n) VP_CHECK(vp::near(v.norm(), 1, 1e-9) && v.dot(axis) < 0, "normal ", v.transpose(), " does not point away from the axis");
  const double tol = 1e-6;
  for (int k = 0; k < 4; ++k) {  // the edges of the pyramid lie on the cone, a quarter turn apart
    V3 edge = n[(size_t)k].cross(n[(size_t)(k + 1) % 4]).normalized();
    if (edge.dot(axis) < 0) edge = -edge;
    VP_CHECK(vp::near(edge.dot(axis), c, tol), "edge ", k, " makes an angle of cosine ", edge.dot(axis), " with the axis instead of ", c);
    for (const V3& v : n) VP_CHECK(v.dot(edge) <= tol, "edge ", k, " is cut off by a facet");
    const V3 side = (edge - axis * c);
    V3 next = n[(size_t)(k + 1) % 4].cross(n[(size_t)(k + 2) % 4]).normalized();
    if (next.dot(axis) < 0) next = -next;
    const V3 side2 = (next - axis * c);
    VP_CHECK(std::fabs(side.dot(side2)) <= tol, "edges ", k, " and ", k + 1, " are not a quarter turn apart");
  }
  // everything inside the pyramid is inside the cone
  const double t = s.generic(0, 3);
  const V3 r = (axis + t * V3(genDir(s, 3)).normalized()).normalized();
  bool in = true;
  for (const V3& v : n) in = in && v.dot(r) <= 0;
  if (in) VP_CHECK(r.dot(axis) >= c - tol, "the pyramid contains ", r.transpose(), " outside the cone");
}

VP_PROP(angles, 100000, 2000000) {
  Quiet quiet;
  const V3 b = genVec(s), u = genDir(s, 3), v = s.chance(1, 5) ? V3(u * s.generic(-3, 3)) : V3(genDir(s, 3));
  if (v.norm() < 1e-3) vp::discard();
  const double want = std::atan2(u.cross(v).norm(), u.dot(v));
  const double got = AngleDefinedByPoints(V3(b + u), b, V3(b + v));
  if (s.noting()) s.note(vp::cat("angle ", want));
  s.nontrivialIf(want > 0.01 && want < 3.13);
  VP_CHECK(got >= 0 && got <= M_PI && vp::near(got, want, 1e-5), "angle ", got, " expected ", want);
}

}  // namespace
