#include "P26.hpp"

#include <arc_utilities/simple_robot_models.hpp>

namespace {

using namespace simple_se2_robot_model;
using namespace simple_se3_robot_model;
using namespace simple_robot_models;

void compare3(const T& c, const SimpleSE3Robot& r, const std::string& name, const std::string& what) {
  VP_CHECK(r.GetPosition().matrix() == c.matrix() && r.GetLinkTransform(name).matrix() == c.matrix(), what, ": pose");
  const auto all = r.GetLinkTransforms();
  const auto map = r.GetLinkTransformsMap();
  VP_CHECK(all.size() == 1 && all[0].matrix() == c.matrix() && map.size() == 1 && map.count(name) && map.at(name).matrix() == c.matrix() && r.GetLinkNames() == std::vector<std::string>{name}, what, ": links");
  VP_THROWS(r.GetLinkTransform(name + "x"), "unknown link accepted");
}

VP_PROP(spatial_space, 90000, 2700000) {
  const double wp = s.chance(1, 6) ? 0 : s.generic(-3, 3), wr = s.chance(1, 6) ? 0 : s.generic(-3, 3);
  const T a = genPose(s);
  T b = s.chance(1, 8) ? a : genPose(s);
  SimpleSE3Robot r(a, wp, wr, "body");
  compare3(a, r, "body", "new robot");
  std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<T, SimpleSE3ConfigAlloc>> p(r.Clone());
  r.SetPosition(b);
  compare3(b, r, "body", "moved robot");
  auto* clone = dynamic_cast<SimpleSE3Robot*>(p.get());
  VP_CHECK(clone != nullptr, "type of the clone");
  compare3(a, *clone, "body", "clone of the robot before it moved");
  r.SetPosition(r.GetPosition());
  compare3(b, r, "body", "set to its own position");
  const double angle = angleOf(M3(a.linear().transpose() * b.linear()));
  const V3 v = b.translation() - a.translation();
  const auto d = r.ComputePerDimensionConfigurationSignedDistance(a, b);
  VP_CHECK(d.size() == 4 && (d.head(3) - v).norm() == 0 && vp::near(std::fabs(d(3)), angle, 1e-6), "signed distances ", d.transpose(), ", angle ", angle);
  VP_CHECK((r.ComputePerDimensionConfigurationDistance(a, b) - d.cwiseAbs()).norm() == 0 && (r.ComputePerDimensionConfigurationSignedDistanceTo(a) - r.ComputePerDimensionConfigurationSignedDistance(b, a)).norm() == 0 && (r.ComputePerDimensionConfigurationDistanceTo(a) - r.ComputePerDimensionConfigurationDistance(b, a)).norm() == 0, "distances per dimension");
  const double dist = r.ComputeConfigurationDistance(a, b), want = std::fabs(wp) * v.norm() + std::fabs(wr) * angle;
  VP_CHECK(vp::near(dist, want, 1e-6 * (1 + want)), "distance ", dist, " instead of ", want);
  VP_CHECK(vp::near(r.ComputeConfigurationDistance(b, a), dist, 1e-6 * (1 + want)) && vp::near(r.ComputeConfigurationDistanceTo(a), dist, 1e-6 * (1 + want)), "distance is not symmetric");
  VP_CHECK(r.ComputeConfigurationDistance(a, a) <= 1e-7 * (1 + std::fabs(wr)), "distance to itself is ", r.ComputeConfigurationDistance(a, a));
  const double t = s.chance(1, 3) ? s.pick(std::vector<double>{0, 1, 0.5}) : s.generic(0, 1);
  const T m = r.InterpolateBetweenConfigurations(a, b, t);
  VP_CHECK(rigid(m.linear()) && (m.translation() - (a.translation() + t * v)).norm() <= 1e-9 * (1 + v.norm() + a.translation().norm()), "interpolated translation at ", t);
  if (angle < M_PI - 1e-3) {
    VP_CHECK(vp::near(angleOf(M3(a.linear().transpose() * m.linear())), t * angle, 1e-7) && vp::near(angleOf(M3(m.linear().transpose() * b.linear())), (1 - t) * angle, 1e-7), "interpolated rotation at ", t);
  }
  const std::vector<T, SimpleSE3ConfigAlloc> same(s.u(1, 4), a);
  const T avg = r.AverageConfigurations(same);
  VP_CHECK((avg.matrix() - a.matrix()).norm() <= 1e-9 * (1 + a.translation().norm()), "average of equal poses");
  if (angle < 2) {
    const T half = r.AverageConfigurations({a, b});
    VP_CHECK((half.translation() - (a.translation() + v / 2)).norm() <= 1e-9 * (1 + v.norm() + a.translation().norm()) && vp::near(angleOf(M3(a.linear().transpose() * half.linear())), angle / 2, 1e-6) && vp::near(angleOf(M3(half.linear().transpose() * b.linear())), angle / 2, 1e-6), "average of two poses");
  }
  VP_CHECK(r.AverageConfigurations({}).matrix() == M4::Identity(), "average of nothing");
  // Jacobian with respect to the body twist.
  const V3 q = genVec(s);
  const auto jac = r.ComputeLinkPointTranslationJacobian("body", Eigen::Vector4d(q.x(), q.y(), q.z(), 1));
  VP_CHECK(jac.cols() == 6, "size of the Jacobian");
  for (int k = 0; k < 6; ++k) {
    V3 e = V3::Zero();
    e(k % 3) = 1;
    const V3 w = b.linear() * (k < 3 ? e : V3(e.cross(q)));
    VP_CHECK((jac.col(k) - w).norm() <= 1e-9 * (1 + q.norm()), "column ", k, " of the Jacobian is ", jac.col(k).transpose(), " instead of ", w.transpose());
  }
  VP_THROWS(r.ComputeLinkPointTranslationJacobian("other", Eigen::Vector4d(0, 0, 0, 1)), "unknown link accepted");
  s.nontrivialIf(v.norm() > 0 && angle > 1e-3 && t > 0 && t < 1);
  if (s.noting()) s.note(vp::cat("distance ", v.norm(), ", angle ", angle, " at ", t));
}

VP_PROP(serialized_configurations, 100000, 3000000) {
  std::vector<uint8_t> buffer = s.bytes(9);
  const size_t n = buffer.size();
  const auto prefix = buffer;
  SimpleSE2Configuration c;
  for (int k = 0; k < 3; ++k) c(k) = s.anyDouble();
  const T t = genPose(s);
  const uint64_t w2 = SimpleSE2ConfigSerializer::Serialize(c, buffer);
  VP_CHECK(buffer.size() == n + w2, "written bytes of a planar configuration");
  const uint64_t w3 = SimpleSE3ConfigSerializer::Serialize(t, buffer);
  VP_CHECK(buffer.size() == n + w2 + w3 && std::equal(prefix.begin(), prefix.end(), buffer.begin()), "written bytes of a spatial configuration");
  const auto r2 = SimpleSE2ConfigSerializer::Deserialize(buffer, n);
  const auto r3 = SimpleSE3ConfigSerializer::Deserialize(buffer, n + w2);
  VP_CHECK(r2.second == w2 && r3.second == w3, "consumed bytes");
  for (int k = 0; k < 3; ++k) VP_CHECK(vp::sameBits(r2.first(k), c(k)), "entry ", k, " changed from ", c(k), " to ", r2.first(k));
  VP_CHECK(r3.first.matrix() == t.matrix(), "pose changed");
  s.nontrivialIf(n > 0);
  if (s.noting()) s.note(vp::cat("at ", n));
}

// Robots with geometry keep it, whatever moves, and know which links may touch.
VP_PROP(geometry, 21000, 700000) {
  std::shared_ptr<VectorVector4d> points(new VectorVector4d());
  s.repeat(0, 4, [&] { points->push_back(Eigen::Vector4d(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1), 1)); });
  const PointSphereGeometry g(s.b() ? PointSphereGeometry::POINTS : PointSphereGeometry::SPHERES, points);
  const auto same = [&](const PointSphereGeometry& other) { return other.GeometryType() == g.GeometryType() && other.Geometry() == points; };
  PointSphereBasicSE2Robot r2(SimpleSE2Configuration(0, 0, 0), 1, 1, "body", g);
  PointSphereBasicSE3Robot r3(T::Identity(), 1, 1, "body", g);
  r2.SetPosition(SimpleSE2Configuration(1, 2, 3));
  r3.SetPosition(genPose(s));
  std::unique_ptr<SimpleSE2Robot> c2(dynamic_cast<SimpleSE2Robot*>(r2.Clone()));
  std::unique_ptr<SimpleSE3Robot> c3(dynamic_cast<SimpleSE3Robot*>(r3.Clone()));
  auto* g2 = dynamic_cast<PointSphereBasicSE2Robot*>(c2.get());
  auto* g3 = dynamic_cast<PointSphereBasicSE3Robot*>(c3.get());
  VP_CHECK(g2 && g3, "types of the clones");
  for (const auto& l : {r2.GetLinkGeometries(), g2->GetLinkGeometries(), r3.GetLinkGeometries(), g3->GetLinkGeometries()}) VP_CHECK(l.size() == 1 && l[0].first == "body" && same(l[0].second), "geometry");
  VP_CHECK(r2.CheckIfSelfCollisionAllowed(0, 0) && r3.CheckIfSelfCollisionAllowed(0, 0), "self collision of the body");
  const TreeSpec t = genTree(s, 6);
  std::vector<double> values;
  const Config q = genConfig(s, t, &values);
  std::vector<std::pair<std::string, PointSphereGeometry>> geometries;
  for (size_t k = 0; k < t.links; ++k) geometries.push_back({vp::cat("link ", k), k % 2 ? g : PointSphereGeometry()});
  std::vector<std::pair<size_t, size_t>> allowed;
  s.repeat(0, 6, [&] { allowed.push_back({s.choice(t.links), s.choice(t.links)}); });
  const std::vector<double> weights(t.active.size(), 1);
  PointSphereBasicLinkedRobot r(T::Identity(), linksOf(t), jointsOf(t), q, weights, geometries, allowed);
  std::unique_ptr<SimpleLinkedRobot> c(dynamic_cast<SimpleLinkedRobot*>(r.Clone()));
  auto* clone = dynamic_cast<PointSphereBasicLinkedRobot*>(c.get());
  VP_CHECK(clone != nullptr, "type of the clone");
  for (const PointSphereBasicLinkedRobot* x : std::vector<const PointSphereBasicLinkedRobot*>{&r, clone}) {
    const auto& l = x->GetLinkGeometries();
    VP_CHECK(l.size() == t.links, "number of geometries");
    for (size_t k = 0; k < t.links; ++k) VP_CHECK(l[k].first == geometries[k].first && l[k].second.Geometry() == geometries[k].second.Geometry(), "geometry of link ", k);
    for (size_t i = 0; i < t.links; ++i)
      for (size_t k = 0; k < t.links; ++k) {
        bool want = i == k;
        for (const auto& p : allowed) want = want || (p.first == i && p.second == k) || (p.first == k && p.second == i);
        VP_CHECK(x->CheckIfSelfCollisionAllowed(i, k) == want, "collision of links ", i, " and ", k, " allowed");
      }
    VP_THROWS(x->CheckIfSelfCollisionAllowed(t.links, 0), "link out of range");
    VP_THROWS(x->CheckIfSelfCollisionAllowed(0, t.links), "link out of range");
  }
  auto bad = allowed;
  bad.push_back(s.b() ? std::make_pair(t.links, size_t(0)) : std::make_pair(size_t(0), t.links));
  VP_THROWS(PointSphereBasicLinkedRobot(T::Identity(), linksOf(t), jointsOf(t), q, weights, geometries, bad), "collision of links that do not exist");
  auto wrong = geometries;
  wrong[s.choice(wrong.size())].first = "other";
  VP_THROWS(PointSphereBasicLinkedRobot(T::Identity(), linksOf(t), jointsOf(t), q, weights, wrong, allowed), "geometry of another link");
  wrong = geometries;
  wrong.pop_back();
  VP_THROWS(PointSphereBasicLinkedRobot(T::Identity(), linksOf(t), jointsOf(t), q, weights, wrong, allowed), "missing geometry");
  const MeshGeometry<std::string> mesh(genPose(s), genVec(s), "file");
  MeshFilenameBasicSE3Robot m(T::Identity(), 1, 1, "body", mesh);
  const auto& back = m.GetLinkGeometries().at(0).second;
  VP_CHECK(back.Mesh() == "file" && back.Scale() == mesh.Scale() && back.OriginTransform().matrix() == mesh.OriginTransform().matrix(), "mesh geometry");
  s.nontrivialIf(t.links >= 3 && allowed.size() >= 1);
  if (s.noting()) s.note(vp::cat(t.links, " links, ", allowed.size(), " allowed collisions"));
}

}  // namespace
