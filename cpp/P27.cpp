#include "P26.hpp"

#include <arc_utilities/simple_robot_models.hpp>

namespace {

using namespace simple_se2_robot_model;
using namespace simple_se3_robot_model;
using namespace simple_robot_models;
using C2 = SimpleSE2Configuration;

C2 genC2(vp::Src& s) {
  const double a = s.chance(1, 3) ? s.pick(std::vector<double>{0, M_PI, -M_PI, M_PI / 2, 3 * M_PI}) : s.generic(-12, 12);
  const V3 v = genVec(s);
  return C2(v.x(), v.y(), a);
}

struct World2 {
  C2 config;
};
void compare2(const C2& c, const SimpleSE2Robot& r, const std::string& name, const std::string& what) {
  const C2 got = r.GetPosition();
  VP_CHECK(got(0) == c(0) && got(1) == c(1) && near_mod(got(2), c(2)) <= 1e-9 && std::fabs(got(2)) <= M_PI, what, ": configuration ", got.transpose(), " instead of ", c.transpose());
  const M3 R = rz(c(2));
  const auto check = [&](const T& t, const char* how) {
    VP_CHECK((t.linear() - R).norm() <= 1e-9 && (t.translation() - V3(c(0), c(1), 0)).norm() <= 1e-12 * (1 + c.norm()), what, ": pose of the link (", how, ")");
  };
  check(r.GetLinkTransform(name), "by name");
  VP_CHECK(r.GetLinkNames() == std::vector<std::string>{name}, what, ": link names");
  const auto all = r.GetLinkTransforms();
  const auto map = r.GetLinkTransformsMap();
  VP_CHECK(all.size() == 1 && map.size() == 1 && map.count(name), what, ": number of links");
  check(all[0], "list");
  check(map.at(name), "map");
  VP_THROWS(r.GetLinkTransform(name + "x"), "unknown link accepted");
}

VP_PROP(planar_history, 50000, 2000000) {
  const std::string name = s.chance(1, 2) ? "body" : "";
  C2 c = genC2(s);
  SimpleSE2Robot r(c, 1, 1, name);
  compare2(c, r, name, "new robot");
  size_t n = 0;
  s.repeat(1, 6, [&] {
    switch (s.choice(3)) {
      case 0: {
        std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<C2, SimpleSE2ConfigAlloc>> p(r.Clone());
        auto* clone = dynamic_cast<SimpleSE2Robot*>(p.get());
        VP_CHECK(clone != nullptr, "type of the clone");
        compare2(c, *clone, name, "clone");
        const C2 other = genC2(s);
        clone->SetPosition(other);
        compare2(other, *clone, name, "moved clone");
        compare2(c, r, name, "robot whose clone was moved");
        break;
      }
      case 1:
        r.SetPosition(r.GetPosition());
        compare2(c, r, name, "set to its own position");
        break;
      default:
        c = genC2(s);
        r.SetPosition(c);
        compare2(c, r, name, "new position");
        ++n;
    }
  });
  s.nontrivialIf(n >= 2);
  if (s.noting()) s.note(vp::cat(n, " positions, last ", c.transpose()));
}

VP_PROP(planar_space, 100000, 3000000) {
  const double wp = s.chance(1, 6) ? 0 : s.generic(-3, 3), wr = s.chance(1, 6) ? 0 : s.generic(-3, 3);
  SimpleSE2Robot r(genC2(s), wp, wr, "body");
  const C2 a = r.SetPosition(genC2(s)), b = s.chance(1, 8) ? a : C2(r.SetPosition(genC2(s)));
  r.SetPosition(b);
  const auto d = r.ComputePerDimensionConfigurationSignedDistance(a, b);
  VP_CHECK(d.size() == 3 && d(0) == b(0) - a(0) && d(1) == b(1) - a(1), "signed distances");
  VP_CHECK(near_mod(a(2) + d(2), b(2)) <= 1e-9 && std::fabs(d(2)) <= M_PI + 1e-9, "signed angular distance from ", a(2), " to ", b(2), " is ", d(2));
  VP_CHECK((r.ComputePerDimensionConfigurationDistance(a, b) - d.cwiseAbs()).norm() == 0 && (r.ComputePerDimensionConfigurationDistanceTo(a) - r.ComputePerDimensionConfigurationDistance(b, a)).norm() == 0, "unsigned distances");
  VP_CHECK((r.ComputePerDimensionConfigurationSignedDistanceTo(a) - r.ComputePerDimensionConfigurationSignedDistance(b, a)).norm() == 0, "distances to the current position");
  const double dist = r.ComputeConfigurationDistance(a, b), want = std::fabs(wp) * std::hypot(d(0), d(1)) + std::fabs(wr) * std::fabs(d(2));
  const double tol = 1e-9 * (1 + want);
  VP_CHECK(vp::near(dist, want, tol), "distance ", dist, " instead of ", want);
  VP_CHECK(vp::near(r.ComputeConfigurationDistance(b, a), dist, tol) && vp::near(r.ComputeConfigurationDistanceTo(a), dist, tol), "distance is not symmetric");
  VP_CHECK(r.ComputeConfigurationDistance(a, a) == 0, "distance to itself");
  const double t = s.chance(1, 3) ? s.pick(std::vector<double>{0, 1, 0.5}) : s.generic(0, 1);
  const C2 m = r.InterpolateBetweenConfigurations(a, b, t);
  VP_CHECK(std::fabs(m(0) - (a(0) + t * d(0))) <= 1e-9 && std::fabs(m(1) - (a(1) + t * d(1))) <= 1e-9 && near_way(m(2), a(2), d(2), t) <= 1e-9, "interpolated to ", m.transpose(), " at ", t, " between ", a.transpose(), " and ", b.transpose());
  std::vector<C2, SimpleSE2ConfigAlloc> all;
  V3 mean = V3::Zero();
  const size_t n = s.u(1, 5);
  for (size_t k = 0; k < n; ++k) {
    all.push_back(k ? C2(r.SetPosition(genC2(s))) : a);
    mean += all.back() / (double)n;
  }
  const C2 avg = r.AverageConfigurations(all);  // angles are documented to be averaged like numbers
  VP_CHECK((avg - mean).norm() <= 1e-9, "average ", avg.transpose(), " instead of ", mean.transpose());
  VP_CHECK(r.AverageConfigurations({}).norm() == 0, "average of nothing");
  // Jacobian by differences.
  r.SetPosition(b);
  const V3 p = genVec(s);
  const auto jac = r.ComputeLinkPointTranslationJacobian("body", Eigen::Vector4d(p.x(), p.y(), p.z(), 1));
  VP_CHECK(jac.cols() == 3, "size of the Jacobian");
  const double h = 1e-6;
  for (int k = 0; k < 3; ++k) {
    C2 up = b, down = b;
    up(k) += h;
    down(k) -= h;
    const V3 v = ((rz(up(2)) * p + V3(up(0), up(1), 0)) - (rz(down(2)) * p + V3(down(0), down(1), 0))) / (2 * h);
    VP_CHECK((jac.col(k) - v).norm() <= 1e-7 * (1 + p.norm() + b.norm()), "column ", k, " of the Jacobian is ", jac.col(k).transpose(), " instead of ", v.transpose());
  }
  VP_THROWS(r.ComputeLinkPointTranslationJacobian("other", Eigen::Vector4d(0, 0, 0, 1)), "unknown link accepted");
  s.nontrivialIf(dist > 0 && std::fabs(d(2)) > 1e-3 && t > 0 && t < 1);
  if (s.noting()) s.note(vp::cat(a.transpose(), " to ", b.transpose(), " at ", t));
}

}  // namespace
