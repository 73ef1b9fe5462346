// Hard-coded arms against an independent kinematic table, in long double.
#include "pose_common.hpp"

#include <arc_utilities/abb_irb1600_145_fk_fast.hpp>
#include <arc_utilities/iiwa_14_fk_fast.hpp>
#include <arc_utilities/iiwa_7_fk_fast.hpp>
#include <arc_utilities/ur_10_fk_fast.hpp>

namespace {

const double H = M_PI / 2;
// Published offsets: translation, roll-pitch-yaw and joint axis of every joint.
struct Joint {
  std::string name;
  double x, y, z, r, p, w;
  char axis;  // '-' fixed
};
struct Arm {
  std::string name;
  std::vector<Joint> joints;
  std::vector<std::string> links;
  std::function<VectorIsometry3d(const std::vector<double>&, const T*)> byOrder;
  std::function<VectorIsometry3d(const std::map<std::string, double>&, const T*)> byName;
  std::function<MapStringIsometry3d(const std::vector<double>&, const T*)> mapByOrder;
  std::function<MapStringIsometry3d(const std::map<std::string, double>&, const T*)> mapByName;
};

#define CALLS(ns)                                                                                                                          \
  [](const std::vector<double>& q, const T* b) { return b ? ns::GetLinkTransforms(q, *b) : ns::GetLinkTransforms(q); },                     \
      [](const std::map<std::string, double>& q, const T* b) { return b ? ns::GetLinkTransforms(q, *b) : ns::GetLinkTransforms(q); },       \
      [](const std::vector<double>& q, const T* b) { return b ? ns::GetLinkTransformsMap(q, *b) : ns::GetLinkTransformsMap(q); },           \
      [](const std::map<std::string, double>& q, const T* b) { return b ? ns::GetLinkTransformsMap(q, *b) : ns::GetLinkTransformsMap(q); }

const std::vector<std::string> kIiwaLinks{"iiwa_link_0", "iiwa_link_1", "iiwa_link_2", "iiwa_link_3", "iiwa_link_4", "iiwa_link_5", "iiwa_link_6", "iiwa_link_7"};

const std::vector<Arm>& arms() {
  static const std::vector<Arm> a{
      {"iiwa_7",
       {{"iiwa_joint_1", 0, 0, 0.15, 0, 0, 0, 'z'},
        {"iiwa_joint_2", 0, 0, 0.19, H, 0, M_PI, 'z'},
        {"iiwa_joint_3", 0, 0.21, 0, H, 0, M_PI, 'z'},
        {"iiwa_joint_4", 0, 0, 0.19, H, 0, 0, 'z'},
        {"iiwa_joint_5", 0, 0.21, 0, -H, M_PI, 0, 'z'},
        {"iiwa_joint_6", 0, 0.0607, 0.19, H, 0, 0, 'z'},
        {"iiwa_joint_7", 0, 0.081, 0.0607, -H, M_PI, 0, 'z'}},
       kIiwaLinks, CALLS(IIWA_7_FK_FAST)},
      {"iiwa_14",
       {{"iiwa_joint_1", 0, 0, 0.1575, 0, 0, 0, 'z'},
        {"iiwa_joint_2", 0, 0, 0.2025, H, 0, M_PI, 'z'},
        {"iiwa_joint_3", 0, 0.2045, 0, H, 0, M_PI, 'z'},
        {"iiwa_joint_4", 0, 0, 0.2155, H, 0, 0, 'z'},
        {"iiwa_joint_5", 0, 0.1845, 0, -H, M_PI, 0, 'z'},
        {"iiwa_joint_6", 0, 0, 0.2155, H, 0, 0, 'z'},
        {"iiwa_joint_7", 0, 0.081, 0, -H, M_PI, 0, 'z'}},
       kIiwaLinks, CALLS(IIWA_14_FK_FAST)},
      {"abb",
       {{"joint_1", 0, 0, 0.1245, 0, 0, 0, 'z'},
        {"joint_2", 0.15, -0.1395, 0.362, 0, 0, 0, 'y'},
        {"joint_3", 0, 0.028, 0.7, 0, 0, 0, 'y'},
        {"joint_4", 0.314, 0.107, 0, 0, 0, 0, 'x'},
        {"joint_5", 0.286, 0, 0, 0, 0, 0, 'y'},
        {"joint_6", 0, 0, 0, 0, 0, 0, 'x'},
        {"tool", 0.065, 0, 0, 0, H, 0, '-'}},
       {"link_0", "link_1", "link_2", "link_3", "link_4", "link_5", "link_6", "link_7"},
       CALLS(ABB_IRB1600_145_FK_FAST)},
      {"ur_10",
       {{"shoulder_pan_joint", 0, 0, 0.1273, 0, 0, 0, 'z'},
        {"shoulder_lift_joint", 0, 0.220941, 0, 0, H, 0, 'y'},
        {"elbow_joint", 0, -0.1719, 0.612, 0, 0, 0, 'y'},
        {"wrist_1_joint", 0, 0, 0.5723, 0, H, 0, 'y'},
        {"wrist_2_joint", 0, 0.1149, 0, 0, 0, 0, 'z'},
        {"wrist_3_joint", 0, 0, 0.1157, 0, 0, 0, 'y'}},
       {"base_link", "shoulder_link", "upper_arm_link", "forearm_link", "wrist_1_link", "wrist_2_link", "wrist_3_link"},
       CALLS(UR_10_FK_FAST)}};
  return a;
}

M3 rot(char axis, double a) { return axis == 'x' ? rx(a) : axis == 'y' ? ry(a) : axis == 'z' ? rz(a) : M3(M3::Identity()); }
size_t movable(const Arm& a) {
  size_t n = 0;
  for (const auto& j : a.joints) n += j.axis != '-';
  return n;
}
std::vector<double> genConfig(vp::Src& s, size_t n) {
  std::vector<double> q(n);
  for (auto& v : q) switch (s.choice(4)) {
      case 0: v = s.pick(std::vector<double>{0, H, -H, M_PI, -M_PI}); break;
      case 1: v = s.generic(-20, 20); break;
      default: v = s.generic(-M_PI, M_PI);
    }
  return q;
}
std::vector<std::pair<M3, V3>> chain(const Arm& arm, const std::vector<double>& q, const T& base) {
  std::vector<std::pair<M3, V3>> out{{base.linear(), base.translation()}};
  size_t k = 0;
  for (const auto& j : arm.joints) {
    M3 R = out.back().first;
    V3 p = out.back().second + R * V3(j.x, j.y, j.z);
    R = R * rz(j.w) * ry(j.p) * rx(j.r) * rot(j.axis, j.axis == '-' ? 0 : q[k]);
    k += j.axis != '-';
    out.push_back({R, p});
  }
  return out;
}
void same(const std::vector<std::pair<M3, V3>>& want, const VectorIsometry3d& got, const std::string& what) {
  VP_CHECK(got.size() == want.size(), what, ": ", got.size(), " links, ", want.size(), " wanted");
  for (size_t k = 0; k < got.size(); ++k) {
    const double tol = 1e-11 * (1 + want[k].second.norm());
    VP_CHECK((got[k].linear() - want[k].first).norm() <= 1e-11 && (got[k].translation() - want[k].second).norm() <= tol, what, ": link ", k, " is at ", got[k].translation().transpose(), " instead of ", want[k].second.transpose());
    VP_CHECK((got[k].matrix().row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0, what, ": last row of link ", k);
  }
}
VectorIsometry3d inOrder(const Arm& arm, const MapStringIsometry3d& m, const std::string& what) {
  VectorIsometry3d out;
  VP_CHECK(m.size() == arm.links.size(), what, ": ", m.size(), " links by name");
  for (const auto& l : arm.links) {
    VP_CHECK(m.count(l) == 1, what, ": no link ", l);
    out.push_back(m.at(l));
  }
  return out;
}

VP_PROP(chains, 80000, 2400000) {
  const Arm& arm = s.pick(arms());
  s.label(arm.name);
  const size_t n = movable(arm);
  const auto q = genConfig(s, n);
  const bool hasBase = s.chance(3, 4);
  const T base = hasBase ? genPose(s) : T::Identity();
  const T* b = hasBase ? &base : nullptr;
  if (s.noting()) s.note(vp::cat(arm.name, " at ", vp::show(q), hasBase ? " with base" : ""));
  s.nontrivialIf(hasBase);
  const auto want = chain(arm, q, base);
  const auto got = arm.byOrder(q, b);
  same(want, got, arm.name + " in order");
  same(want, inOrder(arm, arm.mapByOrder(q, b), arm.name), arm.name + " by link name");
  // Joints by name, in any number, absent ones at zero and unknown ones ignored.
  std::map<std::string, double> named;
  std::vector<double> q0(n, 0);
  for (size_t k = 0; k < n; ++k)
    if (!s.chance(1, 4)) {
      named[arm.joints[k].name] = q[k];
      q0[k] = q[k];
    }
  if (s.chance(1, 2)) named["some other joint"] = 1.5;
  const auto want0 = chain(arm, q0, base);
  same(want0, arm.byName(named, b), arm.name + " by joint name");
  same(want0, inOrder(arm, arm.mapByName(named, b), arm.name), arm.name + " by joint and link name");
}

VP_PROP(moving_one_joint, 100000, 3000000) {
  const Arm& arm = s.pick(arms());
  s.label(arm.name);
  const size_t n = movable(arm);
  auto q = genConfig(s, n);
  const T base = genPose(s);
  const size_t k = s.choice(n);
  const double d = s.generic(-6, 6);
  const auto before = arm.byOrder(q, &base);
  q[k] += d;
  const auto after = arm.byOrder(q, &base);
  if (s.noting()) s.note(vp::cat(arm.name, " joint ", k, " by ", d));
  s.nontrivialIf(std::fabs(d) > 1e-3);
  VP_CHECK(before.size() == after.size() && before.size() == arm.links.size(), "number of links");
  const char ax = arm.joints[k].axis;
  const V3 unit = ax == 'x' ? V3::UnitX() : ax == 'y' ? V3::UnitY() : V3::UnitZ();
  const V3 axis = before[k + 1].linear() * unit;
  const V3 centre = before[k + 1].translation();
  const M3 c = cross(axis), R = M3::Identity() + std::sin(d) * c + (1 - std::cos(d)) * c * c;
  for (size_t l = 0; l < after.size(); ++l) {
    if (l <= k) {
      VP_CHECK(after[l].matrix() == before[l].matrix(), arm.name, ": moving joint ", k, " moved link ", l);
    } else {
      const V3 p = centre + R * (before[l].translation() - centre);
      VP_CHECK((after[l].linear() - R * before[l].linear()).norm() <= 1e-10 && (after[l].translation() - p).norm() <= 1e-10 * (1 + p.norm()), arm.name, ": link ", l, " does not rotate about joint ", k);
    }
  }
}

}  // namespace
