#pragma once
#include "pose_common.hpp"

#include <arc_utilities/simple_linked_robot_model.hpp>

namespace {

using namespace simple_linked_robot_model;
using J = SimpleJointModel;
using Config = SimpleLinkedConfiguration;

double wrap(double a) {  // into [-pi, pi)
  double r = std::remainder(a, 2 * M_PI);
  return r >= M_PI ? r - 2 * M_PI : r;
}
double near_mod(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
// How far x is from a + t * d; half a turn may be made either way.
double near_way(double x, double a, double d, double t) {
  const double e = near_mod(x, a + t * d);
  return std::fabs(d) > M_PI - 1e-9 ? std::min(e, near_mod(x, a - t * d)) : e;
}

struct JointSpec {
  T pre;
  V3 axis;
  J::JOINT_TYPE type;
  double lo, hi;
  int64_t parent, child;
};
struct TreeSpec {
  size_t links;
  std::vector<JointSpec> joints;  // in the order given to the robot
  std::vector<size_t> active;     // indices into joints
};

J::JOINT_TYPE genType(vp::Src& s) { return s.pick(std::vector<J::JOINT_TYPE>{J::REVOLUTE, J::CONTINUOUS, J::PRISMATIC, J::FIXED}); }

TreeSpec genTree(vp::Src& s, size_t max_links) {
  TreeSpec t;
  t.links = s.u(1, max_links);
  std::vector<int64_t> index(t.links);
  for (size_t k = 0; k < t.links; ++k) index[k] = (int64_t)k;
  if (t.links > 2 && s.chance(1, 2)) {  // links in any order, the first one stays the root
    std::vector<int64_t> rest(index.begin() + 1, index.end());
    s.shuffle(rest);
    std::copy(rest.begin(), rest.end(), index.begin() + 1);
  }
  for (size_t k = 1; k < t.links; ++k) {
    JointSpec j;
    j.pre = genPose(s);
    j.axis = genAxis(s);
    j.type = genType(s);
    j.lo = s.generic(-3, 1);
    j.hi = j.lo + (s.chance(1, 8) ? 0.0 : s.generic(0, 4));
    j.parent = index[s.choice(k)];
    j.child = index[k];
    t.joints.push_back(j);
  }
  if (s.chance(1, 2)) s.shuffle(t.joints);
  for (size_t k = 0; k < t.joints.size(); ++k)
    if (t.joints[k].type != J::FIXED) t.active.push_back(k);
  return t;
}
std::vector<RobotLink> linksOf(const TreeSpec& t) {
  std::vector<RobotLink> l;
  for (size_t k = 0; k < t.links; ++k) l.push_back(RobotLink(vp::cat("link ", k)));
  return l;
}
std::vector<RobotJoint> jointsOf(const TreeSpec& t) {
  std::vector<RobotJoint> out;
  for (size_t k = 0; k < t.joints.size(); ++k) {
    const auto& j = t.joints[k];
    out.push_back(RobotJoint(j.pre, j.axis, j.parent, j.child, J({j.lo, j.hi}, j.lo, j.type), vp::cat("joint ", k)));
  }
  return out;
}
double genValue(vp::Src& s, const JointSpec& j) {
  switch (s.choice(5)) {
    case 0: return j.lo;
    case 1: return j.hi;
    case 2: return s.generic(-12, 12);
    default: return j.type == J::CONTINUOUS ? s.generic(-M_PI, M_PI) : s.generic(j.lo, j.hi + 1e-9);
  }
}
// A requested position; its own limits are so wide that it is the robot that must enforce.
Config genConfig(vp::Src& s, const TreeSpec& t, std::vector<double>* values) {
  Config c;
  values->clear();
  for (size_t k : t.active) {
    const double v = genValue(s, t.joints[k]);
    c.push_back(J({-100, 100}, v, t.joints[k].type));
    values->push_back(v);
  }
  return c;
}
double allowed(const JointSpec& j, double v) { return j.type == J::CONTINUOUS ? wrap(v) : std::min(j.hi, std::max(j.lo, v)); }

struct Pose {
  M3 R;
  V3 p;
};
// Forward kinematics by recursion over the parents; `values` per active joint.
std::vector<Pose> kinematics(const TreeSpec& t, const T& base, const std::vector<double>& values) {
  std::vector<Pose> out(t.links);
  std::vector<bool> done(t.links, false);
  std::vector<int> by(t.links, -1);
  std::vector<double> val(t.joints.size(), 0);
  for (size_t k = 0; k < t.active.size(); ++k) val[t.active[k]] = values[k];
  for (size_t k = 0; k < t.joints.size(); ++k) by[(size_t)t.joints[k].child] = (int)k;
  std::function<void(size_t)> go = [&](size_t l) {
    if (done[l]) return;
    done[l] = true;
    if (by[l] < 0) {
      out[l] = {base.linear(), base.translation()};
      return;
    }
    const JointSpec& j = t.joints[(size_t)by[l]];
    go((size_t)j.parent);
    const Pose& up = out[(size_t)j.parent];
    Pose me{up.R * j.pre.linear(), up.R * j.pre.translation() + up.p};
    const double v = val[(size_t)by[l]];
    if (j.type == J::REVOLUTE || j.type == J::CONTINUOUS) {
      const M3 c = cross(j.axis);
      me.R = me.R * (M3::Identity() + std::sin(v) * c + (1 - std::cos(v)) * c * c);
    } else if (j.type == J::PRISMATIC) {
      me.p += me.R * (j.axis * v);
    }
    out[l] = me;
  };
  for (size_t l = 0; l < t.links; ++l) go(l);
  return out;
}

}  // namespace
