#include "vp.hpp"

#include <arc_utilities/moveit_ostream_operators.hpp>
#include <arc_utilities/trajectory_utils.h>
#include <ros/console.h>

using trajectory_msgs::JointTrajectory;
using trajectory_msgs::JointTrajectoryPoint;

namespace {

const std::vector<std::string> kJoints{"shoulder", "elbow", "wrist", "gripper"};

struct Namer {
  std::vector<std::string> common;
};

std::vector<std::string> names(vp::Src& s, const std::vector<std::string>& common) {
  switch (s.choice(6)) {
    case 0: return {};
    case 1: {  // the first few of them
      std::vector<std::string> r = common;
      r.resize(s.choice(r.size() + 1));
      return r;
    }
    case 2: {  // and one more
      std::vector<std::string> r = common;
      r.push_back(s.pick(kJoints));
      return r;
    }
    case 3: {  // one of them another
      std::vector<std::string> r = common;
      if (!r.empty()) r[s.choice(r.size())] = s.pick(kJoints);
      return r;
    }
    default: return common;
  }
}

JointTrajectory trajectory(vp::Src& s, const std::vector<std::string>& common) {
  JointTrajectory t;
  t.joint_names = names(s, common);
  t.header.frame_id = s.pick(std::vector<std::string>{"", "base", "map"});
  int64_t at = s.b() ? 0 : s.i(0, 2000000000);
  const size_t n = s.chance(1, 300) ? s.big(6, 400) : s.len(0, 5);
  for (size_t k = 0; k < n; k++) {
    JointTrajectoryPoint p;
    const auto numbers = [&] {
      std::vector<double> v(s.chance(1, 3) ? 0 : common.size());
      for (double& x : v) x = s.real(-3, 3);
      return v;
    };
    p.positions = numbers(), p.velocities = numbers(), p.accelerations = numbers(), p.effort = numbers();
    p.time_from_start.fromNSec(at);
    at += s.i(0, 3) == 0 ? 0 : s.i(1, 3000000000LL);
    t.points.push_back(p);
  }
  return t;
}

std::string show(const JointTrajectory& t) {
  std::string r = "[";
  for (const auto& n : t.joint_names) r += n + " ";
  r += "in '" + t.header.frame_id + "' at";
  for (const auto& p : t.points) r += vp::cat(" ", p.time_from_start.toSec());
  return r + "]";
}

void same(const JointTrajectory& a, const JointTrajectory& b, const char* what) { VP_CHECK(a == b, what, ": ", show(a), " instead of ", show(b)); }

}  // namespace

/// Histories of appending: what comes after follows in time, what does not fit is refused and changes nothing.
VP_PROP(appended_trajectories_follow_each_other, 500000, 8000000) {
  const size_t dims = s.len(1, 4);
  std::vector<std::string> common(kJoints.begin(), kJoints.begin() + static_cast<std::ptrdiff_t>(dims));
  JointTrajectory total = trajectory(s, common), model = total;
  const size_t steps = s.len(1, 5);
  size_t appended = 0;
  for (size_t k = 0; k < steps; k++) {
    const bool self = s.chance(1, 6);
    const JointTrajectory next = self ? model : trajectory(s, common);
    if (s.noting()) s.note(vp::cat(show(model), self ? " to itself" : " + " + show(next)));
    const bool fits = model.joint_names.empty() || model.joint_names == next.joint_names;
    bool refused = false;
    try {
      if (self)
        trajectory_utils::append(total, total);
      else {
        const JointTrajectory copy = next;
        trajectory_utils::append(total, next);
        same(next, copy, "the appended trajectory has changed");
      }
    } catch (const std::runtime_error&) {
      refused = true;
    }
    if (fits) {
      if (model.joint_names.empty()) model.joint_names = next.joint_names;
      if (model.header.frame_id.empty()) model.header.frame_id = next.header.frame_id;
      const ros::Duration end = model.points.empty() ? ros::Duration(0, 0) : model.points.back().time_from_start;
      for (const auto& p : next.points) {
        JointTrajectoryPoint q = p;
        q.time_from_start = end + p.time_from_start;
        model.points.push_back(q);
      }
      if (!next.points.empty() && end.toNSec() > 0) appended++;
      if (self) s.label("to itself");
    } else
      s.label("refused");
    VP_CHECK(refused == !fits, fits ? "the joints are the same but the trajectory was refused" : "the joints differ but the trajectory was accepted");
    same(total, model, fits ? "the trajectory after appending" : "a refused trajectory has changed the other");
    for (size_t j = 1; j < total.points.size() && fits; j++)
      VP_CHECK(total.points[j - 1].time_from_start <= total.points[j].time_from_start, "point ", j, " lies before the one in front of it");
  }
  s.nontrivialIf(appended >= 1);
}

/// The description of a collision says whether there is one and names two bodies that touch.
VP_PROP(collisions_are_described, 400000, 4000000) {
  collision_detection::CollisionResult r;
  r.collision = s.chance(3, 4);
  const std::vector<std::string> bodies{"arm", "table", "gripper", "box_1", "box_10"};
  const size_t n = s.len(0, 3);
  size_t contacts = 0;
  for (size_t k = 0; k < n; k++) {
    const std::string a = s.pick(bodies), b = s.pick(bodies);
    auto& v = r.contacts[{a, b}];
    const size_t m = s.chance(1, 100) ? s.big(4, 300) : s.len(1, 3);
    for (size_t j = 0; j < m; j++) {
      collision_detection::Contact c;
      c.body_name_1 = a, c.body_name_2 = b;
      v.push_back(c);
    }
    contacts += m;
  }
  r.contact_count = contacts;
  std::ostringstream o;
  o << r;
  const std::string text = o.str();
  if (s.noting()) s.note(vp::cat(r.collision ? "collision" : "none", " with ", r.contacts.size(), " pairs, ", contacts, " contacts: ", text));
  s.nontrivialIf(r.collision && contacts > 1);
  if (!r.collision) {
    VP_CHECK(text.find("no collision") != std::string::npos, "no collision is described as: ", text);
    return;
  }
  VP_CHECK(text.find("collision") != std::string::npos && text.find("no collision") == std::string::npos, "a collision is described as: ", text);
  if (contacts == 0) return;
  bool named = false;
  for (const auto& p : r.contacts) {
    const size_t a = text.find(p.first.first);
    named |= a != std::string::npos && text.find(p.first.second, a + p.first.first.size()) != std::string::npos;
  }
  VP_CHECK(named, "no pair of touching bodies is named: ", text);
  VP_CHECK((text.find("among others") != std::string::npos) == (contacts > 1), contacts, " contacts are described as: ", text);
}
