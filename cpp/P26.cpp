#include "P26.hpp"

namespace {

struct Model {
  T base;
  std::vector<double> values;
};

void compare(const TreeSpec& t, const Model& m, const SimpleLinkedRobot& r, const std::string& what) {
  const auto want = kinematics(t, m.base, m.values);
  const auto got = r.GetLinkTransforms();
  const auto names = r.GetLinkNames();
  const auto byName = r.GetLinkTransformsMap();
  VP_CHECK(got.size() == t.links && names.size() == t.links && byName.size() == t.links, what, ": number of links");
  for (size_t l = 0; l < t.links; ++l) {
    const double tol = 1e-10 * (1 + want[l].p.norm());
    VP_CHECK((got[l].linear() - want[l].R).norm() <= 1e-10 && (got[l].translation() - want[l].p).norm() <= tol, what, ": link ", l, " is at ", got[l].translation().transpose(), " instead of ", want[l].p.transpose());
    VP_CHECK(names[l] == vp::cat("link ", l), what, ": name of link ", l);
    VP_CHECK(byName.count(names[l]) && byName.at(names[l]).matrix() == got[l].matrix() && r.GetLinkTransform(names[l]).matrix() == got[l].matrix(), what, ": transforms of ", names[l], " differ");
  }
  const auto& config = r.GetPosition();
  VP_CHECK(config.size() == t.active.size(), what, ": size of the configuration");
  for (size_t k = 0; k < config.size(); ++k) {
    const auto& j = t.joints[t.active[k]];
    if (j.type == J::CONTINUOUS) {
      VP_CHECK(near_mod(config[k].GetValue(), m.values[k]) <= 1e-9 && std::fabs(config[k].GetValue()) <= M_PI, what, ": joint ", k, " is at ", config[k].GetValue());
    } else {
      VP_CHECK(config[k].GetValue() == m.values[k], what, ": joint ", k, " is at ", config[k].GetValue(), " instead of ", m.values[k]);
      VP_CHECK(config[k].GetLimits() == std::make_pair(j.lo, j.hi), what, ": limits of joint ", k);
    }
    VP_CHECK(config[k].GetType() == j.type, what, ": type of joint ", k);
  }
  VP_CHECK((r.GetBaseTransform().matrix() - m.base.matrix()).norm() == 0, what, ": base transform");
  VP_CHECK(((r.GetInverseBaseTransform() * m.base).matrix() - M4::Identity()).norm() <= 1e-9 * (1 + m.base.translation().norm()), what, ": inverse base transform");
}

VP_PROP(robot_history, 14000, 560000) {
  const TreeSpec t = genTree(s, s.chance(1, 150) ? 70 : 8);
  Model m;
  m.base = genPose(s);
  std::vector<double> values;
  const Config initial = genConfig(s, t, &values);
  const auto enforce = [&](const std::vector<double>& v) {
    std::vector<double> out;
    for (size_t k = 0; k < v.size(); ++k) out.push_back(allowed(t.joints[t.active[k]], v[k]));
    return out;
  };
  m.values = enforce(values);
  SimpleLinkedRobot r(m.base, linksOf(t), jointsOf(t), initial, std::vector<double>(t.active.size(), 1));
  compare(t, m, r, "new robot");
  std::vector<std::string> active;
  for (size_t k : t.active) active.push_back(vp::cat("joint ", k));
  VP_CHECK(r.GetActiveJointNames() == active, "names of the active joints");
  size_t sets = 0, bases = 0;
  s.repeat(1, 8, [&] {
    switch (s.choice(5)) {
      case 0:
        m.base = genPose(s);
        r.UpdateBaseTransform(m.base);
        compare(t, m, r, "new base transform");
        ++bases;
        break;
      case 1: {
        const auto& back = r.SetPosition(r.GetPosition());
        VP_CHECK(&back == &r.GetPosition(), "returned position");
        compare(t, m, r, "set to its own position");
        break;
      }
      case 2: {
        const Model kept = m;
        std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<Config, SimpleLinkedConfigAlloc>> c(r.Clone());
        SimpleLinkedRobot* clone = dynamic_cast<SimpleLinkedRobot*>(c.get());
        VP_CHECK(clone != nullptr, "type of the clone");
        compare(t, m, *clone, "clone");
        Model other = m;
        const Config q = genConfig(s, t, &values);
        other.values = enforce(values);
        other.base = genPose(s);
        clone->SetPosition(q);
        clone->UpdateBaseTransform(other.base);
        compare(t, other, *clone, "moved clone");
        compare(t, kept, r, "robot whose clone was moved");
        if (s.b()) {
          r = *clone;
          m = other;
          compare(t, m, r, "assigned robot");
        }
        break;
      }
      case 3: {
        Config q = genConfig(s, t, &values);
        if (s.b() && !q.empty()) q.pop_back();
        else q.push_back(J({-1, 1}, 0, J::REVOLUTE));
        VP_THROWS(r.SetPosition(q), "position of the wrong size accepted");
        VP_THROWS(r.GetLinkTransform("no such link"), "unknown link accepted");
        compare(t, m, r, "refused position");
        break;
      }
      default: {
        const Config q = genConfig(s, t, &values);
        r.SetPosition(q);
        m.values = enforce(values);
        compare(t, m, r, "new position");
        ++sets;
      }
    }
  });
  bool unordered = false;
  std::vector<bool> seen(t.links, false);
  seen[0] = true;
  for (const auto& j : t.joints) {
    unordered = unordered || !seen[(size_t)j.parent];
    seen[(size_t)j.child] = true;
  }
  if (unordered) s.label("joints not parent first");
  s.nontrivialIf(t.active.size() >= 2 && (sets || bases));
  if (s.noting()) s.note(vp::cat(t.links, " links, ", t.active.size(), " active joints, ", sets, " positions, ", bases, " bases"));
}

VP_PROP(jacobians, 25000, 1000000) {
  const TreeSpec t = genTree(s, s.chance(1, 150) ? 40 : 7);
  const T base = genPose(s);
  std::vector<double> values;
  const Config q = genConfig(s, t, &values);
  SimpleLinkedRobot r(base, linksOf(t), jointsOf(t), q, std::vector<double>(t.active.size(), 1));
  for (size_t k = 0; k < values.size(); ++k) values[k] = allowed(t.joints[t.active[k]], values[k]);
  const size_t l = s.choice(t.links);
  const V3 point = genVec(s);
  const Eigen::Vector4d p4(point.x(), point.y(), point.z(), 1);
  const auto full = r.ComputeLinkPointJacobian(vp::cat("link ", l), p4);
  const auto trans = r.ComputeLinkPointTranslationJacobian(vp::cat("link ", l), p4);
  VP_CHECK(full.rows() == 6 && full.cols() == (int)t.active.size() && trans.rows() == 3 && trans.cols() == full.cols(), "size of the Jacobian");
  VP_THROWS(r.ComputeLinkPointJacobian("no such link", p4), "unknown link accepted");
  double size = 1;
  for (const auto& p : kinematics(t, base, values)) size += p.p.norm();
  size += point.norm();
  const double h = 1e-6;
  for (size_t k = 0; k < t.active.size(); ++k) {
    std::vector<double> up = values, down = values;
    up[k] += h;
    down[k] -= h;
    const Pose a = kinematics(t, base, up)[l], b = kinematics(t, base, down)[l], c = kinematics(t, base, values)[l];
    const V3 v = ((a.R * point + a.p) - (b.R * point + b.p)) / (2 * h);
    const M3 w = (a.R - b.R) / (2 * h) * c.R.transpose();
    const V3 omega((w(2, 1) - w(1, 2)) / 2, (w(0, 2) - w(2, 0)) / 2, (w(1, 0) - w(0, 1)) / 2);
    VP_CHECK((full.block<3, 1>(0, (int)k) - v).norm() <= 1e-7 * size, "column ", k, " of the Jacobian is ", full.col((int)k).transpose(), ", the point moves by ", v.transpose());
    VP_CHECK((full.block<3, 1>(3, (int)k) - omega).norm() <= 1e-7, "column ", k, " of the Jacobian is ", full.col((int)k).transpose(), ", the link turns by ", omega.transpose());
    VP_CHECK(trans.col((int)k) == (full.block<3, 1>(0, (int)k)), "translation Jacobian differs in column ", k);
  }
  s.nontrivialIf(l > 0 && t.active.size() >= 2);
  if (s.noting()) s.note(vp::cat("link ", l, " of ", t.links, ", ", t.active.size(), " active joints"));
}

VP_PROP(model_checks, 70000, 2100000) {
  TreeSpec t = genTree(s, 6);
  auto links = linksOf(t);
  auto joints = jointsOf(t);
  // Up to three edits of a valid model.
  s.repeat(0, 3, [&] {
    switch (s.choice(9)) {
      case 0: if (!joints.empty()) joints[s.choice(joints.size())].ParentLinkIndex() = s.i(-2, (int64_t)links.size() + 1); break;
      case 1: if (!joints.empty()) joints[s.choice(joints.size())].ChildLinkIndex() = s.i(-2, (int64_t)links.size() + 1); break;
      case 2: if (!joints.empty()) { auto& j = joints[s.choice(joints.size())]; std::swap(j.ParentLinkIndex(), j.ChildLinkIndex()); } break;
      case 3: if (links.size() > 1) links[s.choice(links.size())].LinkName() = links[s.choice(links.size())].LinkName(); break;
      case 4: if (joints.size() > 1) joints[s.choice(joints.size())].JointName() = joints[s.choice(joints.size())].JointName(); break;
      case 5: if (!joints.empty()) joints[s.choice(joints.size())].JointAxis() *= s.pick(std::vector<double>{1, -1, 2, 0, 0.999, std::nan("")}); break;
      case 6: links.push_back(RobotLink("another link")); break;
      case 7: if (!joints.empty()) joints.pop_back(); break;
      default: if (joints.size() > 1) std::swap(joints[s.choice(joints.size())].ChildLinkIndex(), joints[s.choice(joints.size())].ChildLinkIndex());
    }
  });
  // Validity from the definition.
  std::string why;
  if (links.size() != joints.size() + 1) why = "number of links";
  std::map<std::string, int> names, jnames;
  for (const auto& l : links)
    if (names[l.LinkName()]++) why = "link names";
  std::vector<int> parents(links.size(), 0);
  for (const auto& j : joints) {
    if (jnames[j.JointName()]++) why = "joint names";
    if (!(std::fabs(j.JointAxis().norm() - 1) < 1e-9)) why = "joint axis";
    if (j.ParentLinkIndex() < 0 || j.ChildLinkIndex() < 0 || j.ParentLinkIndex() >= (int64_t)links.size() || j.ChildLinkIndex() >= (int64_t)links.size()) why = "index";
    else ++parents[(size_t)j.ChildLinkIndex()];
  }
  if (why.empty()) {
    if (parents[0]) why = "root has a parent";
    for (size_t k = 1; k < links.size(); ++k)
      if (parents[k] != 1) why = "number of parents";
  }
  if (why.empty()) {
    std::vector<bool> reached(links.size(), false);
    reached[0] = true;
    for (size_t round = 0; round < links.size(); ++round)
      for (const auto& j : joints)
        if (reached[(size_t)j.ParentLinkIndex()]) reached[(size_t)j.ChildLinkIndex()] = true;
    for (size_t k = 0; k < links.size(); ++k)
      if (!reached[k]) why = "cycle";
  }
  s.label(why.empty() ? "valid" : why);
  s.nontrivialIf(joints.size() >= 2);
  if (s.noting()) s.note(vp::cat(links.size(), " links, ", joints.size(), " joints: ", why.empty() ? "valid" : why));
  Quiet quiet;
  VP_CHECK(SimpleLinkedRobot::SanityCheckRobotModel(links, joints).second == why.empty(), why.empty() ? "a valid model was rejected" : "an invalid model was accepted: ", why);
  Config q;
  for (const auto& j : joints)
    if (!j.JointModel().IsFixed()) q.push_back(j.JointModel());
  const auto build = [&] { SimpleLinkedRobot r(T::Identity(), links, joints, q, std::vector<double>(q.size(), 1)); };
  if (why.empty()) {
    build();
    VP_THROWS(SimpleLinkedRobot(T::Identity(), links, joints, q, std::vector<double>(q.size() + 1, 1)), "wrong number of weights accepted");
  } else {
    VP_THROWS(build(), "a robot was built from an invalid model: ", why);
  }
}

}  // namespace
