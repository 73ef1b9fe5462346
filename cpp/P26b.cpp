#include "P26.hpp"

namespace {

J genJoint(vp::Src& s, J::JOINT_TYPE type) {
  const double lo = s.generic(-8, 2), hi = lo + (s.chance(1, 6) ? 0 : s.generic(0, 10));
  return J({lo, hi}, s.generic(-12, 12), type);
}

VP_PROP(joint_models, 160000, 4000000) {
  const auto type = genType(s);
  const bool continuous = type == J::CONTINUOUS;
  const double a = s.generic(-8, 8), b = s.chance(1, 6) ? a : s.generic(-8, 8), v = s.chance(1, 4) ? s.pick(std::vector<double>{a, b, M_PI, -M_PI, 0}) : s.generic(-12, 12);
  if (s.noting()) s.note(vp::cat("type ", (int)type, " limits ", a, " ", b, " value ", v));
  s.nontrivialIf(v < std::min(a, b) || v > std::max(a, b));
  if (a > b && !continuous) {
    VP_THROWS(J({a, b}, v, type), "limits in the wrong order accepted");
    return;
  }
  const double inf = std::numeric_limits<double>::infinity();
  J j({a, b}, v, type);
  const std::pair<double, double> limits = continuous ? std::make_pair(-inf, inf) : std::make_pair(a, b);
  const auto holds = [&](const J& m, double x, const std::string& what) {
    VP_CHECK(m.GetType() == type && m.GetLimits() == limits, what, ": type or limits");
    if (continuous) {
      VP_CHECK(near_mod(m.GetValue(), x) <= 1e-9 && m.GetValue() >= -M_PI && m.GetValue() <= M_PI, what, ": continuous joint set to ", x, " is at ", m.GetValue());
    } else {
      VP_CHECK(m.GetValue() == std::min(b, std::max(a, x)), what, ": joint set to ", x, " is at ", m.GetValue());
    }
  };
  holds(j, v, "new joint");
  VP_CHECK(j.IsContinuous() == continuous && j.IsRevolute() == (continuous || type == J::REVOLUTE) && j.IsPrismatic() == (type == J::PRISMATIC) && j.IsFixed() == (type == J::FIXED), "type of the joint");
  VP_CHECK(j.GetTypeString() == (continuous ? "Continuous" : type == J::REVOLUTE ? "Revolute" : type == J::PRISMATIC ? "Prismatic" : "Fixed"), "type name");
  VP_CHECK(j.InLimits(v) == (continuous || (v >= a && v <= b)), "value ", v, " in limits");
  const double x = s.generic(-15, 15);
  const J copy = j.CopyWithNewValue(x);
  holds(copy, x, "copy with a new value");
  holds(j, v, "joint after copying");
  j.SetValue(x);
  holds(j, x, "joint with a new value");
  for (double bad : {inf, -inf, std::nan("")}) {
    VP_THROWS(j.SetValue(bad), "value ", bad, " accepted");
    VP_THROWS(j.CopyWithNewValue(bad), "value ", bad, " accepted");
  }
  holds(j, x, "joint after refused values");
  // Distances.
  const double y = s.generic(-3, 3), z = s.chance(1, 4) ? y + M_PI : s.generic(-3, 3);
  const double d = j.SignedDistance(y, z);
  if (continuous) VP_CHECK(near_mod(y + d, z) <= 1e-9 && std::fabs(d) <= M_PI + 1e-9, "distance from ", y, " to ", z, " is ", d);
  else VP_CHECK(d == z - y, "distance from ", y, " to ", z, " is ", d);
  VP_CHECK(j.Distance(y, z) == std::fabs(d) && j.SignedDistance(z) == j.SignedDistance(j.GetValue(), z) && j.Distance(z) == std::fabs(j.SignedDistance(z)), "distances differ");
  const J other = genJoint(s, genType(s));
  VP_CHECK(j.IsSameType(other) == (other.GetType() == type), "same type");
  if (other.GetType() == type) VP_CHECK(j.SignedDistance(other) == j.SignedDistance(other.GetValue()) && j.Distance(other) == std::fabs(j.SignedDistance(other)), "distance between joints");
  else VP_THROWS(j.SignedDistance(other), "distance between joints of different types");
}

VP_PROP(serialized_joints, 100000, 3000000) {
  Config c;
  s.repeat(0, 6, [&] { c.push_back(genJoint(s, genType(s))); });
  std::vector<uint8_t> buffer = s.bytes(9);
  const size_t before = buffer.size();
  const auto prefix = buffer;
  const uint64_t written = SimpleLinkedConfigSerializer::Serialize(c, buffer);
  VP_CHECK(written == buffer.size() - before && std::equal(prefix.begin(), prefix.end(), buffer.begin()), "serialized size");
  const auto tail = s.bytes(9);
  buffer.insert(buffer.end(), tail.begin(), tail.end());
  const auto back = SimpleLinkedConfigSerializer::Deserialize(buffer, before);
  VP_CHECK(back.second == written && back.first.size() == c.size(), "deserialized size");
  for (size_t k = 0; k < c.size(); ++k) VP_CHECK(back.first[k].GetValue() == c[k].GetValue() && back.first[k].GetLimits() == c[k].GetLimits() && back.first[k].GetType() == c[k].GetType(), "joint ", k, " changed");
  s.nontrivialIf(c.size() >= 2 && before > 0);
  if (s.noting()) s.note(vp::cat(c.size(), " joints at ", before));
}

VP_PROP(configuration_space, 40000, 1200000) {
  TreeSpec t = genTree(s, 7);
  std::vector<double> weights;
  for (size_t k = 0; k < t.active.size(); ++k) weights.push_back(s.chance(1, 5) ? 0 : s.generic(-3, 3));
  std::vector<double> va, vb;
  const auto joints = jointsOf(t);
  SimpleLinkedRobot r(T::Identity(), linksOf(t), joints, genConfig(s, t, &va), weights);
  const Config a = r.SetPosition(genConfig(s, t, &va)), b = r.SetPosition(genConfig(s, t, &vb));
  const auto ab = r.ComputePerDimensionConfigurationSignedDistance(a, b);
  const auto raw = SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(a, b);
  const auto abs = r.ComputePerDimensionConfigurationDistance(a, b);
  VP_CHECK(ab.size() == (int)a.size() && raw.size() == ab.size() && abs.size() == ab.size(), "number of dimensions");
  double sum = 0;
  for (size_t k = 0; k < a.size(); ++k) {
    const double want = a[k].SignedDistance(b[k]);
    VP_CHECK(raw((int)k) == want && vp::near(ab((int)k), want * std::fabs(weights[k]), 1e-12 * (1 + std::fabs(want))) && abs((int)k) == std::fabs(ab((int)k)), "distance of joint ", k, " from ", a[k].GetValue(), " to ", b[k].GetValue(), " is ", ab((int)k));
    sum += want * want * weights[k] * weights[k];
  }
  const double d = r.ComputeConfigurationDistance(a, b);
  VP_CHECK(vp::near(d, std::sqrt(sum), 1e-9 * (1 + d)), "configuration distance ", d, " instead of ", std::sqrt(sum));
  VP_CHECK(vp::near(r.ComputeConfigurationDistance(b, a), d, 1e-9 * (1 + d)) && r.ComputeConfigurationDistance(a, a) == 0, "distance is not symmetric or not zero");
  // The robot is at b.
  VP_CHECK(vp::near(r.ComputeConfigurationDistanceTo(a), d, 1e-9 * (1 + d)), "distance from the current position");
  VP_CHECK((r.ComputePerDimensionConfigurationSignedDistanceTo(a) - r.ComputePerDimensionConfigurationSignedDistance(b, a)).norm() == 0 && (r.ComputePerDimensionConfigurationDistanceTo(a) - r.ComputePerDimensionConfigurationDistance(b, a)).norm() == 0, "distances per dimension from the current position");
  // Interpolation moves every joint by the ratio of its signed distance.
  const double ratio = s.chance(1, 3) ? s.pick(std::vector<double>{0, 1, 0.5}) : s.generic(0, 1);
  const auto mid = r.InterpolateBetweenConfigurations(a, b, ratio);
  VP_CHECK(mid.size() == a.size(), "size of the interpolated configuration");
  for (size_t k = 0; k < a.size(); ++k) {
    const double way = a[k].SignedDistance(b[k]), want = a[k].GetValue() + ratio * way;
    const double err = a[k].IsContinuous() ? near_way(mid[k].GetValue(), a[k].GetValue(), way, ratio) : std::fabs(mid[k].GetValue() - want);
    VP_CHECK(err <= 1e-9 && mid[k].GetType() == a[k].GetType() && mid[k].GetLimits() == a[k].GetLimits(), "joint ", k, " interpolated to ", mid[k].GetValue(), " instead of ", want);
  }
  // Averages: of copies, and of revolute and linear joints by definition.
  const Config mean = r.AverageConfigurations({a, b});
  VP_CHECK(mean.size() == a.size() && r.AverageConfigurations({}).empty(), "size of the average configuration");
  for (size_t k = 0; k < a.size(); ++k) {
    // Documented: continuous joints are averaged like linear ones.
    const double half = (a[k].GetValue() + b[k].GetValue()) / 2;
    VP_CHECK((a[k].IsContinuous() ? near_mod(mean[k].GetValue(), half) : std::fabs(mean[k].GetValue() - half)) <= 1e-9, "average of joint ", k, " is ", mean[k].GetValue());
    VP_CHECK(mean[k].GetType() == a[k].GetType() && mean[k].GetLimits() == a[k].GetLimits(), "joint ", k, " of the average");
  }
  // Of any number of configurations: a single one is its own average.
  const Config alone = r.AverageConfigurations({a});
  VP_CHECK(alone.size() == a.size(), "size of the average of one configuration");
  for (size_t k = 0; k < a.size(); ++k) {
    const double got = alone[k].GetValue(), want = a[k].GetValue();
    VP_CHECK((a[k].IsContinuous() ? near_mod(got, want) : std::fabs(got - want)) <= 1e-9, "average of the single value ", want, " is ", got);
  }
  const Config many = r.AverageConfigurations({a, b, b, mid, a});
  VP_CHECK(many.size() == a.size(), "size of the average of five configurations");
  for (size_t k = 0; k < a.size(); ++k) {
    const double got = many[k].GetValue(), want = (2 * a[k].GetValue() + 2 * b[k].GetValue() + mid[k].GetValue()) / 5;
    VP_CHECK((a[k].IsContinuous() ? near_mod(got, want) : std::fabs(got - want)) <= 1e-9, "average of five values is ", got, " instead of ", want);
  }
  if (!a.empty()) {
    Config shorter = a;
    shorter.pop_back();
    VP_THROWS(r.ComputeConfigurationDistance(a, shorter), "distance of different sizes");
    VP_THROWS(r.InterpolateBetweenConfigurations(a, shorter, 0.5), "interpolation of different sizes");
    VP_THROWS(r.AverageConfigurations({a, shorter}), "average of different sizes");
  }
  s.nontrivialIf(a.size() >= 2 && d > 0);
  if (s.noting()) s.note(vp::cat(a.size(), " joints at distance ", d, ", ratio ", ratio));
}

}  // namespace
