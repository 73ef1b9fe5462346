// Stand-in for MoveIt's header: the collision results.
#pragma once

#include <Eigen/Core>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace collision_detection {
struct Contact {
  Eigen::Vector3d pos{0, 0, 0}, normal{0, 0, 0};
  double depth = 0;
  std::string body_name_1, body_name_2;
};
struct CollisionResult {
  typedef std::map<std::pair<std::string, std::string>, std::vector<Contact>> ContactMap;
  bool collision = false;
  double distance = 0;
  std::size_t contact_count = 0;
  ContactMap contacts;
};
}  // namespace collision_detection
