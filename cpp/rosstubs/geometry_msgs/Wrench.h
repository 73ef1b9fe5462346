// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <geometry_msgs/Vector3.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Wrench {
  typedef boost::shared_ptr<Wrench> Ptr;
  typedef boost::shared_ptr<Wrench const> ConstPtr;
  geometry_msgs::Vector3 force;
  geometry_msgs::Vector3 torque;
  template <typename F>
  void fields(F&& f) {
    f(force, torque);
  }
};

typedef boost::shared_ptr<Wrench> WrenchPtr;
typedef boost::shared_ptr<Wrench const> WrenchConstPtr;

inline bool operator==(const Wrench& a, const Wrench& b) {
  return a.force == b.force && a.torque == b.torque;
}

}  // namespace geometry_msgs
