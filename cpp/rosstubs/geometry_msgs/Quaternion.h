// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Quaternion {
  typedef boost::shared_ptr<Quaternion> Ptr;
  typedef boost::shared_ptr<Quaternion const> ConstPtr;
  double x = 0;
  double y = 0;
  double z = 0;
  double w = 0;
  template <typename F>
  void fields(F&& f) {
    f(x, y, z, w);
  }
};

typedef boost::shared_ptr<Quaternion> QuaternionPtr;
typedef boost::shared_ptr<Quaternion const> QuaternionConstPtr;

inline bool operator==(const Quaternion& a, const Quaternion& b) {
  return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w;
}

}  // namespace geometry_msgs
