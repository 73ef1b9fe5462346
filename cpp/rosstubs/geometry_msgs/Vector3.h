// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Vector3 {
  typedef boost::shared_ptr<Vector3> Ptr;
  typedef boost::shared_ptr<Vector3 const> ConstPtr;
  double x = 0;
  double y = 0;
  double z = 0;
  template <typename F>
  void fields(F&& f) {
    f(x, y, z);
  }
};

typedef boost::shared_ptr<Vector3> Vector3Ptr;
typedef boost::shared_ptr<Vector3 const> Vector3ConstPtr;

inline bool operator==(const Vector3& a, const Vector3& b) {
  return a.x == b.x && a.y == b.y && a.z == b.z;
}

}  // namespace geometry_msgs
