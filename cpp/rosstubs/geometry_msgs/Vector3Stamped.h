// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Vector3.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Vector3Stamped {
  typedef boost::shared_ptr<Vector3Stamped> Ptr;
  typedef boost::shared_ptr<Vector3Stamped const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Vector3 vector;
  template <typename F>
  void fields(F&& f) {
    f(header, vector);
  }
};

typedef boost::shared_ptr<Vector3Stamped> Vector3StampedPtr;
typedef boost::shared_ptr<Vector3Stamped const> Vector3StampedConstPtr;

inline bool operator==(const Vector3Stamped& a, const Vector3Stamped& b) {
  return a.header == b.header && a.vector == b.vector;
}

}  // namespace geometry_msgs
