// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <geometry_msgs/Vector3.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Twist {
  typedef boost::shared_ptr<Twist> Ptr;
  typedef boost::shared_ptr<Twist const> ConstPtr;
  geometry_msgs::Vector3 linear;
  geometry_msgs::Vector3 angular;
  template <typename F>
  void fields(F&& f) {
    f(linear, angular);
  }
};

typedef boost::shared_ptr<Twist> TwistPtr;
typedef boost::shared_ptr<Twist const> TwistConstPtr;

inline bool operator==(const Twist& a, const Twist& b) {
  return a.linear == b.linear && a.angular == b.angular;
}

}  // namespace geometry_msgs
