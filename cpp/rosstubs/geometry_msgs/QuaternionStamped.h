// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Quaternion.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct QuaternionStamped {
  typedef boost::shared_ptr<QuaternionStamped> Ptr;
  typedef boost::shared_ptr<QuaternionStamped const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Quaternion quaternion;
  template <typename F>
  void fields(F&& f) {
    f(header, quaternion);
  }
};

typedef boost::shared_ptr<QuaternionStamped> QuaternionStampedPtr;
typedef boost::shared_ptr<QuaternionStamped const> QuaternionStampedConstPtr;

inline bool operator==(const QuaternionStamped& a, const QuaternionStamped& b) {
  return a.header == b.header && a.quaternion == b.quaternion;
}

}  // namespace geometry_msgs
