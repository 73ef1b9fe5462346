// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Point.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct PointStamped {
  typedef boost::shared_ptr<PointStamped> Ptr;
  typedef boost::shared_ptr<PointStamped const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Point point;
  template <typename F>
  void fields(F&& f) {
    f(header, point);
  }
};

typedef boost::shared_ptr<PointStamped> PointStampedPtr;
typedef boost::shared_ptr<PointStamped const> PointStampedConstPtr;

inline bool operator==(const PointStamped& a, const PointStamped& b) {
  return a.header == b.header && a.point == b.point;
}

}  // namespace geometry_msgs
