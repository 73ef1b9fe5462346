// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Pose {
  typedef boost::shared_ptr<Pose> Ptr;
  typedef boost::shared_ptr<Pose const> ConstPtr;
  geometry_msgs::Point position;
  geometry_msgs::Quaternion orientation;
  template <typename F>
  void fields(F&& f) {
    f(position, orientation);
  }
};

typedef boost::shared_ptr<Pose> PosePtr;
typedef boost::shared_ptr<Pose const> PoseConstPtr;

inline bool operator==(const Pose& a, const Pose& b) {
  return a.position == b.position && a.orientation == b.orientation;
}

}  // namespace geometry_msgs
