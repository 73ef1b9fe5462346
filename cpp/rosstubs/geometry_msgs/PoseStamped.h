// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct PoseStamped {
  typedef boost::shared_ptr<PoseStamped> Ptr;
  typedef boost::shared_ptr<PoseStamped const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  template <typename F>
  void fields(F&& f) {
    f(header, pose);
  }
};

typedef boost::shared_ptr<PoseStamped> PoseStampedPtr;
typedef boost::shared_ptr<PoseStamped const> PoseStampedConstPtr;

inline bool operator==(const PoseStamped& a, const PoseStamped& b) {
  return a.header == b.header && a.pose == b.pose;
}

}  // namespace geometry_msgs
