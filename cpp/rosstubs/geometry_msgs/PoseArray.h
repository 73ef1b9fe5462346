// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct PoseArray {
  typedef boost::shared_ptr<PoseArray> Ptr;
  typedef boost::shared_ptr<PoseArray const> ConstPtr;
  std_msgs::Header header;
  std::vector<geometry_msgs::Pose> poses;
  template <typename F>
  void fields(F&& f) {
    f(header, poses);
  }
};

typedef boost::shared_ptr<PoseArray> PoseArrayPtr;
typedef boost::shared_ptr<PoseArray const> PoseArrayConstPtr;

inline bool operator==(const PoseArray& a, const PoseArray& b) {
  return a.header == b.header && a.poses == b.poses;
}

}  // namespace geometry_msgs
