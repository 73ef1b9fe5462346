// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <trajectory_msgs/JointTrajectoryPoint.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace trajectory_msgs {

struct JointTrajectory {
  typedef boost::shared_ptr<JointTrajectory> Ptr;
  typedef boost::shared_ptr<JointTrajectory const> ConstPtr;
  std_msgs::Header header;
  std::vector<std::string> joint_names;
  std::vector<trajectory_msgs::JointTrajectoryPoint> points;
  template <typename F>
  void fields(F&& f) {
    f(header, joint_names, points);
  }
};

typedef boost::shared_ptr<JointTrajectory> JointTrajectoryPtr;
typedef boost::shared_ptr<JointTrajectory const> JointTrajectoryConstPtr;

inline bool operator==(const JointTrajectory& a, const JointTrajectory& b) {
  return a.header == b.header && a.joint_names == b.joint_names && a.points == b.points;
}

}  // namespace trajectory_msgs
