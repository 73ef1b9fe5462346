// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace trajectory_msgs {

struct JointTrajectoryPoint {
  typedef boost::shared_ptr<JointTrajectoryPoint> Ptr;
  typedef boost::shared_ptr<JointTrajectoryPoint const> ConstPtr;
  std::vector<double> positions;
  std::vector<double> velocities;
  std::vector<double> accelerations;
  std::vector<double> effort;
  ros::Duration time_from_start;
  template <typename F>
  void fields(F&& f) {
    f(positions, velocities, accelerations, effort, time_from_start);
  }
};

typedef boost::shared_ptr<JointTrajectoryPoint> JointTrajectoryPointPtr;
typedef boost::shared_ptr<JointTrajectoryPoint const> JointTrajectoryPointConstPtr;

inline bool operator==(const JointTrajectoryPoint& a, const JointTrajectoryPoint& b) {
  return a.positions == b.positions && a.velocities == b.velocities && a.accelerations == b.accelerations && a.effort == b.effort && a.time_from_start == b.time_from_start;
}

}  // namespace trajectory_msgs
