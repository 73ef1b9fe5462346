// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <geometry_msgs/Transform.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct TransformStamped {
  typedef boost::shared_ptr<TransformStamped> Ptr;
  typedef boost::shared_ptr<TransformStamped const> ConstPtr;
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::Transform transform;
  template <typename F>
  void fields(F&& f) {
    f(header, child_frame_id, transform);
  }
};

typedef boost::shared_ptr<TransformStamped> TransformStampedPtr;
typedef boost::shared_ptr<TransformStamped const> TransformStampedConstPtr;

inline bool operator==(const TransformStamped& a, const TransformStamped& b) {
  return a.header == b.header && a.child_frame_id == b.child_frame_id && a.transform == b.transform;
}

}  // namespace geometry_msgs
