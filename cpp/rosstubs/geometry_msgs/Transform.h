// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Quaternion.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace geometry_msgs {

struct Transform {
  typedef boost::shared_ptr<Transform> Ptr;
  typedef boost::shared_ptr<Transform const> ConstPtr;
  geometry_msgs::Vector3 translation;
  geometry_msgs::Quaternion rotation;
  template <typename F>
  void fields(F&& f) {
    f(translation, rotation);
  }
};

typedef boost::shared_ptr<Transform> TransformPtr;
typedef boost::shared_ptr<Transform const> TransformConstPtr;

inline bool operator==(const Transform& a, const Transform& b) {
  return a.translation == b.translation && a.rotation == b.rotation;
}

}  // namespace geometry_msgs
