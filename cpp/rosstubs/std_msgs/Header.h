// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace std_msgs {

struct Header {
  typedef boost::shared_ptr<Header> Ptr;
  typedef boost::shared_ptr<Header const> ConstPtr;
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
  template <typename F>
  void fields(F&& f) {
    f(seq, stamp, frame_id);
  }
};

typedef boost::shared_ptr<Header> HeaderPtr;
typedef boost::shared_ptr<Header const> HeaderConstPtr;

inline bool operator==(const Header& a, const Header& b) {
  return a.seq == b.seq && a.stamp == b.stamp && a.frame_id == b.frame_id;
}

}  // namespace std_msgs
