// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace std_msgs {

struct ColorRGBA {
  typedef boost::shared_ptr<ColorRGBA> Ptr;
  typedef boost::shared_ptr<ColorRGBA const> ConstPtr;
  float r = 0;
  float g = 0;
  float b = 0;
  float a = 0;
  template <typename F>
  void fields(F&& f) {
    f(r, g, b, a);
  }
};

typedef boost::shared_ptr<ColorRGBA> ColorRGBAPtr;
typedef boost::shared_ptr<ColorRGBA const> ColorRGBAConstPtr;

inline bool operator==(const ColorRGBA& a, const ColorRGBA& b) {
  return a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a;
}

}  // namespace std_msgs
