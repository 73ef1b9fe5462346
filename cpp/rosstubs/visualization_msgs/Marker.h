// Stand-in for the ROS message of this name, with the fields of its definition.
#pragma once

#include <ros/serialization.h>
#include <std_msgs/Header.h>
#include <std_msgs/ColorRGBA.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>

#include <boost/shared_ptr.hpp>
#include <ostream>
#include <string>
#include <vector>

namespace visualization_msgs {

struct Marker {
  typedef boost::shared_ptr<Marker> Ptr;
  typedef boost::shared_ptr<Marker const> ConstPtr;
  std_msgs::Header header;
  std::string ns;
  int32_t id = 0;
  int32_t type = 0;
  int32_t action = 0;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  ros::Duration lifetime;
  uint8_t frame_locked = 0;
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
  std::string text;
  std::string mesh_resource;
  uint8_t mesh_use_embedded_materials = 0;
  template <typename F>
  void fields(F&& f) {
    f(header, ns, id, type, action, pose, scale, color, lifetime, frame_locked, points, colors, text, mesh_resource, mesh_use_embedded_materials);
  }
};

typedef boost::shared_ptr<Marker> MarkerPtr;
typedef boost::shared_ptr<Marker const> MarkerConstPtr;

inline bool operator==(const Marker& a, const Marker& b) {
  return a.header == b.header && a.ns == b.ns && a.id == b.id && a.type == b.type && a.action == b.action && a.pose == b.pose && a.scale == b.scale && a.color == b.color && a.lifetime == b.lifetime && a.frame_locked == b.frame_locked && a.points == b.points && a.colors == b.colors && a.text == b.text && a.mesh_resource == b.mesh_resource && a.mesh_use_embedded_materials == b.mesh_use_embedded_materials;
}

}  // namespace visualization_msgs
