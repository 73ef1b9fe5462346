#pragma once
#include <ros/serialization.h>

#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>

namespace shape_msgs {
struct MeshTriangle {
  typedef boost::shared_ptr<MeshTriangle> Ptr;
  typedef boost::shared_ptr<MeshTriangle const> ConstPtr;
  MeshTriangle() { vertex_indices.assign(0); }
  boost::array<uint32_t, 3> vertex_indices;
};
}  // namespace shape_msgs
