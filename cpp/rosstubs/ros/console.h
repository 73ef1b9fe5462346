// Stand-in: log lines are formatted (what they print is evaluated) and counted.
#pragma once

#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <string>

namespace ros {
namespace console {
namespace levels {
enum Level { Debug, Info, Warn, Error, Fatal, Count };
}
typedef levels::Level Level;
struct Log {
  std::map<std::string, int> levels;  // by logger
  long lines[5] = {0, 0, 0, 0, 0};
  std::string last;
};
inline Log& log() {
  static Log l;
  return l;
}
inline bool set_logger_level(const std::string& name, levels::Level level) {
  log().levels[name] = static_cast<int>(level);
  return true;
}
inline void notifyLoggerLevelsChanged() {}
inline void print(int level, const std::string& s) {
  log().lines[level]++;
  log().last = s;
}
}  // namespace console
}  // namespace ros

#define VP_ROS_LOG(level, args)              \
  do {                                       \
    std::ostringstream vp_ros_stream;        \
    vp_ros_stream << args;                   \
    ros::console::print(level, vp_ros_stream.str()); \
  } while (0)
#define ROS_DEBUG_STREAM(a) VP_ROS_LOG(0, a)
#define ROS_INFO_STREAM(a) VP_ROS_LOG(1, a)
#define ROS_WARN_STREAM(a) VP_ROS_LOG(2, a)
#define ROS_ERROR_STREAM(a) VP_ROS_LOG(3, a)
#define ROS_FATAL_STREAM(a) VP_ROS_LOG(4, a)
#define ROS_DEBUG_STREAM_NAMED(n, a) VP_ROS_LOG(0, a)
#define ROS_INFO_STREAM_NAMED(n, a) VP_ROS_LOG(1, a)
#define ROS_WARN_STREAM_NAMED(n, a) VP_ROS_LOG(2, a)
#define ROS_ERROR_STREAM_NAMED(n, a) VP_ROS_LOG(3, a)
#define ROS_FATAL_STREAM_NAMED(n, a) VP_ROS_LOG(4, a)
