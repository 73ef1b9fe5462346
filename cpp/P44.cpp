#include "vp.hpp"

#include <arc_utilities/serialization_ros.hpp>
#include <geometry_msgs/PoseArray.h>
#include <std_msgs/Header.h>
#include <trajectory_msgs/JointTrajectory.h>
#include <visualization_msgs/Marker.h>

namespace arc = arc_utilities;
using Buffer = std::vector<uint8_t>;

namespace {

struct Empty {
  template <typename F>
  void fields(F&& f) {
    f();
  }
};

/// The bytes of a message: equal exactly if every field has the same bits.
template <typename M>
std::string wire(const M& m) {
  const ros::SerializedMessage x = ros::serialization::serializeMessage(m);
  return std::string(reinterpret_cast<const char*>(x.buf.get()), x.num_bytes);
}

std::string text(vp::Src& s) {
  if (s.chance(1, 400)) return std::string(s.big(30, 70000), static_cast<char>(s.u('a', 'z')));
  return s.str(6, s.chance(1, 4));
}
void fill(vp::Src& s, double& v) { v = s.anyDouble(); }
void fill(vp::Src& s, float& v) { v = static_cast<float>(s.anyDouble()); }
void fill(vp::Src& s, uint32_t& v) { v = static_cast<uint32_t>(s.bits64()); }
void fill(vp::Src& s, int32_t& v) { v = static_cast<int32_t>(s.bits64()); }
void fill(vp::Src& s, uint8_t& v) { v = s.byte(); }
void fill(vp::Src& s, std::string& v) { v = text(s); }
void fill(vp::Src& s, ros::Time& v) { fill(s, v.sec), fill(s, v.nsec); }
void fill(vp::Src& s, ros::Duration& v) { v.sec = static_cast<int32_t>(s.i(-100000, 100000)), v.nsec = static_cast<int32_t>(s.i(0, 999999999)); }
template <typename M>
void fill(vp::Src& s, M& m);
template <typename T>
void fill(vp::Src& s, std::vector<T>& v) {
  static bool inside = false;  // a long list of short ones
  if (!inside && s.chance(1, 200)) {
    vp::Src d;
    v.resize(s.big(4, 400));
    s.detach(d);
    struct Leave {
      bool& in;
      ~Leave() { in = false; }
    } leave{inside = true};
    for (T& x : v) fill(d, x);
    return;
  }
  v.resize(s.len(0, 3));
  for (T& x : v) fill(s, x);
}
struct Filler {
  vp::Src& s;
  template <typename... F>
  void operator()(F&... f) {
    const int dummy[] = {0, (fill(s, f), 0)...};
    (void)dummy;
  }
};
template <typename M>
void fill(vp::Src& s, M& m) {
  m.fields(Filler{s});
}

/// Something in the buffer: how to write it and how to read it again.
struct Item {
  std::string what;
  std::function<uint64_t(Buffer&)> write;
  std::function<std::pair<std::string, uint64_t>(const Buffer&, uint64_t)> read;
  std::string expected;
};

template <typename M, typename W, typename R>
Item item(vp::Src& s, const char* what, W write, R read) {
  M m;
  fill(s, m);
  return {what, [m, write](Buffer& b) { return write(m, b); },
          [read](const Buffer& b, uint64_t at) {
            const auto r = read(b, at);
            return std::make_pair(wire(r.first), static_cast<uint64_t>(r.second));
          },
          wire(m)};
}
template <typename M>
Item wrapped(vp::Src& s, const char* what) {
  return item<M>(s, what, [](const M& m, Buffer& b) { return arc::RosMessageSerializationWrapper<M>(m, b); },
                 [](const Buffer& b, uint64_t at) { return arc::RosMessageDeserializationWrapper<M>(b, at); });
}
template <typename M>
std::string wires(const std::vector<M>& v) {
  std::string r = vp::cat(v.size(), ":");
  for (const M& m : v) r += wire(m);
  return r;
}
template <typename M, typename W, typename R>
Item list(vp::Src& s, const char* what, W write, R read) {
  std::vector<M> v;
  fill(s, v);
  return {what, [v, write](Buffer& b) { return arc::SerializeVector<M>(v, b, write); },
          [read](const Buffer& b, uint64_t at) {
            const auto r = arc::DeserializeVector<M>(b, at, read);
            return std::make_pair(wires(r.first), static_cast<uint64_t>(r.second));
          },
          wires(v)};
}

Item anyItem(vp::Src& s) {
  namespace g = geometry_msgs;
  switch (s.choice(18)) {
    case 0: return item<g::Point>(s, "Point", arc::SerializePoint, arc::DeserializePoint);
    case 1: return item<g::Vector3>(s, "Vector3", arc::SerializeVector3, arc::DeserializeVector3);
    case 2: return item<g::Quaternion>(s, "Quaternion", arc::SerializeQuaternion, arc::DeserializeQuaternion);
    case 3: return item<std_msgs::Header>(s, "Header", arc::SerializeHeader, arc::DeserializeHeader);
    case 4: return item<g::Pose>(s, "Pose", arc::SerializePose, arc::DeserializePose);
    case 5: return item<g::PoseStamped>(s, "PoseStamped", arc::SerializePoseStamped, arc::DeserializePoseStamped);
    case 6: return item<g::Transform>(s, "Transform", arc::SerializeTransform, arc::DeserializeTransform);
    case 7: return item<g::TransformStamped>(s, "TransformStamped", arc::SerializeTransformStamped, arc::DeserializeTransformStamped);
    case 8: return wrapped<visualization_msgs::Marker>(s, "wrapped Marker");
    case 9: return wrapped<trajectory_msgs::JointTrajectory>(s, "wrapped JointTrajectory");
    case 10: return wrapped<g::PoseArray>(s, "wrapped PoseArray");
    case 11: return wrapped<std_msgs::Header>(s, "wrapped Header");
    case 12: return wrapped<g::Point>(s, "wrapped Point");
    case 13: return wrapped<Empty>(s, "wrapped empty message");
    case 14: return list<g::Pose>(s, "list of Pose", arc::SerializePose, arc::DeserializePose);
    case 15: return list<g::TransformStamped>(s, "list of TransformStamped", arc::SerializeTransformStamped, arc::DeserializeTransformStamped);
    case 16: return list<g::PoseStamped>(s, "list of wrapped PoseStamped", arc::RosMessageSerializationWrapper<g::PoseStamped>, arc::RosMessageDeserializationWrapper<g::PoseStamped>);
    default: return list<visualization_msgs::Marker>(s, "list of wrapped Marker", arc::RosMessageSerializationWrapper<visualization_msgs::Marker>, arc::RosMessageDeserializationWrapper<visualization_msgs::Marker>);
  }
}

}  // namespace

/// Any sequence of messages behind whatever is in the buffer already comes back, each with the bytes it took.
VP_PROP(message_sequences_round_trip, 300000, 4000000) {
  const Buffer before = s.bytes(9);
  const auto items = s.list(1, 6, [&] { return anyItem(s); });
  Buffer b = before;
  std::vector<uint64_t> at;
  std::vector<uint64_t> written;
  std::string names;
  for (const Item& it : items) {
    const Buffer prefix = b;
    at.push_back(b.size());
    written.push_back(it.write(b));
    names += it.what + "; ";
    VP_CHECK(b.size() == prefix.size() + written.back(), it.what, ": ", b.size() - prefix.size(), " bytes written, reported ", written.back());
    VP_CHECK(std::equal(prefix.begin(), prefix.end(), b.begin()), it.what, ": what was in the buffer has changed");
    // the same message gives the same bytes in any buffer
    Buffer alone;
    it.write(alone);
    VP_CHECK(Buffer(b.begin() + static_cast<std::ptrdiff_t>(at.back()), b.end()) == alone, it.what, ": other bytes in another buffer");
  }
  s.nontrivialIf(items.size() >= 2);
  s.label(items[0].what);
  if (s.noting()) s.note(vp::cat("after ", before.size(), " bytes: ", names));
  for (int trailing = 0; trailing < 2; trailing++) {
    for (size_t k = 0; k < items.size(); k++) {
      const auto r = items[k].read(b, at[k]);
      VP_CHECK(r.first == items[k].expected, items[k].what, " read at ", at[k], " of ", b.size(), " differs from what was written (", names, ")");
      VP_CHECK(r.second == written[k], items[k].what, ": ", written[k], " bytes written, ", r.second, " read");
    }
    const Buffer more = s.bytes(5);
    b.insert(b.end(), more.begin(), more.end());
  }
}

/// A wrapped message that is cut short is reported, whatever the cut.
VP_PROP(cut_messages_are_reported, 300000, 3000000) {
  Buffer b = s.bytes(5);
  const uint64_t at = b.size();
  visualization_msgs::Marker m;
  fill(s, m);
  arc::RosMessageSerializationWrapper(m, b);
  const size_t needed = wire(m).size() - 4;
  const size_t keep = static_cast<size_t>(s.choice(needed));
  s.nontrivialIf(keep > 0);
  if (s.noting()) s.note(vp::cat(keep, " of ", needed, " bytes of a Marker"));
  b.resize(at + keep);
  bool threw = false;
  try {
    arc::RosMessageDeserializationWrapper<visualization_msgs::Marker>(b, at);
  } catch (const std::exception&) {
    threw = true;
  }
  VP_CHECK(threw, "a Marker was read from ", keep, " of its ", needed, " bytes");
}
