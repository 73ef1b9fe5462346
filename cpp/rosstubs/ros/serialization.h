// Stand-in for roscpp_serialization: the wire format (little endian, lengths as uint32) and the layout of SerializedMessage.
#pragma once

#include <ros/time.h>

#include <boost/shared_array.hpp>
#include <boost/shared_ptr.hpp>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <vector>

namespace ros {

class SerializedMessage {
 public:
  boost::shared_array<uint8_t> buf;
  size_t num_bytes;
  uint8_t* message_start;
  boost::shared_ptr<void const> message;
  const std::type_info* type_info;

  SerializedMessage() : buf(boost::shared_array<uint8_t>()), num_bytes(0), message_start(0), type_info(0) {}
  SerializedMessage(boost::shared_array<uint8_t> b, size_t n) : buf(b), num_bytes(n), message_start(buf ? buf.get() : 0), type_info(0) {}
};

namespace serialization {

struct StreamOverrunException : std::runtime_error {
  explicit StreamOverrunException(const std::string& what) : std::runtime_error(what) {}
};

struct Stream {
  uint8_t* data;
  uint32_t left;
  Stream(uint8_t* d, uint32_t n) : data(d), left(n) {}
  uint8_t* getData() { return data; }
  uint32_t getLength() { return left; }
  uint8_t* advance(uint32_t n) {
    if (n > left) throw StreamOverrunException("Buffer Overrun");
    uint8_t* old = data;
    data += n;
    left -= n;
    return old;
  }
};

struct OStream : Stream {
  using Stream::Stream;
  template <typename T>
  void next(const T& t);
};

struct IStream : Stream {
  using Stream::Stream;
  template <typename T>
  void next(T& t);
};

struct LStream {
  uint32_t count = 0;
  template <typename T>
  void next(const T& t);
};

/// Messages offer a member fields(f) that calls f with each of their fields.
template <typename T, typename = void>
struct Code {
  template <typename F>
  struct Each {
    F& s;
    template <typename... Fields>
    void operator()(Fields&... f) {
      const int dummy[] = {(s.next(f), 0)...};
      (void)dummy;
    }
  };
  static void write(OStream& s, const T& t) { const_cast<T&>(t).fields(Each<OStream>{s}); }
  static void read(IStream& s, T& t) { t.fields(Each<IStream>{s}); }
  static void length(LStream& s, const T& t) { const_cast<T&>(t).fields(Each<LStream>{s}); }
};

template <typename T>
struct Code<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
  static void write(OStream& s, const T& t) { std::memcpy(s.advance(sizeof(T)), &t, sizeof(T)); }
  static void read(IStream& s, T& t) { std::memcpy(&t, s.advance(sizeof(T)), sizeof(T)); }
  static void length(LStream& s, const T&) { s.count += sizeof(T); }
};

template <>
struct Code<std::string> {
  static void write(OStream& s, const std::string& t) {
    const uint32_t n = static_cast<uint32_t>(t.size());
    s.next(n);
    if (n) std::memcpy(s.advance(n), t.data(), n);
  }
  static void read(IStream& s, std::string& t) {
    uint32_t n = 0;
    s.next(n);
    const uint8_t* p = s.advance(n);
    t.assign(reinterpret_cast<const char*>(p), n);
  }
  static void length(LStream& s, const std::string& t) { s.count += 4 + static_cast<uint32_t>(t.size()); }
};

template <typename T>
struct Code<T, typename std::enable_if<std::is_same<T, Duration>::value || std::is_same<T, Time>::value>::type> {
  static void write(OStream& s, const T& t) { s.next(t.sec), s.next(t.nsec); }
  static void read(IStream& s, T& t) { s.next(t.sec), s.next(t.nsec); }
  static void length(LStream& s, const T&) { s.count += 8; }
};

template <typename T>
struct Code<std::vector<T>> {
  static void write(OStream& s, const std::vector<T>& t) {
    s.next(static_cast<uint32_t>(t.size()));
    for (const T& x : t) s.next(x);
  }
  static void read(IStream& s, std::vector<T>& t) {
    uint32_t n = 0;
    s.next(n);
    t.clear();
    for (uint32_t k = 0; k < n; k++) {
      t.emplace_back();
      s.next(t.back());
    }
  }
  static void length(LStream& s, const std::vector<T>& t) {
    s.count += 4;
    for (const T& x : t) s.next(x);
  }
};

template <typename T>
void OStream::next(const T& t) { Code<T>::write(*this, t); }
template <typename T>
void IStream::next(T& t) { Code<T>::read(*this, t); }
template <typename T>
void LStream::next(const T& t) { Code<T>::length(*this, t); }

template <typename M>
uint32_t serializationLength(const M& m) {
  LStream s;
  s.next(m);
  return s.count;
}

template <typename T, typename S>
void serialize(S& s, const T& t) { s.next(t); }
template <typename T, typename S>
void deserialize(S& s, T& t) { s.next(t); }

/// As in roscpp_serialization: the length of the message goes before it, and message_start is behind that length.
template <typename M>
SerializedMessage serializeMessage(const M& message) {
  SerializedMessage m;
  const uint32_t len = serializationLength(message);
  m.num_bytes = len + 4;
  m.buf.reset(new uint8_t[m.num_bytes]);
  OStream s(m.buf.get(), static_cast<uint32_t>(m.num_bytes));
  s.next(static_cast<uint32_t>(m.num_bytes) - 4);
  m.message_start = s.getData();
  s.next(message);
  return m;
}

template <typename M>
void deserializeMessage(const SerializedMessage& m, M& message) {
  IStream s(m.message_start, static_cast<uint32_t>(m.num_bytes - static_cast<size_t>(m.message_start - m.buf.get())));
  s.next(message);
}

}  // namespace serialization
}  // namespace ros
