#include "vp.hpp"
#include <arc_utilities/serialization.hpp>

#include "ser_common.hpp"

using namespace ser;
using namespace arc_utilities;

// Independent big-endian encoder.
template <class T>
static void be(const T& v, Buf& b) {
  uint64_t bits = 0;
  unsigned char raw[sizeof(T)];
  std::memcpy(raw, &v, sizeof(T));
  for (size_t k = 0; k < sizeof(T); ++k) bits |= static_cast<uint64_t>(raw[k]) << (8 * k);  // little-endian host
  for (size_t k = sizeof(T); k-- > 0;) b.push_back(static_cast<uint8_t>(bits >> (8 * k)));
}
template <class T>
struct Be {
  static void enc(const T& v, Buf& b) { be(v, b); }
};
template <class C>
struct Be<std::basic_string<C>> {
  static void enc(const std::basic_string<C>& v, Buf& b) {
    be<uint64_t>(v.size(), b);
    for (C c : v) be(c, b);
  }
};
template <class E>
struct Be<std::vector<E>> {
  static void enc(const std::vector<E>& v, Buf& b) {
    be<uint64_t>(v.size(), b);
    for (const E& e : v) Be<E>::enc(e, b);
  }
};
template <class A, class B>
struct Be<std::pair<A, B>> {
  static void enc(const std::pair<A, B>& v, Buf& b) {
    Be<A>::enc(v.first, b);
    Be<B>::enc(v.second, b);
  }
};
template <class K, class V, class C>
struct Be<std::map<K, V, C>> {
  static void enc(const std::map<K, V, C>& v, Buf& b) {
    be<uint64_t>(v.size(), b);
    for (const auto& e : v) {
      Be<K>::enc(e.first, b);
      Be<V>::enc(e.second, b);
    }
  }
};

template <class T>
static uint64_t wPod(const T& v, Buf& b) {
  return SerializeNetworkFixedSizePOD<T>(v, b);
}
template <class T>
static std::pair<T, uint64_t> rPod(const Buf& b, const uint64_t c) {
  return DeserializeNetworkFixedSizePOD<T>(b, c);
}
template <class C>
static uint64_t wStr(const std::basic_string<C>& v, Buf& b) {
  return SerializeNetworkString<C>(v, b);
}
template <class C>
static std::pair<std::basic_string<C>, uint64_t> rStr(const Buf& b, const uint64_t c) {
  return DeserializeNetworkString<C>(b, c);
}
using BStr = std::basic_string<int8_t>;
using HStr = std::basic_string<uint16_t>;
namespace ser {
template <>
struct Gen<BStr> {
  static BStr make(vp::Src& s) {
    BStr o;
    if (size_t n = takeLarge()) {
      vp::Src d;
      s.detach(d);
      while (n--) o.push_back(Gen<int8_t>::make(d));
      return o;
    }
    s.repeat(0, 30, [&] { o.push_back(Gen<int8_t>::make(s)); });
    return o;
  }
  static bool same(const BStr& a, const BStr& b) {
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
  }
  static void show(std::ostream& o, const BStr& v) { o << "str" << v.size(); }
};
}  // namespace ser

using VecD = std::vector<double>;
using VecI = std::vector<int32_t>;
using VecB = std::vector<BStr>;
static uint64_t wVecD(const VecD& v, Buf& b) { return SerializeNetworkVector<double>(v, b, wPod<double>); }
static std::pair<VecD, uint64_t> rVecD(const Buf& b, const uint64_t c) {
  return DeserializeNetworkVector<double>(b, c, rPod<double>);
}
static uint64_t wVecI(const VecI& v, Buf& b) { return SerializeNetworkVector<int32_t>(v, b, wPod<int32_t>); }
static std::pair<VecI, uint64_t> rVecI(const Buf& b, const uint64_t c) {
  return DeserializeNetworkVector<int32_t>(b, c, rPod<int32_t>);
}
static uint64_t wVecB(const VecB& v, Buf& b) { return SerializeNetworkVector<BStr>(v, b, wStr<int8_t>); }
static std::pair<VecB, uint64_t> rVecB(const Buf& b, const uint64_t c) {
  return DeserializeNetworkVector<BStr>(b, c, rStr<int8_t>);
}
using VecH = std::vector<uint16_t>;
static uint64_t wVecH(const VecH& v, Buf& b) { return SerializeNetworkVector<uint16_t>(v, b, wPod<uint16_t>); }
static std::pair<VecH, uint64_t> rVecH(const Buf& b, const uint64_t c) {
  return DeserializeNetworkVector<uint16_t>(b, c, rPod<uint16_t>);
}
using PairP = std::pair<uint16_t, double>;
static uint64_t wPairP(const PairP& v, Buf& b) {
  return SerializeNetworkPair<uint16_t, double>(v, b, wPod<uint16_t>, wPod<double>);
}
static std::pair<PairP, uint64_t> rPairP(const Buf& b, const uint64_t c) {
  return DeserializeNetworkPair<uint16_t, double>(b, c, rPod<uint16_t>, rPod<double>);
}
using MapI = std::map<int64_t, VecI>;
static uint64_t wMapI(const MapI& v, Buf& b) { return SerializeNetworkMap<int64_t, VecI>(v, b, wPod<int64_t>, wVecI); }
static std::pair<MapI, uint64_t> rMapI(const Buf& b, const uint64_t c) {
  return DeserializeNetworkMap<int64_t, VecI>(b, c, rPod<int64_t>, rVecI);
}
using VecP = std::vector<PairP>;
using PairDeep = std::pair<VecB, MapI>;
using MapH = std::map<VecH, float>;

template <class T, class W, class R>
static Item net(vp::Src& s, const std::string& type, W w, R r) {
  auto keep = std::make_shared<T>(Gen<T>::make(s));
  Item it;
  it.write = [keep, w](Buf& b) { return w(*keep, b); };
  it.readAndCheck = [keep, r, type](const Buf& b, uint64_t cur) {
    const auto got = r(b, cur);
    if (!Gen<T>::same(*keep, got.first)) {
      std::ostringstream o;
      o << "read back a different " << type << ": wrote ";
      Gen<T>::show(o, *keep);
      o << " got ";
      Gen<T>::show(o, got.first);
      vp::fail(o.str());
    }
    return static_cast<uint64_t>(got.second);
  };
  it.show = [keep, type](std::ostream& o) {
    o << type << " ";
    Gen<T>::show(o, *keep);
  };
  it.expected = [keep](Buf& b) { Be<T>::enc(*keep, b); };
  s.label("type " + type);
  return it;
}

static Item anyItem(vp::Src& s) {
  switch (s.choice(22)) {
    case 0: return net<uint8_t>(s, "u8", wPod<uint8_t>, rPod<uint8_t>);
    case 1: return net<uint16_t>(s, "u16", wPod<uint16_t>, rPod<uint16_t>);
    case 2: return net<uint32_t>(s, "u32", wPod<uint32_t>, rPod<uint32_t>);
    case 3: return net<uint64_t>(s, "u64", wPod<uint64_t>, rPod<uint64_t>);
    case 4: return net<int8_t>(s, "i8", wPod<int8_t>, rPod<int8_t>);
    case 5: return net<int16_t>(s, "i16", wPod<int16_t>, rPod<int16_t>);
    case 6: return net<int32_t>(s, "i32", wPod<int32_t>, rPod<int32_t>);
    case 7: return net<int64_t>(s, "i64", wPod<int64_t>, rPod<int64_t>);
    case 8: return net<float>(s, "float", wPod<float>, rPod<float>);
    case 9: return net<double>(s, "double", wPod<double>, rPod<double>);
    case 10: return net<BStr>(s, "string8", wStr<int8_t>, rStr<int8_t>);
    case 11: return net<VecH>(s, "vector<u16>", wVecH, rVecH);
    case 12: return net<VecD>(s, "vector<double>", wVecD, rVecD);
    case 13: return net<VecI>(s, "vector<i32>", wVecI, rVecI);
    case 14: return net<VecB>(s, "vector<string>", wVecB, rVecB);
    case 15: return net<PairP>(s, "pair<u16,double>", wPairP, rPairP);
    case 16: return net<MapI>(s, "map<i64,vector>", wMapI, rMapI);
    case 17:
      return net<VecP>(
          s, "vector<pair>", [](const VecP& v, Buf& b) { return SerializeNetworkVector<PairP>(v, b, wPairP); },
          [](const Buf& b, uint64_t c) { return DeserializeNetworkVector<PairP>(b, c, rPairP); });
    case 18:
      return net<PairDeep>(
          s, "pair<vector<string>,map>",
          [](const PairDeep& v, Buf& b) { return SerializeNetworkPair<VecB, MapI>(v, b, wVecB, wMapI); },
          [](const Buf& b, uint64_t c) { return DeserializeNetworkPair<VecB, MapI>(b, c, rVecB, rMapI); });
    case 19:
      return net<MapH>(
          s, "map<vector<u16>,float>",
          [](const MapH& v, Buf& b) { return SerializeNetworkMap<VecH, float>(v, b, wVecH, wPod<float>); },
          [](const Buf& b, uint64_t c) { return DeserializeNetworkMap<VecH, float>(b, c, rVecH, rPod<float>); });
    case 20: return net<std::vector<uint8_t>>(
          s, "vector<u8>", [](const Buf& v, Buf& b) { return SerializeNetworkVector<uint8_t>(v, b, wPod<uint8_t>); },
          [](const Buf& b, uint64_t c) { return DeserializeNetworkVector<uint8_t>(b, c, rPod<uint8_t>); });
    default: return net<std::vector<VecI>>(
          s, "vector<vector<i32>>", [](const std::vector<VecI>& v, Buf& b) { return SerializeNetworkVector<VecI>(v, b, wVecI); },
          [](const Buf& b, uint64_t c) { return DeserializeNetworkVector<VecI>(b, c, rVecI); });
  }
}

VP_PROP(network_sequence_round_trip, 24000, 400000) {
  std::vector<Item> items;
  s.repeat(1, 10, [&] { items.push_back(anyItem(s)); });
  roundTrip(s, items);
}

// Strings of two-byte characters: length and characters are all big-endian.
VP_PROP(network_wide_strings, 60000, 600000) {
  HStr v;
  s.repeat(0, 30, [&] { v.push_back(Gen<uint16_t>::make(s)); });
  Buf b = s.bytes(9), want = b;
  const size_t off = b.size();
  const uint64_t n = SerializeNetworkString<uint16_t>(v, b);
  be<uint64_t>(v.size(), want);
  for (size_t k = 0; k < v.size(); ++k) be<uint16_t>(v[k], want);
  VP_CHECK(b == want);
  VP_CHECK(n == b.size() - off);
  const auto r = DeserializeNetworkString<uint16_t>(b, off);
  VP_CHECK(r.second == n && r.first.size() == v.size() && std::equal(v.begin(), v.end(), r.first.begin()));
  s.nontrivialIf(!v.empty());
  s.note("wide string of ").note(v.size());
}

// What is written may be part of the buffer it is appended to.
template <typename T>
static void writeOwnPart(vp::Src& s) {
  Buf b = s.bytes(40);
  while (b.size() % sizeof(T) || b.empty()) b.push_back((uint8_t)s.byte());
  if (s.b()) b.shrink_to_fit();
  else b.reserve(b.size() + s.len(0, 30));
  const Buf was = b;
  const uint8_t* at = b.data() + s.choice(b.size() / sizeof(T)) * sizeof(T);
  T v;
  std::memcpy(&v, at, sizeof(T));
  const uint64_t n = SerializeNetworkFixedSizePOD<T>(*reinterpret_cast<const T*>(at), b);
  VP_CHECK(n == sizeof(T) && b.size() == was.size() + n, "reported ", n, " bytes, appended ", b.size() - was.size());
  VP_CHECK(std::equal(was.begin(), was.end(), b.begin()), "bytes before were changed");
  const T back = DeserializeNetworkFixedSizePOD<T>(b, was.size()).first;
  VP_CHECK(std::memcmp(&back, &v, sizeof(T)) == 0, "a value of the buffer appended to it is another one");
}
VP_PROP(parts_of_the_buffer_itself, 20000, 300000) {
  s.nontrivial();
  switch (s.choice(4)) {
    case 0: return writeOwnPart<uint16_t>(s);
    case 1: return writeOwnPart<int32_t>(s);
    case 2: return writeOwnPart<uint64_t>(s);
  }
  Buf b = s.bytes(60);
  if (s.b()) b.shrink_to_fit();
  const Buf was = b;
  const uint64_t n = SerializeNetworkVector<uint8_t>(b, b, SerializeNetworkFixedSizePOD<uint8_t>);
  VP_CHECK(n == was.size() + 8 && b.size() == was.size() + n, "reported ", n, " bytes of ", was.size() + 8);
  VP_CHECK(std::equal(was.begin(), was.end(), b.begin()), "bytes before were changed");
  VP_CHECK((DeserializeNetworkVector<uint8_t>(b, was.size(), DeserializeNetworkFixedSizePOD<uint8_t>).first == was), "a buffer appended to itself is another one");
  s.note("a buffer of ").note(was.size()).note(" bytes into itself");
}

VP_PROP(long_network_values_round_trip, 500, 8000) { largeRoundTrip(s, 70000, [&] { return anyItem(s); }); }
