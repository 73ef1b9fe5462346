#include "vp.hpp"
#include <arc_utilities/serialization.hpp>

#include "ser_common.hpp"

using namespace ser;
using namespace arc_utilities;

struct Pod {
  double d;
  int32_t i;
  uint8_t c[5];
  int16_t h;
};
namespace ser {
template <>
struct Gen<Pod> {
  static Pod make(vp::Src& s) {
    Pod p;
    std::memset(&p, 0, sizeof p);
    p.d = s.anyDouble();
    p.i = Gen<int32_t>::make(s);
    for (auto& x : p.c) x = s.byte();
    p.h = Gen<int16_t>::make(s);
    return p;
  }
  static bool same(const Pod& a, const Pod& b) {
    return vp::sameBits(a.d, b.d) && a.i == b.i && std::memcmp(a.c, b.c, 5) == 0 && a.h == b.h;
  }
  static void show(std::ostream& o, const Pod& p) { o << "Pod(" << p.d << "," << p.i << "," << p.h << ")"; }
};
template <>
struct Gen<std::array<int16_t, 3>> {
  using T = std::array<int16_t, 3>;
  static T make(vp::Src& s) {
    T t;
    for (auto& x : t) x = Gen<int16_t>::make(s);
    return t;
  }
  static bool same(const T& a, const T& b) { return a == b; }
  static void show(std::ostream& o, const T& p) { o << "arr(" << p[0] << "," << p[1] << "," << p[2] << ")"; }
};
}  // namespace ser

// A container that is vector-like but not a std::vector.
struct Ring {
  std::vector<int32_t> d;
  size_t size() const { return d.size(); }
  const int32_t& operator[](size_t k) const { return d[k]; }
  void reserve(size_t k) { d.reserve(k); }
  void push_back(int32_t v) { d.push_back(v); }
  void shrink_to_fit() { d.shrink_to_fit(); }
};
namespace ser {
template <>
struct Gen<Ring> {
  static Ring make(vp::Src& s) { return Ring{Gen<std::vector<int32_t>>::make(s)}; }
  static bool same(const Ring& a, const Ring& b) { return a.d == b.d; }
  static void show(std::ostream& o, const Ring& r) { Gen<std::vector<int32_t>>::show(o, r.d); }
};
}  // namespace ser

template <class T>
static uint64_t wPod(const T& v, Buf& b) {
  return SerializeFixedSizePOD<T>(v, b);
}
template <class T>
static std::pair<T, uint64_t> rPod(const Buf& b, const uint64_t c) {
  return DeserializeFixedSizePOD<T>(b, c);
}
template <class C>
static uint64_t wStr(const std::basic_string<C>& v, Buf& b) {
  return SerializeString<C>(v, b);
}
template <class C>
static std::pair<std::basic_string<C>, uint64_t> rStr(const Buf& b, const uint64_t c) {
  return DeserializeString<C>(b, c);
}
using VecD = std::vector<double>;
static uint64_t wVecD(const VecD& v, Buf& b) { return SerializeVector<double>(v, b, wPod<double>); }
static std::pair<VecD, uint64_t> rVecD(const Buf& b, const uint64_t c) { return DeserializeVector<double>(b, c, rPod<double>); }
using VecS = std::vector<std::string>;
static uint64_t wVecS(const VecS& v, Buf& b) { return SerializeVector<std::string>(v, b, wStr<char>); }
static std::pair<VecS, uint64_t> rVecS(const Buf& b, const uint64_t c) {
  return DeserializeVector<std::string>(b, c, rStr<char>);
}
using PairSI = std::pair<std::string, int32_t>;
static uint64_t wPairSI(const PairSI& v, Buf& b) {
  return SerializePair<std::string, int32_t>(v, b, wStr<char>, wPod<int32_t>);
}
static std::pair<PairSI, uint64_t> rPairSI(const Buf& b, const uint64_t c) {
  return DeserializePair<std::string, int32_t>(b, c, rStr<char>, rPod<int32_t>);
}
using MapSV = std::map<std::string, VecD>;
static uint64_t wMapSV(const MapSV& v, Buf& b) { return SerializeMap<std::string, VecD>(v, b, wStr<char>, wVecD); }
static std::pair<MapSV, uint64_t> rMapSV(const Buf& b, const uint64_t c) {
  return DeserializeMap<std::string, VecD>(b, c, rStr<char>, rVecD);
}
using MapG = std::map<int16_t, uint8_t, std::greater<int16_t>>;
using VecMap = std::vector<MapSV>;
using VecVec = std::vector<VecS>;
using PairDeep = std::pair<VecS, MapSV>;
using MapDeep = std::map<PairSI, VecVec>;
static uint64_t wVecVec(const VecVec& v, Buf& b) { return SerializeVector<VecS>(v, b, wVecS); }
static std::pair<VecVec, uint64_t> rVecVec(const Buf& b, const uint64_t c) { return DeserializeVector<VecS>(b, c, rVecS); }

static Item anyItem(vp::Src& s) {
  switch (s.choice(26)) {
    case 0: return makeItem<uint8_t>(s, "u8", wPod<uint8_t>, rPod<uint8_t>);
    case 1: return makeItem<int64_t>(s, "i64", wPod<int64_t>, rPod<int64_t>);
    case 2: return makeItem<double>(s, "double", wPod<double>, rPod<double>);
    case 3: return makeItem<float>(s, "float", wPod<float>, rPod<float>);
    case 4: return makeItem<uint16_t>(s, "u16", wPod<uint16_t>, rPod<uint16_t>);
    case 5: return makeItem<int32_t>(s, "i32", wPod<int32_t>, rPod<int32_t>);
    case 6: return makeItem<bool>(s, "bool", wPod<bool>, rPod<bool>);
    case 7: return makeItem<Pod>(s, "struct", wPod<Pod>, rPod<Pod>);
    case 8: return makeItem<std::array<int16_t, 3>>(s, "array", wPod<std::array<int16_t, 3>>, rPod<std::array<int16_t, 3>>);
    case 9: return makeItem<std::string>(s, "string", wStr<char>, rStr<char>);
    case 10: return makeItem<std::u16string>(s, "u16string", wStr<char16_t>, rStr<char16_t>);
    case 11: return makeItem<std::wstring>(s, "wstring", wStr<wchar_t>, rStr<wchar_t>);
    case 12: return makeItem<VecD>(s, "vector<double>", wVecD, rVecD);
    case 13: return makeItem<VecS>(s, "vector<string>", wVecS, rVecS);
    case 14:
      return makeItem<std::vector<Pod>>(
          s, "vector<struct>", [](const std::vector<Pod>& v, Buf& b) { return SerializeVector<Pod>(v, b, wPod<Pod>); },
          [](const Buf& b, uint64_t c) { return DeserializeVector<Pod>(b, c, rPod<Pod>); });
    case 15:
      return makeItem<Ring>(
          s, "vectorlike", [](const Ring& v, Buf& b) { return SerializeVectorLike<int32_t, Ring>(v, b, wPod<int32_t>); },
          [](const Buf& b, uint64_t c) { return DeserializeVectorLike<int32_t, Ring>(b, c, rPod<int32_t>); });
    case 16:
      return makeItem<VecS>(
          s, "vectorlike<vector>", [](const VecS& v, Buf& b) { return SerializeVectorLike<std::string, VecS>(v, b, wStr<char>); },
          [](const Buf& b, uint64_t c) { return DeserializeVectorLike<std::string, VecS>(b, c, rStr<char>); });
    case 17: return makeItem<PairSI>(s, "pair<string,i32>", wPairSI, rPairSI);
    case 18: return makeItem<MapSV>(s, "map<string,vector>", wMapSV, rMapSV);
    case 19:
      return makeItem<MapG>(
          s, "map<i16,u8,greater>",
          [](const MapG& v, Buf& b) {
            return SerializeMap<int16_t, uint8_t, std::greater<int16_t>>(v, b, wPod<int16_t>, wPod<uint8_t>);
          },
          [](const Buf& b, uint64_t c) {
            // The generic form must be told the comparator through its own template parameter.
            auto r = DeserializeMap<int16_t, uint8_t, std::greater<int16_t>>(b, c, rPod<int16_t>, rPod<uint8_t>);
            return r;
          });
    case 20:
      return makeItem<VecMap>(
          s, "vector<map>", [](const VecMap& v, Buf& b) { return SerializeVector<MapSV>(v, b, wMapSV); },
          [](const Buf& b, uint64_t c) { return DeserializeVector<MapSV>(b, c, rMapSV); });
    case 21: return makeItem<VecVec>(s, "vector<vector<string>>", wVecVec, rVecVec);
    case 22:
      return makeItem<PairDeep>(
          s, "pair<vector,map>", [](const PairDeep& v, Buf& b) { return SerializePair<VecS, MapSV>(v, b, wVecS, wMapSV); },
          [](const Buf& b, uint64_t c) { return DeserializePair<VecS, MapSV>(b, c, rVecS, rMapSV); });
    case 23:
      return makeItem<MapDeep>(
          s, "map<pair,vector<vector>>",
          [](const MapDeep& v, Buf& b) { return SerializeMap<PairSI, VecVec>(v, b, wPairSI, wVecVec); },
          [](const Buf& b, uint64_t c) { return DeserializeMap<PairSI, VecVec>(b, c, rPairSI, rVecVec); });
    case 24: return makeItem<int16_t>(s, "i16", wPod<int16_t>, rPod<int16_t>);
    default: return makeItem<uint64_t>(s, "u64", wPod<uint64_t>, rPod<uint64_t>);
  }
}

VP_PROP(sequence_round_trip, 10000, 200000) {
  std::vector<Item> items;
  s.repeat(1, 10, [&] { items.push_back(anyItem(s)); });
  roundTrip(s, items);
}

// Serializing equal values gives equal bytes wherever they are written.
VP_PROP(bytes_do_not_depend_on_position, 8000, 100000) {
  Item it = anyItem(s);
  Buf a, b = s.bytes(30);
  const size_t off = b.size();
  it.write(a);
  it.write(b);
  VP_CHECK(Buf(b.begin() + static_cast<long>(off), b.end()) == a, "same value, different bytes at offset ", off);
  VP_CHECK(it.readAndCheck(a, 0) == a.size());
  s.nontrivialIf(off > 0);
  s.note("offset ").note(off).note(" size ").note(a.size());
}

// What is written may be part of the buffer it is appended to.
template <typename T>
static void writeOwnPart(vp::Src& s) {
  Buf b = s.bytes(40);
  while (b.size() % sizeof(T) || b.empty()) b.push_back((uint8_t)s.byte());
  if (s.b()) b.shrink_to_fit();
  else b.reserve(b.size() + s.len(0, 30));
  const Buf was = b;
  const uint8_t* at = b.data() + s.choice(b.size() / sizeof(T)) * sizeof(T);
  T v;
  std::memcpy(&v, at, sizeof(T));
  const uint64_t n = SerializeFixedSizePOD<T>(*reinterpret_cast<const T*>(at), b);
  VP_CHECK(n == sizeof(T) && b.size() == was.size() + n, "reported ", n, " bytes, appended ", b.size() - was.size());
  VP_CHECK(std::equal(was.begin(), was.end(), b.begin()), "bytes before were changed");
  const T back = DeserializeFixedSizePOD<T>(b, was.size()).first;
  VP_CHECK(std::memcmp(&back, &v, sizeof(T)) == 0, "a value of the buffer appended to it is another one");
}
VP_PROP(parts_of_the_buffer_itself, 20000, 300000) {
  s.nontrivial();
  switch (s.choice(4)) {
    case 0: return writeOwnPart<uint16_t>(s);
    case 1: return writeOwnPart<int32_t>(s);
    case 2: return writeOwnPart<uint64_t>(s);
  }
  Buf b = s.bytes(60);
  if (s.b()) b.shrink_to_fit();
  const Buf was = b;
  const uint64_t n = SerializeVector<uint8_t>(b, b, SerializeFixedSizePOD<uint8_t>);
  VP_CHECK(n == was.size() + 8 && b.size() == was.size() + n, "reported ", n, " bytes of ", was.size() + 8);
  VP_CHECK(std::equal(was.begin(), was.end(), b.begin()), "bytes before were changed");
  VP_CHECK((DeserializeVector<uint8_t>(b, was.size(), DeserializeFixedSizePOD<uint8_t>).first == was), "a buffer appended to itself is another one");
  s.note("a buffer of ").note(was.size()).note(" bytes into itself");
}

VP_PROP(long_values_round_trip, 500, 8000) { largeRoundTrip(s, 70000, [&] { return anyItem(s); }); }
