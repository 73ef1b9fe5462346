// Type-driven generation, serialization and comparison for the serialization checks.
#pragma once
#include <array>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "vp.hpp"

namespace ser {

using Buf = std::vector<uint8_t>;

// The number of elements that the next large container gets; 0 for the usual small ones.
static size_t large = 0;
inline size_t takeLarge() {
  const size_t n = large;
  large = 0;
  return n;
}

template <class T>
struct Gen;  // static T make(vp::Src&); static bool same(a, b); static void show(ostream, v)

template <class T>
struct GenInt {
  static T make(vp::Src& s) {
    switch (s.choice(3)) {
      case 0: return static_cast<T>(s.choice(4));
      case 1: {
        static const T sp[] = {static_cast<T>(0), static_cast<T>(1), static_cast<T>(-1), std::numeric_limits<T>::max(),
                               std::numeric_limits<T>::min(), static_cast<T>(0x80), static_cast<T>(0xff00)};
        return sp[s.choice(7)];
      }
      default: return static_cast<T>(s.bits64());
    }
  }
  static bool same(const T& a, const T& b) { return a == b; }
  static void show(std::ostream& o, const T& v) { o << +v; }
};
#define SER_INT(T) \
  template <>      \
  struct Gen<T> : GenInt<T> {}
SER_INT(uint8_t);
SER_INT(uint16_t);
SER_INT(uint32_t);
SER_INT(uint64_t);
SER_INT(int8_t);
SER_INT(int16_t);
SER_INT(int32_t);
SER_INT(int64_t);
SER_INT(char);
template <>
struct Gen<char16_t> {
  static char16_t make(vp::Src& s) { return static_cast<char16_t>(GenInt<uint16_t>::make(s)); }
  static bool same(char16_t a, char16_t b) { return a == b; }
  static void show(std::ostream& o, char16_t v) { o << static_cast<unsigned>(v); }
};
template <>
struct Gen<wchar_t> {
  static wchar_t make(vp::Src& s) { return static_cast<wchar_t>(GenInt<int32_t>::make(s)); }
  static bool same(wchar_t a, wchar_t b) { return a == b; }
  static void show(std::ostream& o, wchar_t v) { o << static_cast<long>(v); }
};
template <>
struct Gen<bool> {
  static bool make(vp::Src& s) { return s.b(); }
  static bool same(bool a, bool b) { return a == b; }
  static void show(std::ostream& o, bool v) { o << v; }
};
template <>
struct Gen<double> {
  static double make(vp::Src& s) { return s.anyDouble(); }
  static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
  static void show(std::ostream& o, double v) { o << v; }
};
template <>
struct Gen<float> {
  static float make(vp::Src& s) {
    if (s.b()) return static_cast<float>(s.si(1000)) / 8.0f;
    const uint32_t b = static_cast<uint32_t>(s.bits64());
    float f;
    std::memcpy(&f, &b, 4);
    return f;
  }
  static bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0; }
  static void show(std::ostream& o, float v) { o << v; }
};

template <class C>
struct Gen<std::basic_string<C>> {
  using T = std::basic_string<C>;
  static T make(vp::Src& s) {
    T out;
    if (size_t n = takeLarge()) {
      vp::Src d;
      s.detach(d);
      while (n-- && d.pos_ < 150000) out.push_back(Gen<C>::make(d));
      return out;
    }
    if (s.chance(1, 40)) {  // long: length header needs more than one byte
      out.assign(s.u(250, 700), Gen<C>::make(s));
      return out;
    }
    s.repeat(0, 40, [&] { out.push_back(Gen<C>::make(s)); });
    return out;
  }
  static bool same(const T& a, const T& b) { return a == b; }
  static void show(std::ostream& o, const T& v) {
    o << "s" << v.size() << "\"";
    for (size_t k = 0; k < v.size() && k < 8; ++k) o << static_cast<long>(v[k]) << " ";
    o << "\"";
  }
};
template <class E, class A>
struct Gen<std::vector<E, A>> {
  using T = std::vector<E, A>;
  static T make(vp::Src& s) {
    T out;
    if (size_t n = takeLarge()) {
      vp::Src d;
      s.detach(d);
      while (n-- && d.pos_ < 150000) out.push_back(Gen<E>::make(d));
      return out;
    }
    if (s.chance(1, 60)) {
      const size_t n = s.u(250, 300);
      const E e = Gen<E>::make(s);
      for (size_t k = 0; k < n; ++k) out.push_back(e);
    }
    s.repeat(0, 12, [&] { out.push_back(Gen<E>::make(s)); });
    return out;
  }
  static bool same(const T& a, const T& b) {
    if (a.size() != b.size()) return false;
    for (size_t k = 0; k < a.size(); ++k)
      if (!Gen<E>::same(a[k], b[k])) return false;
    return true;
  }
  static void show(std::ostream& o, const T& v) {
    o << "[";
    for (size_t k = 0; k < v.size() && k < 6; ++k) {
      if (k) o << ",";
      Gen<E>::show(o, v[k]);
    }
    o << (v.size() > 6 ? "...]" : "]");
  }
};
template <class K, class V, class C>
struct Gen<std::map<K, V, C>> {
  using T = std::map<K, V, C>;
  static T make(vp::Src& s) {
    T out;
    if (size_t n = takeLarge()) {
      vp::Src d;
      s.detach(d);
      while (n-- && d.pos_ < 150000) {
        K k = Gen<K>::make(d);
        out[k] = Gen<V>::make(d);
      }
      return out;
    }
    s.repeat(0, 10, [&] {
      K k = Gen<K>::make(s);
      out[k] = Gen<V>::make(s);
    });
    return out;
  }
  static bool same(const T& a, const T& b) {
    if (a.size() != b.size()) return false;
    auto x = a.begin();
    auto y = b.begin();
    for (; x != a.end(); ++x, ++y)
      if (!Gen<K>::same(x->first, y->first) || !Gen<V>::same(x->second, y->second)) return false;
    return true;
  }
  static void show(std::ostream& o, const T& v) {
    o << "{";
    for (auto& e : v) {
      Gen<K>::show(o, e.first);
      o << ":";
      Gen<V>::show(o, e.second);
      o << " ";
    }
    o << "}";
  }
};
template <class A, class B>
struct Gen<std::pair<A, B>> {
  using T = std::pair<A, B>;
  static T make(vp::Src& s) {
    A a = Gen<A>::make(s);
    return T(std::move(a), Gen<B>::make(s));
  }
  static bool same(const T& a, const T& b) { return Gen<A>::same(a.first, b.first) && Gen<B>::same(a.second, b.second); }
  static void show(std::ostream& o, const T& v) {
    o << "(";
    Gen<A>::show(o, v.first);
    o << ",";
    Gen<B>::show(o, v.second);
    o << ")";
  }
};

// A value of some type together with the means to write, read and compare it.
struct Item {
  std::function<uint64_t(Buf&)> write;
  std::function<uint64_t(const Buf&, uint64_t)> readAndCheck;  // returns bytes read, throws vp::Failure on a difference
  std::function<void(std::ostream&)> show;
  std::function<void(Buf&)> expected;  // independent encoding, if there is one
};

template <class T, class W, class R>
Item makeItem(vp::Src& s, const std::string& type, W w, R r) {
  auto v = std::make_shared<T>(Gen<T>::make(s));
  Item it;
  it.write = [v, w](Buf& b) { return w(*v, b); };
  it.readAndCheck = [v, r, type](const Buf& b, uint64_t cur) {
    const auto got = r(b, cur);
    if (!Gen<T>::same(*v, got.first)) {
      std::ostringstream o;
      o << "read back a different " << type << " at " << cur << ": wrote ";
      Gen<T>::show(o, *v);
      o << " got ";
      Gen<T>::show(o, got.first);
      vp::fail(o.str());
    }
    return static_cast<uint64_t>(got.second);
  };
  it.show = [v, type](std::ostream& o) {
    o << type << " ";
    Gen<T>::show(o, *v);
  };
  s.label("type " + type);
  return it;
}

// Writes the items one after another behind a prefix and reads them back in
// order, in any order, and with other bytes behind them.
inline void roundTrip(vp::Src& s, const std::vector<Item>& items) {
  const Buf prefix = s.bytes(20);
  Buf buf = prefix;
  std::vector<uint64_t> at, n;
  if (s.noting()) {
    std::ostringstream o;
    o << "prefix " << prefix.size() << " bytes;";
    for (auto& it : items) {
      o << " ";
      it.show(o);
      o << ";";
    }
    s.note(o.str());
  }
  for (auto& it : items) {
    const Buf before = buf;
    const uint64_t count = it.write(buf);
    VP_CHECK(buf.size() >= before.size(), "serializing shrank the buffer");
    VP_CHECK(std::equal(before.begin(), before.end(), buf.begin()), "serializing changed earlier bytes");
    VP_CHECK(count == buf.size() - before.size(), "returned ", count, ", appended ", buf.size() - before.size());
    if (it.expected) {
      Buf want;
      it.expected(want);
      VP_CHECK(want == Buf(buf.begin() + static_cast<long>(before.size()), buf.end()), "wire bytes ",
               vp::show(Buf(buf.begin() + static_cast<long>(before.size()), buf.end())), " expected ", vp::show(want));
    }
    at.push_back(before.size());
    n.push_back(count);
  }
  uint64_t cur = prefix.size();
  for (size_t k = 0; k < items.size(); ++k) {
    const uint64_t got = items[k].readAndCheck(buf, cur);
    VP_CHECK(got == n[k], "consumed ", got, " of ", n[k], " bytes of item ", k);
    cur += got;
  }
  VP_CHECK(cur == buf.size());
  // any order, other suffix
  const Buf suffix = s.bytes(20);
  Buf longer = buf;
  longer.insert(longer.end(), suffix.begin(), suffix.end());
  std::vector<size_t> order;
  for (size_t k = 0; k < items.size(); ++k) order.push_back(k);
  s.shuffle(order);
  for (size_t k : order) VP_CHECK(items[k].readAndCheck(longer, at[k]) == n[k]);
  s.nontrivialIf(items.size() >= 2 && !prefix.empty());
  s.label(vp::cat("items ", items.size() > 5 ? "6+" : std::to_string(items.size())));
}

// Long values: one container of the item gets up to `most` elements.
template <class F>
void largeRoundTrip(vp::Src& s, size_t most, F anyItem) {
  std::vector<Item> items;
  if (s.b()) items.push_back(anyItem());
  const size_t n = s.big(100, most);
  large = n;
  items.push_back(anyItem());
  s.nontrivialIf(large == 0);
  s.label(large ? "no container" : n > 65535 ? "more than 65535" : n > 255 ? "more than 255" : "up to 255");
  large = 0;
  if (s.b()) items.push_back(anyItem());
  roundTrip(s, items);
}

}  // namespace ser
