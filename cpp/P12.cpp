#include "vp.hpp"

#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/eigen_std_conversions.hpp>
#include <arc_utilities/enumerate.h>
#include <arc_utilities/stl_wrappers.hpp>

namespace {

template <class T>
void bits(vp::Src& s) {
  const unsigned width = 8 * sizeof(T);
  T word = (T)s.bits64();
  std::vector<bool> model(width);
  for (unsigned k = 0; k < width; ++k) model[k] = ((uint64_t)word >> k) & 1u;
  auto compare = [&](const char* when) {
    for (unsigned k = 0; k < width; ++k)
      VP_CHECK(arc_helpers::GetBit<T>(word, k) == model[k], when, ": bit ", k, " of ", (uint64_t)word, " (", width, " bits)");
  };
  compare("start");
  s.repeat(1, 12, [&] {
    const uint32_t at = (uint32_t)s.u(0, width - 1);
    const bool v = s.b();
    word = arc_helpers::SetBit<T>(word, at, v);
    model[at] = v;
    if (at > width / 2) s.nontrivial();
    compare("after SetBit");
    uint64_t w = 0;
    for (unsigned k = 0; k < width; ++k)
      if (model[k]) w |= (uint64_t)1 << k;
    VP_CHECK((uint64_t)word == w, "word ", (uint64_t)word, " expected ", w);
  });
}

// Counts what is written to the error stream while it lives.
struct Quiet {
  std::ostringstream o;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

template <class T, class Gen>
void ranges(vp::Src& s, Gen gen) {
  std::vector<T> t = {gen(), gen(), gen()};
  if (s.chance(1, 4)) t[1] = t[0];
  std::sort(t.begin(), t.end());
  T v = gen();
  if (s.chance(1, 3)) v = t[s.u(0, 2)];
  const T lo = t[0], mid = t[1], hi = t[2];
  const T c = v < lo ? lo : (v > hi ? hi : v);
  VP_CHECK(arc_helpers::ClampValue<T>(v, lo, hi) == c, "clamp ", v, " to ", lo, " ", hi, " gives ", arc_helpers::ClampValue<T>(v, lo, hi));
  const T e = (v > lo && v < mid) ? lo : (v >= mid && v < hi) ? hi : v;
  VP_CHECK(arc_helpers::SpreadValue<T>(v, lo, mid, hi) == e, "spread ", v, " of ", lo, " ", mid, " ", hi, " gives ", arc_helpers::SpreadValue<T>(v, lo, mid, hi));
  s.nontrivialIf(c != v || e != v);
  Quiet q;
  VP_CHECK(arc_helpers::ClampValueAndWarn<T>(v, lo, hi) == c, "clamp with warning ", v, " to ", lo, " ", hi);
  VP_CHECK(q.o.str().empty() == (c == v), "clamp of ", v, " to ", lo, " ", hi, " warned '", q.o.str(), "'");
  q.o.str("");
  VP_CHECK(arc_helpers::SpreadValueAndWarn<T>(v, lo, mid, hi) == e, "spread with warning ", v, " of ", lo, " ", mid, " ", hi);
  if (e != v) VP_CHECK(!q.o.str().empty(), "spread of ", v, " did not warn");
}

}  // namespace

VP_PROP(single_bits, 200000, 3000000) {
  switch (s.u(0, 3)) {
    case 0: bits<uint8_t>(s); break;
    case 1: bits<uint16_t>(s); break;
    case 2: bits<uint32_t>(s); break;
    default: bits<uint64_t>(s); break;
  }
}

VP_PROP(clamp_and_spread, 200000, 3000000) {
  switch (s.u(0, 3)) {
    case 0: ranges<double>(s, [&] { return s.real(-10, 10); }); break;
    case 1: ranges<int>(s, [&] { return (int)s.si(12); }); break;
    case 2: ranges<float>(s, [&] { return (float)s.real(-2, 2); }); break;
    default: ranges<uint64_t>(s, [&] { return s.b() ? s.bits64() : (uint64_t)s.u(0, 5); }); break;
  }
}

VP_PROP(maps, 60000, 600000) {
  std::map<std::string, int> m;
  std::unordered_map<int, std::string> um;
  const bool large = s.chance(1, 300);
  if (large)
    for (size_t n = s.big(20, 4000); n > 0; --n) m[s.str(8, false)] = (int)s.si(5000);
  s.repeat(0, 12, [&] {
    m[s.str(4, false)] = (int)s.si(50);
    um[(int)s.si(8)] = s.str(3, false);
  });
  s.nontrivialIf(m.size() >= 3);
  std::vector<std::string> probes;
  for (const auto& e : m) probes.push_back(e.first);
  s.repeat(1, 5, [&] { probes.push_back(s.str(4, false)); });
  const int def = (int)s.si(50);
  for (const std::string& k : probes)
    VP_CHECK(arc_helpers::RetrieveOrDefault(m, k, def) == (m.count(k) ? m.at(k) : def), "key ", k);
  for (int k = -8; k <= 8; ++k)
    VP_CHECK(arc_helpers::RetrieveOrDefault(um, k, std::string("none")) == (um.count(k) ? um.at(k) : "none"), "key ", k);
  const auto before = m;
  const std::vector<std::string> keys = arc_helpers::GetKeys(m);
  const auto kv = arc_helpers::GetKeysAndValues(m);
  VP_CHECK(keys.size() == m.size() && kv.size() == m.size(), keys.size(), " keys, ", kv.size(), " pairs of ", m.size());
  size_t k = 0;
  std::vector<int> values;
  for (const auto& e : m) {
    VP_CHECK(keys[k] == e.first, "key ", k, " is ", keys[k]);
    VP_CHECK(kv[k].first == e.first && kv[k].second == e.second, "pair ", k);
    values.push_back(e.second);
    ++k;
  }
  VP_CHECK((arc_helpers::MakeFromKeysAndValues<std::string, int>(keys, values) == m), "map of keys and values");
  VP_CHECK((arc_helpers::MakeFromKeysAndValues<std::string, int>(kv) == m), "map of pairs");
  VP_CHECK(m == before);
  // Lists in any order, keys repeated: the last value of a key counts.
  std::vector<std::string> lk;
  std::vector<int> lv;
  std::map<std::string, int> model;
  s.repeat(0, 10, [&] {
    lk.push_back(s.pick(probes));
    lv.push_back((int)s.si(50));
    model[lk.back()] = lv.back();
  });
  VP_CHECK((arc_helpers::MakeFromKeysAndValues<std::string, int>(lk, lv) == model), "map of repeated keys");
}

VP_PROP(strings_and_lists, 200000, 3000000) {
  const auto word = [&](size_t max) {
    std::string w;
    s.repeat(0, max, [&] { w += "ab"[s.u(0, 1)]; });
    return w;
  };
  const auto strings = s.list(0, s.chance(1, 100) ? 300 : 6, [&] { return word(6); });
  const std::string sub = word(3);
  bool all = true;
  for (const std::string& w : strings) {
    bool in = false;
    for (size_t k = 0; k + sub.size() <= w.size(); ++k) in = in || w.compare(k, sub.size(), sub) == 0;
    all = all && in;
  }
  VP_CHECK(arc_helpers::CheckAllStringsForSubstring(strings, sub) == all, "'", sub, "' in ", vp::show(strings));
  int index = -1;
  for (size_t k = strings.size(); k-- > 0;)
    if (strings[k] == sub) index = (int)k;
  VP_CHECK(arc_std::find(strings, sub) == index, "found ", arc_std::find(strings, sub), " expected ", index);
  s.nontrivialIf(strings.size() >= 2 && !sub.empty());
  size_t k = 0;
  const enumerate<std::vector<std::string>> en(strings);
  for (const auto& e : en) {
    VP_CHECK(k < strings.size() && e.first == k && e.second == strings[k], "entry ", k, " is ", e.first, " ", e.second);
    ++k;
  }
  VP_CHECK(k == strings.size(), k, " entries of ", strings.size());
}

VP_PROP(eigen_to_std, 50000, 500000) {
  Eigen::VectorXd v((ssize_t)(s.chance(1, 100) ? s.big(30, 10000) : s.len(0, 30)));
  for (ssize_t k = 0; k < v.size(); ++k) v(k) = s.anyDouble();
  const auto r = ConvertTo<std::vector<double>>(v);
  s.nontrivialIf(v.size() > 1);
  VP_CHECK(r.size() == (size_t)v.size(), r.size(), " elements of ", v.size());
  for (size_t k = 0; k < r.size(); ++k) VP_CHECK(vp::sameBits(r[k], v((ssize_t)k)), "element ", k);
}
