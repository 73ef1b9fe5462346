#include <arc_utilities/hash.hpp>

#include "vp.hpp"

#include <arc_utilities/get_neighbours.hpp>
#include <arc_utilities/maybe.hpp>

#include <Eigen/Geometry>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace {

namespace gn = arc_utilities::GetNeighbours;

// --- neighbours --------------------------------------------------------------------------------------
template <class V> using Fn = std::function<V(const V&)>;
template <class V> using Ok = std::function<bool(const V&)>;
template <class V> using Vs = std::vector<V, Eigen::aligned_allocator<V>>;
Vs<Eigen::Vector2d> call(const Eigen::Vector2d& c, const double* mn, const double* mx, double step, const Fn<Eigen::Vector2d>& r, const Ok<Eigen::Vector2d>& v) {
  return gn::TwoDimensional8Connected<Eigen::Vector2d, double, Eigen::aligned_allocator<Eigen::Vector2d>>(c, mn[0], mx[0], mn[1], mx[1], step, r, v);
}
Vs<Eigen::Vector3d> call(const Eigen::Vector3d& c, const double* mn, const double* mx, double step, const Fn<Eigen::Vector3d>& r, const Ok<Eigen::Vector3d>& v) {
  return gn::ThreeDimensional8Connected<Eigen::Vector3d, double, Eigen::aligned_allocator<Eigen::Vector3d>>(c, mn[0], mx[0], mn[1], mx[1], mn[2], mx[2], step, r, v);
}
template <int D>
void neighbours(vp::Src& s) {
  using V = Eigen::Matrix<double, D, 1>;
  using K = std::vector<long>;
  const double step = s.pick(std::vector<double>{1.0, 0.5, 0.1, 0.3, 2.5, 7.0, 1e-3});
  const auto pos = [&](long k) { return static_cast<double>(k) * step; };
  const auto key = [&](const V& v) {
    K k;
    for (int i = 0; i < D; i++) k.push_back(std::lround(v[i] / step));
    return k;
  };
  const std::function<V(const V&)> round_fn = [&](const V& v) {
    V o;
    for (int i = 0; i < D; i++) o[i] = std::round(v[i] / step) * step;
    return o;
  };
  long lo[3], hi[3], at[3];
  for (int i = 0; i < D; i++) {
    lo[i] = static_cast<long>(s.si(20));
    hi[i] = lo[i] + static_cast<long>(s.len(0, 6));
    at[i] = lo[i] + static_cast<long>(s.choice(static_cast<uint64_t>(hi[i] - lo[i] + 1)));
  }
  const bool open = s.chance(1, 4);
  const uint64_t salt = s.choice(1000), density = s.pick(std::vector<uint64_t>{0, 0, 30, 60});
  const auto valid_key = [&](const K& k) {
    uint64_t h = salt;
    for (long x : k) h = h * 1000003u + static_cast<uint64_t>(x + 1000);
    return (h * 0x9e3779b97f4a7c15ull >> 33) % 100 >= density;
  };
  const std::function<bool(const V&)> valid = [&](const V& v) { return valid_key(key(v)); };
  V c;
  for (int i = 0; i < D; i++) c[i] = round_fn(V::Constant(pos(at[i])))[i];
  const double inf = std::numeric_limits<double>::max();
  double mn[3], mx[3];
  for (int i = 0; i < D; i++) {
    mn[i] = open ? -inf : pos(lo[i]);
    mx[i] = open ? inf : pos(hi[i]);
  }
  const std::vector<V, Eigen::aligned_allocator<V>> got = call(c, mn, mx, step, round_fn, valid);
  std::set<K> want, have;
  const int n = D == 2 ? 9 : 27;
  for (int m = 0; m < n; m++) {
    K k;
    int r = m;
    bool inside = true, self = true;
    for (int i = 0; i < D; i++) {
      const int o = r % 3 - 1;
      r /= 3;
      k.push_back(at[i] + o);
      inside = inside && (open || (k.back() >= lo[i] && k.back() <= hi[i]));
      self = self && o == 0;
    }
    if (inside && !self && valid_key(k)) want.insert(k);
  }
  for (const V& v : got) {
    const K k = key(v);
    for (int i = 0; i < D; i++) VP_CHECK(std::fabs(v[i] - pos(k[static_cast<size_t>(i)])) <= 1e-9 * step * 100, "neighbour ", v.transpose(), " is not on the grid");
    VP_CHECK(have.insert(k).second, "neighbour ", v.transpose(), " of ", c.transpose(), " is listed twice");
    VP_CHECK(want.count(k), v.transpose(), " is no neighbour of ", c.transpose(), " (step ", step, ")");
  }
  VP_CHECK(have.size() == want.size(), have.size(), " of ", want.size(), " neighbours of ", c.transpose(), " (step ", step, ")");
  s.nontrivialIf(want.size() >= 2 && want.size() < static_cast<size_t>(n - 1));
}
VP_PROP(neighbours_2d, 350000, 7000000) { neighbours<2>(s); }
VP_PROP(neighbours_3d, 90000, 1800000) { neighbours<3>(s); }

// --- hashes ------------------------------------------------------------------------------------------
template <class T> struct Gen;
template <> struct Gen<int> { static int of(vp::Src& s) { return static_cast<int>(s.si(4)); } };
template <> struct Gen<double> {
  static double of(vp::Src& s) { return s.pick(std::vector<double>{0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e300, 5e-324}); }
};
template <> struct Gen<float> { static float of(vp::Src& s) { return static_cast<float>(s.si(2)) * 0.25f; } };
template <> struct Gen<std::string> { static std::string of(vp::Src& s) { return s.pick(std::vector<std::string>{"", "a", "b", "ab", "ba"}); } };
template <class T> struct Gen<std::complex<T>> {
  static std::complex<T> of(vp::Src& s) { const T a = Gen<T>::of(s); return std::complex<T>(a, Gen<T>::of(s)); }
};
template <class A, class B> struct Gen<std::pair<A, B>> {
  static std::pair<A, B> of(vp::Src& s) { const A a = Gen<A>::of(s); return std::pair<A, B>(a, Gen<B>::of(s)); }
};
template <class T, int R> struct Gen<Eigen::Matrix<T, R, 1>> {
  static Eigen::Matrix<T, R, 1> of(vp::Src& s) {
    Eigen::Matrix<T, R, 1> v;
    if (R == Eigen::Dynamic) v.resize(2);
    for (long k = 0; k < v.size(); k++) v[k] = Gen<T>::of(s);
    return v;
  }
};

// A hash map keyed by T against a list of entries compared with ==.
template <class T>
void hashing(vp::Src& s) {
  std::unordered_map<T, int> map;
  std::vector<std::pair<T, int>> model;
  int n = 0;
  s.repeat(2, s.chance(1, 200) ? 600 : 40, [&] {
    const T k = Gen<T>::of(s);
    auto it = std::find_if(model.begin(), model.end(), [&](const std::pair<T, int>& e) { return e.first == k; });
    switch (s.choice(4)) {
      case 0:
      case 1:
        map[k] = ++n;
        if (it == model.end())
          model.push_back({k, n});
        else
          it->second = n;
        break;
      case 2:
        VP_CHECK(map.erase(k) == (it != model.end() ? 1u : 0u), "erase");
        if (it != model.end()) model.erase(it);
        break;
      default:
        VP_CHECK((map.find(k) != map.end()) == (it != model.end()), "find");
        if (it != model.end()) VP_CHECK(map.at(k) == it->second, "value of a key");
    }
    VP_CHECK(map.size() == model.size(), "size of the map");
    for (const auto& e : model) VP_CHECK(map.count(e.first) == 1 && map.at(e.first) == e.second, "an entry is lost");
    const T c(k);
    VP_CHECK(std::hash<T>()(c) == std::hash<T>()(k), "hash of a copy");
  });
  s.nontrivialIf(model.size() >= 2 && n > static_cast<int>(model.size()));
}
VP_PROP(hash_maps, 160000, 4000000) {
  switch (s.choice(9)) {
    case 0: hashing<std::pair<int, int>>(s); break;
    case 1: hashing<std::pair<std::string, double>>(s); break;
    case 2: hashing<std::complex<double>>(s); break;
    case 3: hashing<std::complex<float>>(s); break;
    case 4: hashing<Eigen::Vector3d>(s); break;
    case 5: hashing<Eigen::Matrix<double, 2, 1>>(s); break;
    case 6: hashing<Eigen::VectorXd>(s); break;
    case 7: hashing<Eigen::Vector3i>(s); break;
    default: hashing<std::pair<std::pair<int, std::string>, std::pair<double, int>>>(s); break;
  }
}

// Hashes spread: the values of a grid must not collapse to a few codes.
VP_PROP(hash_spread, 3000, 30000) {
  const int n = static_cast<int>(s.u(8, 24)), off = static_cast<int>(s.si(1000));
  std::unordered_set<size_t> p, c, v2, v3;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      p.insert(std::hash<std::pair<int, int>>()({i + off, j}));
      c.insert(std::hash<std::complex<double>>()({0.37 * i + off, 1.1 * j}));
      v2.insert(std::hash<Eigen::VectorXd>()(Eigen::Vector2d(0.37 * i + off, 1.1 * j)));
      v3.insert(std::hash<Eigen::Vector3d>()(Eigen::Vector3d(0.37 * i + off, 1.1 * j, 0.77 * (i - j))));
    }
  const size_t want = static_cast<size_t>(n * n) / 4;
  VP_CHECK(p.size() >= want && c.size() >= want && v2.size() >= want && v3.size() >= want, "hash codes of ", n * n, " values: ", p.size(), " ", c.size(), " ", v2.size(), " ", v3.size());
  s.nontrivial();
}

// Every element of a vector counts, however long it is.
template <class V, class MakeFn>
void element_spread(vp::Src& s, const int n, MakeFn make) {
  V base(n);
  for (int i = 0; i < n; i++) base(i) = make(s);
  const int at = (int)s.choice((uint64_t)n), values = 16;
  std::unordered_set<size_t> codes;
  for (int k = 0; k < values; k++) {
    V v = base;
    v(at) += (typename V::Scalar)(k + 1);
    codes.insert(std::hash<V>()(v));
  }
  VP_CHECK(codes.size() >= (size_t)values / 4, "vectors of ", n, " that differ in element ", at, " only: ", values, " of them have ", codes.size(), " hash codes");
}
VP_PROP(hash_elements, 40000, 1000000) {
  const int n = (int)(s.chance(1, 4) ? s.u(1, 4) : s.chance(1, 10) ? s.u(60, 600) : s.u(1, 60));
  const bool few = s.b();
  const auto real = [&](vp::Src& t) { return few ? (double)t.si(1) : (double)t.si(100000) * 0.01; };
  const auto whole = [&](vp::Src& t) { return (int)t.si(few ? 1 : 100000); };
  switch (s.choice(4)) {
    case 0: element_spread<Eigen::VectorXi>(s, n, whole); break;
    case 1: element_spread<Eigen::Matrix<double, 7, 1>>(s, 7, real); break;
    default: element_spread<Eigen::VectorXd>(s, n, real);
  }
  s.label(n > 16 ? "long" : "short");
  s.nontrivialIf(n > 1);
}

// --- optional values ---------------------------------------------------------------------------------
template <class T, class MakeFn>
void maybe_history(vp::Src& s, MakeFn make) {
  using M = Maybe::Maybe<T>;
  struct Slot {
    M m;
    bool has;
    T value;
  };
  std::vector<Slot> slots{{M(), false, T()}};
  size_t sets = 0, copies = 0;
  s.repeat(2, 25, [&] {
    const size_t a = s.choice(slots.size()), b = s.choice(slots.size());
    Slot& x = slots[a];
    switch (s.choice(9)) {
      case 0: x.value = make(); x.has = true; x.m.Set(x.value); sets++; break;
      case 1: { T v = make(); x.value = v; x.has = true; x.m.Set(std::move(v)); sets++; break; }
      case 2: x.value = make(); x.has = true; x.m = x.value; sets++; break;
      case 3: { T v = make(); x.value = v; x.has = true; x.m = std::move(v); sets++; break; }
      case 4:
        if (slots.size() < 6) {
          const T v = make();
          if (s.b())
            slots.push_back({M(v), true, v});
          else {
            T w(v);
            slots.push_back({M(std::move(w)), true, v});
          }
          sets++;
        }
        break;
      case 5:
        if (slots.size() < 6) slots.push_back({M(), false, T()});
        break;
      case 6:
        x.m = slots[b].m;
        x.has = slots[b].has;
        x.value = slots[b].value;
        copies++;
        break;
      case 7:
        if (slots.size() < 6) {
          M copy(x.m);
          slots.push_back({std::move(copy), slots[a].has, slots[a].value});
          copies++;
        }
        break;
      default:
        if (x.has) {
          x.value = make();
          x.m.Get() = x.value;
          sets++;
        }
    }
    for (Slot& y : slots) {
      const M& c = y.m;
      VP_CHECK(c.Valid() == y.has, "validity");
      if (y.has) {
        VP_CHECK(c.GetImmutable() == y.value && y.m.Get() == y.value, "value");
      } else {
        VP_THROWS(y.m.Get(), "read an empty value");
        VP_THROWS(c.GetImmutable(), "read an empty value");
      }
    }
  });
  s.nontrivialIf(sets >= 2 && copies >= 1);
}
VP_PROP(optional_values, 40000, 1000000) {
  if (s.b())
    maybe_history<std::string>(s, [&] { return s.chance(1, 4) ? std::string(100, 'x') + std::to_string(s.choice(100)) : s.str(5); });
  else
    maybe_history<std::vector<double>>(s, [&] { return std::vector<double>(s.u(0, 3), static_cast<double>(s.si(9))); });
}

}  // namespace
