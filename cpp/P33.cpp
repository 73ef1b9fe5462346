#include "vp.hpp"

#include <arc_utilities/graph.hpp>
#include <arc_utilities/ostream_operators.hpp>
#include <arc_utilities/pretty_print.hpp>

#include <iomanip>

namespace {

using VecXd = Eigen::VectorXd;

// Blanks inside numbers' alignment are not part of the structure.
std::string squeeze(const std::string& s) {
  std::string o;
  for (char c : s)
    if (c != ' ') o += c;
  return o;
}

// --- independent recursive formatter -----------------------------------------------------------------
struct Style {
  bool deco;
  std::string sep;
};
std::string num(double v) {
  std::ostringstream o;
  o << std::setprecision(12) << v;
  return o.str();
}
template <class T>
std::string plain(const T& v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
std::string fmt(int v, const Style&) { return plain(v); }
std::string fmt(double v, const Style&) { return plain(v); }
std::string fmt(size_t v, const Style&) { return plain(v); }
std::string fmt(bool v, const Style&) { return v ? "true" : "false"; }
std::string fmt(const std::string& v, const Style&) { return v; }
std::string fmt(const VecXd& v, const Style& st) {
  std::string o;
  for (long k = 0; k < v.size(); k++) o += (k ? ", " : "") + num(v[k]);
  return st.deco ? "VectorXd: <" + o + ">" : o;
}
template <int N>
std::string fixed(const Eigen::Matrix<double, N, 1>& v, const Style& st) {
  const char* names[] = {"x", "y", "z", "w"};
  std::string o;
  for (int k = 0; k < N; k++) o += st.deco ? std::string(k ? " " : "") + names[k] + ": " + num(v[k]) : (k ? ", " : "") + num(v[k]);
  return st.deco ? "Vector" + std::to_string(N) + "d: <" + o + ">" : o;
}
std::string fmt(const Eigen::Vector2d& v, const Style& st) { return fixed<2>(v, st); }
std::string fmt(const Eigen::Vector3d& v, const Style& st) { return fixed<3>(v, st); }
std::string fmt(const Eigen::Vector4d& v, const Style& st) { return fixed<4>(v, st); }
std::string fmt(const Eigen::MatrixXd& m, const Style& st) {
  std::string o;
  for (long r = 0; r < m.rows(); r++) {
    if (r) o += "\n";
    for (long c = 0; c < m.cols(); c++) o += (c ? ", " : "") + num(m(r, c));
  }
  return st.deco ? "MatrixXd:\n[" + o + "]" : o;
}
std::string fmt(const Eigen::Quaterniond& q, const Style& st) {
  if (st.deco) return "Quaterniond <x: " + num(q.x()) + " y: " + num(q.y()) + " z: " + num(q.z()) + " w: " + num(q.w()) + ">";
  return num(q.x()) + ", " + num(q.y()) + ", " + num(q.z()) + ", " + num(q.w());
}

template <class A, class B> std::string fmt(const std::pair<A, B>&, const Style&);
template <class T, size_t N> std::string fmt(const std::array<T, N>&, const Style&);
template <class T, class A> std::string fmt(const std::vector<T, A>&, const Style&);
template <class T> std::string fmt(const std::list<T>&, const Style&);
template <class T> std::string fmt(const std::forward_list<T>&, const Style&);
template <class T> std::string fmt(const std::deque<T>&, const Style&);
template <class K, class V> std::string fmt(const std::map<K, V>&, const Style&);
template <class K, class V> std::string fmt(const std::multimap<K, V>&, const Style&);
template <class T> std::string fmt(const std::set<T>&, const Style&);
template <class T> std::string fmt(const std::multiset<T>&, const Style&);
template <class K, class V> std::string fmt(const std::unordered_map<K, V>&, const Style&);
template <class K, class V> std::string fmt(const std::unordered_multimap<K, V>&, const Style&);
template <class T> std::string fmt(const std::unordered_set<T>&, const Style&);
template <class T> std::string fmt(const std::unordered_multiset<T>&, const Style&);

template <class C>
std::string items(const C& c, const Style& st, const char* open, const char* close) {
  std::string o;
  bool first = true;
  for (auto it = c.begin(); it != c.end(); ++it) {
    const typename C::value_type v = *it;
    if (!first) o += st.sep;
    o += fmt(v, st);
    first = false;
  }
  if (first) return "";  // nothing is printed for an empty container
  return st.deco ? open + o + close : o;
}
template <class A, class B>
std::string fmt(const std::pair<A, B>& p, const Style& st) {
  const std::string o = fmt(p.first, st) + ": " + fmt(p.second, st);
  return st.deco ? "<" + o + ">" : o;
}
template <class T, size_t N> std::string fmt(const std::array<T, N>& v, const Style& st) { return items(v, st, "[", "]"); }
template <class T, class A> std::string fmt(const std::vector<T, A>& v, const Style& st) { return items(v, st, "[", "]"); }
template <class T> std::string fmt(const std::list<T>& v, const Style& st) { return items(v, st, "[", "]"); }
template <class T> std::string fmt(const std::forward_list<T>& v, const Style& st) { return items(v, st, "[", "]"); }
template <class T> std::string fmt(const std::deque<T>& v, const Style& st) { return items(v, st, "[", "]"); }
template <class K, class V> std::string fmt(const std::map<K, V>& v, const Style& st) { return items(v, st, "{", "}"); }
template <class K, class V> std::string fmt(const std::multimap<K, V>& v, const Style& st) { return items(v, st, "{", "}"); }
template <class T> std::string fmt(const std::set<T>& v, const Style& st) { return items(v, st, "(", ")"); }
template <class T> std::string fmt(const std::multiset<T>& v, const Style& st) { return items(v, st, "(", ")"); }
template <class K, class V> std::string fmt(const std::unordered_map<K, V>& v, const Style& st) { return items(v, st, "{", "}"); }
template <class K, class V> std::string fmt(const std::unordered_multimap<K, V>& v, const Style& st) { return items(v, st, "{", "}"); }
template <class T> std::string fmt(const std::unordered_set<T>& v, const Style& st) { return items(v, st, "(", ")"); }
template <class T> std::string fmt(const std::unordered_multiset<T>& v, const Style& st) { return items(v, st, "(", ")"); }

// --- generators by type ------------------------------------------------------------------------------
void gen(vp::Src& s, int& v) { v = static_cast<int>(s.si(1000)); }
void gen(vp::Src& s, size_t& v) { v = s.u(0, 100000); }
void gen(vp::Src& s, bool& v) { v = s.b(); }
void gen(vp::Src& s, double& v) { v = s.chance(1, 3) ? static_cast<double>(s.si(5)) : s.generic(-1e3, 1e3); }
void gen(vp::Src& s, std::string& v) {
  v.clear();
  const size_t n = s.len(0, 6);
  for (size_t k = 0; k < n; k++) v += s.pick(std::vector<char>{'a', 'b', '[', ',', ' ', ':', '>', 'z'});
}
template <int N>
void gen(vp::Src& s, Eigen::Matrix<double, N, 1>& v) {
  if (N == Eigen::Dynamic) v.resize(static_cast<long>(s.len(1, 5)));
  for (long k = 0; k < v.size(); k++) gen(s, v[k]);
}
void gen(vp::Src& s, Eigen::MatrixXd& m) {
  m.resize(static_cast<long>(s.len(1, 4)), static_cast<long>(s.len(1, 4)));
  for (long k = 0; k < m.size(); k++) gen(s, m.data()[k]);
}
void gen(vp::Src& s, Eigen::Quaterniond& q) { q = Eigen::Quaterniond(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1)); }
template <class A, class B> void gen(vp::Src&, std::pair<A, B>&);
template <class T, size_t N> void gen(vp::Src&, std::array<T, N>&);
template <class T, class A> void gen(vp::Src&, std::vector<T, A>&);
template <class A> void gen(vp::Src&, std::vector<bool, A>&);
template <class T> void gen(vp::Src&, std::list<T>&);
template <class T> void gen(vp::Src&, std::forward_list<T>&);
template <class T> void gen(vp::Src&, std::deque<T>&);
template <class K, class V> void gen(vp::Src&, std::map<K, V>&);
template <class K, class V> void gen(vp::Src&, std::multimap<K, V>&);
template <class T> void gen(vp::Src&, std::set<T>&);
template <class T> void gen(vp::Src&, std::multiset<T>&);
template <class K, class V> void gen(vp::Src&, std::unordered_map<K, V>&);
template <class K, class V> void gen(vp::Src&, std::unordered_multimap<K, V>&);
template <class T> void gen(vp::Src&, std::unordered_set<T>&);
template <class T> void gen(vp::Src&, std::unordered_multiset<T>&);
template <class T, class F>
void fill(vp::Src& s, F f) {
  static bool inside = false;  // a large container of small ones
  struct Leave {
    bool* in = nullptr;
    ~Leave() {
      if (in) *in = false;
    }
  } leave;
  const bool large = !inside && s.chance(1, 200);
  if (large) inside = true, leave.in = &inside;
  s.repeat(0, large ? 300 : 5, [&] {
    T t{};
    gen(s, t);
    f(t);
  });
}
template <class A, class B>
void gen(vp::Src& s, std::pair<A, B>& p) {
  gen(s, p.first);
  gen(s, p.second);
}
template <class T, size_t N>
void gen(vp::Src& s, std::array<T, N>& v) {
  for (auto& x : v) gen(s, x);
}
template <class T, class A> void gen(vp::Src& s, std::vector<T, A>& v) { fill<T>(s, [&](const T& t) { v.push_back(t); }); }
template <class A> void gen(vp::Src& s, std::vector<bool, A>& v) { fill<bool>(s, [&](bool t) { v.push_back(t); }); }
template <class T> void gen(vp::Src& s, std::list<T>& v) { fill<T>(s, [&](const T& t) { v.push_back(t); }); }
template <class T> void gen(vp::Src& s, std::forward_list<T>& v) { fill<T>(s, [&](const T& t) { v.push_front(t); }); }
template <class T> void gen(vp::Src& s, std::deque<T>& v) { fill<T>(s, [&](const T& t) { v.push_front(t); }); }
template <class K, class V> void gen(vp::Src& s, std::map<K, V>& v) { fill<std::pair<K, V>>(s, [&](const std::pair<K, V>& t) { v.insert(t); }); }
template <class K, class V> void gen(vp::Src& s, std::multimap<K, V>& v) { fill<std::pair<K, V>>(s, [&](const std::pair<K, V>& t) { v.insert(t); v.insert(t); }); }
template <class T> void gen(vp::Src& s, std::set<T>& v) { fill<T>(s, [&](const T& t) { v.insert(t); }); }
template <class T> void gen(vp::Src& s, std::multiset<T>& v) { fill<T>(s, [&](const T& t) { v.insert(t); v.insert(t); }); }
template <class K, class V> void gen(vp::Src& s, std::unordered_map<K, V>& v) { fill<std::pair<K, V>>(s, [&](const std::pair<K, V>& t) { v.insert(t); }); }
template <class K, class V> void gen(vp::Src& s, std::unordered_multimap<K, V>& v) { fill<std::pair<K, V>>(s, [&](const std::pair<K, V>& t) { v.insert(t); v.insert(t); }); }
template <class T> void gen(vp::Src& s, std::unordered_set<T>& v) { fill<T>(s, [&](const T& t) { v.insert(t); }); }
template <class T> void gen(vp::Src& s, std::unordered_multiset<T>& v) { fill<T>(s, [&](const T& t) { v.insert(t); v.insert(t); }); }

template <class T>
void check(vp::Src& s) {
  T v{};
  gen(s, v);
  const Style st{s.b(), s.pick(std::vector<std::string>{", ", ";", "\n", "", " | "})};
  const Style standard{st.deco, ", "};
  const std::string want = fmt(v, st);
  if (s.noting()) s.note(want);
  const std::string got = PrettyPrint::PrettyPrint(v, st.deco, st.sep);
  VP_CHECK(squeeze(got) == squeeze(want), "printed \"", got, "\" instead of \"", want, "\"");
  const std::string def = st.deco ? PrettyPrint::PrettyPrint(v, true) : PrettyPrint::PrettyPrint(v);
  VP_CHECK(squeeze(def) == squeeze(fmt(v, standard)), "with the default separator: \"", def, "\"");
  const T copy(v);
  VP_CHECK(PrettyPrint::PrettyPrint(copy, st.deco, st.sep) == got || want.size() > got.size() + 100000, "equal values print differently");
  s.nontrivialIf(want.size() >= 6);
}

template <class T> using Al = Eigen::aligned_allocator<T>;

VP_PROP(sequences, 87000, 2900000) {
  switch (s.choice(9)) {
    case 0: check<std::vector<int>>(s); break;
    case 1: check<std::vector<bool>>(s); break;
    case 2: check<std::list<double>>(s); break;
    case 3: check<std::forward_list<std::string>>(s); break;
    case 4: check<std::deque<int>>(s); break;
    case 5: check<std::array<int, 3>>(s); break;
    case 6: check<std::array<std::string, 1>>(s); break;
    case 7: check<std::vector<std::vector<std::vector<int>>>>(s); break;
    default: check<std::list<std::vector<std::pair<int, bool>>>>(s); break;
  }
}

VP_PROP(associative, 30000, 1000000) {
  switch (s.choice(10)) {
    case 0: check<std::set<int>>(s); break;
    case 1: check<std::multiset<std::string>>(s); break;
    case 2: check<std::map<std::string, int>>(s); break;
    case 3: check<std::multimap<int, bool>>(s); break;
    case 4: check<std::map<int, std::map<int, std::vector<double>>>>(s); break;
    case 5: check<std::pair<std::set<int>, std::map<bool, std::string>>>(s); break;
    case 6: check<std::map<std::pair<int, int>, std::set<std::string>>>(s); break;
    case 7: check<std::vector<std::map<std::string, std::list<int>>>>(s); break;
    case 8: check<std::set<std::vector<int>>>(s); break;
    default: check<std::multiset<std::pair<std::string, double>>>(s); break;
  }
}

// Unordered containers: copies may iterate in another order, so only the given object is compared.
template <class T>
void unordered(vp::Src& s) {
  T v{};
  gen(s, v);
  const Style st{s.b(), s.pick(std::vector<std::string>{", ", ";", "\n"})};
  const std::string want = fmt(v, st), got = PrettyPrint::PrettyPrint(v, st.deco, st.sep);
  VP_CHECK(squeeze(got) == squeeze(want), "printed \"", got, "\" instead of \"", want, "\"");
  s.nontrivialIf(v.size() >= 2);
}
VP_PROP(unordered_containers, 140000, 3500000) {
  switch (s.choice(5)) {
    case 0: unordered<std::unordered_map<std::string, std::vector<int>>>(s); break;
    case 1: unordered<std::unordered_multimap<int, double>>(s); break;
    case 2: unordered<std::unordered_set<std::string>>(s); break;
    case 3: unordered<std::unordered_multiset<int>>(s); break;
    default: unordered<std::unordered_map<int, std::unordered_set<size_t>>>(s); break;
  }
}

VP_PROP(scalars_and_vectors, 90000, 3000000) {
  switch (s.choice(12)) {
    case 0: check<int>(s); break;
    case 1: check<bool>(s); break;
    case 2: check<double>(s); break;
    case 3: check<std::string>(s); break;
    case 4: check<Eigen::Vector2d>(s); break;
    case 5: check<Eigen::Vector3d>(s); break;
    case 6: check<Eigen::Vector4d>(s); break;
    case 7: check<VecXd>(s); break;
    case 8: check<Eigen::MatrixXd>(s); break;
    case 9: check<Eigen::Quaterniond>(s); break;
    case 10: check<std::vector<Eigen::Vector3d>>(s); break;
    default: check<std::vector<Eigen::Quaterniond, Al<Eigen::Quaterniond>>>(s); break;
  }
}

VP_PROP(transforms, 100000, 3000000) {
  Eigen::Vector3d t;
  Eigen::Quaterniond q;
  gen(s, t);
  gen(s, q);
  q.normalize();
  const Eigen::Isometry3d tf = Eigen::Translation3d(t) * q;
  const bool deco = s.b();
  const std::string got = PrettyPrint::PrettyPrint(tf, deco);
  std::vector<double> n;
  std::string shape;
  for (size_t k = 0; k < got.size();) {
    if (isdigit(got[k]) || (got[k] == '-' && k + 1 < got.size() && isdigit(got[k + 1]))) {
      if (k >= 8 && got.compare(k - 8, 10, "Isometry3d") == 0) {
        shape += got[k++];
        continue;
      }
      char* end = nullptr;
      n.push_back(strtod(got.c_str() + k, &end));
      k = static_cast<size_t>(end - got.c_str());
      shape += '#';
    } else {
      shape += got[k++];
    }
  }
  VP_CHECK(shape == (deco ? "Isometry3d <x: # y: # z: #>, <x: # y: # z: # w: #>" : "#, #, # : #, #, #, #"), "printed ", got);
  const double sign = n[6] * q.w() + n[3] * q.x() + n[4] * q.y() + n[5] * q.z() < 0 ? -1 : 1;
  for (int k = 0; k < 3; k++) VP_CHECK(std::fabs(n[static_cast<size_t>(k)] - t[k]) <= 1e-8 * (1 + std::fabs(t[k])), "translation of ", got);
  const double qq[] = {q.x(), q.y(), q.z(), q.w()};
  for (size_t k = 0; k < 4; k++) VP_CHECK(std::fabs(sign * n[3 + k] - qq[k]) <= 1e-8, "rotation of ", got);
  s.nontrivial();
}

// Stream operators of vectors print what the elements print, each once and in order.
template <class T>
void streamed(vp::Src& s) {
  std::vector<T> v;
  gen(s, v);
  std::ostringstream o;
  o << v;
  std::string want;
  const bool lines = std::is_same<T, std::string>::value;
  for (const auto& x : v) want += plain(x) + (lines ? "\n" : " ");
  VP_CHECK(o.str() == want, "streamed \"", o.str(), "\" instead of \"", want, "\"");
  o << 1;
  VP_CHECK(o.good() && o.str() == want + "1", "the stream cannot be used afterwards");
  s.nontrivialIf(v.size() >= 2);
}
VP_PROP(stream_operators, 200000, 5000000) {
  switch (s.choice(4)) {
    case 0: streamed<int>(s); break;
    case 1: streamed<std::string>(s); break;
    case 2: streamed<double>(s); break;
    default: {
      std::vector<std::vector<int>> v;
      gen(s, v);
      std::ostringstream o;
      o << v;
      std::string want;
      for (const auto& r : v) {
        for (int x : r) want += plain(x) + " ";
        want += " ";
      }
      VP_CHECK(o.str() == want, "streamed \"", o.str(), "\" instead of \"", want, "\"");
      s.nontrivialIf(v.size() >= 2);
    }
  }
}

// A printed graph has a line per node with its in edges and then its out edges, each once and in order.
VP_PROP(printed_graphs, 30000, 1000000) {
  using namespace arc_dijkstras;
  Graph<int> g;
  const bool large = s.chance(1, 300);
  const size_t n = large ? s.u(5, 200) : s.u(0, 5);
  for (size_t k = 0; k < n; k++) g.addNode(static_cast<int>(k));
  std::vector<std::string> in(n), out(n);
  const size_t edges = n ? s.len(0, large ? 400 : 10) : 0;
  for (size_t k = 0; k < edges; k++) {
    const auto a = static_cast<int64_t>(s.choice(n)), b = static_cast<int64_t>(s.choice(n));
    const double w = 0.25 * static_cast<double>(s.u(0, 40));
    if (a == b) continue;
    g.addEdgeBetweenNodes(a, b, w);
    const std::string e = vp::cat("(", a, "->", b, "):", std::to_string(w), ";");
    out[static_cast<size_t>(a)] += e;
    in[static_cast<size_t>(b)] += e;
  }
  const std::string text = g.print();
  std::vector<std::string> lines;
  std::istringstream stream(text);
  for (std::string line; std::getline(stream, line);)
    if (line.find("Node ") != std::string::npos) lines.push_back(line);
  VP_CHECK(lines.size() == n, n, " nodes printed as ", text);
  for (size_t k = 0; k < n; k++) {
    // the edges of the line, without blanks
    const std::string line = squeeze(lines[k]);
    std::string got;
    for (size_t at = line.find('('); at != std::string::npos; at = line.find('(', at + 1)) {
      const size_t colon = line.find(':', at);
      const size_t end = line.find_first_not_of("0123456789.-", colon + 1);
      got += line.substr(at, end == std::string::npos ? std::string::npos : end - at) + ";";
    }
    VP_CHECK(got == in[k] + out[k], "edges ", got, " of node ", k, " instead of ", in[k] + out[k], " in ", text);
  }
  s.nontrivialIf(edges >= 3);
  if (s.noting()) s.note(text);
}

}  // namespace
