// Model of arc_dijkstras::Graph<int64_t>-like graphs and random graph generators.
#pragma once
#include "vp.hpp"

#include <arc_utilities/graph.hpp>

namespace gm {

using Value = std::string;
using Graph = arc_dijkstras::Graph<Value>;
using Node = arc_dijkstras::GraphNode<Value>;
using Edge = arc_dijkstras::GraphEdge;

struct MEdge {
  int64_t from, to;
  double w;
  int validity;  // 0 valid 1 invalid 2 unknown
  bool operator==(const MEdge& o) const { return from == o.from && to == o.to && w == o.w && validity == o.validity; }
  bool operator<(const MEdge& o) const {
    return std::tie(from, to, w, validity) < std::tie(o.from, o.to, o.w, o.validity);
  }
};

struct MNode {
  Value value;
  double distance = std::numeric_limits<double>::infinity();
  std::vector<MEdge> in, out;
};

using Model = std::vector<MNode>;

inline arc_dijkstras::EDGE_VALIDITY validity(int v) {
  return v == 0 ? arc_dijkstras::EDGE_VALIDITY::VALID
                : v == 1 ? arc_dijkstras::EDGE_VALIDITY::INVALID : arc_dijkstras::EDGE_VALIDITY::UNKNOWN;
}
inline int validity(arc_dijkstras::EDGE_VALIDITY v) {
  return v == arc_dijkstras::EDGE_VALIDITY::VALID ? 0 : v == arc_dijkstras::EDGE_VALIDITY::INVALID ? 1 : 2;
}

inline MEdge edgeOf(const Edge& e) { return MEdge{e.getFromIndex(), e.getToIndex(), e.getWeight(), validity(e.getValidity())}; }
inline Edge toEdge(const MEdge& e) {
  Edge g(e.from, e.to, e.w);
  g.setValidity(validity(e.validity));
  return g;
}
inline std::vector<MEdge> edgesOf(const std::vector<Edge>& v) {
  std::vector<MEdge> o;
  for (const Edge& e : v) o.push_back(edgeOf(e));
  return o;
}
inline std::vector<Edge> toEdges(const std::vector<MEdge>& v) {
  std::vector<Edge> o;
  for (const MEdge& e : v) o.push_back(toEdge(e));
  return o;
}

inline std::string showEdges(const std::vector<MEdge>& v) {
  std::ostringstream o;
  for (const MEdge& e : v) o << e.from << ">" << e.to << ":" << e.w << "/" << e.validity << " ";
  return o.str();
}
inline std::string showModel(const Model& m) {
  std::ostringstream o;
  for (size_t k = 0; k < m.size(); ++k) o << "[" << k << " out " << showEdges(m[k].out) << "in " << showEdges(m[k].in) << "]";
  return o.str();
}

// ordered: compare edge lists in order, else as multisets.
inline void compare(const Graph& g, const Model& m, const char* where) {
  const Graph& cg = g;
  VP_CHECK(cg.getNodes().size() == m.size(), where, ": ", cg.getNodes().size(), " nodes instead of ", m.size());
  for (size_t k = 0; k < m.size(); ++k) {
    const Node& n = cg.getNode(static_cast<int64_t>(k));
    VP_CHECK(n.getValue() == m[k].value, where, ": value of node ", k);
    VP_CHECK(vp::sameBits(n.getDistance(), m[k].distance), where, ": distance of node ", k, " is ", n.getDistance());
    auto in = edgesOf(n.getInEdges()), out = edgesOf(n.getOutEdges());
    auto min = m[k].in, mout = m[k].out;
    std::sort(in.begin(), in.end());
    std::sort(out.begin(), out.end());
    std::sort(min.begin(), min.end());
    std::sort(mout.begin(), mout.end());
    VP_CHECK(in == min, where, ": in edges of node ", k, ": ", showEdges(in), " expected ", showEdges(min));
    VP_CHECK(out == mout, where, ": out edges of node ", k, ": ", showEdges(out), " expected ", showEdges(mout));
  }
}

inline uint64_t writeValue(const Value& v, std::vector<uint8_t>& b) {
  return arc_utilities::SerializeString<char>(v, b);
}
inline std::pair<Value, uint64_t> readValue(const std::vector<uint8_t>& b, const uint64_t c) {
  return arc_utilities::DeserializeString<char>(b, c);
}

// A random directed graph with exactly representable weights, as an edge list.
struct Rand {
  size_t n = 0;
  std::vector<MEdge> edges;
};

// Weights are multiples of 1/8, so that every sum of them is exact in any order.
inline double weight(vp::Src& s, bool zero = true) {
  switch (s.choice(4)) {
    case 0: return 1.0;
    case 1: return static_cast<double>(s.i(1, 4));
    case 2: return zero && s.chance(1, 2) ? 0.0 : 2.0;
    default: return static_cast<double>(s.i(1, 400)) / 8.0;
  }
}

inline Rand randomGraph(vp::Src& s, size_t maxNodes, bool allowParallel = true) {
  Rand r;
  if (maxNodes > 100) {  // a large graph takes few choices
    r.n = s.big(60, maxNodes);
    vp::Src d;
    s.detach(d);
    const uint64_t shape = s.choice(4);
    const auto add = [&](size_t a, size_t b) {
      if (a == b) return;
      if (!allowParallel && !r.edges.empty() && r.edges.size() < 20000)
        for (const MEdge& e : r.edges)
          if (e.from == (int64_t)a && e.to == (int64_t)b) return;
      r.edges.push_back({(int64_t)a, (int64_t)b, weight(d), 2});
    };
    for (size_t k = 1; k < r.n; ++k) {
      const size_t to = shape == 0 ? k - 1 : shape == 1 ? 0 : shape == 2 ? (size_t)d.choice(k) : k >= 30 ? k - 30 : k - 1;
      if (!d.chance(1, 300)) add(k, to);
      if (!d.chance(1, 300)) add(to, k);
    }
    for (size_t k = d.choice(r.n); k > 0; --k) add((size_t)d.choice(r.n), (size_t)d.choice(r.n));
    s.label(r.n > 256 ? "more than 256 nodes" : "60 to 256 nodes");
    return r;
  }
  r.n = s.u(1, maxNodes);
  const uint64_t shape = s.choice(4);
  if (shape == 1) {  // a ring or line with chords
    for (size_t k = 0; k + 1 < r.n; ++k) r.edges.push_back({(int64_t)k, (int64_t)k + 1, weight(s), 2});
    if (s.b() && r.n > 2) r.edges.push_back({(int64_t)r.n - 1, 0, weight(s), 2});
  }
  if (shape == 2) {  // a grid, both directions
    const size_t w = s.u(1, 4);
    for (size_t k = 0; k < r.n; ++k) {
      if ((k + 1) % w != 0 && k + 1 < r.n) {
        r.edges.push_back({(int64_t)k, (int64_t)k + 1, weight(s), 2});
        r.edges.push_back({(int64_t)k + 1, (int64_t)k, weight(s), 2});
      }
      if (k + w < r.n) {
        r.edges.push_back({(int64_t)k, (int64_t)(k + w), weight(s), 2});
        r.edges.push_back({(int64_t)(k + w), (int64_t)k, weight(s), 2});
      }
    }
  }
  if (r.n > 1) {
    s.repeat(0, 3 * r.n, [&] {
      const int64_t a = s.i(0, (int64_t)r.n - 1);
      int64_t b = s.i(0, (int64_t)r.n - 2);
      if (b >= a) ++b;
      if (!allowParallel)
        for (const MEdge& e : r.edges)
          if (e.from == a && e.to == b) return;
      r.edges.push_back({a, b, weight(s), 2});
    });
  }
  if (shape == 3) s.shuffle(r.edges);
  return r;
}

inline Graph build(const Rand& r) {
  Graph g;
  for (size_t k = 0; k < r.n; ++k) g.addNode(vp::cat("n", k));
  for (const MEdge& e : r.edges) g.addEdgeBetweenNodes(e.from, e.to, e.w).setValidity(validity(e.validity));
  // the in-edge copies too
  std::vector<std::vector<Edge>> in(r.n);
  for (const MEdge& e : r.edges) in[(size_t)e.to].push_back(toEdge(e));
  for (size_t k = 0; k < r.n; ++k) g.getNode((int64_t)k).setInEdges(in[k]);
  return g;
}

inline std::string showRand(const Rand& r) { return vp::cat("n=", r.n, " ", showEdges(r.edges)); }

// Distances from start along edges (Bellman-Ford); usable(edge) filters.
template <class F>
std::vector<double> bellmanFord(size_t n, const std::vector<MEdge>& edges, int64_t start, F usable) {
  std::vector<double> d(n, std::numeric_limits<double>::infinity());
  d[(size_t)start] = 0.0;
  for (size_t round = 0; round < n; ++round) {
    bool changed = false;
    for (const MEdge& e : edges) {
      if (!usable(e)) continue;
      const double nd = d[(size_t)e.from] + e.w;
      if (nd < d[(size_t)e.to]) {
        d[(size_t)e.to] = nd;
        changed = true;
      }
    }
    if (!changed) break;
  }
  return d;
}

}  // namespace gm
