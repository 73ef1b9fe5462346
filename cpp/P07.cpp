#include "graph_common.hpp"

#include <arc_utilities/dijkstras.hpp>

using namespace gm;
using D = arc_dijkstras::SimpleDijkstrasAlgorithm<Value>;
static const double INF = std::numeric_limits<double>::infinity();

static Model modelOf(const Rand& r) {
  Model m(r.n);
  for (size_t k = 0; k < r.n; ++k) m[k].value = vp::cat("n", k);
  for (const MEdge& e : r.edges) {
    m[(size_t)e.from].out.push_back(e);
    m[(size_t)e.to].in.push_back(e);
  }
  return m;
}

VP_PROP(distances_and_tree_are_exact, 80000, 1600000) {
  Rand r = randomGraph(s, s.chance(1, 500) ? 1200 : s.chance(1, 20) ? 60 : 12);
  size_t infs = 0;
  if (s.chance(1, 4)) {  // sums of weights stay exact at any magnitude
    const double scale = std::ldexp(1.0, (int)s.i(-60, 60));
    for (MEdge& e : r.edges) e.w *= scale;
  }
  for (MEdge& e : r.edges) {
    if (s.chance(1, 25)) {
      e.w = INF;
      ++infs;
    }
    if (s.chance(1, 10)) e.validity = (int)s.choice(3);  // irrelevant to Dijkstra
  }
  Graph g = build(r);
  Model m = modelOf(r);
  if (s.b())
    for (size_t k = 0; k < r.n; ++k) g.getNode((int64_t)k).setDistance((double)s.choice(5));  // stale distances
  const int64_t start = s.i(0, (int64_t)r.n - 1);
  const Graph before(g);
  const auto res = D::PerformDijkstrasAlgorithm(g, start);
  // distances towards start: shortest paths from start on the reversed edges
  std::vector<MEdge> rev;
  for (const MEdge& e : r.edges) rev.push_back({e.to, e.from, e.w, e.validity});
  const auto d = bellmanFord(r.n, rev, start, [](const MEdge&) { return true; });
  const auto& prev = res.second.first;
  const auto& dist = res.second.second;
  s.note(showRand(r)).note(vp::cat(" start ", start, " -> ")).note(vp::show(dist)).note(vp::show(prev));
  VP_CHECK(prev.size() == r.n && dist.size() == r.n);
  size_t reached = 0, far = 0;
  for (size_t k = 0; k < r.n; ++k) {
    VP_CHECK(dist[k] == d[k], "distance of ", k, " is ", dist[k], " expected ", d[k]);
    m[k].distance = d[k];
    if (d[k] == INF) {
      VP_CHECK(prev[k] == -1, "unreachable node ", k, " has predecessor ", prev[k]);
      continue;
    }
    ++reached;
    // Following predecessors walks to the start at exactly that cost.
    double cost = 0;
    size_t steps = 0;
    int64_t at = (int64_t)k;
    while (at != start) {
      const int64_t nx = prev[(size_t)at];
      VP_CHECK(nx >= 0 && nx < (int64_t)r.n, "predecessor ", nx, " of ", at);
      double best = INF;
      for (const MEdge& e : r.edges)
        if (e.from == at && e.to == nx) best = std::min(best, e.w);
      VP_CHECK(best < INF, "no edge from ", at, " to its predecessor ", nx);
      cost += best;
      at = nx;
      VP_CHECK(++steps <= r.n, "predecessors of ", k, " never reach the start");
    }
    far = std::max(far, steps);
    VP_CHECK(cost == d[k], "walk from ", k, " costs ", cost, " expected ", d[k]);
  }
  VP_CHECK(prev[(size_t)start] == start);
  compare(res.first, m, "returned graph");
  for (size_t k = 0; k < r.n; ++k) VP_CHECK(vp::sameBits(g.getNode((int64_t)k).getDistance(), before.getNode((int64_t)k).getDistance()), "input changed");
  s.nontrivialIf(far >= 2);
  s.label(vp::cat(reached == r.n ? "all reach" : "some cannot", far >= 4 ? ", deep tree" : ""));
}

VP_PROP(results_survive_serialization, 60000, 1200000) {
  const Rand r = randomGraph(s, s.chance(1, 500) ? 1500 : 8);
  const Graph g = build(r);
  const auto res = D::PerformDijkstrasAlgorithm(g, s.i(0, (int64_t)r.n - 1));
  std::vector<uint8_t> buf = s.bytes(6);
  const auto prefix = buf;
  const size_t at = buf.size();
  const uint64_t wrote = D::SerializeDijstrasResult(res, buf, writeValue);
  VP_CHECK(buf.size() == at + wrote, "reported ", wrote, " bytes, appended ", buf.size() - at);
  VP_CHECK(std::equal(prefix.begin(), prefix.end(), buf.begin()), "prefix changed");
  for (uint8_t t : s.bytes(6)) buf.push_back(t);
  const auto back = D::DijstrasResult(buf, at, readValue);
  VP_CHECK(back.second == wrote, "consumed ", back.second, " of ", wrote);
  VP_CHECK(back.first.second.first == res.second.first, "predecessors");
  VP_CHECK(back.first.second.second == res.second.second, "distances");
  Model m = modelOf(r);
  for (size_t k = 0; k < r.n; ++k) m[k].distance = res.first.getNode((int64_t)k).getDistance();
  compare(back.first.first, m, "deserialized graph");
  s.note(showRand(r));
  s.nontrivialIf(r.edges.size() >= 1 && at > 0);
}

VP_PROP(start_outside_the_graph_is_rejected, 20000, 200000) {
  Rand r;
  if (!s.chance(1, 5)) r = randomGraph(s, 5);
  const Graph g = build(r);
  const int64_t bad = s.b() ? -s.i(1, 5) : (int64_t)r.n + s.i(0, 5);
  VP_THROWS(D::PerformDijkstrasAlgorithm(g, bad), bad);
  s.note(vp::cat(bad, " of ", r.n));
  s.nontrivial();
}
