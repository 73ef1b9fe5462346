#include "vp.hpp"

#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/simple_prm_planner.hpp>
#include <random>

namespace {

struct P {
  int x, y;
  bool operator==(const P& o) const { return x == o.x && y == o.y; }
};
std::ostream& operator<<(std::ostream& o, const P& p) { return o << "(" << p.x << "," << p.y << ")"; }

using Graph = arc_dijkstras::Graph<P>;
using Edge = arc_dijkstras::GraphEdge;
using PRM = simple_prm_planner::SimpleGeometricPrmPlanner;
using Dist = std::function<double(const P&, const P&)>;
using EdgeOk = std::function<bool(const P&, const P&)>;
const double INF = std::numeric_limits<double>::infinity();

uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// Symmetric validity of straight motions: a wall with a gap, or arbitrary pairs forbidden.
struct World {
  int wall = 100, gap = 0;
  uint64_t salt = 0, per10 = 0;
  bool edge(const P& a, const P& b) const {
    if ((a.x < wall) != (b.x < wall) && !(a.y == gap || b.y == gap)) return false;
    const uint64_t ka = mix(salt + (uint64_t)(a.x * 1000 + a.y)), kb = mix(salt + (uint64_t)(b.x * 1000 + b.y));
    return mix(ka + kb) % 10 >= per10;
  }
  bool state(const P& a) const { return mix(salt * 31 + (uint64_t)(a.x * 77 + a.y)) % 5 != 0 || per10 == 0; }
};
World world(vp::Src& s) {
  World w;
  if (s.b()) {
    w.wall = (int)s.i(1, 5);
    w.gap = (int)s.i(0, 6);
  }
  w.salt = s.choice(1000);
  w.per10 = s.choice(5);
  return w;
}

// How a node came into the roadmap: the order of arguments its neighbours were ranked with.
struct Rec {
  P state;
  bool fromNew;  // distances from the new state to the roadmap
  World valid;
};

struct Model {
  std::vector<Rec> nodes;
  size_t K;
  bool dup;
  Dist d;
};

bool known(const Model& m, const P& p) {
  for (const Rec& r : m.nodes)
    if (r.state == p) return true;
  return false;
}
// Returns whether a node is expected to be created.
bool expectNode(Model& m, const P& p, bool fromNew, const World& w) {
  if (!m.dup && known(m, p)) return false;
  m.nodes.push_back({p, fromNew, w});
  return true;
}

// weightOf(i, j): expected weight of the edge i->j.
void judgeRoadmap(const Graph& g, const Model& m, std::function<double(size_t, size_t)> weightOf) {
  const size_t n = m.nodes.size();
  VP_CHECK(g.getNodes().size() == n, g.getNodes().size(), " nodes, expected ", n);
  VP_CHECK(g.checkGraphLinkage());
  std::vector<std::vector<int>> cnt(n, std::vector<int>(n, 0)), cntIn(n, std::vector<int>(n, 0));
  for (size_t i = 0; i < n; ++i) {
    VP_CHECK(g.getNode((int64_t)i).getValue() == m.nodes[i].state, "node ", i, " is ", g.getNode((int64_t)i).getValue(), " expected ", m.nodes[i].state);
    for (const Edge& e : g.getNode((int64_t)i).getOutEdges()) {
      const size_t j = (size_t)e.getToIndex();
      ++cnt[i][j];
      VP_CHECK(e.getWeight() == weightOf(i, j), "edge ", i, "->", j, " weighs ", e.getWeight(), " expected ", weightOf(i, j));
    }
    for (const Edge& e : g.getNode((int64_t)i).getInEdges()) {
      const size_t j = (size_t)e.getFromIndex();
      ++cntIn[j][i];
      VP_CHECK(e.getWeight() == weightOf(j, i), "in edge ", j, "->", i, " weighs ", e.getWeight(), " expected ", weightOf(j, i));
    }
  }
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < i; ++j) {
      VP_CHECK(cnt[i][j] == cnt[j][i] && cnt[i][j] <= 1 && cntIn[i][j] == cnt[i][j] && cntIn[j][i] == cnt[j][i],
               "edges between ", i, " and ", j, ": ", cnt[i][j], " ", cnt[j][i], " ", cntIn[i][j], " ", cntIn[j][i]);
      VP_CHECK(!cnt[i][j] || m.nodes[i].valid.edge(m.nodes[j].state, m.nodes[i].state), "invalid motion ", j, "-", i, " is an edge");
    }
    // the earlier nodes joined to i are its K nearest ones as far as they can be connected
    std::vector<double> dist;
    for (size_t j = 0; j < i; ++j)
      dist.push_back(m.nodes[i].fromNew ? m.d(m.nodes[i].state, m.nodes[j].state) : m.d(m.nodes[j].state, m.nodes[i].state));
    std::vector<double> sorted = dist;
    std::sort(sorted.begin(), sorted.end());
    const double kth = i == 0 || m.K == 0 ? -1.0 : sorted[std::min(i, m.K) - 1];
    size_t nearer = 0, atK = 0, badAtK = 0, joinedAtK = 0;
    for (size_t j = 0; j < i; ++j) {
      const bool ok = m.nodes[i].valid.edge(m.nodes[j].state, m.nodes[i].state);
      if (dist[j] < kth) {
        ++nearer;
        VP_CHECK((cnt[i][j] == 1) == ok, "node ", i, " should ", ok ? "" : "not ", "be joined to its near neighbour ", j);
      } else if (dist[j] == kth) {
        ++atK;
        badAtK += !ok;
        joinedAtK += cnt[i][j];
      } else {
        VP_CHECK(cnt[i][j] == 0, "node ", i, " is joined to ", j, " which is not among its nearest");
      }
    }
    if (kth >= 0) {
      const size_t slots = std::min(i, m.K) - nearer;
      VP_CHECK(joinedAtK <= slots && joinedAtK + badAtK >= slots, "node ", i, ": ", joinedAtK, " neighbours at the last distance, ", slots, " places, ", badAtK, " blocked");
    }
  }
}

double optimum(const Graph& g, const std::vector<P>& starts, const P& goal, std::function<double(size_t, size_t, double)> cost) {
  const size_t n = g.getNodes().size();
  std::vector<double> d(n, INF);
  for (size_t k = 0; k < n; ++k)
    for (const P& p : starts)
      if (g.getNode((int64_t)k).getValue() == p) d[k] = 0;
  for (size_t round = 0; round <= n; ++round)
    for (size_t k = 0; k < n; ++k)
      for (const Edge& e : g.getNode((int64_t)k).getOutEdges()) {
        const size_t j = (size_t)e.getToIndex();
        d[j] = std::min(d[j], d[k] + cost(k, j, e.getWeight()));
      }
  double best = INF;
  for (size_t k = 0; k < n; ++k)
    if (g.getNode((int64_t)k).getValue() == goal) best = std::min(best, d[k]);
  return best;
}

void judgePath(vp::Src& s, const Graph& g, const std::vector<P>& starts, const P& goal, const std::pair<std::vector<P>, double>& res,
               std::function<double(size_t, size_t, double)> cost, const Dist& d, bool exact) {
  const double best = optimum(g, starts, goal, cost);
  s.note(vp::cat(" best ", best, " path ", vp::show(res.first)));
  if (res.first.empty()) {
    VP_CHECK(res.second == INF, "cost without path ", res.second);
    VP_CHECK(!exact || best == INF, "no path although one of cost ", best, " exists");
    s.label("no path");
    return;
  }
  bool isStart = false;
  for (const P& p : starts) isStart = isStart || res.first.front() == p;
  VP_CHECK(isStart && res.first.back() == goal, "path ", vp::show(res.first));
  double total = 0;
  for (size_t k = 0; k + 1 < res.first.size(); ++k) {
    const P &a = res.first[k], &b = res.first[k + 1];
    bool found = a == b && res.first.size() == 2;  // start and goal are the same node
    for (size_t i = 0; i < g.getNodes().size(); ++i)
      if (g.getNode((int64_t)i).getValue() == a)
        for (const Edge& e : g.getNode((int64_t)i).getOutEdges())
          found = found || (g.getNode(e.getToIndex()).getValue() == b && cost(i, (size_t)e.getToIndex(), e.getWeight()) < INF);
    VP_CHECK(found, "path step ", a, " to ", b, " is no valid edge");
    total += d(a, b);
  }
  VP_CHECK(total == res.second, "path costs ", total, ", reported ", res.second);
  if (exact) VP_CHECK(res.second == best, "path costs ", res.second, ", optimum ", best);
  s.nontrivialIf(res.first.size() >= 3);
  s.label(vp::cat("path of ", std::min<size_t>(res.first.size(), 6)));
}

P point(vp::Src& s, int reach = 7) { return P{(int)s.i(0, reach), (int)s.i(0, reach)}; }

struct Setup {
  Model m;
  World w;
  bool sym;
  Graph g;
};

Setup roadmap(vp::Src& s, size_t maxSamples) {
  Setup t;
  t.w = world(s);
  t.m.K = s.u(1, 6);
  t.m.dup = s.chance(1, 4);
  t.sym = s.b();
  const double climb = t.sym ? 0.0 : (double)s.i(1, 4) / 2.0;
  t.m.d = [climb](const P& a, const P& b) {
    return std::abs(a.x - b.x) + std::abs(a.y - b.y) + climb * std::max(0, b.y - a.y) + climb / 2 * std::max(0, a.x - b.x);
  };
  const auto samples = s.list(0, maxSamples, [&] { return point(s, maxSamples > 30 ? 12 : 7); });
  size_t at = 0;
  const World w = t.w;
  const auto sample = [&] {
    VP_CHECK(at < samples.size(), "sampled after termination");
    return samples[at++];
  };
  const EdgeOk ok = [w](const P& a, const P& b) { return w.edge(a, b); };
  const auto state = [w](const P& p) { return w.state(p); };
  const size_t half = s.b() ? samples.size() : samples.size() / 2;
  // without duplicates and with a symmetric distance the defaults do
  const bool defaults = t.sym && !t.m.dup && s.b();
  if (defaults)
    t.g = PRM::BuildRoadMap<P>(sample, t.m.d, state, ok, [&] { return at >= half; }, t.m.K);
  else
    t.g = PRM::BuildRoadMap<P>(sample, t.m.d, state, ok, [&] { return at >= half; }, t.m.K, t.sym, t.m.dup);
  if (half < samples.size() && defaults)
    PRM::ExtendRoadMap<P>(t.g, sample, t.m.d, state, ok, [&] { return at >= samples.size(); }, t.m.K);
  else if (half < samples.size())
    PRM::ExtendRoadMap<P>(t.g, sample, t.m.d, state, ok, [&] { return at >= samples.size(); }, t.m.K, t.sym, t.m.dup);
  VP_CHECK(at == samples.size(), "growth stopped after ", at, " of ", samples.size(), " samples");
  for (const P& p : samples)
    if (w.state(p)) expectNode(t.m, p, false, w);
  s.note(vp::show(samples)).note(vp::cat(" K=", t.m.K, " sym=", t.sym, " climb=", climb, " dup=", t.m.dup, " wall=", t.w.wall, "/", t.w.gap, " salt=", t.w.salt, " p=", t.w.per10));
  return t;
}

std::function<double(size_t, size_t)> distances(const Setup& t) {
  return [&t](size_t i, size_t j) { return t.m.d(t.m.nodes[i].state, t.m.nodes[j].state); };
}
bool sameGraph(const Graph& a, const Graph& b) {
  if (a.getNodes().size() != b.getNodes().size()) return false;
  for (size_t k = 0; k < a.getNodes().size(); ++k) {
    const auto &x = a.getNode((int64_t)k), &y = b.getNode((int64_t)k);
    if (!(x.getValue() == y.getValue()) || !(x.getInEdges() == y.getInEdges()) || !(x.getOutEdges() == y.getOutEdges())) return false;
  }
  return true;
}

VP_PROP(roadmaps_contain_exactly_the_nearest_valid_edges, 84000, 1800000) {
  const Setup t = roadmap(s, s.chance(1, 200) ? 120 : 25);
  judgeRoadmap(t.g, t.m, distances(t));
  s.nontrivialIf(t.m.nodes.size() >= 4);
  s.label(vp::cat(t.sym ? "symmetric" : "asymmetric", t.m.dup ? ", duplicates" : ""));
}

VP_PROP(updating_edges_reweights_them, 48000, 900000) {
  Setup t = roadmap(s, s.chance(1, 200) ? 90 : 18);
  // the world changes several times: motions get blocked and free again
  const size_t rounds = s.u(1, 4);
  for (size_t round = 0; round < rounds; ++round) {
    const World now = s.chance(1, 3) ? t.w : world(s);
    const double factor = (double)s.i(1, 4) / 2.0;
    const Dist metric = [&](const P& a, const P& b) { return factor * t.m.d(a, b); };
    PRM::UpdateRoadMapEdges<P>(t.g, [now](const P& a, const P& b) { return now.edge(a, b); }, metric);
    judgeRoadmap(t.g, t.m, [&](size_t i, size_t j) {
      const P &a = t.m.nodes[i].state, &b = t.m.nodes[j].state;
      return now.edge(a, b) ? metric(a, b) : INF;
    });
  }
  const World w2 = t.w;
  const Dist d2 = t.m.d;
  // further edges of the user, beside those there are
  if (!t.g.getNodes().empty() && s.chance(1, 2)) {
    const size_t n = t.g.getNodes().size();
    std::map<std::pair<size_t, size_t>, std::pair<size_t, size_t>> count;
    for (size_t k = s.u(1, 12); k > 0; --k) {
      const int64_t from = (int64_t)s.choice(std::min<size_t>(n, 6)), to = (int64_t)s.choice(std::min<size_t>(n, 6));
      if (from != to) t.g.addEdgeBetweenNodes(from, to, (double)s.i(1, 5));
    }
    for (size_t i = 0; i < n; ++i) {
      for (const Edge& e : t.g.getNode((int64_t)i).getOutEdges()) count[{i, (size_t)e.getToIndex()}].first++;
      for (const Edge& e : t.g.getNode((int64_t)i).getInEdges()) count[{(size_t)e.getFromIndex(), i}].second++;
    }
    const World now = world(s);
    PRM::UpdateRoadMapEdges<P>(t.g, [now](const P& a, const P& b) { return now.edge(a, b); }, d2);
    bool parallel = false;
    for (size_t i = 0; i < n; ++i) {
      const auto judge = [&](size_t from, const Edge& e, size_t to) {
        const P &a = t.m.nodes[from].state, &b = t.m.nodes[to].state;
        const double want = now.edge(a, b) ? d2(a, b) : INF;
        VP_CHECK(e.getWeight() == want, "edge ", from, "->", to, " of node ", i, " weighs ", e.getWeight(), " expected ", want);
      };
      for (const Edge& e : t.g.getNode((int64_t)i).getOutEdges()) {
        judge(i, e, (size_t)e.getToIndex());
        count[{i, (size_t)e.getToIndex()}].first--;
      }
      for (const Edge& e : t.g.getNode((int64_t)i).getInEdges()) {
        judge((size_t)e.getFromIndex(), e, i);
        parallel = parallel || count[{(size_t)e.getFromIndex(), i}].second > 1;
        count[{(size_t)e.getFromIndex(), i}].second--;
      }
    }
    for (const auto& c : count) VP_CHECK(c.second.first == 0 && c.second.second == 0, "edges between ", c.first.first, " and ", c.first.second, " came or went");
    s.label(parallel ? "parallel edges" : "single edges");
  }
  // a roadmap whose links disagree is refused
  if (t.g.getNodes().size() >= 2) {
    Graph broken = t.g;
    broken.getNode(0).addOutEdge(Edge(0, 1 + s.i(0, 3) * 50, 1.0));
    if (!broken.checkGraphLinkage())
      VP_THROWS(PRM::UpdateRoadMapEdges<P>(broken, [w2](const P& a, const P& b) { return w2.edge(a, b); }, d2));
  }
  s.nontrivialIf(t.m.nodes.size() >= 4);
}

VP_PROP(queries_return_optimal_roadmap_paths, 20000, 400000) {
  Setup t = roadmap(s, s.chance(1, 100) ? 70 : 16);
  const auto weights = distances(t);
  const World qw = s.b() ? t.w : world(s);  // what the query believes about motions
  const EdgeOk qok = [qw](const P& a, const P& b) { return qw.edge(a, b); };
  const size_t rounds = s.u(1, 3);
  for (size_t round = 0; round < rounds; ++round) {
    const P goal = point(s);
    std::vector<P> starts = s.list(1, 3, [&] { return point(s); });
    const uint64_t kind = s.choice(4);
    const bool lim = s.b(), keep = s.b();
    const size_t K = t.m.K;
    s.note(vp::cat(" | query ", kind, " ", vp::show(starts), " to ", goal));
    const auto stored = [](size_t, size_t, double w) { return w; };
    const auto lazy = [&](size_t i, size_t j, double) {
      const P &a = t.m.nodes[i].state, &b = t.m.nodes[j].state;
      return qw.edge(a, b) ? t.m.d(a, b) : INF;
    };
    Graph work = t.g;
    const Model before = t.m;
    std::pair<std::vector<P>, double> res, same;
    const bool defaults = t.sym && !t.m.dup && s.chance(1, 3);
    if (kind <= 1) {
      starts.resize(1);
      if (starts[0] == goal) continue;
      if (kind == 0) {
        res = defaults ? PRM::QueryPathAndAddNodesSingleStartSingleGoal<P>(starts[0], goal, work, qok, t.m.d, K)
                        : PRM::QueryPathAndAddNodesSingleStartSingleGoal<P>(starts[0], goal, work, qok, t.m.d, K, t.sym, t.m.dup, lim);
        same = defaults ? PRM::QueryPathSingleStartSingleGoal<P>(starts[0], goal, t.g, qok, t.m.d, K)
                        : PRM::QueryPathSingleStartSingleGoal<P>(starts[0], goal, t.g, qok, t.m.d, K, t.sym, t.m.dup, lim);
      } else {
        res = defaults ? PRM::LazyQueryPathAndAddNodesSingleStartSingleGoal<P>(starts[0], goal, work, qok, t.m.d, K)
                        : PRM::LazyQueryPathAndAddNodesSingleStartSingleGoal<P>(starts[0], goal, work, qok, t.m.d, K, t.sym, t.m.dup, lim);
        same = defaults ? PRM::LazyQueryPathSingleStartSingleGoal<P>(starts[0], goal, t.g, qok, t.m.d, K)
                        : PRM::LazyQueryPathSingleStartSingleGoal<P>(starts[0], goal, t.g, qok, t.m.d, K, t.sym, t.m.dup, lim);
      }
    } else if (kind == 2) {
      res = defaults ? PRM::QueryPathAndAddNodesMultiStartSingleGoal<P>(starts, goal, work, qok, t.m.d, K)
                      : PRM::QueryPathAndAddNodesMultiStartSingleGoal<P>(starts, goal, work, qok, t.m.d, K, t.sym, t.m.dup);
      same = defaults ? PRM::QueryPathMultiStartSingleGoal<P>(starts, goal, t.g, qok, t.m.d, K)
                      : PRM::QueryPathMultiStartSingleGoal<P>(starts, goal, t.g, qok, t.m.d, K, t.sym, t.m.dup);
    } else {
      std::vector<P> goals = s.list(0, 2, [&] { return point(s); });
      goals.push_back(goal);
      const Graph frozen = t.g;
      res = defaults ? PRM::QueryPathMultiStartMultiGoal<P>(starts, goals, frozen, qok, t.m.d, K)
                     : PRM::QueryPathMultiStartMultiGoal<P>(starts, goals, frozen, qok, t.m.d, K, t.sym, t.m.dup);
      VP_CHECK(sameGraph(frozen, t.g), "a query changed the roadmap");
      double best = INF;
      std::vector<std::pair<std::vector<P>, double>> each;
      for (const P& gl : goals) {
        each.push_back(PRM::QueryPathMultiStartSingleGoal<P>(starts, gl, t.g, qok, t.m.d, K, t.sym, t.m.dup));
        best = std::min(best, each.back().second);
      }
      VP_CHECK(res.second == best, "best over goals costs ", res.second, " expected ", best);
      bool found = best == INF && res.first.empty();
      for (const auto& e : each) found = found || (e.second == best && e.first.size() == res.first.size() && e.first.back() == res.first.back());
      VP_CHECK(found, "path ", vp::show(res.first));
      continue;
    }
    // the roadmap asked through the const interface stayed as it was, and the answer is the same
    VP_CHECK(same.second == res.second && same.first == res.first, "differs from the query that adds nodes: ", vp::show(same.first));
    t.m = before;
    for (const P& p : starts) expectNode(t.m, p, true, qw);
    expectNode(t.m, goal, false, qw);
    judgeRoadmap(work, t.m, weights);
    // a start that is already connected keeps its node; with duplicates only the new nodes are the end points
    const bool exact = !t.m.dup;
    judgePath(s, work, starts, goal, res, kind == 1 ? std::function<double(size_t, size_t, double)>(lazy) : stored, t.m.d, exact);
    if (keep) {
      t.g = work;
    } else {
      t.m = before;
      judgeRoadmap(t.g, t.m, weights);
    }
  }
}

VP_PROP(random_walk_queries_follow_edges, 40000, 600000) {
  Setup t;
  do {
    t = roadmap(s, 10);
  } while (false);
  // everything connects, so the walk terminates
  Graph g;
  std::vector<P> pts = s.list(0, 8, [&] { return point(s); });
  size_t at = 0;
  g = PRM::BuildRoadMap<P>([&] { return pts[at++]; }, t.m.d, [](const P&) { return true; }, [](const P&, const P&) { return true; },
                           [&] { return at >= pts.size(); }, t.m.K, t.sym, false);
  const P a = point(s), b = point(s);
  std::mt19937_64 gen(s.choice(100));
  const auto res = PRM::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<P>(a, b, gen, g, [](const P&, const P&) { return true; }, t.m.d, t.m.K, t.sym);
  VP_CHECK(g.checkGraphLinkage());
  if (!(a == b)) judgePath(s, g, {a}, b, res, [](size_t, size_t, double w) { return w; }, t.m.d, false);
}

}  // namespace
