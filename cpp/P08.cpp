#include "graph_common.hpp"

#include <arc_utilities/dijkstras.hpp>
#include <arc_utilities/simple_astar_planner.hpp>
#include <set>

using namespace gm;
using A = arc_dijkstras::SimpleGraphAstar<Value>;
static const double INF = std::numeric_limits<double>::infinity();

struct Problem {
  Rand r;
  std::vector<double> h;  // admissible heuristic, often a consistent one
  int64_t start, goal;
  double best;
  std::string hname;
};

static bool usable(const MEdge& e) { return e.validity != 1 && e.w < INF; }

// A consistent heuristic or, where `any` is set, sometimes one that is merely admissible.
static std::vector<double> heuristic(vp::Src& s, const std::vector<double>& toGoal, std::string& name, bool any) {
  std::vector<double> h(toGoal.size(), 0.0);
  if (any && s.chance(1, 3)) {
    for (size_t k = 0; k < h.size(); ++k) {
      const uint64_t part = s.choice(9);
      h[k] = toGoal[k] == INF ? (double)part * 600 : toGoal[k] * (double)part / 8;
    }
    name = "admissible h";
    return h;
  }
  static const double f[] = {0.0, 0.5, 1.0, 0.25};
  const double c = f[s.choice(4)];
  const bool clip = s.chance(1, 3);
  const double cut = clip ? (double)s.choice(5) : 0.0;
  for (size_t k = 0; k < h.size(); ++k) {
    // 5000 exceeds every finite distance; consistent because unreachable nodes only lead to unreachable nodes
    const double d = toGoal[k] == INF ? 5000.0 : toGoal[k];
    h[k] = std::max(0.0, c * d - cut);
  }
  name = vp::cat("h=", c, clip ? " clipped" : "");
  return h;
}

static Problem problem(vp::Src& s, bool parallel) {
  Problem p;
  p.r = randomGraph(s, s.chance(1, 1000) ? 400 : s.chance(1, 20) ? 40 : 12, parallel);
  if (p.r.n < 2) p.r.n = 2;
  for (MEdge& e : p.r.edges) {
    if (s.chance(1, 5)) e.validity = (int)s.choice(3);
    if (s.chance(1, 25)) e.w = INF;
  }
  p.start = s.i(0, (int64_t)p.r.n - 1);
  p.goal = s.i(0, (int64_t)p.r.n - 2);
  if (p.goal >= p.start) ++p.goal;
  std::vector<MEdge> rev;
  for (const MEdge& e : p.r.edges) rev.push_back({e.to, e.from, e.w, e.validity});
  const auto d = bellmanFord(p.r.n, rev, p.goal, usable);
  p.best = d[(size_t)p.start];
  p.h = heuristic(s, d, p.hname, true);
  s.note(showRand(p.r)).note(vp::cat(" from ", p.start, " to ", p.goal, " ", p.hname, " best ", p.best));
  return p;
}

static void judge(vp::Src& s, const Problem& p, const arc_helpers::AstarResult& res, bool limited) {
  const auto& path = res.first;
  if (p.best == INF) {
    VP_CHECK(path.empty(), "path to an unreachable goal ", vp::show(path));
    VP_CHECK(res.second == INF, "cost of no path is ", res.second);
  } else {
    VP_CHECK(!path.empty(), "no path although the goal can be reached at ", p.best);
    VP_CHECK(path.front() == p.start && path.back() == p.goal, vp::show(path));
    double cost = 0;
    for (size_t k = 0; k + 1 < path.size(); ++k) {
      double best = INF;
      for (const MEdge& e : p.r.edges)
        if (usable(e) && e.from == path[k] && e.to == path[k + 1]) best = std::min(best, e.w);
      VP_CHECK(best < INF, "no valid edge ", path[k], " to ", path[k + 1]);
      cost += best;
    }
    VP_CHECK(cost == p.best, "path ", vp::show(path), " costs ", cost, ", optimum ", p.best);
    VP_CHECK(res.second == p.best, "reported cost ", res.second, ", optimum ", p.best);
    s.nontrivialIf(path.size() >= 3);
  }
  s.label(vp::cat(p.best == INF ? "unreachable" : path.size() >= 4 ? "path >= 4" : "path < 4", limited ? ", limited queue" : "", ", ", p.hname));
}

static size_t indexOf(const Value& v) { return (size_t)std::stoul(v.substr(1)); }

VP_PROP(graph_astar_with_stored_edges, 75000, 1500000) {
  const Problem p = problem(s, true);
  const Graph g = build(p.r);
  const bool lim = s.b();
  const auto hf = [&](const Value& v, const Value& goal) {
    VP_CHECK(indexOf(goal) == (size_t)p.goal, "heuristic asked for goal ", goal);
    return p.h[indexOf(v)];
  };
  judge(s, p, A::PerformAstar(g, p.start, p.goal, hf, lim), lim);
}

VP_PROP(graph_astar_with_lazy_edges, 75000, 1500000) {
  const bool byValue = s.b();
  const Problem p = problem(s, !byValue);
  // What is stored in the graph is misleading: only the functions count.
  Rand stored = p.r;
  for (size_t k = 0; k < stored.edges.size(); ++k) {
    stored.edges[k].w = (double)k;  // identifies the edge
    stored.edges[k].validity = (int)(k % 3);
  }
  const Graph g = build(stored);
  const bool lim = s.b();
  const auto hf = [&](const Value& v, const Value& goal) {
    VP_CHECK(indexOf(goal) == (size_t)p.goal, "heuristic asked for goal ", goal);
    return p.h[indexOf(v)];
  };
  if (byValue) {
    const auto find = [&](const Value& a, const Value& b) -> const MEdge& {
      for (const MEdge& e : p.r.edges)
        if (e.from == (int64_t)indexOf(a) && e.to == (int64_t)indexOf(b)) return e;
      vp::fail(vp::cat("edge function called on ", a, " and ", b, " which are not joined"));
    };
    const std::function<bool(const Value&, const Value&)> valid = [&](const Value& a, const Value& b) { return usable(find(a, b)); };
    const std::function<double(const Value&, const Value&)> dist = [&](const Value& a, const Value& b) { return find(a, b).w; };
    judge(s, p, A::PerformLazyAstar(g, p.start, p.goal, valid, dist, hf, lim), lim);
  } else {
    const std::function<bool(const Graph&, const Edge&)> valid = [&](const Graph& gg, const Edge& e) {
      VP_CHECK(gg.getNodes().size() == p.r.n);
      return usable(p.r.edges[(size_t)e.getWeight()]);
    };
    const std::function<double(const Graph&, const Edge&)> dist = [&](const Graph&, const Edge& e) {
      return p.r.edges[(size_t)e.getWeight()].w;
    };
    judge(s, p, A::PerformLazyAstar(g, p.start, p.goal, valid, dist, hf, lim), lim);
  }
}

VP_PROP(search_over_an_implicit_state_space, 120000, 2400000) {
  const Problem p = problem(s, false);
  const bool lim = s.b();
  const int64_t mul = s.b() ? 1 : 1000003, add = s.choice(3) * 17;
  const auto id = [&](int64_t k) { return k * mul + add; };
  const auto un = [&](int64_t i) {
    VP_CHECK((i - add) % mul == 0 && (i - add) / mul >= 0 && (i - add) / mul < (int64_t)p.r.n, "unknown state ", i);
    return (i - add) / mul;
  };
  const auto find = [&](int64_t a, int64_t b) -> const MEdge& {
    for (const MEdge& e : p.r.edges)
      if (e.from == un(a) && e.to == un(b)) return e;
    vp::fail(vp::cat("edge function called on ", a, " and ", b, " which are not joined"));
  };
  auto res = arc_helpers::GenericAstarSearch(
      id(p.start), id(p.goal),
      [&](const int64_t i) {
        std::vector<int64_t> c;
        for (const MEdge& e : p.r.edges)
          if (e.from == un(i)) c.push_back(id(e.to));
        return c;
      },
      [&](const int64_t a, const int64_t b) { return usable(find(a, b)); },
      [&](const int64_t a, const int64_t b) { return find(a, b).w; },
      [&](const int64_t i, const int64_t goal) {
        VP_CHECK(un(goal) == p.goal);
        return p.h[(size_t)un(i)];
      },
      lim);
  for (int64_t& i : res.first) i = un(i);
  judge(s, p, res, lim);
}

VP_PROP(bad_end_points_are_rejected, 30000, 200000) {
  const Rand r = randomGraph(s, 5);
  const Graph g = build(r);
  const auto h = [](const Value&, const Value&) { return 0.0; };
  const int64_t n = (int64_t)r.n;
  int64_t a = s.i(0, n - 1), b = s.i(0, n - 1);
  switch (s.choice(3)) {
    case 0: b = a; break;
    case 1: a = s.b() ? -s.i(1, 3) : n + s.i(0, 3); break;
    default: b = s.b() ? -s.i(1, 3) : n + s.i(0, 3);
  }
  VP_THROWS(A::PerformAstar(g, a, b, h, s.b()), a, " to ", b);
  s.note(vp::cat(a, " to ", b, " of ", n));
  s.nontrivial();
}

// ---- planner with a goal predicate over arbitrary states --------------------
struct State {
  int k;
  bool operator==(const State& o) const { return k == o.k; }
};
struct StateHash {
  size_t operator()(const State& x) const { return (size_t)x.k % 3; }  // collides on purpose
};

template <class C, class H>
static void planner(vp::Src& s, std::function<C(int64_t)> make, std::function<int64_t(const C&)> idx) {
  Rand r = randomGraph(s, s.chance(1, 500) ? 400 : 12, false);
  const int64_t start = s.i(0, (int64_t)r.n - 1);
  std::set<int64_t> goals;
  for (size_t k = s.choice(4); k > 0; --k) goals.insert(s.i(0, (int64_t)r.n - 1));
  std::vector<MEdge> rev;
  for (const MEdge& e : r.edges) rev.push_back({e.to, e.from, e.w, e.validity});
  std::vector<double> d(r.n, INF);
  for (int64_t gk : goals) {
    const auto dg = bellmanFord(r.n, rev, gk, [](const MEdge&) { return true; });
    for (size_t k = 0; k < r.n; ++k) d[k] = std::min(d[k], dg[k]);
  }
  std::string hname;
  const auto h = heuristic(s, d, hname, false);
  const auto res = simple_astar_planner::SimpleAStarPlanner<C>::template Plan<H>(
      make(start),
      [&](const C& c) {
        std::vector<C> v;
        for (const MEdge& e : r.edges)
          if (e.from == idx(c)) v.push_back(make(e.to));
        return v;
      },
      [&](const C& a, const C& b) {
        for (const MEdge& e : r.edges)
          if (e.from == idx(a) && e.to == idx(b)) return e.w;
        vp::fail("distance of states that are not neighbours");
      },
      [&](const C& c) { return h[(size_t)idx(c)]; }, [&](const C& c) { return goals.count(idx(c)) > 0; });
  std::vector<int64_t> path;
  for (const C& c : res.first) path.push_back(idx(c));
  const double best = d[(size_t)start];
  s.note(showRand(r)).note(vp::cat(" from ", start, " ", hname, " best ", best, " path ", vp::show(path)));
  VP_CHECK(res.second.count("nodes explored") == 1 && res.second.at("nodes explored") <= (double)r.n, "explored more states than exist");
  if (best == INF) {
    VP_CHECK(path.empty(), "path although no goal can be reached: ", vp::show(path));
    s.label("unreachable");
    return;
  }
  VP_CHECK(!path.empty() && path.front() == start, "no path, expected cost ", best);
  VP_CHECK(goals.count(path.back()), vp::show(path));
  double cost = 0;
  for (size_t k = 0; k + 1 < path.size(); ++k) {
    bool found = false;
    for (const MEdge& e : r.edges)
      if (e.from == path[k] && e.to == path[k + 1]) {
        cost += e.w;
        found = true;
      }
    VP_CHECK(found, "no edge ", path[k], " to ", path[k + 1]);
  }
  VP_CHECK(cost == best, "path costs ", cost, " optimum ", best);
  s.nontrivialIf(path.size() >= 3);
  s.label(vp::cat("goals ", goals.size(), ", ", hname));
}

VP_PROP(planner_over_integers, 120000, 2000000) {
  planner<int, std::hash<int>>(
      s, [](int64_t k) { return (int)k * 5 - 7; }, [](const int& c) { return (int64_t)((c + 7) / 5); });
}
VP_PROP(planner_with_custom_hash, 120000, 2000000) {
  planner<State, StateHash>(
      s, [](int64_t k) { return State{(int)k}; }, [](const State& c) { return (int64_t)c.k; });
}
