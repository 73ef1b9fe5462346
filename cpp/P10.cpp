#include "vp.hpp"

#include <arc_utilities/simple_rrt_planner.hpp>

namespace {

// Every state has its own identity, so each one can be traced to the call that made it.
struct S {
  int id;
  bool operator==(const S& o) const { return id == o.id; }
};
std::ostream& operator<<(std::ostream& o, const S& x) { return o << x.id; }

using Node = simple_rrt_planner::SimpleRRTPlannerState<S>;
using Tree = std::vector<Node>;
using RRT = simple_rrt_planner::SimpleHybridRRTPlanner;
using Bi = simple_rrt_planner::SimpleHybridBiRRTPlanner;
using Path = std::vector<S>;
using Stats = std::map<std::string, double>;
using Props = std::vector<std::pair<S, int64_t>>;

struct MNode {
  int id;
  int64_t parent;
};
using MTree = std::vector<MNode>;

Tree toTree(const MTree& m) {
  Tree t;
  for (const MNode& n : m) t.push_back(Node(S{n.id}, n.parent));
  for (size_t k = 0; k < m.size(); ++k)
    if (m[k].parent >= 0 && m[k].parent < (int64_t)m.size()) t[(size_t)m[k].parent].AddChildIndex((int64_t)k);
  return t;
}

void same(const Tree& t, const MTree& m, const char* where) {
  VP_CHECK(t.size() == m.size(), where, ": ", t.size(), " states, expected ", m.size());
  std::vector<std::vector<int64_t>> kids(m.size());
  for (size_t k = 0; k < m.size(); ++k)
    if (m[k].parent >= 0) kids[(size_t)m[k].parent].push_back((int64_t)k);
  for (size_t k = 0; k < m.size(); ++k) {
    VP_CHECK(t[k].IsInitialized());
    VP_CHECK(t[k].GetValueImmutable().id == m[k].id, where, ": state ", k, " is ", t[k].GetValueImmutable(), " expected ", m[k].id);
    VP_CHECK(t[k].GetParentIndex() == m[k].parent, where, ": parent of state ", k, " is ", t[k].GetParentIndex(), " expected ", m[k].parent);
    auto c = t[k].GetChildIndices();
    std::sort(c.begin(), c.end());
    VP_CHECK(c == kids[k], where, ": children of state ", k, ": ", vp::show(c));
  }
}

std::vector<int> chain(const MTree& m, int64_t at) {
  std::vector<int> p;
  for (; at >= 0; at = m[(size_t)at].parent) p.push_back(m[(size_t)at].id);
  std::reverse(p.begin(), p.end());
  return p;
}
std::vector<int> ids(const Path& p) {
  std::vector<int> v;
  for (const S& x : p) v.push_back(x.id);
  return v;
}

uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct World {
  vp::Src& s;
  int next = 0;
  uint64_t salt;
  uint64_t goalEvery;
  std::map<int, bool> targets;
  World(vp::Src& src) : s(src) {
    salt = s.choice(1000);
    static const uint64_t f[] = {5, 2, 20, 1000000};
    goalEvery = f[s.choice(4)];
  }
  S fresh() { return S{next++}; }
  bool goal(const S& x) const { return mix((uint64_t)x.id * 7919 + salt) % goalEvery == 0; }
  MTree tree(size_t max) {
    MTree m;
    const size_t n = s.u(1, max);
    for (size_t k = 0; k < n; ++k) m.push_back({fresh().id, k == 0 ? -1 : s.i(0, (int64_t)k - 1)});
    return m;
  }
  // Propagation results, sometimes branching; sets bad when a relative parent is not an earlier one.
  Props propagate(bool& bad) {
    Props p;
    const size_t n = s.chance(1, 5) ? 0 : s.u(1, 4);
    for (size_t k = 0; k < n; ++k) {
      int64_t rel = (int64_t)k - 1;
      switch (s.choice(4)) {
        case 0: rel = -1 - (int64_t)s.choice(2); break;
        case 1: rel = s.i(-1, (int64_t)k - 1); break;
        default: break;
      }
      if (s.chance(1, 300)) {
        rel = (int64_t)k + s.i(0, 2);
        bad = true;
      }
      p.push_back({fresh(), rel});
    }
    return p;
  }
};

VP_PROP(single_tree_planner, 38000, 750000) {
  World w(s);
  MTree m = w.tree(4);
  const uint64_t form = s.choice(5);
  if (form == 1 || form == 2 || form == 4) m = {m[0]};
  Tree tree = toTree(m);
  if (form == 2) tree = toTree(w.tree(3));  // to be cleared
  int budget = (int)s.choice(25);
  bool terminated = false, failedNN = false, bad = false;
  size_t samples = 0, good = 0;
  int64_t pendingParent = -1;
  S pendingTarget{-1}, pendingNear{-1};
  MTree model = m;
  std::vector<int64_t> goals;
  for (size_t k = 0; k < m.size(); ++k)
    if (w.goal(S{m[k].id})) goals.push_back((int64_t)k);
  bool stopAtGoal = form >= 3;

  const std::function<bool()> term = [&] {
    if (budget-- <= 0) terminated = true;
    return terminated;
  };
  const std::function<S()> sample = [&] {
    VP_CHECK(!terminated && !failedNN, "sampled after the search should have stopped");
    VP_CHECK(!stopAtGoal || goals.empty(), "sampled after a solution was found");
    return pendingTarget = w.fresh();
  };
  const std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& t, const S& target) -> int64_t {
    VP_CHECK(target == pendingTarget);
    same(t, model, "tree passed to the nearest-neighbour search");
    if (s.chance(1, 40)) {
      failedNN = true;
      return -1;
    }
    pendingParent = s.i(0, (int64_t)t.size() - 1);
    pendingNear = S{model[(size_t)pendingParent].id};
    return pendingParent;
  };
  const std::function<Props(const S&, const S&)> propagate = [&](const S& from, const S& to) {
    VP_CHECK(from == pendingNear && to == pendingTarget, "propagated from ", from, " to ", to);
    const Props p = w.propagate(bad);
    ++samples;
    good += !p.empty();
    const int64_t base = (int64_t)model.size();
    for (size_t k = 0; k < p.size(); ++k) {
      if (p[k].second >= (int64_t)k) break;  // refused here
      model.push_back({p[k].first.id, p[k].second < 0 ? pendingParent : base + p[k].second});
      if (w.goal(p[k].first)) goals.push_back(base + (int64_t)k);
    }
    return p;
  };
  const std::function<bool(const S&)> goal = [&](const S& x) { return w.goal(x); };
  std::vector<int64_t> called, added;
  const std::function<void(Tree&, const int64_t)> onGoal = [&](Tree& t, const int64_t k) {
    VP_CHECK(k >= 0 && k < (int64_t)t.size() && t[(size_t)k].GetValueImmutable().id == model[(size_t)k].id);
    called.push_back(k);
  };
  const std::function<void(Tree&, const int64_t)> onAdd = [&](Tree& t, const int64_t k) {
    VP_CHECK(k == (int64_t)t.size() - 1, "state added callback got ", k, " of ", t.size());
    same(t, MTree(model.begin(), model.begin() + (long)t.size()), "tree after adding a state");
    VP_CHECK(RRT::CheckTreeLinkage(t));
    added.push_back(k);
  };

  const S start{m[0].id};
  std::pair<std::vector<Path>, Stats> res;
  std::pair<Path, Stats> one;
  bool threw = false;
  try {
    switch (form) {
      case 0: res = RRT::PlanMultiPath(tree, nn, onAdd, goal, onGoal, sample, propagate, term); break;
      case 1: res = RRT::PlanMultiPath(start, nn, goal, onGoal, sample, propagate, term); break;
      case 2: res = RRT::PlanMultiPath(tree, start, nn, goal, onGoal, sample, propagate, term); break;
      case 3:
        m = model = {m[0]};
        goals.clear();
        if (w.goal(start)) goals.push_back(0);
        one = RRT::Plan(tree, start, nn, goal, sample, propagate, term);
        break;
      default: one = RRT::Plan(start, nn, goal, sample, propagate, term);
    }
  } catch (const std::invalid_argument& e) {
    threw = true;
  }
  s.note(vp::cat("form ", form, ", ", samples, " propagations, ", model.size(), " states, goals ", vp::show(goals)));
  VP_CHECK(threw == bad, threw ? "rejected although every relative parent is earlier" : "relative parent that is not earlier accepted");
  if (threw) {
    s.label("bad relative parent rejected");
    return;
  }
  const Stats& st = form >= 3 ? one.second : res.second;
  VP_CHECK(terminated || failedNN || (stopAtGoal && !goals.empty()), "stopped although nothing asked for it");
  if (form == 0 || form == 2 || form == 3) same(tree, model, "final tree");
  VP_CHECK(st.at("total_samples") == samples && st.at("successful_samples") == good && st.at("failed_samples") == samples - good,
           "statistics: ", st.at("total_samples"), " ", st.at("successful_samples"), " ", st.at("failed_samples"));
  VP_CHECK(st.at("total_states") == model.size(), "total_states ", st.at("total_states"));
  VP_CHECK(st.at("solutions") == goals.size(), "solutions ", st.at("solutions"), " goals ", goals.size());
  if (form >= 3) {
    if (goals.empty()) {
      VP_CHECK(one.first.empty());
    } else {
      VP_CHECK(ids(one.first) == chain(model, goals[0]), "path ", vp::show(one.first), " expected ", vp::show(chain(model, goals[0])));
    }
  } else {
    VP_CHECK(called == goals, "goal callbacks ", vp::show(called), " expected ", vp::show(goals));
    VP_CHECK(res.first.size() == goals.size(), res.first.size(), " paths for ", goals.size(), " goals");
    for (size_t k = 0; k < goals.size(); ++k)
      VP_CHECK(ids(res.first[k]) == chain(model, goals[k]), "path ", vp::show(res.first[k]), " expected ", vp::show(chain(model, goals[k])));
    if (form == 0) VP_CHECK(added.size() == model.size() - m.size(), added.size(), " callbacks for ", model.size() - m.size(), " states");
  }
  s.nontrivialIf(!goals.empty() && model.size() >= 4);
  s.label(vp::cat("form ", form, goals.empty() ? ", no goal" : ", goal"));
}

VP_PROP(goal_bias_and_time_limit, 40000, 600000) {
  World w(s);
  const S start = w.fresh(), goalState = w.fresh();
  const int need = (int)s.u(2, 12);
  const bool never = s.chance(1, 3);  // the goal is never reached: only the time limit ends the search
  int made = 0, sampledGoal = 0, sampledState = 0;
  MTree model = {{start.id, -1}};
  static const double bias[] = {0.0, 1.0, 0.5};
  const uint64_t bi = s.choice(3);
  const std::function<S()> stateS = [&] { ++sampledState; return S{100000}; };
  const std::function<S()> goalS = [&] { ++sampledGoal; return S{goalState.id}; };
  const std::function<bool(const S&)> goal = [&](const S&) { return !never && made >= need; };
  const std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& t, const S& target) {
    if (target == goalState && s.noting()) {}
    same(t, model, "tree");
    return s.i(0, (int64_t)t.size() - 1);
  };
  int targetGoals = 0, targetStates = 0;
  const std::function<Props(const S&, const S&)> prop = [&](const S& from, const S& to) {
    (to == goalState ? targetGoals : targetStates)++;
    Props p;
    if (made >= 60) return p;
    ++made;
    p.push_back({w.fresh(), -1});
    for (size_t k = 0; k < model.size(); ++k)
      if (model[k].id == from.id) {
        model.push_back({p[0].first.id, (int64_t)k});
        break;
      }
    return p;
  };
  std::mt19937_64 rng(s.choice(1000));
  const std::chrono::duration<double> limit(never ? 0.0002 : 1000.0);
  const uint64_t form = s.choice(3);
  std::pair<Path, Stats> r;
  if (form == 0) r = RRT::Plan(start, goalState, nn, goal, stateS, prop, bias[bi], limit, rng);
  if (form == 1) r = RRT::Plan(start, nn, goal, stateS, goalS, prop, bias[bi], limit, rng);
  if (form == 2) r = RRT::Plan(start, nn, goal, stateS, prop, limit);
  VP_CHECK(r.first.empty() == never, "path ", vp::show(r.first));
  if (!never) VP_CHECK(ids(r.first) == chain(model, (int64_t)model.size() - 1), vp::show(r.first));
  if (form != 2 && bi == 0) VP_CHECK(targetGoals == 0, "the goal was sampled with bias 0");
  if (form != 2 && bi == 1) VP_CHECK(targetStates == 0, "a state was sampled with bias 1");
  VP_CHECK(sampledState == targetStates);
  s.note(vp::cat("form ", form, " bias ", bias[bi], " never ", never, " need ", need));
  s.nontrivialIf(!never);
  s.label(vp::cat("form ", form, never ? ", timed out" : ", solved"));
}

VP_PROP(bidirectional_planner, 25000, 500000) {
  World w(s);
  MTree sm = w.tree(3), gm = w.tree(3);
  const bool fromStates = s.b();
  if (fromStates) {
    sm = {sm[0]};
    gm = {gm[0]};
  }
  Tree st = toTree(sm), gt = toTree(gm);
  const int sroot = sm[0].id;
  int budget = (int)s.choice(25);
  bool terminated = false, failedNN = false, bad = false;
  size_t samples = 0, good = 0, swapsSeen = 0, iterations = 0;
  static const double probs[] = {0.5, 0.0, 1.0, 0.2};
  const double pTree = probs[s.choice(4)], pSwitch = probs[s.choice(4)];
  bool activeStart = true;
  int64_t parent = -1;
  S near{-1}, target{-1};
  bool stateSampled = false;
  struct Bridge {
    int64_t a, b;
    bool startActive;
  };
  std::vector<Bridge> bridges, called;
  const auto connected = [&](const S& a, const S& b) {
    return mix((uint64_t)std::min(a.id, b.id) * 1009 + (uint64_t)std::max(a.id, b.id) + w.salt) % w.goalEvery == 0;
  };
  for (size_t a = 0; a < sm.size(); ++a)
    for (size_t b = 0; b < gm.size(); ++b)
      if (connected(S{sm[a].id}, S{gm[b].id})) bridges.push_back({(int64_t)a, (int64_t)b, true});
  const std::function<bool(const S&, const S&)> conn = [&](const S& a, const S& b) { return connected(a, b); };
  const std::function<bool()> term = [&] {
    if (budget-- <= 0) terminated = true;
    return terminated;
  };
  const std::function<S()> sample = [&] {
    VP_CHECK(!terminated && !failedNN);
    stateSampled = true;
    return target = w.fresh();
  };
  int64_t targetIdx = -1;
  const std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& t, const S& tg) -> int64_t {
    VP_CHECK(!terminated && !failedNN, "search goes on after it should have stopped");
    const bool isStart = t[0].GetValueImmutable().id == sroot;
    if (iterations > 0) swapsSeen += isStart != activeStart;
    if (iterations == 0) VP_CHECK(isStart, "search does not begin with the start tree");
    ++iterations;
    activeStart = isStart;
    same(t, isStart ? sm : gm, "active tree");
    targetIdx = -1;
    if (stateSampled) {
      VP_CHECK(tg == target);
    } else {
      const MTree& other = isStart ? gm : sm;
      for (size_t k = 0; k < other.size(); ++k)
        if (other[k].id == tg.id) targetIdx = (int64_t)k;
      VP_CHECK(targetIdx >= 0, "target ", tg, " is neither sampled nor in the other tree");
      target = tg;
    }
    if (pTree == 1.0) VP_CHECK(!stateSampled, "sampled a state with tree bias 1");
    if (pTree == 0.0) VP_CHECK(stateSampled, "sampled a tree with tree bias 0");
    stateSampled = false;
    if (s.chance(1, 40)) {
      failedNN = true;
      return -1;
    }
    parent = s.i(0, (int64_t)t.size() - 1);
    near = S{(isStart ? sm : gm)[(size_t)parent].id};
    return parent;
  };
  const std::function<Props(const S&, const S&)> prop = [&](const S& from, const S& to) {
    VP_CHECK(from == near && to == target, "propagated from ", from, " to ", to);
    const Props p = w.propagate(bad);
    ++samples;
    good += !p.empty();
    MTree& m = activeStart ? sm : gm;
    const int64_t base = (int64_t)m.size();
    for (size_t k = 0; k < p.size(); ++k) {
      if (p[k].second >= (int64_t)k) break;
      m.push_back({p[k].first.id, p[k].second < 0 ? parent : base + p[k].second});
      if (targetIdx >= 0 && connected(p[k].first, to))
        bridges.push_back(activeStart ? Bridge{base + (int64_t)k, targetIdx, true} : Bridge{targetIdx, base + (int64_t)k, false});
    }
    return p;
  };
  size_t added = 0;
  const std::function<void(Tree&, const int64_t)> onAdd = [&](Tree& t, const int64_t k) {
    ++added;
    VP_CHECK(k == (int64_t)t.size() - 1);
    const MTree& m = t[0].GetValueImmutable().id == sroot ? sm : gm;
    same(t, MTree(m.begin(), m.begin() + (long)t.size()), "tree after adding a state");
    VP_CHECK(RRT::CheckTreeLinkage(t));
  };
  const std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> onBridge =
      [&](Tree& a, const int64_t ai, Tree& b, const int64_t bi, const bool startActive) {
        VP_CHECK(a[0].GetValueImmutable().id == sroot, "first tree of a bridge is not the start tree");
        VP_CHECK(ai < (int64_t)a.size() && bi < (int64_t)b.size());
        called.push_back({ai, bi, startActive});
      };
  std::mt19937_64 rng(s.choice(100000));
  const size_t s0 = sm.size(), g0 = gm.size();
  std::pair<std::vector<Path>, Stats> res;
  bool threw = false;
  try {
    if (fromStates) {
      res = Bi::PlanMultiPath(S{sm[0].id}, S{gm[0].id}, nn, onAdd, conn, onBridge, sample, prop, pTree, pSwitch, term, rng);
    } else {
      res = Bi::PlanMultiPath(st, gt, nn, onAdd, conn, onBridge, sample, prop, pTree, pSwitch, term, rng);
    }
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  s.note(vp::cat(samples, " propagations, trees ", sm.size(), "+", gm.size(), ", bridges ", bridges.size(), ", p ", pTree, " ", pSwitch));
  VP_CHECK(threw == bad, threw ? "rejected although every relative parent is earlier" : "relative parent that is not earlier accepted");
  if (threw) return;
  VP_CHECK(terminated || failedNN);
  if (!fromStates) {
    same(st, sm, "final start tree");
    same(gt, gm, "final goal tree");
  }
  VP_CHECK(added == sm.size() + gm.size() - s0 - g0);
  VP_CHECK(called.size() == bridges.size() && res.first.size() == bridges.size(), called.size(), " bridge callbacks, ", res.first.size(), " paths, expected ", bridges.size());
  for (size_t k = 0; k < bridges.size(); ++k) {
    VP_CHECK(called[k].a == bridges[k].a && called[k].b == bridges[k].b && called[k].startActive == bridges[k].startActive,
             "bridge ", called[k].a, "-", called[k].b, " expected ", bridges[k].a, "-", bridges[k].b);
    std::vector<int> want = chain(sm, bridges[k].a), back = chain(gm, bridges[k].b);
    want.insert(want.end(), back.rbegin(), back.rend());
    VP_CHECK(ids(res.first[k]) == want, "path ", vp::show(res.first[k]), " expected ", vp::show(want));
  }
  const Stats& z = res.second;
  VP_CHECK(z.at("total_samples") == samples && z.at("successful_samples") == good && z.at("failed_samples") == samples - good);
  VP_CHECK(z.at("total_states") == sm.size() + gm.size() && z.at("solutions") == bridges.size());
  VP_CHECK(z.at("active_tree_swaps") >= swapsSeen && z.at("active_tree_swaps") <= swapsSeen + 1, z.at("active_tree_swaps"), " swaps, saw ", swapsSeen);
  if (pSwitch == 0.0) VP_CHECK(z.at("active_tree_swaps") == 0);
  if (pSwitch == 1.0) VP_CHECK(z.at("active_tree_swaps") == samples);
  s.nontrivialIf(bridges.size() >= 1 && sm.size() + gm.size() >= 5);
  s.label(vp::cat(bridges.empty() ? "no bridge" : "bridged", pTree == 0 ? ", states only" : ""));
}

VP_PROP(bidirectional_single_path_forms, 40000, 600000) {
  World w(s);
  const S start = w.fresh(), goal = w.fresh();
  MTree sm = {{start.id, -1}}, gm = {{goal.id, -1}};
  const uint64_t every = s.u(1, 4);
  int made = 0;
  const std::function<bool(const S&, const S&)> conn = [&](const S& a, const S& b) { return mix((uint64_t)std::min(a.id, b.id) * 131 + (uint64_t)std::max(a.id, b.id) + w.salt) % every == 0 || made > 50; };
  const std::function<S()> sample = [&] { return S{1000000}; };
  bool isStart = true;
  int64_t parent = 0;
  const std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& t, const S&) {
    isStart = t[0].GetValueImmutable() == start;
    same(t, isStart ? sm : gm, "active tree");
    return parent = s.i(0, (int64_t)t.size() - 1);
  };
  const std::function<Props(const S&, const S&)> prop = [&](const S&, const S&) {
    ++made;
    Props p{{w.fresh(), -1}};
    (isStart ? sm : gm).push_back({p[0].first.id, parent});
    return p;
  };
  std::mt19937_64 rng(s.choice(1000));
  Path path;
  if (s.b()) {
    path = Bi::Plan(start, goal, nn, conn, sample, prop, 0.5, 0.5, std::chrono::duration<double>(1000.0), rng).first;
    VP_CHECK(!path.empty(), "no path");
  } else {
    int budget = (int)s.choice(30);
    const std::function<bool()> term = [&] { return budget-- <= 0; };
    const auto r = Bi::PlanMultiPath(start, goal, nn, conn, sample, prop, 0.5, 0.5, term, rng);
    if (r.first.empty()) return;
    path = r.first[s.choice(r.first.size())];
  }
  // some joint splits the path into a chain of the start tree and a reversed chain of the goal tree
  bool ok = false;
  const auto p = ids(path);
  for (size_t cut = 1; cut < p.size(); ++cut) {
    bool fits = conn(S{p[cut - 1]}, S{p[cut]});
    for (int side = 0; side < 2 && fits; ++side) {
      const MTree& m = side ? gm : sm;
      std::vector<int> part = side ? std::vector<int>(p.rbegin(), p.rend() - (long)cut) : std::vector<int>(p.begin(), p.begin() + (long)cut);
      int64_t at = -1;
      for (size_t k = 0; k < m.size(); ++k)
        if (m[k].id == part.back()) at = (int64_t)k;
      fits = at >= 0 && chain(m, at) == part;
    }
    ok = ok || fits;
  }
  VP_CHECK(ok, "path ", vp::show(p), " is not two connected tree branches");
  s.note(vp::show(p));
  s.nontrivialIf(p.size() >= 4);
}

VP_PROP(linkage_check_and_paths_of_trees, 140000, 2100000) {
  World w(s);
  const MTree m = w.tree(7);
  Tree t = toTree(m);
  VP_CHECK(RRT::CheckTreeLinkage(t), "valid tree rejected");
  const int64_t at = s.i(0, (int64_t)m.size() - 1);
  VP_CHECK(ids(RRT::ExtractSolutionPath(t, at)) == chain(m, at));
  std::vector<int64_t> parents, n = {};
  std::vector<std::vector<int64_t>> kids;
  const int64_t N = (int64_t)m.size();
  std::vector<char> init(m.size(), 1);
  s.repeat(0, 2, [&] {
    const size_t k = s.choice(m.size());
    switch (s.choice(4)) {
      case 0: t[k].SetParentIndex(s.i(-2, N + 1)); break;
      case 1: t[k].AddChildIndex(s.i(-1, N)); break;
      case 2: {
        const auto c = t[k].GetChildIndices();
        const int64_t gone = c.empty() ? 0 : c[s.choice(c.size())];
        t[k].RemoveChildIndex(gone);
        auto want = c;
        want.erase(std::remove(want.begin(), want.end(), gone), want.end());
        VP_CHECK(t[k].GetChildIndices() == want, "after removing ", gone);
        break;
      }
      default:
        if (s.b()) {
          t[k] = Node();
          init[k] = 0;
        } else {
          t[k].ClearChildIndicies();
        }
    }
  });
  bool ok = true;
  for (int64_t k = 0; k < N && ok; ++k) {
    if (!init[(size_t)k]) ok = false;
    const int64_t p = t[(size_t)k].GetParentIndex();
    if (p < -1 || p >= N || p == k) ok = false;
    if (ok && p >= 0) {
      const auto& c = t[(size_t)p].GetChildIndices();
      ok = std::find(c.begin(), c.end(), k) != c.end();
    }
    for (int64_t c : t[(size_t)k].GetChildIndices())
      if (c <= 0 || c >= N || c == k || t[(size_t)c].GetParentIndex() != k) ok = false;
  }
  VP_CHECK(RRT::CheckTreeLinkage(t) == ok, ok ? "linked tree rejected" : "broken tree accepted");
  if (!ok) {
    const std::function<int64_t(const Tree&, const S&)> nn = [](const Tree&, const S&) { return int64_t(-1); };
    const std::function<bool(const S&)> goal = [](const S&) { return false; };
    const std::function<void(Tree&, const int64_t)> cb = [](Tree&, const int64_t) {};
    const std::function<S()> sample = [] { return S{0}; };
    const std::function<Props(const S&, const S&)> prop = [](const S&, const S&) { return Props(); };
    const std::function<bool()> term = [] { return true; };
    VP_THROWS(RRT::PlanMultiPath(t, nn, cb, goal, cb, sample, prop, term));
    Tree fine = toTree(m);
    const std::function<bool(const S&, const S&)> conn = [](const S&, const S&) { return false; };
    const std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> bcb = [](Tree&, const int64_t, Tree&, const int64_t, const bool) {};
    std::mt19937_64 rng(1);
    VP_THROWS(Bi::PlanMultiPath(t, fine, nn, cb, conn, bcb, sample, prop, 0.5, 0.5, term, rng));
    VP_THROWS(Bi::PlanMultiPath(fine, t, nn, cb, conn, bcb, sample, prop, 0.5, 0.5, term, rng));
    Tree none;
    VP_THROWS(RRT::PlanMultiPath(none, nn, cb, goal, cb, sample, prop, term));
    VP_THROWS(Bi::PlanMultiPath(none, fine, nn, cb, conn, bcb, sample, prop, 0.5, 0.5, term, rng));
    VP_THROWS(Bi::PlanMultiPath(fine, none, nn, cb, conn, bcb, sample, prop, 0.5, 0.5, term, rng));
  }
  s.note(vp::cat(m.size(), " states ", ok ? "linked" : "broken"));
  s.nontrivialIf(m.size() >= 3);
  s.label(ok ? "linked" : "broken");
}

VP_PROP(states_survive_serialization, 80000, 1000000) {
  World w(s);
  const MTree m = w.tree(6);
  Tree t = toTree(m);
  if (s.chance(1, 4)) t.push_back(Node());
  const std::function<uint64_t(const S&, std::vector<uint8_t>&)> wr = [](const S& x, std::vector<uint8_t>& b) {
    return arc_utilities::SerializeFixedSizePOD<int>(x.id, b);
  };
  const std::function<std::pair<S, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> rd = [](const std::vector<uint8_t>& b, const uint64_t c) {
    const auto r = arc_utilities::DeserializeFixedSizePOD<int>(b, c);
    return std::make_pair(S{r.first}, r.second);
  };
  std::vector<uint8_t> buf = s.bytes(5);
  std::vector<size_t> at;
  for (size_t k = 0; k < t.size(); ++k) {
    if (!t[k].IsInitialized()) t[k].GetValueMutable() = S{3};
    at.push_back(buf.size());
    const uint64_t wrote = Node::Serialize(t[k], buf, wr);
    VP_CHECK(buf.size() == at.back() + wrote);
  }
  at.push_back(buf.size());
  for (size_t k = 0; k < t.size(); ++k) {
    const auto r = Node::Deserialize(buf, at[k], rd);
    VP_CHECK(r.second == at[k + 1] - at[k], "consumed ", r.second);
    VP_CHECK(r.first.IsInitialized() == t[k].IsInitialized() && r.first.GetParentIndex() == t[k].GetParentIndex() &&
             r.first.GetChildIndices() == t[k].GetChildIndices() && r.first.GetValueImmutable() == t[k].GetValueImmutable(), "state ", k);
  }
  s.note(vp::cat(t.size(), " states"));
  s.nontrivialIf(t.size() >= 2);
}

}  // namespace
