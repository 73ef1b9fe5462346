#include "graph_common.hpp"

#include <arc_utilities/dijkstras.hpp>
#include <random>

using namespace gm;

static bool linked(const std::vector<MNode>& m) {
  const int64_t n = (int64_t)m.size();
  for (int64_t k = 0; k < n; ++k) {
    for (const MEdge& e : m[(size_t)k].in) {
      if (e.to != k || e.from < 0 || e.from >= n || e.from == k) return false;
      bool ok = false;
      for (const MEdge& o : m[(size_t)e.from].out) ok = ok || o.to == k;
      if (!ok) return false;
    }
    for (const MEdge& e : m[(size_t)k].out) {
      if (e.from != k || e.to < 0 || e.to >= n || e.to == k) return false;
      bool ok = false;
      for (const MEdge& o : m[(size_t)e.to].in) ok = ok || o.from == k;
      if (!ok) return false;
    }
  }
  return true;
}

static std::vector<Node> toNodes(const Model& m) {
  std::vector<Node> v;
  for (const MNode& n : m) v.push_back(Node(n.value, n.distance, toEdges(n.in), toEdges(n.out)));
  return v;
}

VP_PROP(edit_sequences_keep_the_graph_linked, 30000, 600000) {
  Graph g;
  if (s.b()) g = Graph(static_cast<size_t>(s.choice(10)));
  Model m;
  size_t edges = 0;
  for (size_t k = s.choice(4); k > 0; --k) {
    g.addNode("n");
    m.push_back(MNode());
    m.back().value = "n";
  }
  s.repeat(0, 40, [&] {
    const int64_t n = (int64_t)m.size();
    switch (s.choice(10)) {
      case 0:
      case 1: {
        MNode mn;
        mn.value = s.str(3);
        int64_t idx;
        if (s.b()) {
          idx = g.addNode(mn.value);
        } else {
          mn.distance = (double)s.i(0, 9);
          Node node(mn.value);
          node.setDistance(mn.distance);
          idx = g.addNode(node);
        }
        VP_CHECK(idx == n, "addNode returned ", idx);
        m.push_back(mn);
        s.note("node ");
        break;
      }
      case 2:
      case 3:
      case 4:
      case 5: {
        const int64_t a = s.i(-1, n), b = s.i(-1, n);
        const double w = s.chance(1, 10) ? -1.5 : weight(s);
        const bool both = s.b();
        s.note(vp::cat(both ? "edges(" : "edge(", a, ",", b, ",", w, ") "));
        if (a < 0 || b < 0 || a >= n || b >= n || a == b) {
          VP_THROWS(both ? (void)g.addEdgesBetweenNodes(a, b, w) : (void)g.addEdgeBetweenNodes(a, b, w), a, " ", b);
        } else {
          const MEdge e1{a, b, w, 2}, e2{b, a, w, 2};
          m[(size_t)a].out.push_back(e1);
          m[(size_t)b].in.push_back(e1);
          ++edges;
          if (both) {
            const auto r = g.addEdgesBetweenNodes(a, b, w);
            m[(size_t)b].out.push_back(e2);
            m[(size_t)a].in.push_back(e2);
            VP_CHECK(edgeOf(r.first) == e1 && edgeOf(r.second) == e2, "returned ", r.first.print(), r.second.print());
          } else {
            Edge& r = g.addEdgeBetweenNodes(a, b, w);
            VP_CHECK(edgeOf(r) == e1, "returned ", r.print());
            if (s.b()) {  // the returned edge is the stored outgoing edge
              r.setWeight(w + 1);
              m[(size_t)a].out.back().w = w + 1;
            }
          }
        }
        break;
      }
      case 6: {  // edge lookup and editing of validity
        if (n == 0) return;
        const int64_t a = s.i(0, n - 1), b = s.i(0, n - 1);
        MEdge* found = nullptr;
        for (MEdge& e : m[(size_t)a].out)
          if (!found && e.to == b) found = &e;
        const Graph& cg = g;
        s.note(vp::cat("get(", a, ",", b, ") "));
        if (!found) {
          VP_THROWS(g.getEdge(a, b));
          VP_THROWS(cg.getEdge(a, b));
        } else {
          const Edge& ce = cg.getEdge(a, b);
          VP_CHECK(ce.getFromIndex() == a && ce.getToIndex() == b);
          size_t same = 0;
          for (const MEdge& e : m[(size_t)a].out) same += e.to == b;
          if (same == 1) {
            const int v = (int)s.choice(3);
            Edge& e = g.getEdge(a, b);
            VP_CHECK(edgeOf(e) == *found);
            e.setValidity(validity(v));
            found->validity = v;
            VP_CHECK(e.isValid() == (v == 0) && e.isInvalid() == (v == 1));
          }
          bool rev = false;
          for (const MEdge& e : m[(size_t)b].out) rev = rev || e.to == a;
          if (rev) {
            const Edge& r = g.getReverseEdge(ce);
            VP_CHECK(r.getFromIndex() == b && r.getToIndex() == a);
          } else {
            VP_THROWS(g.getReverseEdge(ce));
          }
        }
        break;
      }
      case 7: {  // copies are independent
        Graph copy(g);
        copy.addNode("x");
        copy.addNode("y");
        copy.addEdgeBetweenNodes(0, (int64_t)m.size() + 1, 1.0);
        Graph other;
        other.addNode("z");
        other = g;
        compare(other, m, "assigned copy");
        if (s.b()) {
          g = Graph(other.getNodes());
        } else {
          g = std::move(other);
        }
        s.note("copy ");
        break;
      }
      case 8: {  // through bytes
        std::vector<uint8_t> buf = s.bytes(5);
        const size_t at = buf.size();
        const uint64_t wrote = s.b() ? g.serializeSelf(buf, writeValue) : Graph::Serialize(g, buf, writeValue);
        VP_CHECK(at + wrote == buf.size(), "reported ", wrote, " bytes, appended ", buf.size() - at);
        for (uint8_t t : s.bytes(5)) buf.push_back(t);
        const auto r = Graph::Deserialize(buf, at, readValue);
        VP_CHECK(r.second == wrote, "consumed ", r.second, " of ", wrote);
        compare(r.first, m, "deserialized");
        for (size_t k = 0; k < m.size(); ++k) {  // edge order is part of the value
          VP_CHECK(edgesOf(r.first.getNode((int64_t)k).getOutEdges()) == edgesOf(g.getNode((int64_t)k).getOutEdges()));
          VP_CHECK(edgesOf(r.first.getNode((int64_t)k).getInEdges()) == edgesOf(g.getNode((int64_t)k).getInEdges()));
        }
        Graph h;
        h.addNode("old");
        VP_CHECK(h.deserializeSelf(buf, at, readValue) == wrote);
        g = h;
        s.note("bytes ");
        break;
      }
      default: {
        g.shrinkToFit();
        const int64_t q = s.i(-3, n + 2);
        VP_CHECK(g.indexInRange(q) == (q >= 0 && q < n), q);
        if (q < 0 || q >= n) VP_THROWS(g.getNode(q));
      }
    }
    compare(g, m, "after edit");
    VP_CHECK(g.checkGraphLinkage(), "linkage check fails after edits ", showModel(m));
  });
  VP_CHECK(Graph::CheckGraphLinkage(g));
  s.nontrivialIf(edges >= 2);
  s.label(vp::cat(edges == 0 ? "no edge" : edges < 5 ? "1-4 edges" : "5+ edges"));
}

VP_PROP(linkage_check_accepts_exactly_consistent_nodes, 150000, 2500000) {
  Model m;
  const Rand r = randomGraph(s, 5);
  m.resize(r.n);
  for (const MEdge& e : r.edges) {
    m[(size_t)e.from].out.push_back(e);
    m[(size_t)e.to].in.push_back(e);
  }
  // damage
  const int64_t n = (int64_t)r.n;
  size_t damages = 0;
  s.repeat(0, 3, [&] {
    ++damages;
    const size_t k = s.u(0, r.n - 1);
    auto& list = s.b() ? m[k].in : m[k].out;
    switch (s.choice(4)) {
      case 0:
        if (!list.empty()) list.erase(list.begin() + (long)s.choice(list.size()));
        break;
      case 1:
        list.push_back({s.i(-1, n), s.i(-1, n), 1.0, (int)s.choice(3)});
        break;
      case 2:
        if (!list.empty()) list[s.choice(list.size())].to = s.i(-1, n);
        break;
      default:
        if (!list.empty()) list[s.choice(list.size())].from = s.i(-1, n);
    }
  });
  const bool ok = linked(m);
  const auto nodes = toNodes(m);
  s.note(showModel(m)).note(ok ? " linked" : " broken");
  VP_CHECK(Graph::CheckGraphLinkage(nodes) == ok, "expected ", ok, " for ", showModel(m));
  Graph g;
  g.getNodes() = nodes;
  VP_CHECK(g.checkGraphLinkage() == ok);
  VP_CHECK(Graph::CheckGraphLinkage(g) == ok);
  if (ok) {
    const Graph h(nodes);
    compare(h, m, "constructed");
  } else {
    VP_THROWS(Graph{nodes}, showModel(m));
  }
  s.nontrivialIf(r.edges.size() >= 1);
  s.label(ok ? "linked" : "broken");
}

VP_PROP(components_are_reachability_classes, 200000, 3000000) {
  Rand r = randomGraph(s, s.chance(1, 1000) ? 700 : 12);
  Graph g;
  for (size_t k = 0; k < r.n; ++k) g.addNode("v");
  std::vector<size_t> uf(r.n);
  for (size_t k = 0; k < r.n; ++k) uf[k] = k;
  std::function<size_t(size_t)> root = [&](size_t x) { return uf[x] == x ? x : uf[x] = root(uf[x]); };
  for (const MEdge& e : r.edges) {
    g.addEdgesBetweenNodes(e.from, e.to, e.w);
    uf[root((size_t)e.from)] = root((size_t)e.to);
  }
  const auto c = g.getConnectedComponentsUndirected();
  s.note(showRand(r)).note(" -> ").note(vp::show(std::vector<int>(c.first.begin(), c.first.end())));
  size_t classes = 0;
  for (size_t k = 0; k < r.n; ++k) classes += root(k) == k;
  VP_CHECK(c.first.size() == r.n);
  VP_CHECK(c.second == classes, c.second, " components instead of ", classes);
  std::vector<char> used(classes + 1, 0);
  for (size_t a = 0; a < r.n; ++a) {
    VP_CHECK(c.first[a] >= 1 && c.first[a] <= classes, "node ", a, " has component ", c.first[a]);
    used[c.first[a]] = 1;
    for (size_t b = 0; b < r.n; ++b)
      VP_CHECK((c.first[a] == c.first[b]) == (root(a) == root(b)), "nodes ", a, " and ", b);
  }
  s.nontrivialIf(classes >= 2 && r.edges.size() >= 1);
  s.label(vp::cat("components ", std::min<size_t>(classes, 5)));
}

VP_PROP(random_walks_are_loop_free_edge_paths, 80000, 1000000) {
  Rand r = randomGraph(s, s.chance(1, 1000) ? 300 : 9);
  Graph g;
  for (size_t k = 0; k < r.n; ++k) g.addNode("v");
  // a spanning tree in both directions keeps every node able to reach the goal
  for (size_t k = 1; k < r.n; ++k) g.addEdgesBetweenNodes((int64_t)k, (int64_t)s.choice(k), 1.0);
  for (const MEdge& e : r.edges) g.addEdgeBetweenNodes(e.from, e.to, e.w);
  const int64_t a = s.i(0, (int64_t)r.n - 1), b = s.i(0, (int64_t)r.n - 1);
  std::mt19937_64 gen(s.choice(1000));
  const std::vector<int64_t> p = arc_dijkstras::GraphRandomWalk<Value>::PerformRandomWalk(g, a, b, gen);
  s.note(showRand(r)).note(vp::cat(" from ", a, " to ", b, ": ")).note(vp::show(p));
  VP_CHECK(!p.empty() && p.front() == a && p.back() == b, vp::show(p));
  std::vector<char> seen(r.n, 0);
  for (size_t k = 0; k < p.size(); ++k) {
    VP_CHECK(!seen[(size_t)p[k]], "node ", p[k], " repeats in ", vp::show(p));
    seen[(size_t)p[k]] = 1;
    if (k + 1 < p.size()) {
      bool edge = false;
      for (const Edge& e : g.getNode(p[k]).getOutEdges()) edge = edge || e.getToIndex() == p[k + 1];
      VP_CHECK(edge, "no edge ", p[k], " to ", p[k + 1]);
    }
  }
  s.nontrivialIf(p.size() >= 3);
}

// Very long chains, with short branches: nothing may depend on how deep a graph is.
VP_PROP(deep_graphs, 5, 80) {
  const size_t n = s.big(30000, 120000);
  const size_t pieces = s.u(1, 3);
  arc_dijkstras::Graph<int> g(n);
  vp::Src d;
  s.detach(d);
  std::vector<uint32_t> part(n);
  const bool forward = s.b();
  for (size_t k = 0; k < n; ++k) g.addNode((int)k);
  for (size_t k = 1; k < n; ++k) {
    part[k] = part[k - 1];
    if (k % (n / pieces + 1) == 0) {
      ++part[k];
      continue;
    }
    const size_t to = k >= 2 && part[k - 2] == part[k] && d.chance(1, 50) ? k - 2 : k - 1;
    const int64_t a = (int64_t)(forward ? k : to), b = (int64_t)(forward ? to : k);
    g.addEdgesBetweenNodes(a, b, 1.0);
  }
  s.note(vp::cat(n, " nodes in ", pieces, " chains"));
  VP_CHECK(g.checkGraphLinkage(), "the graph is not linked");
  const auto c = g.getConnectedComponentsUndirected();
  VP_CHECK(c.second == part.back() + 1, c.second, " components instead of ", part.back() + 1);
  for (size_t k = 0; k < n; ++k) VP_CHECK((c.first[k] == c.first[0]) == (part[k] == 0), "component of node ", k);
  std::vector<uint8_t> buf;
  const auto write = [](const int& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(v, b); };
  const auto read = [](const std::vector<uint8_t>& b, const uint64_t at) { return arc_utilities::DeserializeFixedSizePOD<int>(b, at); };
  const uint64_t wrote = g.serializeSelf(buf, write);
  const auto back = arc_dijkstras::Graph<int>::Deserialize(buf, 0, read);
  VP_CHECK(back.second == wrote && wrote == buf.size());
  VP_CHECK(back.first.getNodes().size() == n && back.first.checkGraphLinkage(), "deserialized graph");
  s.nontrivial();
}

VP_PROP(large_graphs_stay_linked_and_serialize, 300, 4000) {
  const Rand r = randomGraph(s, 3000);
  Graph g = build(r);
  Model m(r.n);
  for (size_t k = 0; k < r.n; ++k) m[k].value = vp::cat("n", k);
  for (const MEdge& e : r.edges) {
    m[(size_t)e.from].out.push_back(e);
    m[(size_t)e.to].in.push_back(e);
  }
  compare(g, m, "built");
  VP_CHECK(g.checkGraphLinkage());
  std::vector<uint8_t> buf = s.bytes(5);
  const size_t at = buf.size();
  const uint64_t wrote = g.serializeSelf(buf, writeValue);
  VP_CHECK(at + wrote == buf.size(), "reported ", wrote, " bytes, appended ", buf.size() - at);
  const auto back = Graph::Deserialize(buf, at, readValue);
  VP_CHECK(back.second == wrote, "consumed ", back.second, " of ", wrote);
  compare(back.first, m, "deserialized");
  s.note(vp::cat(r.n, " nodes, ", r.edges.size(), " edges"));
  // one damaged edge anywhere is noticed
  if (!r.edges.empty() && s.b()) {
    auto nodes = g.getNodes();
    const MEdge& e = r.edges[s.choice(r.edges.size())];
    auto& in = nodes[(size_t)e.to].getInEdges();
    for (size_t k = in.size(); k-- > 0;)
      if (in[k].getFromIndex() == e.from) in.erase(in.begin() + (long)k);
    VP_CHECK(!Graph::CheckGraphLinkage(nodes), "an edge into node ", e.to, " is missing and not noticed");
  }
  s.nontrivial();
}
