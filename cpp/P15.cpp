#include "vp.hpp"

#include <arc_utilities/simple_hierarchical_clustering.hpp>
// The OpenMP form of the same header, under another namespace name.
#undef SIMPLE_HIERARCHICAL_CLUSTERING_HPP
#define simple_hierarchical_clustering simple_hierarchical_clustering_parallel
#define ENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING
#include <arc_utilities/simple_hierarchical_clustering.hpp>
#undef simple_hierarchical_clustering

namespace {

namespace ser = simple_hierarchical_clustering;
namespace par = simple_hierarchical_clustering_parallel;

struct Item {
  size_t id;
};
using Items = std::vector<Item>;
using Partition = std::vector<std::vector<size_t>>;

struct Case {
  Items data;
  Eigen::MatrixXd d;  // by id
  double max;
  bool complete;
};

Case gen(vp::Src& s, bool distinct) {
  Case c;
  const size_t n = s.chance(1, 400) ? s.u(30, 90) : s.len(0, distinct ? 14 : 20);
  if (n >= 30) s.label("30 to 90 items");
  c.d = Eigen::MatrixXd::Zero((ssize_t)n, (ssize_t)n);
  std::vector<double> ladder;
  for (size_t k = 0; k < n * (n - 1) / 2 + 1; ++k) ladder.push_back(0.5 * (double)k);
  const size_t range = s.pick(std::vector<size_t>{2, 4, 12, 100});
  if (distinct) s.shuffle(ladder);
  const bool points = !distinct && s.b();  // points on a line: distances are a metric
  std::vector<double> at;
  for (size_t k = 0; k < n; ++k) at.push_back((double)s.u(0, range));
  const bool holes = s.chance(1, 6);
  size_t next = 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j) {
      double v = distinct ? ladder[next++] : points ? std::fabs(at[i] - at[j]) : (double)s.u(0, range);
      if (!points && holes && s.chance(1, 3)) v = INFINITY;
      c.d((ssize_t)i, (ssize_t)j) = c.d((ssize_t)j, (ssize_t)i) = v;
    }
  for (size_t k = 0; k < n; ++k) c.data.push_back(Item{k});
  s.shuffle(c.data);
  switch (s.choice(6)) {
    case 0: c.max = s.pick(std::vector<double>{INFINITY, 0.0, -1.0, 1e300}); break;
    case 1: case 2: c.max = n > 1 ? c.d((ssize_t)s.u(1, n - 1), 0) : 1.0; break;  // exactly one of the distances
    default: c.max = s.generic(0, distinct ? 0.5 * (double)ladder.size() : (double)range);
  }
  c.complete = s.b();
  s.label(c.complete ? "complete link" : "single link");
  if (s.noting()) s.note(vp::cat(n, " items, threshold ", c.max, c.complete ? ", complete" : ", single", " link"));
  return c;
}

template <class Strategy>
Strategy strat(const Case& c, Strategy single, Strategy complete) { return c.complete ? complete : single; }

std::pair<std::vector<Items>, double> run(vp::Src& s, const Case& c) {
  const bool parallel = s.b(), fn = s.b();
  s.label(vp::cat(parallel ? "parallel " : "serial ", fn ? "function" : "matrix"));
  if (fn) {
    const std::function<double(const Item&, const Item&)> f = [&](const Item& a, const Item& b) { return c.d((ssize_t)a.id, (ssize_t)b.id); };
    return parallel ? par::SimpleHierarchicalClustering::Cluster(c.data, f, c.max, strat(c, par::SINGLE_LINK, par::COMPLETE_LINK))
                    : ser::SimpleHierarchicalClustering::Cluster(c.data, f, c.max, strat(c, ser::SINGLE_LINK, ser::COMPLETE_LINK));
  }
  Eigen::MatrixXd m((ssize_t)c.data.size(), (ssize_t)c.data.size());
  for (size_t i = 0; i < c.data.size(); ++i)
    for (size_t j = 0; j < c.data.size(); ++j) m((ssize_t)i, (ssize_t)j) = c.d((ssize_t)c.data[i].id, (ssize_t)c.data[j].id);
  return parallel ? par::SimpleHierarchicalClustering::Cluster(c.data, m, c.max, strat(c, par::SINGLE_LINK, par::COMPLETE_LINK))
                  : ser::SimpleHierarchicalClustering::Cluster(c.data, m, c.max, strat(c, ser::SINGLE_LINK, ser::COMPLETE_LINK));
}

double linkage(const Case& c, const std::vector<size_t>& a, const std::vector<size_t>& b) {
  double lo = INFINITY, hi = 0;
  for (const size_t i : a)
    for (const size_t j : b) {
      lo = std::min(lo, c.d((ssize_t)i, (ssize_t)j));
      hi = std::max(hi, c.d((ssize_t)i, (ssize_t)j));
    }
  return c.complete ? hi : lo;
}
double closest(const Case& c, const Partition& p, size_t* a = nullptr, size_t* b = nullptr) {
  double best = INFINITY;
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      const double l = linkage(c, p[i], p[j]);
      if (l < best) {
        best = l;
        if (a) *a = i, *b = j;
      }
    }
  return best;
}

Partition canonical(const std::vector<Items>& clusters, size_t n) {
  Partition p;
  std::vector<int> seen(n, 0);
  for (const Items& k : clusters) {
    VP_CHECK(!k.empty(), "an empty cluster was returned");
    p.emplace_back();
    for (const Item& i : k) {
      VP_CHECK(i.id < n, "item ", i.id, " was invented");
      VP_CHECK(seen[i.id]++ == 0, "item ", i.id, " is in the result twice");
      p.back().push_back(i.id);
    }
    std::sort(p.back().begin(), p.back().end());
  }
  for (size_t k = 0; k < n; ++k) VP_CHECK(seen[k] == 1, "item ", k, " is in no cluster");
  std::sort(p.begin(), p.end());
  return p;
}

std::string show(const Partition& p) {
  std::ostringstream o;
  for (const auto& k : p) {
    o << "{";
    for (const size_t i : k) o << i << " ";
    o << "}";
  }
  return o.str();
}

void invariants(const Case& c, const Partition& p, double stopped) {
  const double between = closest(c, p);
  VP_CHECK(stopped == between, "reported stopping distance ", stopped, " but the closest clusters are ", between, " apart: ", show(p));
  VP_CHECK(!(between <= c.max) || std::isinf(between), "clusters within the threshold ", c.max, " were left apart: ", between, " ", show(p));
  for (const auto& k : p) {
    if (c.complete) {
      for (const size_t i : k)
        for (const size_t j : k) VP_CHECK(i == j || c.d((ssize_t)i, (ssize_t)j) <= c.max, "items ", i, " and ", j, " share a cluster beyond the threshold ", c.max);
    } else {  // connected by steps within the threshold
      std::vector<size_t> front{k[0]}, left(k.begin() + 1, k.end());
      while (!front.empty()) {
        const size_t at = front.back();
        front.pop_back();
        for (size_t q = 0; q < left.size();)
          if (c.d((ssize_t)at, (ssize_t)left[q]) <= c.max) {
            front.push_back(left[q]);
            left.erase(left.begin() + (ssize_t)q);
          } else {
            ++q;
          }
      }
      VP_CHECK(left.empty(), "a cluster is not connected within the threshold ", c.max, ": ", show(p));
    }
  }
}

// Distinct distances: the sequence of merges, and so the result, is unique.
VP_PROP(equals_reference, 60000, 2000000) {
  const Case c = gen(s, true);
  const auto r = run(s, c);
  const Partition got = canonical(r.first, c.data.size());
  Partition ref;
  for (const Item& i : c.data) ref.push_back({i.id});
  size_t merges = 0, a, b;
  while (ref.size() > 1) {
    const double d = closest(c, ref, &a, &b);
    if (std::isinf(d) || d > c.max) break;
    ref[a].insert(ref[a].end(), ref[b].begin(), ref[b].end());
    ref.erase(ref.begin() + (ssize_t)b);
    ++merges;
  }
  for (auto& k : ref) std::sort(k.begin(), k.end());
  std::sort(ref.begin(), ref.end());
  s.nontrivialIf(merges >= 2 && ref.size() >= 2);
  VP_CHECK(got == ref, "clusters ", show(got), " expected ", show(ref));
  invariants(c, got, r.second);
}

VP_PROP(ties_and_metrics, 60000, 2000000) {
  const Case c = gen(s, false);
  const auto r = run(s, c);
  const Partition got = canonical(r.first, c.data.size());
  s.nontrivialIf(got.size() >= 2 && got.size() < c.data.size());
  invariants(c, got, r.second);
}

}  // namespace
