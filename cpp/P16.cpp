#include "vp.hpp"

#include <Eigen/Geometry>
#include <chrono>
#include <random>
#include <set>

// The library seeds its generator from the clock; the clock it sees is part of the generated case.
static uint64_t g_clock = 1;
namespace std {
namespace chrono {
struct vp_clock {
  static high_resolution_clock::time_point now() { return high_resolution_clock::time_point(high_resolution_clock::duration((int64_t)g_clock)); }
};
}  // namespace chrono
}  // namespace std
#define high_resolution_clock vp_clock
#include <arc_utilities/simple_kmeans_clustering.hpp>
#undef high_resolution_clock

namespace {

using simple_kmeans_clustering::SimpleKMeansClustering;

// A data point or a centre, as an exact rational point (x/w, y/w): sums of small integers, so neither rounding nor
// spurious ties decide anything.  w == 0 is the average of nothing and is infinitely far from everything.
struct Pt {
  int64_t x = 0, y = 0, w = 0;
  int id = -1;  // centres have none
};
double dist(const Pt& a, const Pt& b) {
  if (a.w == 0 || b.w == 0) return INFINITY;
  const double dx = (double)(a.x * b.w - b.x * a.w), dy = (double)(a.y * b.w - b.y * a.w), w = (double)(a.w * b.w);
  return (dx * dx + dy * dy) / (w * w);
}

struct Case {
  std::vector<Pt> data;
  std::vector<double> weights;
  bool weighted;
};
struct Quiet {
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  ~Quiet() { std::cerr.rdbuf(old); }
};

Case gen(vp::Src& s, size_t lo, size_t hi) {
  Case c;
  c.weighted = s.b();
  const int64_t span = hi > 500 && s.b() ? 2000 : (int64_t)s.pick(std::vector<size_t>{2, 6, 15});
  const size_t n = s.len(lo, hi);
  const size_t blobs = s.u(1, 5);
  std::vector<std::pair<int64_t, int64_t>> at;
  for (size_t k = 0; k < blobs; ++k) at.emplace_back(s.i(0, span), s.i(0, span));
  for (size_t k = 0; k < n; ++k) {
    Pt p;
    const auto& b = s.pick(at);
    const bool spread = span > 100 || s.chance(1, 4);
    p.x = spread ? s.i(0, span) : b.first + s.si(1);
    p.y = spread ? s.i(0, span) : b.second + s.si(1);
    p.w = 1;
    p.id = (int)k;
    c.data.push_back(p);
    c.weights.push_back(c.weighted ? (double)s.u(1, 4) : 1.0);
  }
  g_clock = s.choice(1u << 30);
  s.label(c.weighted ? "weighted" : "plain");
  return c;
}

// Averages, and checks what it is asked to average.
Pt average(const Case& c, const std::vector<Pt>& items, const std::vector<double>* weights) {
  if (weights) VP_CHECK(weights->size() == items.size(), "averaging ", items.size(), " items with ", weights->size(), " weights");
  Pt m;
  std::set<int> seen;
  for (size_t k = 0; k < items.size(); ++k) {
    VP_CHECK(items[k].id >= 0 && (size_t)items[k].id < c.data.size(), "something that is not an item was averaged");
    VP_CHECK(seen.insert(items[k].id).second, "item ", items[k].id, " was averaged twice in one cluster");
    const double w = weights ? (*weights)[k] : 1.0;
    VP_CHECK(w == c.weights[(size_t)items[k].id], "item ", items[k].id, " of weight ", c.weights[(size_t)items[k].id], " was averaged with weight ", w);
    m.x += (int64_t)w * items[k].x;
    m.y += (int64_t)w * items[k].y;
    m.w += (int64_t)w;
  }
  return m;
}

std::vector<Pt> centresOf(const Case& c, const std::vector<uint32_t>& labels, size_t k) {
  std::vector<Pt> m(k);
  for (size_t i = 0; i < labels.size(); ++i) {
    Pt& p = m[labels[i]];
    const int64_t w = (int64_t)c.weights[i];
    p.x += w * c.data[i].x;
    p.y += w * c.data[i].y;
    p.w += w;
  }
  return m;
}
bool same(const Pt& a, const Pt& b) { return a.w && b.w && a.x * b.w == b.x * a.w && a.y * b.w == b.y * a.w; }

void labelsNearest(const Case& c, const std::vector<uint32_t>& labels, const std::vector<Pt>& centres) {
  VP_CHECK(labels.size() == c.data.size(), labels.size(), " labels of ", c.data.size(), " items");
  for (size_t i = 0; i < labels.size(); ++i) {
    VP_CHECK(labels[i] < centres.size(), "label ", labels[i], " of ", centres.size(), " clusters");
    const double mine = dist(centres[labels[i]], c.data[i]);
    for (size_t q = 0; q < centres.size(); ++q)
      VP_CHECK(dist(centres[q], c.data[i]) >= mine, "item ", i, " is labelled ", labels[i], " at ", mine, " but centre ", q, " is at ", dist(centres[q], c.data[i]));
  }
}

using Dist = std::function<double(const Pt&, const Pt&)>;
using Avg = std::function<Pt(const std::vector<Pt>&)>;
using WAvg = std::function<Pt(const std::vector<Pt>&, const std::vector<double>&)>;

VP_PROP(from_given_centres, 60000, 2000000) {
  Quiet q;
  const bool huge = s.chance(1, 400);
  const Case c = gen(s, huge ? 100 : 0, huge ? 4000 : 30);
  int64_t most = 16;
  for (const Pt& p : c.data) most = std::max(most, p.x);
  std::vector<Pt> start = s.list(1, huge ? 8 : 6, [&] {
    Pt p;
    p.x = s.si(most);
    p.y = s.si(most);
    p.w = 1;
    return p;
  });
  const size_t k = start.size();
  const Dist d = dist;
  const Avg a = [&](const std::vector<Pt>& v) { return average(c, v, nullptr); };
  const WAvg w = [&](const std::vector<Pt>& v, const std::vector<double>& u) { return average(c, v, &u); };
  if (s.noting()) s.note(vp::cat(c.data.size(), " items, ", k, " centres"));
  const auto r = c.weighted ? SimpleKMeansClustering::ClusterWeighted(c.data, c.weights, d, w, start) : SimpleKMeansClustering::Cluster(c.data, d, a, start);
  VP_CHECK(r.second.size() == k, r.second.size(), " centres of ", k);
  labelsNearest(c, r.first, r.second);
  const std::vector<Pt> mean = centresOf(c, r.first, k);
  for (size_t q2 = 0; q2 < k; ++q2)
    if (mean[q2].w) VP_CHECK(same(mean[q2], r.second[q2]), "centre ", q2, " is not the average of its items");
  // Lloyd's iteration, as far as no ties leave a choice
  std::vector<Pt> centres = start;
  std::vector<uint32_t> labels, old;
  size_t rounds = 0;
  bool tie = false;
  do {
    old = labels;
    labels.assign(c.data.size(), 0);
    for (size_t i = 0; i < c.data.size(); ++i) {
      size_t best = 0, hits = 0;
      double bd = INFINITY;
      for (size_t q2 = 0; q2 < k; ++q2) {
        const double x = dist(centres[q2], c.data[i]);
        if (x < bd) bd = x, best = q2, hits = 1;
        else if (x == bd) ++hits;
      }
      tie = tie || hits > 1;
      labels[i] = (uint32_t)best;
    }
    centres = centresOf(c, labels, k);
    ++rounds;
  } while (old != labels && rounds < 1000);
  s.label(tie ? "ties on the way" : vp::cat("rounds ", rounds > 3 ? ">3" : vp::cat(rounds)));
  s.nontrivialIf(rounds > 2 && !tie);
  if (!tie) VP_CHECK(labels == r.first, "the result is not that of iterating from the given centres");
}

VP_PROP(number_of_clusters, 60000, 2000000) {
  Quiet q;
  const bool large = s.chance(1, 4);
  const bool huge = large && s.chance(1, 100);
  const Case c = gen(s, huge ? 300 : large ? 80 : 1, huge ? 4000 : large ? 200 : 30);
  const size_t n = c.data.size();
  const size_t k = huge ? s.u(1, 12) : large ? s.u(1, 4) : s.u(1, std::min<size_t>(n, 6));
  const bool prelim = large ? true : s.b();
  std::set<int> averaged;
  size_t firstRound = 0, calls = 0;
  const auto watch = [&](const std::vector<Pt>& v) {
    if (calls++ < k) firstRound += v.size();
    for (const Pt& p : v) averaged.insert(p.id);
  };
  const Dist d = dist;
  const Avg a = [&](const std::vector<Pt>& v) { return watch(v), average(c, v, nullptr); };
  const WAvg w = [&](const std::vector<Pt>& v, const std::vector<double>& u) { return watch(v), average(c, v, &u); };
  if (s.noting()) s.note(vp::cat(n, " items, ", k, " clusters", prelim ? ", preliminary" : ""));
  const std::vector<uint32_t> labels =
      c.weighted ? SimpleKMeansClustering::ClusterWeighted(c.data, c.weights, d, w, (uint32_t)k, prelim) : SimpleKMeansClustering::Cluster(c.data, d, a, (uint32_t)k, prelim);
  VP_CHECK(labels.size() == n, labels.size(), " labels of ", n, " items");
  for (const uint32_t l : labels) VP_CHECK(l < k, "label ", l, " of ", k, " clusters");
  labelsNearest(c, labels, centresOf(c, labels, k));
  if (k == 1) return;
  VP_CHECK(averaged.size() == n, "only ", averaged.size(), " of ", n, " items were ever averaged");
  const bool subset = prelim && firstRound < n;
  s.label(subset ? "on a subset first" : prelim ? "too few for a subset" : "direct");
  s.nontrivialIf(n > k);
  std::set<std::pair<int64_t, int64_t>> places;
  for (const Pt& p : c.data) places.insert({p.x, p.y});
  if (!prelim && places.size() == n) {  // every initial centre is an item of its own, so no cluster starts empty
    if (k == n) VP_CHECK(std::set<uint32_t>(labels.begin(), labels.end()).size() == n, "distinct items share a label although there are as many clusters");
  }
}

}  // namespace
