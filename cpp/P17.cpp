#include "vp.hpp"

#include <arc_utilities/simple_dtw.hpp>
#include <arc_utilities/simple_hausdorff_distance.hpp>
// The OpenMP form of the same header, under another namespace name.
#undef SIMPLE_HAUSDORFF_DISTANCE_HPP
#define simple_hausdorff_distance simple_hausdorff_distance_parallel
#define ENABLE_PARALLEL_HAUSDORFF_DISTANCE
#include <arc_utilities/simple_hausdorff_distance.hpp>
#undef simple_hausdorff_distance

namespace {

struct A {
  size_t id;
};
struct B {
  size_t id;
};
using Table = std::vector<std::vector<double>>;
Table table(vp::Src& s, size_t n, size_t m) {
  const size_t range = s.pick(std::vector<size_t>{1, 2, 5, 1000});
  const bool exact = s.chance(4, 5), holes = s.chance(1, 10);
  Table t(n, std::vector<double>(m));
  vp::Src bulk;
  if (n * m > 2000) s.detach(bulk), s.label("large");
  vp::Src& q = n * m > 2000 ? bulk : s;
  if (n && m && q.chance(1, 3)) {  // two sequences that stay and move at different times
    std::vector<double> x, y;
    for (auto* v : {&x, &y}) {
      const size_t size = v == &x ? n : m;
      double at = 0;
      while (v->size() < size) {
        const size_t stay = q.chance(1, 2) ? 1 : q.chance(1, 2) ? q.u(1, 6) : q.u(1, size);
        for (size_t k = 0; k < stay && v->size() < size; ++k) v->push_back(at);
        at += q.chance(1, 8) ? -(double)q.u(0, 3) : (double)q.u(0, 2);
      }
    }
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < m; ++j) t[i][j] = std::abs(x[i] - y[j]);
    return t;
  }
  for (auto& r : t)
    for (double& v : r) v = holes && q.chance(1, 4) ? INFINITY : exact ? (double)q.u(0, range) : q.generic(0, (double)range);
  return t;
}

// Minimum over all alignments by recursion from the end, with a memo.
double align(const Table& t, size_t i, size_t j, std::vector<std::vector<double>>& memo) {
  double& m = memo[i][j];
  if (m >= 0) return m;
  if (i == 0 && j == 0) return m = t[0][0];
  double best = INFINITY;
  if (i > 0) best = std::min(best, align(t, i - 1, j, memo));
  if (j > 0) best = std::min(best, align(t, i, j - 1, memo));
  if (i > 0 && j > 0) best = std::min(best, align(t, i - 1, j - 1, memo));
  return m = best + t[i][j];
}
double reference(const Table& t, size_t n, size_t m) {
  if (n == 0 && m == 0) return 0;
  if (n == 0 || m == 0) return INFINITY;
  std::vector<std::vector<double>> memo(n, std::vector<double>(m, -1));
  return align(t, n - 1, m - 1, memo);
}
// All alignments enumerated one by one (small sequences).
void walk(const Table& t, size_t i, size_t j, double sum, double& best) {
  sum += t[i][j];
  if (i + 1 == t.size() && j + 1 == t[0].size()) {
    best = std::min(best, sum);
    return;
  }
  if (i + 1 < t.size()) walk(t, i + 1, j, sum, best);
  if (j + 1 < t[0].size()) walk(t, i, j + 1, sum, best);
  if (i + 1 < t.size() && j + 1 < t[0].size()) walk(t, i + 1, j + 1, sum, best);
}

std::vector<A> as(size_t n) {
  std::vector<A> v;
  for (size_t k = 0; k < n; ++k) v.push_back({k});
  return v;
}
std::vector<B> bs(size_t n) {
  std::vector<B> v;
  for (size_t k = 0; k < n; ++k) v.push_back({k});
  return v;
}
using Fn = std::function<double(const A&, const B&)>;
bool agree(double x, double y) { return x == y || vp::close(x, y, 1e-12); }

VP_PROP(dtw_small_all_alignments, 100000, 3000000) {
  const size_t n = s.u(1, 5), m = s.u(1, 5);
  const Table t = table(s, n, m);
  const Fn f = [&](const A& a, const B& b) { return t[a.id][b.id]; };
  double best = INFINITY;
  walk(t, 0, 0, 0.0, best);
  s.nontrivialIf(n > 1 && m > 1);
  if (s.noting()) s.note(vp::cat(n, " by ", m, ", cheapest alignment ", best));
  const double got = simple_dtw::ComputeDTWDistance(as(n), bs(m), f);
  VP_CHECK(agree(got, best), "cost ", got, " but the cheapest of all alignments costs ", best);
}

// One evaluator used again and again.
VP_PROP(dtw_reused, 60000, 2000000) {
  const Fn* current = nullptr;
  const Fn f = [&](const A& a, const B& b) { return (*current)(a, b); };
  using DTW = simple_dtw::SimpleDTW<A, B, Fn>;
  DTW dtw = s.b() ? DTW() : DTW(s.len(0, 12), s.len(0, 12));
  size_t uses = 0, ln = 0, lm = 0;
  bool shapes = false;
  s.repeat(1, 8, [&] {
    const size_t n = s.chance(1, 800) ? s.big(50, 400) : s.len(0, 15), m = s.chance(1, 800) ? s.big(50, 400) : n > 40 ? s.big(10, 300) : s.len(0, 15);
    const Table t = table(s, n, m);
    const Fn g = [&](const A& a, const B& b) { return t[a.id][b.id]; };
    current = &g;
    const double want = reference(t, n, m);
    const double got = dtw.EvaluateWarpingCost(as(n), bs(m), f);
    if (s.noting()) s.note(vp::cat(n, "x", m, " "));
    VP_CHECK(agree(got, want), "use ", uses, ": cost ", got, " of ", n, " by ", m, " items, expected ", want);
    shapes = shapes || (uses && (n < ln) != (m < lm));
    ln = n;
    lm = m;
    ++uses;
  });
  s.nontrivialIf(shapes);
}

// Reversing both sequences or exchanging their roles reverses or transposes every alignment.
VP_PROP(dtw_symmetries, 30000, 1000000) {
  const size_t n = s.u(1, 25), m = s.u(1, 25);
  const Table t = table(s, n, m);
  const Fn f = [&](const A& a, const B& b) { return t[a.id][b.id]; };
  const std::function<double(const B&, const A&)> g = [&](const B& b, const A& a) { return t[a.id][b.id]; };
  std::vector<A> a = as(n);
  std::vector<B> b = bs(m);
  const double c = simple_dtw::ComputeDTWDistance(a, b, f);
  VP_CHECK(agree(c, simple_dtw::ComputeDTWDistance(b, a, g)), "exchanged sequences cost ", simple_dtw::ComputeDTWDistance(b, a, g), " instead of ", c);
  std::reverse(a.begin(), a.end());
  std::reverse(b.begin(), b.end());
  VP_CHECK(agree(c, simple_dtw::ComputeDTWDistance(a, b, f)), "reversed sequences cost ", simple_dtw::ComputeDTWDistance(a, b, f), " instead of ", c);
  s.nontrivialIf(n > 2 && m > 2);
  if (s.noting()) s.note(vp::cat(n, " by ", m));
}

VP_PROP(hausdorff, 100000, 3000000) {
  const bool large = s.chance(1, 800);
  const size_t n = large ? s.big(40, 500) : s.len(0, 40), m = large ? s.big(40, 500) : s.len(0, 40);
  const Table t = table(s, n, m);
  const Fn f = [&](const A& a, const B& b) { return t[a.id][b.id]; };
  double want = 0;
  size_t where = 0;
  for (size_t i = 0; i < n; ++i) {
    double lo = INFINITY;
    for (const double v : t[i]) lo = std::min(lo, v);
    if (lo > want) want = lo, where = i;
  }
  const bool parallel = s.b();
  s.label(parallel ? "parallel" : "serial");
  std::vector<A> a = as(n);
  std::vector<B> b = bs(m);
  s.shuffle(a);
  s.shuffle(b);
  const double got = parallel ? simple_hausdorff_distance_parallel::SimpleHausdorffDistance::ComputeDistance(a, b, f) : simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(a, b, f);
  if (s.noting()) s.note(vp::cat(n, " and ", m, " items, distance ", want));
  s.nontrivialIf(n > 1 && m > 1 && where + 1 < n);
  VP_CHECK(got == want, "distance ", got, " expected ", want);
}

}  // namespace
