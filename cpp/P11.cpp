#include "vp.hpp"

#include <arc_utilities/arc_helpers.hpp>

namespace {

using KNN = std::vector<std::pair<int64_t, double>>;

// Distances of few different values make ties common.
std::vector<double> genDistances(vp::Src& s, size_t max) {
  std::vector<double> d(max > 300 ? s.big(0, max) : s.len(0, max));
  vp::Src bulk;
  if (max > 300) s.detach(bulk);
  vp::Src& c = max > 300 ? bulk : s;
  const int kind = (int)s.u(0, 3);
  s.label(vp::cat("distances ", kind));
  for (size_t k = 0; k < d.size(); ++k) switch (kind) {
      case 0: d[k] = (double)c.u(0, 4); break;
      case 1: d[k] = c.real(0, 100); break;
      case 2: d[k] = (double)(d.size() - k); break;                // closer and closer
      default: d[k] = c.real(-10, 10); break;                      // not a metric: still an order
    }
  return d;
}

void checkKnn(const KNN& r, const std::vector<double>& d, size_t K, const char* what) {
  VP_CHECK(r.size() == std::min(K, d.size()), what, ": ", r.size(), " neighbours of ", d.size(), " items, K ", K);
  std::vector<bool> in(d.size(), false);
  std::vector<double> got;
  for (const auto& e : r) {
    VP_CHECK(e.first >= 0 && (size_t)e.first < d.size(), what, ": index ", e.first);
    VP_CHECK(!in[(size_t)e.first], what, ": item ", e.first, " returned twice");
    in[(size_t)e.first] = true;
    VP_CHECK(e.second == d[(size_t)e.first], what, ": item ", e.first, " has distance ", e.second, " expected ", d[(size_t)e.first]);
    got.push_back(e.second);
  }
  std::sort(got.begin(), got.end());
  std::vector<double> all = d;
  std::sort(all.begin(), all.end());
  all.resize(r.size());
  VP_CHECK(got == all, what, ": distances ", vp::show(got), " expected the smallest ", vp::show(all));
}

}  // namespace

VP_PROP(k_nearest_neighbours, 150000, 2000000) {
  const auto d = genDistances(s, s.chance(1, 300) ? 20000 : s.b() ? 20 : 300);
  const size_t K = s.b() ? s.u(0, 6) : s.chance(1, 2) ? s.big(0, d.size() + 3) : s.u(0, d.size() + 3);
  std::vector<int> items(d.size());
  for (size_t k = 0; k < items.size(); ++k) items[k] = (int)k;
  const double offset = s.real(-5, 5);
  std::function<double(const int&, const double&)> fn = [&](const int& item, const double& cur) { return d[(size_t)item] + (cur - offset); };
  s.nontrivialIf(K > 0 && K < d.size());
  if (K == d.size()) s.label("K = N");
  if (K > d.size()) s.label("K > N");
  const double cur = offset;
  checkKnn(arc_helpers::GetKNearestNeighborsSerial<int, double>(items, cur, fn, K), d, K, "serial");
  checkKnn(arc_helpers::GetKNearestNeighborsParallel<int, double>(items, cur, fn, K), d, K, "parallel");
}

VP_PROP(k_nearest_points, 80000, 800000) {
  const size_t n = s.len(0, 60), dim = s.u(1, 3);
  const bool grid = s.b();
  auto point = [&]() {
    std::vector<double> p(dim);
    for (double& x : p) x = grid ? (double)s.si(2) : s.real(-3, 3);
    return p;
  };
  std::vector<std::vector<double>> items(n);
  for (auto& p : items) p = point();
  const auto q = point();
  const size_t K = s.u(0, 10);
  std::function<double(const std::vector<double>&, const std::vector<double>&)> fn = [](const std::vector<double>& a, const std::vector<double>& b) {
    double sum = 0;
    for (size_t k = 0; k < a.size(); ++k) sum += (a[k] - b[k]) * (a[k] - b[k]);
    return std::sqrt(sum);
  };
  std::vector<double> d(n);
  for (size_t k = 0; k < n; ++k) d[k] = fn(items[k], q);
  s.nontrivialIf(K > 0 && K < n);
  checkKnn(arc_helpers::GetKNearestNeighborsSerial(items, q, fn, K), d, K, "serial");
  checkKnn(arc_helpers::GetKNearestNeighborsParallel(items, q, fn, K), d, K, "parallel");
}

VP_PROP(one_dataset_matrix, 150000, 1500000) {
  const size_t n = s.chance(1, 300) ? s.big(20, 300) : s.len(0, 20);
  std::vector<int> data(n);
  for (int& x : data) x = (int)s.si(20);
  const bool weighted = s.b();
  std::function<double(const int&, const int&)> fn = [&](const int& a, const int& b) {
    return weighted ? std::abs(a - b) * (1.0 + 0.25 * (a + b + 100)) : (double)std::abs(a - b);
  };
  s.nontrivialIf(n >= 3);
  for (int par = 0; par < 2; ++par) {
    const Eigen::MatrixXd m = par ? arc_helpers::BuildDistanceMatrixParallel<int>(data, fn) : arc_helpers::BuildDistanceMatrixSerial<int>(data, fn);
    VP_CHECK(m.rows() == (ssize_t)n && m.cols() == (ssize_t)n, (par ? "parallel" : "serial"), ": ", m.rows(), "x", m.cols(), " for ", n);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        VP_CHECK(m((ssize_t)i, (ssize_t)j) == fn(data[i], data[j]), (par ? "parallel" : "serial"), ": cell ", i, ",", j, " is ", m((ssize_t)i, (ssize_t)j), " expected ", fn(data[i], data[j]));
  }
}

VP_PROP(two_dataset_matrix, 150000, 1500000) {
  const bool large = s.chance(1, 300);
  std::vector<int> a(large ? s.big(0, 400) : s.len(0, 20));
  std::vector<double> b(large ? s.big(0, 400) : s.len(0, 20));
  for (int& x : a) x = (int)s.si(50);
  for (double& x : b) x = s.real(-50, 50);
  const bool directed = s.b();
  std::function<double(const int&, const double&)> fn = [&](const int& x, const double& y) { return directed ? 3.0 * x + y : std::fabs(x - y); };
  s.nontrivialIf(a.size() >= 2 && b.size() >= 2 && a.size() != b.size());
  for (int par = 0; par < 2; ++par) {
    const Eigen::MatrixXd m = par ? arc_helpers::BuildDistanceMatrixParallel<int, double>(a, b, fn) : arc_helpers::BuildDistanceMatrixSerial<int, double>(a, b, fn);
    VP_CHECK(m.rows() == (ssize_t)a.size() && m.cols() == (ssize_t)b.size(), (par ? "parallel" : "serial"), ": ", m.rows(), "x", m.cols(), " for ", a.size(), " and ", b.size());
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t j = 0; j < b.size(); ++j)
        VP_CHECK(m((ssize_t)i, (ssize_t)j) == fn(a[i], b[j]), (par ? "parallel" : "serial"), ": cell ", i, ",", j, " is ", m((ssize_t)i, (ssize_t)j), " expected ", fn(a[i], b[j]));
  }
}

VP_PROP(same_type_two_dataset_matrix, 50000, 500000) {
  const bool large = s.chance(1, 300);
  std::vector<double> a(large ? s.big(0, 300) : s.len(0, 12)), b(large ? s.big(0, 300) : s.len(0, 12));
  for (double& x : a) x = s.real(-50, 50);
  for (double& x : b) x = s.real(-50, 50);
  std::function<double(const double&, const double&)> fn = [](const double& x, const double& y) { return std::fabs(x - 2 * y); };
  s.nontrivialIf(a.size() >= 2 && b.size() >= 2);
  for (int par = 0; par < 2; ++par) {
    const Eigen::MatrixXd m = par ? arc_helpers::BuildDistanceMatrixParallel<double, double>(a, b, fn) : arc_helpers::BuildDistanceMatrixSerial<double, double>(a, b, fn);
    VP_CHECK(m.rows() == (ssize_t)a.size() && m.cols() == (ssize_t)b.size(), "dimensions ", m.rows(), "x", m.cols());
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t j = 0; j < b.size(); ++j) VP_CHECK(m((ssize_t)i, (ssize_t)j) == fn(a[i], b[j]), "cell ", i, ",", j);
  }
}
