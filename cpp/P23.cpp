#include "vp.hpp"

#include <arc_utilities/arc_helpers.hpp>

using namespace arc_helpers;

namespace {

// --- reference engines, after their published C sources -----------------
struct RefSplit {
  uint64_t x;
  explicit RefSplit(uint64_t seed) : x(seed) {}
  uint64_t operator()() {
    x += 0x9E3779B97F4A7C15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
struct Ref128 {
  uint64_t s[2];
  explicit Ref128(uint64_t seed) {
    RefSplit r(seed);
    s[0] = r();
    s[1] = r();
  }
  uint64_t operator()() {
    uint64_t a = s[0];
    const uint64_t b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
};
struct Ref1024 {
  uint64_t s[16];
  int p = 0;
  explicit Ref1024(uint64_t seed) {
    RefSplit r(seed);
    for (uint64_t& v : s) v = r();
  }
  uint64_t operator()() {
    const uint64_t a = s[p];
    p = (p + 1) & 15;
    uint64_t b = s[p];
    b ^= b << 31;
    s[p] = b ^ a ^ (b >> 11) ^ (a >> 30);
    return s[p] * 1181783497276652981ull;
  }
};

template <class E, class R>
void engine(vp::Src& s) {
  const auto seed = [&] { return s.b() ? s.bits64() : (uint64_t)s.u(0, 3); };
  const uint64_t first = seed();
  E e(first);
  R r(first);
  bool reseeded = false;
  s.repeat(1, 12, [&] {
    switch (s.u(0, 3)) {
      case 0:
      case 1: {
        const size_t n = s.len(1, 40);
        for (size_t k = 0; k < n; ++k) {
          const uint64_t x = e(), y = r();
          VP_CHECK(x == y, "draw gives ", x, " expected ", y);
        }
        if (reseeded) s.nontrivial();
        break;
      }
      case 2: {
        const unsigned long long n = s.len(0, 60);
        e.discard(n);
        for (unsigned long long k = 0; k < n; ++k) r();
        if (n > 0) s.nontrivial();
        break;
      }
      default: {
        const uint64_t again = seed();
        e.seed(again);
        r = R(again);
        reseeded = true;
      }
    }
  });
  const E copy = e;
  E c2 = copy;
  for (int k = 0; k < 20; ++k) {
    const uint64_t x = e();
    VP_CHECK(x == r(), "draw ", k, " at the end");
    VP_CHECK(x == c2(), "draw ", k, " of a copy");
  }
  VP_CHECK(E::min() == 0 && E::max() == std::numeric_limits<uint64_t>::max());
}

// --- distributions --------------------------------------------------------
double phiUp(double x) { return 0.5 * std::erfc(x / std::sqrt(2.0)); }  // upper tail of the unit Gaussian
// Cumulative distribution at x of a unit Gaussian truncated to [a, b].
double truncCdf(double a, double b, double x) {
  if (x <= a) return 0;
  if (x >= b) return 1;
  if (a + b > 0) return (phiUp(a) - phiUp(x)) / (phiUp(a) - phiUp(b));
  return (phiUp(-x) - phiUp(-a)) / (phiUp(-b) - phiUp(-a));
}

// Kolmogorov-Smirnov statistic of samples against a continuous distribution; the limit 3.2 has probability 3e-9.
template <class F>
void ks(std::vector<double> x, F cdf, const std::string& what) {
  std::sort(x.begin(), x.end());
  double d = 0;
  const double n = (double)x.size();
  for (size_t k = 0; k < x.size(); ++k) {
    const double f = cdf(x[k]);
    VP_CHECK(std::isfinite(f), what, ": sample ", x[k]);
    d = std::max(d, std::max(f - (double)k / n, (double)(k + 1) / n - f));
  }
  VP_CHECK(d * std::sqrt(n) < 3.2, what, ": distance ", d, " of ", x.size(), " samples from the expected distribution");
}

// Any engine seeded from the case; std::mt19937_64 too.
template <class F>
void withEngine(vp::Src& s, F f) {
  const uint64_t seed = s.bits64();
  switch (s.u(0, 3)) {
    case 0: { std::mt19937_64 e(seed); f(e); break; }
    case 1: { XorShift128PlusPRNG e(seed); f(e); break; }
    case 2: { XorShift1024StarPRNG e(seed); f(e); break; }
    default: { SplitMix64PRNG e(seed); f(e); break; }
  }
}

}  // namespace

VP_PROP(splitmix64, 50000, 1000000) { engine<SplitMix64PRNG, RefSplit>(s); }
VP_PROP(xorshift128plus, 50000, 1000000) { engine<XorShift128PlusPRNG, Ref128>(s); }
VP_PROP(xorshift1024star, 50000, 1000000) { engine<XorShift1024StarPRNG, Ref1024>(s); }

VP_PROP(gaussian_functions, 200000, 3000000) {
  const double mean = s.real(-5, 5), sd = s.generic(0.05, 4);
  const auto z = [&] { return mean + sd * s.real(-6, 6); };
  const double x = z();
  const auto cdf = [&](double v) { return 0.5L * std::erfc(-((long double)v - mean) / sd / std::sqrt(2.0L)); };
  VP_CHECK(vp::near(EvaluateGaussianCDF(mean, sd, x), (double)cdf(x), 1e-12), "CDF at ", x, " of ", mean, " ", sd, ": ", EvaluateGaussianCDF(mean, sd, x), " expected ", (double)cdf(x));
  const double u = (x - mean) / sd;
  const double pdf = std::exp(-0.5 * u * u) / (sd * std::sqrt(2 * M_PI));
  VP_CHECK(vp::near(EvaluateGaussianPDF(mean, sd, x), pdf, 1e-11 / sd), "PDF at ", x, ": ", EvaluateGaussianPDF(mean, sd, x), " expected ", pdf);
  double a = z(), b = z();
  if (a > b) std::swap(a, b);
  VP_CHECK(vp::near(IntegrateGaussian(mean, sd, a, b), (double)(cdf(b) - cdf(a)), 1e-12), "integral over ", a, " ", b);
  const double mass = (double)(cdf(b) - cdf(a));
  if (mass < 1e-4) return;
  s.nontrivialIf(x > a && x < b);
  const double tc = x <= a ? 0 : x >= b ? 1 : (double)((cdf(x) - cdf(a)) / (cdf(b) - cdf(a)));
  VP_CHECK(vp::near(EvaluateTruncatedGaussianCDF(mean, a, b, sd, x), tc, 1e-10), "truncated CDF at ", x, ": ", EvaluateTruncatedGaussianCDF(mean, a, b, sd, x), " expected ", tc);
  if (x != a && x != b) {
    const double tp = x < a || x > b ? 0 : pdf / mass;
    VP_CHECK(vp::near(EvaluateTruncatedGaussianPDF(mean, a, b, sd, x), tp, 1e-9 * std::max(1.0, tp)), "truncated PDF at ", x, ": ", EvaluateTruncatedGaussianPDF(mean, a, b, sd, x), " expected ", tp);
  }
  double l = z(), h = z();
  if (l > h) std::swap(l, h);
  const auto clip = [&](double v) { return std::min(b, std::max(a, v)); };
  const double ti = (double)((cdf(clip(h)) - cdf(clip(l))) / (cdf(b) - cdf(a)));
  VP_CHECK(vp::near(IntegrateTruncatedGaussian(mean, a, b, sd, l, h), ti, 1e-10), "truncated integral over ", l, " ", h, ": ", IntegrateTruncatedGaussian(mean, a, b, sd, l, h), " expected ", ti);
}

VP_PROP(truncated_normal, 3000, 60000) {
  const double mean = s.real(-20, 20), sd = s.b() ? s.generic(0.01, 5) : 1.0;
  double a, b;
  const int kind = (int)s.u(0, 8);
  s.label(vp::cat("interval ", kind));
  switch (kind) {
    case 0: a = -s.generic(0, 5), b = s.generic(0.1, 5); break;                   // around the mean
    case 1: a = s.generic(0.01, 30), b = INFINITY; break;                         // upper tail
    case 2: a = -INFINITY, b = -s.generic(0.01, 30); break;                       // lower tail
    case 3: a = s.generic(0.01, 25), b = a + s.generic(0.001, 5); break;          // piece of the upper tail
    case 4: b = -s.generic(0.01, 25), a = b - s.generic(0.001, 5); break;         // piece of the lower tail
    case 5: a = s.generic(0.01, 3), b = a + s.generic(3, 40); break;              // long piece
    case 6: b = -s.generic(0.01, 3), a = b - s.generic(3, 40); break;
    case 7: a = s.b() ? -INFINITY : -s.generic(0.2, 3), b = s.b() ? INFINITY : s.generic(0.2, 3); break;
    default: a = 0, b = s.b() ? s.generic(0.2, 4) : INFINITY; if (s.b()) { const double t = a; a = -b; b = t; } break;
  }
  const double lo = mean + sd * a, hi = mean + sd * b;
  s.nontrivialIf(kind != 7);
  withEngine(s, [&](auto& prng) {
    TruncatedNormalDistribution dist(mean, sd, lo, hi);
    std::vector<double> u;
    for (int k = 0; k < 2000; ++k) {
      const double x = dist(prng);
      const double tol = 1e-9 * (std::fabs(mean) + sd);
      VP_CHECK(std::isfinite(x) && x >= lo - tol && x <= hi + tol, "sample ", x, " outside ", lo, " ", hi, " mean ", mean, " deviation ", sd);
      u.push_back((x - mean) / sd);
    }
    // Rounding of the bounds can move the effective interval a little.
    const double ra = (lo - mean) / sd, rb = (hi - mean) / sd;
    ks(u, [&](double x) { return truncCdf(ra, rb, x); }, vp::cat("truncated to ", ra, " ", rb, " mean ", mean, " deviation ", sd));
  });
}

VP_PROP(zero_deviation, 5000, 50000) {
  const double mean = s.real(-20, 20);
  s.nontrivial();
  TruncatedNormalDistribution dist(mean, 0.0, mean - s.generic(0, 3), mean + s.generic(0, 3));
  std::mt19937_64 e(s.bits64());
  for (int k = 0; k < 5; ++k) VP_CHECK(dist(e) == mean, "a distribution without spread gives its mean");
}

VP_PROP(multivariate_gaussian, 2000, 30000) {
  const ssize_t n = (ssize_t)s.u(1, 4), rank = (ssize_t)s.u(0, 4);
  Eigen::VectorXd mean(n);
  for (ssize_t k = 0; k < n; ++k) mean(k) = s.real(-10, 10);
  Eigen::MatrixXd A(n, rank);
  for (ssize_t k = 0; k < A.size(); ++k) A.data()[k] = s.b() ? (double)s.si(3) : s.real(-3, 3);
  const Eigen::MatrixXd cov = A * A.transpose();
  const double scale = std::sqrt(std::max(1.0, cov.diagonal().maxCoeff()));
  s.nontrivialIf(n >= 2 && rank >= 1);
  s.label(vp::cat("dimension ", n, rank < n ? ", singular" : ""));
  MultivariteGaussianDistribution dist(mean, cov);
  std::vector<Eigen::VectorXd> w;
  for (ssize_t k = 0; k < n; ++k) w.push_back(Eigen::VectorXd::Unit(n, k));
  Eigen::VectorXd v(n);
  for (ssize_t k = 0; k < n; ++k) v(k) = s.generic(-1, 1);
  w.push_back(v);
  withEngine(s, [&](auto& prng) {
    std::vector<Eigen::VectorXd> x;
    for (int k = 0; k < 1500; ++k) {
      x.push_back(dist(prng));
      VP_CHECK(x.back().size() == n && x.back().allFinite(), "sample of dimension ", x.back().size());
    }
    for (const auto& d : w) {
      const double var = d.dot(cov * d), sd = std::sqrt(std::max(0.0, var));
      std::vector<double> u;
      for (const auto& p : x) u.push_back(d.dot(p - mean));
      if (sd > 1e-3 * scale) {
        for (double& q : u) q /= sd;
        ks(u, [](double q) { return 1 - phiUp(q); }, vp::cat("projection with deviation ", sd));
      } else {
        for (double q : u) VP_CHECK(std::fabs(q) < 1e-2 * scale, "projection ", q, " with deviation ", sd);
      }
    }
  });
}

VP_PROP(random_rotations, 1000, 10000) {
  s.nontrivial();
  Eigen::Vector3d axis(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1));
  axis.normalize();
  Eigen::Vector3d other(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1));
  other.normalize();
  withEngine(s, [&](auto& prng) {
    auto twin = prng;
    RandomRotationGenerator gen, genTwin;
    std::vector<double> angle, projection, roll, yaw, sinPitch;
    int up = 0;
    const int n = 2000;
    for (int k = 0; k < n; ++k) {
      const Eigen::Quaterniond q = gen.GetQuaternion(prng);
      VP_CHECK(vp::near(q.norm(), 1, 1e-9), "norm ", q.norm());
      const std::vector<double> raw = genTwin.GetRawQuaternion(twin);
      VP_CHECK(raw.size() == 4 && raw[0] == q.x() && raw[1] == q.y() && raw[2] == q.z() && raw[3] == q.w(), "raw quaternion ", vp::show(raw));
      angle.push_back(2 * std::acos(std::min(1.0, std::fabs(q.w()))));
      projection.push_back(other.dot(q * axis));
      const Eigen::Vector3d e = gen.GetEulerAngles(prng);
      const std::vector<double> rawE = genTwin.GetRawEulerAngles(twin);
      VP_CHECK(rawE.size() == 3 && rawE[0] == e.x() && rawE[1] == e.y() && rawE[2] == e.z(), "raw angles ", vp::show(rawE));
      for (int d = 0; d < 3; ++d) VP_CHECK(std::isfinite(e(d)) && std::fabs(e(d)) <= 2 * M_PI + 1e-9, "angle ", e(d));
      roll.push_back(e.x());
      yaw.push_back(e.z());
      sinPitch.push_back(std::sin(e.y()));
      up += std::cos(e.y()) > 0;
    }
    ks(angle, [](double t) { return (t - std::sin(t)) / M_PI; }, "rotation angle");
    ks(projection, [](double t) { return 0.5 * (t + 1); }, "rotated vector");
    const auto turn = [](double t) { return std::min(1.0, std::max(0.0, (t + M_PI) / (2 * M_PI))); };
    ks(roll, turn, "roll");
    ks(yaw, turn, "yaw");
    ks(sinPitch, [](double t) { return 0.5 * (t + 1); }, "sine of pitch");
    // The published algorithm flips the pitch half of the time.
    VP_CHECK(up > n / 5 && up < 4 * n / 5, up, " of ", n, " pitches in the front half turn");
  });
}

VP_PROP(quaternion_from_uniform_values, 100000, 1000000) {
  // Any values in [0, 1) give a unit quaternion, extremes included.
  std::vector<double> u;
  for (int k = 0; k < 3; ++k) u.push_back(s.b() ? s.generic(0, 1) : s.b() ? 0.0 : std::nextafter(1.0, 0.0));
  size_t at = 0;
  s.nontrivialIf(u[0] > 0);
  const Eigen::Quaterniond q = RandomRotationGenerator::GenerateUniformRandomQuaternion([&] { return u[at++ % 3]; });
  VP_CHECK(q.coeffs().allFinite() && vp::near(q.norm(), 1, 1e-12), "norm ", q.norm());
}
