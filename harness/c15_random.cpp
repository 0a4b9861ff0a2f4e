// C15: random sequences
#include "s2e.hpp"
//
#include <climits>
#include <memory>
#include <set>
//
#include <math_physics/randomization/global_randomization.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp>
#include <math_physics/randomization/normal_randomization.hpp>
#include <math_physics/randomization/random_walk.hpp>
namespace rd = s2e::randomization;
using rd::MinimalStandardLcg;
using Shuf = rd::MinimalStandardLcgWithShuffle;

static const long kMod = 2147483647L;
static long RandomSeed(mon::Mon& m) {
  static const std::vector<long> special = {1, 2, -1, kMod - 1, kMod + 1, -kMod + 1, -kMod - 1, 0xdeadbeefL, -0xdeadbeefL, LONG_MAX, LONG_MIN, LONG_MAX - 1, 127773, 127774, 16807, 1L << 31, 1L << 32, 1L << 62};
  long s;
  do {
    int k = (int)m.rng.i(0, 9);
    if (k == 0) s = m.rng.pick(special);
    else if (k < 6) s = m.rng.i(1, kMod - 1);
    else if (k < 8) s = -m.rng.i(1, kMod - 1);
    else s = (long)m.rng.next();
  } while (s % kMod == 0);
  return s;
}
static bool Open01(double x) { return x > 0 && x < 1; }

GROUP(uniform_generator) {
  for (long c = 0; c < m.n(3000, 60000); c++) {
    long seed = RandomSeed(m);
    m.begin("seed %ld", seed);
    m.distinct((uint64_t)seed);
    MinimalStandardLcg a(seed), b;
    for (int i = 0; i < (int)m.rng.i(0, 5); i++) (void)(double)b;
    b.Initialize(seed);
    long st = ((seed % kMod) + kMod) % kMod;
    int n = (int)m.rng.i(20, 200);
    for (int i = 0; i < n; i++) {
      double x = a, y = b;
      st = (long)((__int128)st * MinimalStandardLcg::kA % MinimalStandardLcg::kM);
      m.check(Open01(x), "range", "draw %d: %.17g", i, x);
      m.check(x == y, "restart", "draw %d: %.17g after restarting, %.17g before", i, y, x);
      m.check(fabs(x - (double)st / kMod) < 1e-15, "recurrence", "draw %d: %.17g, the generator of modulus 2^31-1 and multiplier 16807 gives %.17g", i, x, (double)st / kMod);
    }
    m.ev("draws", n);
  }
  // degenerate seeds: refused, or moved to a sequence that runs
  for (long k : {0L, 1L, -1L, 2L, -5L, 1000L, 4294967298L, -4294967298L}) {
    long seed = k * kMod;
    m.begin("degenerate seed %ld", seed);
    auto probe = [&](auto draw, const char* what) {
      try {
        std::set<double> seen;
        for (int i = 0; i < 50; i++) seen.insert(draw());
        m.check(seen.size() > 40, "sticks", "%s: %zu different values in 50 draws", what, seen.size());
        m.ev("degenerate_accepted");
      } catch (const std::invalid_argument&) {
        m.ev("degenerate_refused");
      }
    };
    {
      std::unique_ptr<MinimalStandardLcg> g;
      probe([&] { if (!g) g = std::make_unique<MinimalStandardLcg>(seed); return (double)*g; }, "constructor");
    }
    {
      MinimalStandardLcg g;
      bool first = true;
      probe([&] { if (first) { first = false; g.Initialize(seed); } return (double)g; }, "Initialize");
    }
    {
      Shuf g;
      bool first = true;
      probe([&] { if (first) { first = false; g.InitSeed(seed); } return (double)g; }, "InitSeed");
    }
  }
  m.require("draws", 10000);
}

GROUP(shuffled_generator) {
  std::vector<double> bins(64, 0);
  std::set<long> used;
  L sx = 0, sxx = 0, lag[6] = {0};
  long nx = 0;
  for (long c = 0; c < m.n(1500, 30000); c++) {
    long seed = RandomSeed(m);
    m.begin("seed %ld", seed);
    m.distinct((uint64_t)seed);
    int n = (int)m.rng.i(100, 400);
    Shuf a(seed);
    std::vector<double> x;
    for (int i = 0; i < n; i++) x.push_back(a);
    for (double v : x) m.check(Open01(v), "range", "%.17g", v);
    // restarted after a random history, and copied in the middle
    Shuf b(RandomSeed(m));
    int k = (int)m.rng.i(0, 100);
    for (int i = 0; i < k; i++) (void)(double)b;
    b.InitSeed(seed);
    for (int i = 0; i < n; i++) {
      double y = b;
      if (!m.check(y == x[i], "restart", "draw %d: %.17g after restarting, %.17g at first (%d draws before)", i, y, x[i], k)) break;
    }
    int cut = (int)m.rng.i(0, n - 1);
    Shuf d(seed);
    for (int i = 0; i < cut; i++) (void)(double)d;
    Shuf e = d;
    for (int i = cut; i < n; i++) {
      double y = d, z = e;
      if (!m.check(y == x[i] && z == x[i], "copy", "draw %d: copies give %.17g and %.17g, expected %.17g", i, y, z, x[i])) break;
    }
    // another seed gives another sequence
    long s2 = RandomSeed(m);
    if ((s2 % kMod - seed % kMod) % kMod != 0) {
      Shuf f(s2);
      int same = 0;
      for (int i = 0; i < 50; i++) same += (double)f == x[i];
      m.check(same < 5, "different_seeds", "seeds %ld and %ld: %d of 50 draws equal", seed, s2, same);
    }
    m.ev("sequences");
    std::set<double> u(x.begin(), x.end());
    m.check((int)u.size() >= n - 2, "repeats", "%zu different values in %d draws", u.size(), n);
    if (used.insert(((seed % kMod) + kMod) % kMod).second == false) continue;
    for (double v : x) bins[std::min(63, (int)(v * 64))]++, sx += v, sxx += (L)v * v, nx++;
    for (int l = 1; l < 6; l++)
      for (int i = l; i < n; i++) lag[l] += ((L)x[i] - 0.5L) * ((L)x[i - l] - 0.5L);
  }
  m.begin("%ld draws of all seeds together", nx);
  double chi = 0, ex = (double)nx / 64;
  for (double b : bins) chi += (b - ex) * (b - ex) / ex;
  m.check(chi < 63 + 9 * sqrt(2 * 63.0), "uniform", "chi square %.1f with 63 degrees of freedom", chi);
  m.check(fabsl(sx / nx - 0.5L) < 7 * sqrtl(1.0L / 12 / nx), "mean", "mean %.9Lg", sx / nx);
  m.check(fabsl(sxx / nx - 1.0L / 3) < 7 * sqrtl(4.0L / 45 / nx), "second_moment", "second moment %.9Lg", sxx / nx);
  for (int l = 1; l < 6; l++) m.check(fabsl(lag[l] / nx) < 7 * (1.0L / 12) / sqrtl((L)nx), "correlation", "lag %d: %.9Lg", l, lag[l] / nx * 12);
  m.require("sequences", 1000);
}

static long InverseMod(long a, long p) {
  __int128 r = 1, b = a, e = p - 2;
  for (; e; e >>= 1, b = b * b % p)
    if (e & 1) r = r * b % p;
  return (long)r;
}
// The bare recurrence always lets a small value follow a very small one; the shuffling exists to break that link
GROUP(after_small_values) {
  const long inv = InverseMod(MinimalStandardLcg::kA, kMod);
  long found = 0, small_next = 0;
  for (long c = 0; c < m.n(1500, 20000); c++) {
    long s = m.rng.i(1, 1000);
    int back = (int)m.rng.i(60, 200);
    for (int i = 0; i < back; i++) s = (long)((__int128)s * inv % kMod);
    m.begin("seed %ld", s);
    m.distinct((uint64_t)s);
    Shuf g(s);
    double prev = 1;
    for (int i = 0; i < 400; i++) {
      double x = g;
      if (prev < 1e-6) {
        found++;
        small_next += x < 0.01;
      }
      prev = x;
    }
  }
  m.ev("small_values", found);
  // one place of 32 of the table can hold the successor, besides the one percent by chance
  m.begin("%ld values below 1e-6", found);
  m.check(small_next < 0.1 * found + 20, "small_follows_small", "%ld of the following values are below 0.01", small_next);
  m.require("small_values", 200);
}

static double Phi(double z) { return 0.5 * erfc(-z / std::sqrt(2.0)); }

GROUP(normal_generator) {
  std::vector<double> all;
  std::set<long> used;
  L lag[6] = {0};
  for (long c = 0; c < m.n(1500, 20000); c++) {
    long seed = RandomSeed(m);
    double mu = m.rng.b(0.3) ? 0 : m.rng.u(-1, 1) * m.rng.logu(1e-3, 1e5), sd = m.rng.b(0.1) ? 0 : m.rng.logu(1e-6, 1e4);
    m.begin("seed %ld, mean %.9g, deviation %.9g", seed, mu, sd);
    m.distinctv({(double)seed, mu, sd});
    rd::NormalRand a(mu, sd, seed), z(0.0, 1.0, seed);
    m.check(a.GetAverage() == mu && a.GetStandardDeviation() == sd, "parameters", "average %.9g, deviation %.9g", a.GetAverage(), a.GetStandardDeviation());
    int n = (int)m.rng.i(50, 300);
    std::vector<double> x;
    for (int i = 0; i < n; i++) {
      double s = z, v = a;
      x.push_back(s);
      m.check(fabs(v - (mu + sd * s)) <= 1e-12 * (fabs(mu) + sd * fabs(s)), "scaling", "draw %d: %.17g, expected %.17g", i, v, mu + sd * s);
      m.check(std::isfinite(s) && fabs(s) < 7, "range", "draw %d: %.9g standard deviations", i, s);
    }
    const bool fresh = used.insert(((seed % kMod) + kMod) % kMod).second;
    for (int l = 1; l < 6 && fresh; l++)
      for (int i = l; i < n; i++) lag[l] += (L)x[i] * x[i - l];
    if (fresh) all.insert(all.end(), x.begin(), x.end());
    // reseeding after any number of draws restarts the sequence
    rd::NormalRand b(m.rng.n(), m.rng.logu(0.1, 10), RandomSeed(m));
    int k = (int)m.rng.i(0, 9);
    for (int i = 0; i < k; i++) (void)(double)b;
    b.SetParameters(mu, sd, seed);
    for (int i = 0; i < n; i++) {
      double v = b, w = mu + sd * x[i];
      if (!m.check(fabs(v - w) <= 1e-12 * (fabs(mu) + sd * fabs(x[i])), "restart", "draw %d: %.17g after restarting (%d draws before), %.17g at first", i, v, k, w)) break;
    }
    // parameters changed on the way change nothing but the scale of the values
    rd::NormalRand d(mu, sd, seed);
    double mu2 = mu, sd2 = sd;
    for (int i = 0; i < n; i++) {
      if (m.rng.b(0.2)) {
        int how = (int)m.rng.i(0, 2);
        if (how != 1) mu2 = m.rng.n();
        if (how != 0) sd2 = m.rng.logu(0.1, 10);
        if (how == 0) d.SetAverage(mu2);
        if (how == 1) d.SetStandardDeviation(sd2);
        if (how == 2) d.SetParameters(mu2, sd2);
      }
      double v = d, w = mu2 + sd2 * x[i];
      if (!m.check(fabs(v - w) <= 1e-12 * (fabs(mu2) + sd2 * fabs(x[i])), "changed_parameters", "draw %d: %.17g, expected %.17g with mean %.9g and deviation %.9g", i, v, w, mu2, sd2)) break;
    }
    long s2 = RandomSeed(m);
    if ((s2 % kMod - seed % kMod) % kMod != 0) {
      rd::NormalRand f(0.0, 1.0, s2);
      int same = 0;
      for (int i = 0; i < 50; i++) same += (double)f == x[i];
      m.check(same < 5, "different_seeds", "seeds %ld and %ld: %d of 50 draws equal", seed, s2, same);
    }
    m.ev("sequences");
  }
  const long n = (long)all.size();
  m.begin("%ld standardised values of all seeds together", n);
  L s1 = 0, s2 = 0, s3 = 0, s4 = 0;
  for (double v : all) s1 += v, s2 += (L)v * v, s3 += (L)v * v * v, s4 += (L)v * v * v * v;
  m.check(fabsl(s1 / n) < 7 / sqrtl((L)n), "mean", "mean %.9Lg", s1 / n);
  m.check(fabsl(s2 / n - 1) < 7 * sqrtl(2.0L / n), "variance", "variance %.9Lg", s2 / n);
  m.check(fabsl(s3 / n) < 7 * sqrtl(15.0L / n), "skewness", "third moment %.9Lg", s3 / n);
  m.check(fabsl(s4 / n - 3) < 7 * sqrtl(96.0L / n), "kurtosis", "fourth moment %.9Lg", s4 / n);
  for (int l = 1; l < 6; l++) m.check(fabsl(lag[l] / n) < 7 / sqrtl((L)n), "correlation", "lag %d: %.9Lg", l, lag[l] / n);
  std::sort(all.begin(), all.end());
  double ks = 0;
  for (long i = 0; i < n; i++) ks = std::max(ks, std::max(fabs(Phi(all[i]) - (double)i / n), fabs(Phi(all[i]) - (double)(i + 1) / n)));
  m.check(ks * sqrt((double)n) < 3.5, "distribution", "Kolmogorov distance %.6g over %ld values", ks, n);
  m.ev("values", n);
  // the deviation also within single long sequences
  for (int c = 0; c < 20; c++) {
    long seed = RandomSeed(m);
    m.begin("single sequence, seed %ld", seed);
    rd::NormalRand g(0, 1, seed);
    L a = 0, b = 0;
    const int N = 20000;
    for (int i = 0; i < N; i++) {
      double v = g;
      a += v, b += (L)v * v;
    }
    m.check(fabsl(a / N) < 7 / sqrtl((L)N), "mean", "mean %.9Lg", a / N);
    m.check(fabsl(b / N - 1) < 7 * sqrtl(2.0L / N), "variance", "variance %.9Lg", b / N);
  }
  m.require("sequences", 1000);
}

GROUP(global_seeds) {
  long sharing = 0;  // by chance two sequences overlap once in millions of pairs
  for (long c = 0; c < m.n(300, 5000); c++) {
    long seed = RandomSeed(m);
    m.begin("global seed %ld", seed);
    m.distinct((uint64_t)seed);
    rd::GlobalRandomization g;
    for (int i = 0; i < (int)m.rng.i(0, 10); i++) g.MakeSeed();
    g.SetSeed(seed);
    std::vector<long> x;
    for (int i = 0; i < 200; i++) x.push_back(g.MakeSeed());
    rd::GlobalRandomization h;
    h.SetSeed(seed);
    for (int i = 0; i < 200; i++) {
      long y = h.MakeSeed();
      if (!m.check(y == x[i], "restart", "seed %d: %ld after restarting, %ld at first", i, y, x[i])) break;
      m.check(y % kMod != 0, "usable", "seed %d: %ld", i, y);
    }
    std::set<long> u(x.begin(), x.end());
    m.check(u.size() >= 199, "distinct_seeds", "%zu different seeds of 200", u.size());
    // streams started from consecutive seeds are unrelated
    L cc = 0;
    const int N = 200;
    for (int i = 0; i + 1 < 20; i++) {
      rd::NormalRand a(0, 1, x[i]), b(0, 1, x[i + 1]);
      for (int k = 0; k < N; k++) cc += (L)(double)a * (double)b;
    }
    // nor do they share their values
    for (int i = 0; i + 2 < 20; i++) {
      std::set<double> v;
      Shuf a(x[i]);
      for (int k = 0; k < 300; k++) v.insert(a);
      for (int d = 1; d < 3; d++) {
        Shuf b(x[i + d]);
        int shared = 0;
        for (int k = 0; k < 300; k++) shared += (int)v.count(b);
        sharing += shared > 10;
      }
    }
    m.check(fabsl(cc) < 7 * sqrtl(19.0L * N), "independent_streams", "sum of products %.9Lg", cc);
    m.ev("seeds_made", 400);
  }
  m.check(sharing <= 3 + m.n(0, 3), "shared_values", "%ld pairs of sequences from neighbouring seeds share values", sharing);
  m.require("seeds_made", 10000);
}

GROUP(random_walk) {
  for (long c = 0; c < m.n(400, 6000); c++) {
    double step = m.rng.logu(1e-3, 10);
    V3 x0{m.rng.n() * 0.1, m.rng.n() * 0.1, m.rng.n() * 0.1};
    bool free_walk = m.rng.b(0.4);
    s2e::math::Vector<3> sd, lim, ini;
    double fac[3];
    for (int i = 0; i < 3; i++) {
      sd[i] = m.rng.b(0.1) ? 0 : m.rng.logu(1e-3, 10);
      fac[i] = sd[i] * step;
      lim[i] = free_walk ? 1e30 : (fac[i] > 0 ? m.rng.u(0, 40) * fac[i] : m.rng.logu(0.1, 1));
      double z = m.rng.b(0.3) ? 0 : m.rng.u(-1, 1);
      ini[i] = free_walk ? z : z * lim[i];
    }
    long seed = RandomSeed(m);
    m.begin("step %.6g s, deviations %s, limits %s, from %s, global seed %ld", step, S(ref::v(sd)).c_str(), S(ref::v(lim)).c_str(), S(ref::v(ini)).c_str(), seed);
    m.distinctv({step, sd[0], lim[1], ini[2]});
    rd::global_randomization.SetSeed(seed);
    rd::RandomWalk<3> w(step, sd, lim);
    rd::global_randomization.SetSeed(seed);
    rd::RandomWalk<3> v(step, sd, lim);
    bool set = !m.rng.b(0.2);
    if (!set) ini[0] = ini[1] = ini[2] = 0;
    if (set) w.Setup(0.0, ini), v.Setup(0.0, ini);
    for (int i = 0; i < 3; i++) m.check(w[i] == ini[i], "initial", "axis %d starts at %.9g", i, w[i]);
    const int N = 400;
    int outside[3] = {0};
    for (int k = 0; k < N; k++) {
      const s2e::math::Vector<3> before = static_cast<const s2e::randomization::RandomWalk<3>&>(w).GetState();
      ++w;
      v.Update();
      for (int i = 0; i < 3; i++) {
        m.check(w[i] == v[i], "restart", "step %d axis %d: %.17g and %.17g with the same seed", k, i, w[i], v[i]);
        m.check(std::isfinite(w[i]) && fabs(w[i] - before[i]) <= 7 * fac[i] + 1e-12 * fabs(w[i]), "increment", "step %d axis %d: from %.9g to %.9g", k, i, before[i], w[i]);
        m.check(fabs(w[i]) <= lim[i] + 7 * fac[i] + 1e-12 * lim[i], "limit", "step %d axis %d: %.9g", k, i, w[i]);
        // outside the limit it only comes back
        if (fabs(before[i]) > lim[i] + 1.0001 * 7 * fac[i] * 0 + 4 * fac[i])
          m.check(fabs(w[i]) <= fabs(before[i]) + 1e-12, "comes_back", "step %d axis %d: from %.9g to %.9g", k, i, before[i], w[i]);
        if (fabs(w[i]) > lim[i]) outside[i]++;
      }
    }
    m.check(fabs(w.GetIndependentVariable() - N * step) < 1e-9 * N * step, "time", "independent variable %.9g", w.GetIndependentVariable());
    for (int i = 0; i < 3; i++) {
      double d = fabs(w[i] - ini[i]);
      if (free_walk) m.check(d <= 7 * fac[i] * sqrt((double)N), "spread", "axis %d wandered %.9g in %d steps", i, d, N);
      if (fac[i] == 0) m.check(w[i] == ini[i], "no_noise", "axis %d moved to %.9g", i, w[i]);
      m.check(outside[i] < N / 2 || lim[i] < 3 * fac[i], "mostly_inside", "axis %d was outside of its limit in %d of %d steps", i, outside[i], N);
    }
    if (sd[0] > 0 && sd[1] > 0 && free_walk) m.check(fabs((w[0] - ini[0]) / fac[0] - (w[1] - ini[1]) / fac[1]) > 1e-9, "axes_differ", "axes 0 and 1 take the same path");
    m.ev(free_walk ? "free_walks" : "limited_walks");
  }
  // the spread grows with the square root of the number of steps
  L s100 = 0, s400 = 0, mean = 0;
  const int W = (int)m.n(2000, 20000);
  m.begin("%d walks with unit deviation and step", W);
  for (int c = 0; c < W; c++) {
    rd::RandomWalk<1> w(1.0, s2e::math::Vector<1>(1.0), s2e::math::Vector<1>(1e30));
    s2e::math::Vector<1> z(0.0);
    w.Setup(0, z);
    for (int k = 0; k < 400; k++) {
      ++w;
      if (k == 99) s100 += (L)w[0] * w[0];
    }
    s400 += (L)w[0] * w[0];
    mean += w[0];
  }
  L v1 = s100 / W / 100, v4 = s400 / W / 400;
  m.check(v4 > 0.1L && v4 < 1.2L, "variance_rate", "variance per step %.6Lg for unit deviation", v4);
  m.check(fabsl(v1 / v4 - 1) < 7 * sqrtl(4.0L / W), "variance_linear", "variance per step %.6Lg after 100 steps, %.6Lg after 400", v1, v4);
  m.check(fabsl(mean / W) < 7 * sqrtl(400 * v4 / W), "no_drift", "mean %.6Lg after 400 steps", mean / W);
  m.require("free_walks", 50);
  m.require("limited_walks", 50);
}
