// C27: Monte-Carlo execution
#include "mon.hpp"
#include "ref.hpp"
#include "s2e.hpp"
#include "world.hpp"
//
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <math_physics/randomization/global_randomization.hpp>
#include <set>
#include <simulation/case/simulation_case.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>

using s2e::simulation::InitializedMonteCarloParameters;
using s2e::simulation::MonteCarloSimulationExecutor;
using s2e::simulation::SimulationObject;
using P = InitializedMonteCarloParameters;
using Vd = std::vector<double>;
static const double kPi = 3.14159265358979323846;

// Kolmogorov-Smirnov: sqrt(n) D. Under the right distribution it exceeds 3.7 with a probability below 3e-12.
static double Ks(Vd x, const std::function<double(double)>& cdf) {
  std::sort(x.begin(), x.end());
  double d = 0;
  const double n = (double)x.size();
  for (size_t i = 0; i < x.size(); i++) {
    const double f = cdf(x[i]);
    d = std::max({d, f - (double)i / n, (double)(i + 1) / n - f});
  }
  return d * std::sqrt(n);
}
static double Corr(const Vd& a, const Vd& b) {
  double ma = 0, mb = 0, saa = 0, sbb = 0, sab = 0;
  const double n = (double)a.size();
  for (size_t i = 0; i < a.size(); i++) ma += a[i] / n, mb += b[i] / n;
  for (size_t i = 0; i < a.size(); i++) saa += (a[i] - ma) * (a[i] - ma), sbb += (b[i] - mb) * (b[i] - mb), sab += (a[i] - ma) * (b[i] - mb);
  return saa > 0 && sbb > 0 ? sab / std::sqrt(saa * sbb) * std::sqrt(n) : 0;
}
static Vd Lag(const Vd& a, size_t k) { return Vd(a.begin() + (long)k, a.end()); }
static std::function<double(double)> Normal(double mean, double sigma) {
  return [=](double x) { return 0.5 * std::erfc(-(x - mean) / sigma / std::sqrt(2.0)); };
}
static std::function<double(double)> Folded(double sigma) {
  return [=](double x) { return std::erf(x / sigma / std::sqrt(2.0)); };
}
static std::function<double(double)> Uniform(double a, double b) {
  return [=](double x) { return b > a ? std::clamp((x - a) / (b - a), 0.0, 1.0) : (x >= a ? 1.0 : 0.0); };
}
static double From(double angle, double start) {  // the angle in [start, start + 2 pi)
  double d = std::fmod(angle - start, 2 * kPi);
  if (d < 0) d += 2 * kPi;
  return start + d;
}
struct Dist {
  mon::Mon& m;
  std::string what;
  void Is(const Vd& x, const std::function<double(double)>& cdf, const char* key, const std::string& name) {
    bool finite = true;
    for (double v : x) finite &= std::isfinite(v);
    if (!m.check(finite, "mc/finite", "%s: %s is not finite", what.c_str(), name.c_str())) return;
    const double k = Ks(x, cdf);
    m.check(k < 3.7, key, "%s: %s does not follow its distribution (sqrt(n) D = %.3g)", what.c_str(), name.c_str(), k);
    m.ev("distributions");
  }
  void Independent(const Vd& a, const Vd& b, const std::string& name) {
    const double c = Corr(a, b);
    m.check(std::fabs(c) < 7, "mc/independent", "%s: %s are correlated (%.3g sigma)", what.c_str(), name.c_str(), c);
  }
};

template <size_t A, size_t B>
static P Make(const Vd& a, const Vd& b, P::RandomizationType t) {
  s2e::math::Vector<A> x;
  s2e::math::Vector<B> y;
  for (size_t i = 0; i < A; i++) x[i] = a[i];
  for (size_t i = 0; i < B; i++) y[i] = b[i];
  P p;
  p.SetRandomConfiguration(x, y, t);
  return p;
}
template <size_t N>
static std::array<Vd, N> Draws(P& p, int n) {
  std::array<Vd, N> out;
  for (int i = 0; i < n; i++) {
    s2e::math::Vector<N> v(0.0);
    p.Randomize();
    p.GetRandomizedVector(v);
    for (size_t k = 0; k < N; k++) out[k].push_back(v[k]);
  }
  return out;
}

GROUP(cartesian) {
  auto& r = m.rng;
  const int n = m.thorough ? 40000 : 8000;
  for (long t = 0; t < m.n(25, 200); t++) {
    P::SetSeed((unsigned long)r.i(0, 1L << 31), true);
    Vd lo, hi, mean, sigma;
    for (int k = 0; k < 3; k++) {
      const double s = r.logu(1e-6, 1e6), c = r.b(0.3) ? 0 : s * r.u(-10, 10);
      lo.push_back(c - s * r.u(0, 1));
      hi.push_back(c + s * r.u(0.01, 1));
      mean.push_back(c);
      sigma.push_back(s * r.u(0.001, 1));
    }
    m.begin("uniform between (%.17g %.17g %.17g) and (%.17g %.17g %.17g)", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
    Dist d{m, "uniform"};
    auto p = Make<3, 3>(lo, hi, P::kCartesianUniform);
    auto x = Draws<3>(p, n);
    for (size_t k = 0; k < 3; k++) {
      for (double v : x[k]) m.check(v >= lo[k] && v <= hi[k], "mc/bounds", "%.17g outside [%.17g, %.17g]", v, lo[k], hi[k]);
      d.Is(x[k], Uniform(lo[k], hi[k]), "mc/uniform", mon::F("element %zu", k));
      d.Independent(x[k], x[(k + 1) % 3], "elements");
      d.Independent(Lag(x[k], 1), Vd(x[k].begin(), x[k].end() - 1), "successive draws");
    }
    m.begin("normal of mean (%.17g %.17g %.17g) and deviation (%.17g %.17g %.17g)", mean[0], mean[1], mean[2], sigma[0], sigma[1], sigma[2]);
    d.what = "normal";
    p = Make<3, 3>(mean, sigma, P::kCartesianNormal);
    x = Draws<3>(p, n);
    for (size_t k = 0; k < 3; k++) {
      d.Is(x[k], Normal(mean[k], sigma[k]), "mc/normal", mon::F("element %zu", k));
      d.Independent(x[k], x[(k + 1) % 3], "elements");
      d.Independent(Lag(x[k], 1), Vd(x[k].begin(), x[k].end() - 1), "successive draws");
    }
    // a number takes the first element only
    auto q = Make<1, 1>({lo[0]}, {hi[0]}, P::kCartesianUniform);
    Vd y;
    for (int i = 0; i < n; i++) {
      double v = -1;
      q.Randomize();
      q.GetRandomizedScalar(v);
      y.push_back(v);
    }
    d.what = "number";
    d.Is(y, Uniform(lo[0], hi[0]), "mc/uniform", "value");
    // one object configured again and again: only the last configuration counts
    std::vector<int> kinds{0, 1, 2, 3, 4};
    for (size_t i = 4; i > 0; i--) std::swap(kinds[i], kinds[(size_t)r.i(0, (long)i)]);
    P again;
    const int few = n / 8;
    for (int kind : kinds) {
      m.begin("configured again (%d) with %.17g %.17g", kind, lo[0], hi[0]);
      d.what = mon::F("configured again (%d)", kind);
      s2e::math::Vector<3> l3, h3, m3, s3;
      for (size_t k = 0; k < 3; k++) l3[k] = lo[k], h3[k] = hi[k], m3[k] = mean[k], s3[k] = sigma[k];
      if (kind == 0) {
        again.SetRandomConfiguration(l3, h3, P::kCartesianUniform);
        auto z = Draws<3>(again, few);
        for (size_t k = 0; k < 3; k++) d.Is(z[k], Uniform(lo[k], hi[k]), "mc/again", mon::F("element %zu", k));
      } else if (kind == 1) {
        again.SetRandomConfiguration(m3, s3, P::kCartesianNormal);
        auto z = Draws<3>(again, few);
        for (size_t k = 0; k < 3; k++) d.Is(z[k], Normal(mean[k], sigma[k]), "mc/again", mon::F("element %zu", k));
      } else if (kind == 2) {
        s2e::math::Vector<1> l1(lo[1]), h1(hi[1]);
        again.SetRandomConfiguration(l1, h1, P::kCartesianUniform);
        Vd z;
        for (int i = 0; i < few; i++) {
          double v = 0;
          again.Randomize();
          again.GetRandomizedScalar(v);
          z.push_back(v);
        }
        d.Is(z, Uniform(lo[1], hi[1]), "mc/again", "number");
      } else if (kind == 3) {  // the deviation of the angle from the default attitude
        s2e::math::Vector<4> q0(0.0);
        q0[3] = 1;
        s2e::math::Vector<1> s1(0.1);
        again.SetRandomConfiguration(q0, s1, P::kQuaternionNormal);
        Vd z;
        for (int i = 0; i < few; i++) {
          s2e::math::Quaternion q(0, 0, 0, 1);
          again.Randomize();
          again.GetRandomizedQuaternion(q);
          z.push_back(2 * std::atan2(std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), std::fabs(q[3])));
        }
        d.Is(z, Folded(0.1), "mc/again", "angle");
      } else {
        // no randomization: what was there stays
        again.SetRandomConfiguration(l3, h3, P::kNoRandomization);
        s2e::math::Vector<3> keep;
        for (size_t k = 0; k < 3; k++) keep[k] = 17.5 + (double)k;
        double number = -3.25;
        again.Randomize();
        again.GetRandomizedVector(keep), again.GetRandomizedScalar(number);
        for (size_t k = 0; k < 3; k++) m.check(keep[k] == 17.5 + (double)k, "mc/kept", "without randomization element %zu became %.17g", k, (double)keep[k]);
        m.check(number == -3.25, "mc/kept", "without randomization the number became %.17g", number);
      }
      m.ev("configured again");
    }
    m.distinctv({lo[0], hi[0], mean[1]});
  }
  m.require("configured again", 100);
}

GROUP(polar) {
  auto& r = m.rng;
  const int n = m.thorough ? 40000 : 8000;
  for (long t = 0; t < m.n(25, 200); t++) {
    P::SetSeed((unsigned long)r.i(0, 1L << 31), true);
    const double rm = r.logu(1e-4, 1e4), rs = rm * r.logu(1e-3, 0.1);
    double a = r.u(-kPi, kPi), b = a + r.u(0.05, 2 * kPi);
    if (r.b(0.2)) a = 0, b = 2 * kPi;
    m.begin("radius %.17g +- %.17g, angle between %.17g and %.17g", rm, rs, a, b);
    Dist d{m, "circular"};
    auto p = Make<2, 2>({rm, a}, {rs, b}, P::kCircularNormalUniform);
    auto x = Draws<2>(p, n);
    Vd rad, ang;
    auto polar = [&](double start) {
      rad.clear();
      ang.clear();
      for (int i = 0; i < n; i++) rad.push_back(std::hypot(x[0][i], x[1][i])), ang.push_back(From(std::atan2(x[1][i], x[0][i]), start));
    };
    polar(a - 1e-9);
    d.Is(rad, Normal(rm, rs), "mc/circular", "radius");
    d.Is(ang, Uniform(a, b), "mc/circular", "angle");
    d.Independent(rad, ang, "radius and angle");
    const double c = r.u(-kPi, kPi), s = r.u(0.01, 0.5);
    m.begin("radius %.17g +- %.17g, angle %.17g +- %.17g", rm, rs, c, s);
    p = Make<2, 2>({rm, c}, {rs, s}, P::kCircularNormalNormal);
    x = Draws<2>(p, n);
    polar(c - kPi);
    d.Is(rad, Normal(rm, rs), "mc/circular", "radius");
    d.Is(ang, Normal(c, s), "mc/circular", "angle");
    d.Independent(rad, ang, "radius and angle");
    // a sphere
    double t0 = r.u(0, kPi), t1 = r.u(0, kPi);
    if (t0 > t1) std::swap(t0, t1);
    t1 = std::min(kPi, t1 + 0.02);
    if (r.b(0.3)) t0 = 0;
    if (r.b(0.3)) t1 = kPi;
    m.begin("radius %.17g +- %.17g, theta %.17g..%.17g, phi %.17g..%.17g", rm, rs, t0, t1, a, b);
    d.what = "spherical uniform";
    p = Make<3, 3>({rm, t0, a}, {rs, t1, b}, P::kSphericalNormalUniformUniform);
    auto y = Draws<3>(p, n);
    Vd cs;
    rad.clear();
    ang.clear();
    for (int i = 0; i < n; i++) {
      const double R = std::sqrt(y[0][i] * y[0][i] + y[1][i] * y[1][i] + y[2][i] * y[2][i]);
      rad.push_back(R);
      cs.push_back(y[2][i] / R);
      ang.push_back(From(std::atan2(y[1][i], y[0][i]), a - 1e-6));
    }
    d.Is(rad, Normal(rm, rs), "mc/spherical", "radius");
    d.Is(cs, Uniform(std::cos(t1), std::cos(t0)), "mc/spherical", "cosine of the polar angle");
    d.Is(ang, Uniform(a, b), "mc/spherical", "azimuth");
    d.Independent(rad, cs, "radius and polar angle");
    d.Independent(cs, ang, "polar angle and azimuth");
    d.Independent(rad, ang, "radius and azimuth");
    // around a mean vector
    ref::V3 mv{r.n(), r.n(), r.n()};
    const int axis = (int)r.i(0, 6);
    if (axis < 3) mv = {axis == 0 ? 1.0L : 0, axis == 1 ? 1.0L : 0, axis == 2 ? 1.0L : 0};
    if (r.b()) mv = -mv;
    mv = (ref::L)rm * ref::unit(mv);
    m.begin("mean vector (%.17Lg %.17Lg %.17Lg), norm +- %.17g, angle +- %.17g", mv.x, mv.y, mv.z, rs, s);
    d.what = "spherical normal";
    p = Make<3, 2>({(double)mv.x, (double)mv.y, (double)mv.z}, {rs, s}, P::kSphericalNormalNormal);
    y = Draws<3>(p, n);
    rad.clear();
    ang.clear();
    Vd azimuth;
    const ref::V3 e = ref::unit(mv), u = ref::unit(ref::cross_(e, std::fabs((double)e.x) < 0.7 ? ref::V3{1, 0, 0} : ref::V3{0, 1, 0})), w = ref::cross_(e, u);
    for (int i = 0; i < n; i++) {
      const ref::V3 v{y[0][i], y[1][i], y[2][i]};
      rad.push_back((double)ref::norm(v));
      ang.push_back((double)ref::angle(v, e));
      azimuth.push_back(From((double)atan2l(ref::dot_(v, w), ref::dot_(v, u)), 0));
    }
    d.Is(rad, Normal((double)ref::norm(mv), rs), "mc/spherical", "norm");
    d.Is(ang, Folded(s), "mc/spherical", "angle from the mean vector");
    d.Is(azimuth, Uniform(0, 2 * kPi), "mc/spherical", "azimuth around the mean vector");
    d.Independent(rad, ang, "norm and angle");
    m.distinctv({rm, a, t0, (double)mv.x});
  }
}

GROUP(attitude) {
  auto& r = m.rng;
  const int n = m.thorough ? 40000 : 8000;
  for (long t = 0; t < m.n(25, 200); t++) {
    P::SetSeed((unsigned long)r.i(0, 1L << 31), true);
    for (int mode = 0; mode < 2; mode++) {
      const double s = r.logu(1e-4, 0.6);
      m.begin("%s attitude, deviation %.17g", mode ? "normal" : "uniform", s);
      Dist d{m, mode ? "attitude (normal)" : "attitude (uniform)"};
      auto p = Make<3, 3>({r.n(), r.n(), r.n()}, {mode ? s : r.n(), r.n(), r.n()}, mode ? P::kQuaternionNormal : P::kQuaternionUniform);
      Vd angle, az;
      std::array<Vd, 3> axis, image;
      // the image of a fixed direction by the rotation, seen along another fixed direction
      const ref::V3 u = ref::unit(ref::V3{r.n(), r.n(), r.n()}), w = ref::unit(ref::V3{r.n(), r.n(), r.n()});
      for (int i = 0; i < n; i++) {
        s2e::math::Quaternion q;
        p.Randomize();
        p.GetRandomizedQuaternion(q);
        const ref::V3 v{q[0], q[1], q[2]};
        const ref::L s4 = q[3], len = sqrtl(ref::dot_(v, v) + s4 * s4);
        if (i < 50) m.check(std::fabs((double)len - 1) < 1e-12, "mc/unit", "norm of the quaternion is %.17Lg", len);
        const ref::L sv = ref::norm(v);
        angle.push_back((double)(2 * atan2l(sv, fabsl(s4))));
        const ref::V3 e = (s4 < 0 ? -1 : 1) / sv * v;
        axis[0].push_back((double)e.x);
        axis[1].push_back((double)e.y);
        axis[2].push_back((double)e.z);
        // v_i = q v q*
        const ref::V3 tt = 2 * ref::cross_(v, u), im = u + s4 * tt + ref::cross_(v, tt);
        image[0].push_back((double)im.x);
        image[1].push_back((double)im.y);
        image[2].push_back((double)im.z);
        az.push_back((double)ref::dot_(im, w));
      }
      for (size_t k = 0; k < 3; k++) d.Is(axis[k], Uniform(-1, 1), "mc/attitude", mon::F("axis %zu", k));
      for (size_t k = 0; k < 3; k++) d.Independent(axis[k], axis[(k + 1) % 3], "axis elements");
      if (mode) {
        d.Is(angle, Folded(s), "mc/attitude", "angle");
      } else {
        d.Is(angle, [](double x) { return (x - std::sin(x)) / kPi; }, "mc/attitude", "angle");
        for (size_t k = 0; k < 3; k++) d.Is(image[k], Uniform(-1, 1), "mc/attitude", mon::F("rotated direction %zu", k));
        d.Is(az, Uniform(-1, 1), "mc/attitude", "rotated direction");
      }
      d.Independent(Lag(angle, 1), Vd(angle.begin(), angle.end() - 1), "successive angles");
      m.distinctv({s, angle[0]});
    }
  }
}

// ---------- the executor ----------
struct Par {
  std::string so, ip;
  int type;  // 0..8
  Vd a, b;
};
static const char* kTypes[] = {"NoRandomization",       "CartesianUniform",
                               "CartesianNormal",       "CircularNormalUniform",
                               "CircularNormalNormal",  "SphericalNormalUniformUniform",
                               "SphericalNormalNormal", "QuaternionUniform",
                               "QuaternionNormal"};
static std::string Word(mon::Rng& r) {
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
  std::string s;
  for (int i = (int)r.i(1, 14); i > 0; i--) s += al[r.i(0, (long)sizeof(al) - 2)];
  return s;
}
static Par RandomPar(mon::Rng& r) {
  Par p;
  p.so = Word(r);
  p.ip = Word(r);
  p.type = (int)r.i(0, 8);
  for (int k = 0; k < 3; k++) {
    const double x = r.b(0.2) ? 0 : r.n() * r.logu(1e-3, 1e3);
    p.a.push_back(x);
    p.b.push_back(p.type == 1 ? x + r.logu(1e-3, 1e3) : r.logu(1e-3, 1));
  }
  if (p.type == 6 && p.a[0] == 0 && p.a[1] == 0 && p.a[2] == 0) p.a[0] = 1;
  return p;
}
static std::vector<Par> RandomList(mon::Rng& r) {
  std::vector<Par> l;
  std::set<std::string> names;
  for (int i = (int)r.i(0, 9); i > 0; i--) {
    Par p = RandomPar(r);
    if (!l.empty() && r.b(0.4)) p.so = r.pick(l).so;
    if (!l.empty() && r.b(0.3)) p.ip = r.pick(l).ip;
    std::string low;
    for (char c : p.so + "." + p.ip) low += (char)tolower(c);  // the settings files do not distinguish the cases of keys
    if (names.insert(low).second) l.push_back(p);
  }
  return l;
}
static void AddTo(MonteCarloSimulationExecutor& e, const Par& p) {
  s2e::math::Vector<3> a, b;
  for (size_t k = 0; k < 3; k++) a[k] = p.a[k], b[k] = p.b[k];
  e.AddInitializedMonteCarloParameter(p.so, p.ip, a, b, (P::RandomizationType)p.type);
}
static int Size(int type) { return type == 0 ? 99 : type == 3 || type == 4 ? 2 : type >= 7 ? 4 : 3; }
// the values a case gets, with a mark for what is not touched
static Vd Take(const MonteCarloSimulationExecutor& e, const std::vector<Par>& l) {
  Vd out;
  for (auto& p : l) {
    double x = -7e77;
    e.GetInitializedMonteCarloParameterDouble(p.so, p.ip, x);
    out.push_back(x);
    if (Size(p.type) >= 2) {
      s2e::math::Vector<2> v(-7e77);
      e.GetInitializedMonteCarloParameterVector(p.so, p.ip, v);
      out.insert(out.end(), {v[0], v[1]});
    }
    if (Size(p.type) >= 3) {
      s2e::math::Vector<3> v(-7e77);
      e.GetInitializedMonteCarloParameterVector(p.so, p.ip, v);
      out.insert(out.end(), {v[0], v[1], v[2]});
    }
    if (Size(p.type) >= 4) {
      s2e::math::Quaternion q(0.5, -0.5, 0.5, 0.5);
      e.GetInitializedMonteCarloParameterQuaternion(p.so, p.ip, q);
      out.insert(out.end(), {q[0], q[1], q[2], q[3]});
    }
  }
  return out;
}

GROUP(first) {
  // the very first parameters of a process follow the seed that was given before they exist
  auto& r = m.rng;
  const unsigned long seed = (unsigned long)r.i(0, 1L << 31);
  MonteCarloSimulationExecutor::SetSeed(seed, true);
  std::vector<Par> l;
  while (l.size() < 4) l = RandomList(r);
  l[0].type = 1;
  l[1].type = 2;
  m.begin("first sequence of a process");
  std::vector<Vd> first;
  for (int round = 0; round < 3; round++) {
    if (round) MonteCarloSimulationExecutor::SetSeed(seed, true);
    MonteCarloSimulationExecutor e(10);
    for (auto& p : l) AddTo(e, p);
    std::vector<Vd> all;
    for (int i = 0; i < 5; i++) {
      e.RandomizeAllParameters();
      all.push_back(Take(e, l));
    }
    if (!round)
      first = all;
    else
      m.check(all == first, "mc/seed", "the same seed gave another sequence in round %d", round);
    m.ev("sequences");
  }
  m.distinctv({(double)seed});
}

GROUP(executor) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(400, 10000); t++) {
    const auto l = RandomList(r);
    const int runs = (int)(r.b(0.3) ? r.i(0, 2) : r.i(3, 40));
    const unsigned long seed = (unsigned long)r.i(0, 1L << 31);
    m.begin("%zu parameters, %d runs", l.size(), runs);
    auto sequence = [&](bool disturb, bool reorder) {
      if (disturb) {  // whatever was drawn before
        P p = Make<1, 1>({0}, {1}, P::kCartesianNormal);
        for (int i = (int)r.i(1, 4); i > 0; i--) p.Randomize();
      }
      MonteCarloSimulationExecutor e((unsigned long long)runs);
      auto add = l;
      if (reorder) std::reverse(add.begin(), add.end());
      for (auto& p : add) AddTo(e, p);
      // a single run is not a Monte Carlo simulation unless it is asked for
      m.check(e.IsEnabled() == (runs > 1) && (runs > 1 || e.GetSaveLogHistoryFlag()), "mc/single", "an executor of %d runs is %s", runs, e.IsEnabled() ? "enabled" : "disabled");
      MonteCarloSimulationExecutor::SetSeed(seed, true);
      e.SetEnable(true);
      std::vector<Vd> all;
      while (e.WillExecuteNextCase()) {
        e.AtTheBeginningOfEachCase();
        e.RandomizeAllParameters();
        all.push_back(Take(e, l));
        m.check(Take(e, l) == all.back(), "mc/run", "the values change within a run");
        m.check(e.GetNumberOfExecutionsDone() + 1 == all.size(), "mc/count", "%llu runs are counted in the run number %zu", e.GetNumberOfExecutionsDone(), all.size());
        e.AtTheEndOfEachCase();
        if ((int)all.size() > runs + 5) break;
      }
      m.check((int)all.size() == runs, "mc/count", "%zu runs, %d were requested", all.size(), runs);
      m.ev("runs", (long)all.size());
      // parameters that are not listed
      for (auto& p : l) {
        for (auto& [so, ip] : std::vector<std::pair<std::string, std::string>>{{p.so + "x", p.ip}, {p.so, p.ip + "x"}, {p.ip, p.so + "y"}, {"", p.so + p.ip}}) {
          double x = 3.25;
          s2e::math::Vector<3> v(1.5);
          s2e::math::Quaternion q(0.5, -0.5, 0.5, 0.5);
          e.GetInitializedMonteCarloParameterDouble(so, ip, x);
          e.GetInitializedMonteCarloParameterVector(so, ip, v);
          e.GetInitializedMonteCarloParameterQuaternion(so, ip, q);
          const bool other = std::any_of(l.begin(), l.end(), [&](const Par& o) { return o.so == so && o.ip == ip; });
          if (!other) m.check(x == 3.25 && v[0] == 1.5 && v[1] == 1.5 && v[2] == 1.5 && q[0] == 0.5 && q[1] == -0.5 && q[2] == 0.5 && q[3] == 0.5, "mc/nominal", "%s.%s changed without being listed", so.c_str(), ip.c_str());
        }
      }
      // a disabled executor changes nothing, and runs one case
      if (!all.empty()) {
        e.SetEnable(false);
        for (double x : Take(e, l)) m.check(x == -7e77 || std::fabs(x) == 0.5, "mc/nominal", "a disabled executor gives %.17g", x);
      }
      return all;
    };
    const auto a = sequence(false, false), b = sequence(true, false), c = sequence(r.b(), true);
    m.check(a == b, "mc/seed", "the same seed gave another sequence");
    m.check(a == c, "mc/seed", "the sequence depends on the order of the list");
    // every run and every parameter has its own draw
    size_t at = 0;
    std::set<double> values;
    long drawn = 0;
    for (auto& p : l) {
      const bool random = p.type != 0;
      for (size_t i = 0; i < a.size(); i++) {
        if (random) {
          m.check(a[i][at] != -7e77, "mc/listed", "%s.%s is listed but not set", p.so.c_str(), p.ip.c_str());
          values.insert(a[i][at]);
          drawn++;
          const int s = Size(p.type);
          m.check(a[i][at] == a[i][at + 1] && a[i][at + 1] == a[i][at + (s >= 2 ? 1 : 0)], "mc/run", "the number and the vector of a parameter differ");
        } else {
          m.check(a[i][at] == -7e77, "mc/nominal", "%s.%s has no randomization but is set", p.so.c_str(), p.ip.c_str());
        }
      }
      const int s = Size(p.type);
      at += (size_t)(1 + (s >= 2 ? 2 : 0) + (s >= 3 ? 3 : 0) + (s >= 4 ? 4 : 0));
    }
    m.check((long)values.size() == drawn, "mc/own", "%ld draws, %zu different", drawn, values.size());
    // disabled from the start
    MonteCarloSimulationExecutor e((unsigned long long)runs);
    e.SetEnable(false);
    int done = 0;
    while (e.WillExecuteNextCase() && done < 5) {
      done++;
      e.AtTheEndOfEachCase();
    }
    m.check(done == 1 && e.GetSaveLogHistoryFlag(), "mc/count", "%d runs without Monte-Carlo execution", done);
    // a parameter listed twice is refused
    if (!l.empty()) {
      MonteCarloSimulationExecutor f(2);
      bool refused = false;
      AddTo(f, l[0]);
      try {
        AddTo(f, l[0]);
      } catch (...) {
        refused = true;
      }
      m.check(refused, "mc/twice", "a parameter can be listed twice");
    }
    m.distinctv({(double)l.size(), (double)runs, (double)seed});
  }
}

// ---------- settings files and objects ----------
static void WriteIni(mon::Rng& r, const std::string& f, const std::vector<Par>& l, bool enable, bool log, int runs) {
  std::ofstream o(f);
  o << "[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = " << (enable ? "ENABLE" : "DISABLE") << "\nlog_enable = " << (log ? "ENABLE" : "DISABLE") << "\nnumber_of_executions = " << runs
    << "\n\n[MONTE_CARLO_RANDOMIZATION]\n";
  for (size_t i = 0; i < l.size(); i++) {
    auto& p = l[i];
    const std::string n = p.so + "." + p.ip;
    o << "parameter(" << i << ") = " << n << "\n";
    if (p.type || r.b()) o << n << ".randomization_type = " << kTypes[p.type] << "\n";
    for (int k = 0; k < 3; k++) o << n << ".mean_or_min(" << k << ") = " << world::D(p.a[(size_t)k]) << "\n";
    for (int k = 0; k < 3; k++) o << n << ".sigma_or_max(" << k << ") = " << world::D(p.b[(size_t)k]) << "\n";
  }
}
struct Obj : SimulationObject {
  double d = 0;
  s2e::math::Vector<3> v;
  s2e::math::Quaternion q;
  std::string name, ip[3];
  int calls = 0;
  Obj(const std::string& n) : SimulationObject(n), v(1.25), q(0.5, 0.5, -0.5, 0.5), name(n) { d = -2.5; }
  void SetParameters(const MonteCarloSimulationExecutor& e) override {
    calls++;
    GetInitializedMonteCarloParameterDouble(e, ip[0], d);
    GetInitializedMonteCarloParameterVector(e, ip[1], v);
    GetInitializedMonteCarloParameterQuaternion(e, ip[2], q);
  }
};
GROUP(files) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(250, 5000); t++) {
    auto l = RandomList(r);
    const int runs = (int)r.i(1, 30);
    const bool enable = r.b(0.85), log = r.b();
    const unsigned long seed = (unsigned long)r.i(0, 1L << 31);
    m.begin("settings with %zu parameters, %d runs", l.size(), runs);
    WriteIni(r, "mc.ini", l, enable, log, runs);
    std::unique_ptr<MonteCarloSimulationExecutor> f, e = std::make_unique<MonteCarloSimulationExecutor>((unsigned long long)runs);
    {
      world::Quiet q;
      f.reset(s2e::simulation::InitMonteCarloSimulation("mc.ini"));
    }
    for (auto& p : l) AddTo(*e, p);
    e->SetEnable(enable);
    m.check((int)f->GetTotalNumberOfExecutions() == runs && f->IsEnabled() == enable && f->GetSaveLogHistoryFlag() == (log || !enable), "mc/settings", "settings are not taken over");
    auto collect = [&](MonteCarloSimulationExecutor& x) {
      MonteCarloSimulationExecutor::SetSeed(seed, true);
      std::vector<Vd> all;
      while (x.WillExecuteNextCase() && all.size() < 100) {
        x.RandomizeAllParameters();
        all.push_back(Take(x, l));
        x.AtTheEndOfEachCase();
      }
      return all;
    };
    const auto a = collect(*f), b = collect(*e);
    m.check((int)a.size() == (enable ? runs : 1), "mc/count", "%zu runs, %d requested", a.size(), runs);
    m.check(a == b, "mc/settings", "the parameters of the file are not those of the settings");
    // objects take their own parameters
    std::vector<std::unique_ptr<Obj>> objs;
    std::set<std::string> names;
    for (auto& p : l)
      if (names.insert(p.so).second) objs.push_back(std::make_unique<Obj>(p.so));
    objs.push_back(std::make_unique<Obj>("an object that is not listed"));
    for (auto& o : objs)
      for (int k = 0; k < 3; k++) {
        o->ip[k] = "nothing";
        for (auto& p : l)
          if (p.so == o->name && Size(p.type) >= (k == 0 ? 1 : k == 1 ? 3 : 4) && r.b(0.7)) o->ip[k] = p.ip;
      }
    if (r.b(0.3) && objs.size() > 1) objs.erase(objs.begin());  // an object that is gone is not touched
    f->RandomizeAllParameters();
    SimulationObject::SetAllParameters(*f);
    for (auto& o : objs) {
      double d = -2.5;
      s2e::math::Vector<3> v(1.25);
      s2e::math::Quaternion q(0.5, 0.5, -0.5, 0.5);
      f->GetInitializedMonteCarloParameterDouble(o->name, o->ip[0], d);
      f->GetInitializedMonteCarloParameterVector(o->name, o->ip[1], v);
      f->GetInitializedMonteCarloParameterQuaternion(o->name, o->ip[2], q);
      bool same = o->d == d;
      for (size_t k = 0; k < 3; k++) same &= o->v[k] == v[k];
      for (size_t k = 0; k < 4; k++) same &= o->q[k] == q[k];
      m.check(o->calls == 1 && same, "mc/objects", "an object does not have its parameters");
      bool drawn = o->d != -2.5;
      m.check(drawn == (enable && o->ip[0] != "nothing" && std::any_of(l.begin(), l.end(), [&](const Par& p) { return p.so == o->name && p.ip == o->ip[0] && p.type; })), "mc/objects",
              "an object %s", drawn ? "has a value that is not listed" : "has no value of its listed parameter");
      m.ev("objects");
    }
    bool refused = false;
    try {
      Obj twice(objs[0]->name);
    } catch (...) {
      refused = true;
    }
    m.check(refused, "mc/twice", "two objects of the same name");
    m.distinctv({(double)l.size(), (double)runs, (double)seed});
  }
}

// ---------- campaigns of whole simulations ----------
struct State {
  Vd att, rest;
  bool operator==(const State& o) const { return att == o.att && rest == o.rest; }
};
struct McCase : s2e::simulation::SimulationCase {
  std::vector<std::unique_ptr<world::Sc>> sc;
  std::vector<State> first, last;
  McCase(const std::string& base, const MonteCarloSimulationExecutor& e, const std::string& path) : SimulationCase(base, e, path) {}
  explicit McCase(const std::string& base) : SimulationCase(base) {}
  ~McCase() {
    while (!sc.empty()) sc.pop_back();
  }
  void InitializeTargetObjects() override {
    for (unsigned i = 0; i < simulation_configuration_.number_of_simulated_spacecraft_; i++) sc.push_back(std::make_unique<world::Sc>(&simulation_configuration_, global_environment_, (int)i));
    for (auto& s : sc) s->LogSetup(*simulation_configuration_.main_logger_);
  }
  std::vector<State> Now(bool start = false) {
    std::vector<State> out;
    for (auto& s : sc) {
      State x;
      auto& a = s->Dyn().GetAttitude();
      auto& o = s->Dyn().GetOrbit();
      for (size_t k = 0; k < 4; k++) x.att.push_back(a.GetQuaternion_i2b()[k]);
      for (size_t k = 0; k < 3; k++) x.att.push_back(a.GetAngularVelocity_b_rad_s()[k]);
      x.att.push_back(a.GetKineticEnergy_J());
      for (size_t k = 0; k < 3; k++) x.rest.push_back(o.GetPosition_i_m()[k]), x.rest.push_back(o.GetVelocity_i_m_s()[k]);
      if (start && dynamic_cast<const s2e::dynamics::attitude::AttitudeWithCantileverVibration*>(&a)) {  // the appendage is at rest
        std::vector<std::string> log;
        std::stringstream ss(a.GetLogValue());
        for (std::string c; std::getline(ss, c, ',');) log.push_back(c);
        for (size_t k = log.size() >= 6 ? log.size() - 6 : 0; k < log.size(); k++) x.rest.push_back(atof(log[k].c_str()));
      }
      out.push_back(x);
    }
    return out;
  }
  void UpdateTargetObjects() override {
    if (first.empty()) first = Now(true);
    for (auto& s : sc) s->Update(&global_environment_->GetSimulationTime());
    last = Now();
  }
};
static long Files(const std::string& dir, const std::string& tail) {
  long n = 0;
  if (!world::fs::exists(dir)) return 0;
  for (auto& e : world::fs::recursive_directory_iterator(dir)) {
    const std::string f = e.path().filename().string();
    if (f.size() >= tail.size() && f.compare(f.size() - tail.size(), tail.size(), tail) == 0) n++;
  }
  return n;
}
GROUP(campaign) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(6, 60); t++) {
    const int nsc = (int)r.i(1, 2), runs = (int)(t % 3 ? r.i(2, 6) : r.i(10, 14));
    world::Settings s(nsc);
    const bool flexible = r.b(0.3);
    for (int i = 0; i < nsc; i++) {
      const ref::V3 q3{r.n(), r.n(), r.n()};
      const double q4 = r.n(), len = std::sqrt((double)ref::dot_(q3, q3) + q4 * q4);
      s.Attitude(i, {(double)q3.x / len, (double)q3.y / len, (double)q3.z / len, q4 / len}, {r.n() * 0.01, r.n() * 0.01, r.n() * 0.01});
      if (flexible) s.Sat(i, "ATTITUDE", "propagate_mode", "CANTILEVER_VIBRATION");
      s.NoDisturbance(i);
      s.NoNoise(i);
    }
    s.Times(0.1, 1.0);
    // some of the parameters of the attitudes are listed
    std::vector<Par> l;
    bool lq[2] = {false, false}, lw[2] = {false, false};
    for (int i = 0; i < nsc; i++) {
      Par p = RandomPar(r);
      p.so = "attitude" + std::to_string(i);
      p.ip = "quaternion_i2b";
      p.type = r.b() ? 7 : 8;
      if ((lq[i] = r.b(0.6))) l.push_back(p);
      p.ip = "angular_velocity_b_rad_s";
      p.type = r.b() ? 1 : 2;
      p.a = {r.n() * 0.01, r.n() * 0.01, r.n() * 0.01};
      p.b = {0.02, 0.03, 0.04};
      if (p.type == 1)
        for (size_t k = 0; k < 3; k++) p.b[k] += p.a[k];
      if ((lw[i] = r.b(0.6))) l.push_back(p);
    }
    const bool log = r.b();
    WriteIni(r, "mc.ini", l, true, log, runs);
    const unsigned long seed = (unsigned long)r.i(0, 1L << 31);
    m.begin("campaign of %d runs, %zu parameters, %d spacecraft", runs, l.size(), nsc);
    world::Quiet quiet;
    auto campaign = [&](bool enable, bool again) {
      std::unique_ptr<MonteCarloSimulationExecutor> e(s2e::simulation::InitMonteCarloSimulation("mc.ini"));
      e->SetEnable(enable);
      MonteCarloSimulationExecutor::SetSeed(seed, true);
      std::vector<std::pair<std::vector<State>, std::vector<State>>> out;
      while (e->WillExecuteNextCase() && out.size() < 50) {
        s2e::randomization::global_randomization.SetSeed(1);
        e->AtTheBeginningOfEachCase();
        e->RandomizeAllParameters();
        const std::string dir = mon::F("mc%ld_%d_%zu", t, (int)again + 2 * (int)enable, out.size());
        world::fs::create_directories(dir);
        {
          McCase c(s.base, *e, dir + "/");
          c.Initialize();
          SimulationObject::SetAllParameters(*e);
          c.Main();
          out.push_back({c.first, c.last});
          if (enable) {
            const long n = Files(dir, mon::F("default%zu.csv", out.size() - 1));
            m.check(n == (log ? 1 : 0), "mc/log", "%ld log files of the run %zu, logging %s", n, out.size() - 1, log ? "enabled" : "disabled");
          }
          // what was drawn for this run is what the run starts from
          for (int i = 0; enable && i < nsc; i++) {
            s2e::math::Quaternion q(0, 0, 0, 1);
            s2e::math::Vector<3> w(0.0);
            const std::string so = "attitude" + std::to_string(i);
            e->GetInitializedMonteCarloParameterQuaternion(so, "quaternion_i2b", q);
            e->GetInitializedMonteCarloParameterVector(so, "angular_velocity_b_rad_s", w);
            auto& a = c.first[(size_t)i].att;
            for (size_t k = 0; lq[i] && k < 4; k++) m.check(a[k] == q[k], "mc/start", "the quaternion of the run is not the drawn one");
            for (size_t k = 0; lw[i] && k < 3; k++) m.check(a[4 + k] == w[k], "mc/start", "the angular velocity of the run is not the drawn one");
          }
        }
        world::fs::remove_all(dir);
        e->AtTheEndOfEachCase();
        m.ev("simulations");
      }
      return out;
    };
    const auto a = campaign(true, false), b = campaign(true, true), nominal = campaign(false, false);
    m.check((int)a.size() == runs && nominal.size() == 1, "mc/count", "%zu simulations, %d requested", a.size(), runs);
    m.check(a == b, "mc/seed", "the campaign is not repeated with the same seed");
    for (size_t k = 0; k < a.size(); k++)
      for (int i = 0; i < nsc; i++) {
        auto& x = a[k].first[(size_t)i];
        auto& y = nominal[0].first[(size_t)i];
        m.check(x.rest == y.rest && a[k].second[(size_t)i].rest == nominal[0].second[(size_t)i].rest, "mc/nominal", "the orbit of run %zu is not the nominal one", k);
        for (size_t j = 0; j < 7; j++) {
          const bool listed = j < 4 ? lq[i] : lw[i];
          if (!listed) m.check(x.att[j] == y.att[j], "mc/nominal", "an attitude parameter of run %zu is not listed but changed", k);
        }
        if (!lq[i] && !lw[i]) m.check(a[k].second[(size_t)i] == nominal[0].second[(size_t)i], "mc/nominal", "a spacecraft without listed parameters changed in run %zu", k);
        for (size_t o = 0; o < k; o++) {
          if (lq[i]) m.check(Vd(x.att.begin(), x.att.begin() + 4) != Vd(a[o].first[(size_t)i].att.begin(), a[o].first[(size_t)i].att.begin() + 4), "mc/own", "runs %zu and %zu have the same quaternion", o, k);
          if (lw[i]) m.check(Vd(x.att.begin() + 4, x.att.begin() + 7) != Vd(a[o].first[(size_t)i].att.begin() + 4, a[o].first[(size_t)i].att.begin() + 7), "mc/own", "runs %zu and %zu have the same angular velocity", o, k);
        }
      }
    m.distinctv({(double)runs, (double)l.size(), a[0].first[0].att[0]});
  }
}

// ---------- the noises of the runs ----------
// The seed of the settings decides the noises of a whole campaign: they differ from run to run, another seed gives
// others, and nothing that was drawn before the campaign has an effect. Without Monte Carlo every run is the same.
GROUP(noises) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(5, 40); t++) {
    const int runs = (int)r.i(2, 5);
    world::Settings s(1);
    s.NoDisturbance(0);
    s.Local(0, "MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE");
    s.Times(0.1, 0.3);
    WriteIni(r, "mc.ini", {}, true, false, runs);
    const long seed = r.b(0.2) ? 0 : (long)r.i(1, 2147483646);
    m.begin("%d runs with the seed %ld", runs, seed);
    world::Quiet quiet;
    auto campaign = [&](bool enable, int kind, long with) {
      s.B("RANDOMIZE", "rand_seed", std::to_string(with));
      std::unique_ptr<MonteCarloSimulationExecutor> e(s2e::simulation::InitMonteCarloSimulation("mc.ini"));
      e->SetEnable(enable);
      // 0: constructor of a plain simulation, 1: of a simulation of a campaign
      s2e::randomization::global_randomization.SetSeed(r.i(1, 1L << 30));
      for (long k = r.i(0, 5); k > 0; k--) s2e::randomization::global_randomization.MakeSeed();
      std::vector<Vd> out;
      for (int run = 0; run < runs; run++) {
        if (enable && !e->WillExecuteNextCase()) break;
        if (!enable && run == 2) break;
        e->AtTheBeginningOfEachCase();
        const std::string dir = mon::F("noise%ld", t);
        world::fs::create_directories(dir);
        Vd v;
        {
          std::unique_ptr<McCase> c;
          if (kind) c = std::make_unique<McCase>(s.base, *e, dir + "/");
          else c = std::make_unique<McCase>(s.base);
          c->Initialize();
          c->Main();
          const auto b = c->sc[0]->Local().GetGeomagneticField().GetGeomagneticField_i_nT();
          for (size_t k = 0; k < 3; k++) v.push_back(b[k]);
          for (int k = 0; k < 3; k++) v.push_back((double)s2e::randomization::global_randomization.MakeSeed());
        }
        world::fs::remove_all(dir);
        e->AtTheEndOfEachCase();
        out.push_back(v);
        m.ev("simulations");
      }
      return out;
    };
    auto differ = [&](const std::vector<Vd>& a, const std::vector<Vd>& b, bool own, const char* what) {
      for (size_t i = 0; i < a.size(); i++)
        for (size_t j = own ? i + 1 : 0; j < b.size(); j++) m.check(a[i][3] != b[j][3] && a[i][0] != b[j][0], "mc/noise", "%s: runs %zu and %zu have the same noise", what, i, j);
    };
    const auto a = campaign(true, 1, seed), b = campaign(true, 1, seed), other = campaign(true, 1, seed + 1 > 2147483646 ? 1 : seed + 1);
    m.check((int)a.size() == runs && (int)b.size() == runs, "mc/count", "%zu and %zu simulations of %d", a.size(), b.size(), runs);
    differ(a, a, true, "one campaign");
    if (seed) {
      m.check(a == b, "mc/noise-seed", "the noises of a campaign are not those of the seed");
      differ(a, other, false, "campaigns of other seeds");
    } else {
      differ(a, b, false, "campaigns of no seed");
    }
    for (int kind = 0; kind < 2; kind++) {
      const auto x = campaign(false, kind, seed);
      if (!m.check(x.size() == 2, "mc/count", "%zu simulations", x.size())) continue;
      if (seed) m.check(x[0] == x[1] && x[0] == a[0], "mc/noise-seed", "the noises of a plain simulation are not those of the seed");
      else differ(x, x, true, "plain simulations of no seed");
    }
    m.distinctv({(double)runs, (double)seed, a[0][0]});
  }
}
