// Helpers for the harnesses of components
#pragma once
#include "world.hpp"
//
#include <filesystem>

// Samples of several quantities: means, deviations, correlations between them and between neighbours in time
struct Stats {
  std::vector<std::vector<double>> x;
  explicit Stats(size_t k) : x(k) {}
  size_t n() const { return x[0].size(); }
  void add(std::initializer_list<L> s) {
    size_t i = 0;
    for (L a : s) x[i++].push_back((double)a);
  }
  L mean(size_t i) const {
    L s = 0;
    for (double a : x[i]) s += a;
    return s / (L)n();
  }
  L sd(size_t i, L mu = 0) const {
    L s = 0;
    for (double a : x[i]) s += (a - mu) * (a - mu);
    return sqrtl(s / (L)n());
  }
  // white noise of zero mean and the given deviations, independent of each other and in time
  void White(mon::Mon& m, const std::vector<L>& sigma, const char* key) const {
    const L N = (L)n(), z = 6;
    for (size_t i = 0; i < x.size(); i++) {
      if (sigma[i] == 0) {
        m.check(sd(i) == 0, key, "quantity %d has noise of deviation %.3Lg although none is configured", (int)i, sd(i));
        continue;
      }
      m.check(fabsl(mean(i)) <= z * sigma[i] / sqrtl(N), key, "quantity %d: mean error %.5Lg with deviation %.5Lg over %d samples", (int)i, mean(i), sigma[i], (int)n());
      m.check(fabsl(sd(i) / sigma[i] - 1) <= z / sqrtl(2 * N) + 1e-6L, key, "quantity %d: deviation %.5Lg instead of %.5Lg over %d samples", (int)i, sd(i), sigma[i], (int)n());
      for (size_t lag = 1; lag <= 3; lag++) {
        L c = 0;
        for (size_t t = lag; t < n(); t++) c += (L)x[i][t] * x[i][t - lag];
        m.check(fabsl(c / (N * sigma[i] * sigma[i])) <= z / sqrtl(N), key, "quantity %d: error correlated in time (%.3Lg at lag %d)", (int)i, c / (N * sigma[i] * sigma[i]), (int)lag);
      }
      for (size_t j = 0; j < i; j++) {
        if (sigma[j] == 0) continue;
        L c = 0;
        for (size_t t = 0; t < n(); t++) c += (L)x[i][t] * x[j][t];
        m.check(fabsl(c / (N * sigma[i] * sigma[j])) <= z / sqrtl(N), key, "errors of quantities %d and %d are correlated (%.3Lg)", (int)j, (int)i, c / (N * sigma[i] * sigma[j]));
      }
    }
    m.ev("noise_samples", (long)n());
  }
};

static std::string Start(mon::Rng& r) {
  return mon::F("%d/%02d/%02d %02d:%02d:%06.3f", (int)r.i(2000, 2024), (int)r.i(1, 12), (int)r.i(1, 28), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9));
}
static world::Settings Plain(mon::Rng& r, double step, double amin = 3e5, double amax = 3e7) {
  world::Settings s(1);
  s.Times(step, 1e6, Start(r));
  const L a = 6378137.0L + r.logu(amin, amax);
  const V3 e1 = gen::dir(r), e2 = ref::unit(ref::cross_(e1, gen::dir(r) + V3{0.001L, 0.002L, 0.003L}));
  s.Orbit(0, a * e1, sqrtl(3.986e14L / a) * (L)r.u(1.0, 1.2) * e2);
  s.Attitude(0, gen::quat(r), V3{r.n() * 0.01, r.n() * 0.01, r.n() * 0.01});
  s.NoNoise(0);
  s.NoDisturbance(0);
  return s;
}
static void Turn(mon::Mon& m, world::World& W, double rate = 0.1) {
  auto& sc = *W.sc[0];
  sc.Dyn().SetAttitude().SetQuaternion_i2b(toq(gen::quat(m.rng)));
  sc.Dyn().SetAttitude().SetAngularVelocity_b_rad_s(tov((L)m.rng.logu(rate * 1e-4, rate * 10) * gen::dir(m.rng)));
  sc.Local().Update(&sc.Dyn(), &W.Time());
}

// Writes the base part of a sensor (section SENSOR_BASE_<name>)
struct File {
  std::string path;
  void Base(const std::string& name, const std::string& unit, const M3& scale, const V3& bias, const V3& sd, const V3& walk, const V3& limit, double rc, double rz) {
    const std::string s = "SENSOR_BASE_" + name;
    for (int i = 0; i < 9; i++) world::Set(path, s, mon::F("scale_factor_c(%d)", i), (double)scale[i / 3][i % 3]);
    world::SetV(path, s, "constant_bias_c_" + unit, bias, 3);
    world::SetV(path, s, "normal_random_standard_deviation_c_" + unit, sd, 3);
    world::SetV(path, s, "random_walk_standard_deviation_c_" + unit, walk, 3);
    world::SetV(path, s, "random_walk_limit_c_" + unit, limit, 3);
    world::Set(path, s, "range_to_constant_" + unit, rc);
    world::Set(path, s, "range_to_zero_" + unit, rz);
  }
  void Port(double vmin, double power) {
    world::Set(path, "POWER_PORT", "minimum_voltage_V", vmin);
    world::Set(path, "POWER_PORT", "assumed_power_consumption_W", power);
  }
};
static File Fresh(const std::string& name) {
  std::filesystem::copy_file("settings/sample_satellite/components/" + name, name, std::filesystem::copy_options::overwrite_existing);
  return File{name};
}

// A bounded random walk seen through a component: it stays near its limit, and moves at the set speed over
// the time between two updates of the component (the integrator averages the kicks of one update, hence the range).
[[maybe_unused]] static void Walk(mon::Mon& m, const std::vector<L>& x, L sd, L limit, L period, L slack, const char* key) {
  const L kick = sd * period;
  L s2 = 0;
  long n = 0;
  for (size_t t = 0; t < x.size(); t++) {
    m.check(fabsl(x[t]) <= limit + 7 * kick + slack, key, "the random walk is at %.6Lg, its limit is %.6Lg (kick %.3Lg)", x[t], limit, kick);
    if (!t || fabsl(x[t]) > limit || fabsl(x[t - 1]) > limit) continue;
    s2 += (x[t] - x[t - 1]) * (x[t] - x[t - 1]), n++;
  }
  if (n < 300) return;
  const L got = sqrtl(s2 / (L)n);
  m.check(got <= 0.7L * kick + slack && got >= 0.37L * kick - slack, key, "the random walk moves by %.6Lg in %.6Lg s, its speed is %.6Lg", got, period, sd);
  m.ev("walk_speed");
}
