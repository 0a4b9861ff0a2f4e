// C18: thermal network
#include "world.hpp"
//
#include <dynamics/thermal/temperature.hpp>
#include <environment/local/earth_albedo.hpp>
#include <environment/local/earth_infrared.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
namespace th = s2e::dynamics::thermal;
static const L kSigma = 5.670374419e-8L;

struct Table {  // periodic, piecewise linear
  std::vector<double> t, w;
  L At(L x) const {
    if (t.size() == 1 || t.back() <= 0) return w[0];
    x = fmodl(x, (L)t.back());
    size_t i = 0;
    while (i + 2 < t.size() && x > t[i + 1]) i++;
    return w[i] + (x - t[i]) / ((L)t[i + 1] - t[i]) * ((L)w[i + 1] - w[i]);
  }
  double Range() const { return *std::max_element(w.begin(), w.end()) - *std::min_element(w.begin(), w.end()); }
};
static Table RandomTable(mon::Mon& m, double knot, double power) {
  Table t;
  int n = m.rng.b(0.1) ? 1 : (int)m.rng.i(2, 7);
  double x = 0;
  for (int i = 0; i < n; i++) {
    t.t.push_back(x);
    t.w.push_back(m.rng.b(0.3) && i ? t.w.back() : m.rng.u(0, power));
    x += knot * (double)m.rng.i(1, 9);
  }
  return t;
}

GROUP(internal_heat) {
  for (long c = 0; c < m.n(3000, 40000); c++) {
    Table t = RandomTable(m, m.rng.logu(0.01, 1000), 20);
    if (t.t.size() == 1 && m.rng.b()) t.t[0] = m.rng.b() ? 0 : 7;
    m.begin("%zu entries over %.9g s", t.t.size(), t.t.back());
    m.distinctv({(double)t.t.size(), t.t.back(), t.w[0], t.w.back()});
    th::Heatload h(0, t.t, t.w);
    double x = 0;
    for (int k = 0; k < 40; k++) {
      double p = std::max(t.t.back(), 1.0);
      if (m.rng.b(0.1)) x = p * (double)m.rng.i(0, 1000) + t.t[(size_t)m.rng.i(0, (int64_t)t.t.size() - 1)];
      else if (m.rng.b(0.2)) x = m.rng.u(0, 50 * p);  // also back in time
      else x += m.rng.u(0, 0.7) * p;
      h.SetElapsedTime_s(x);
      h.CalcInternalHeatload();
      double got = h.GetInternalHeatload_W(), want = (double)t.At(x);
      double slope = 0;
      for (size_t i = 0; i + 1 < t.t.size(); i++) slope = std::max(slope, fabs(t.w[i + 1] - t.w[i]) / (t.t[i + 1] - t.t[i]));
      double tol = 1e-9 + slope * x * 1e-15;
      if (t.t.size() > 1 && (fmod(x, p) < 1e-12 * x || p - fmod(x, p) < 1e-12 * x)) tol += fabs(t.w[0] - t.w.back());
      m.check(fabs(got - want) <= tol, "internal_heat", "at %.17g s: %.17g W, the table gives %.17g W", x, got, want);
      m.ev("internal_heat_values");
      // the total is the sum of the parts
      double s = m.rng.u(0, 9), a = m.rng.u(0, 9), e = m.rng.u(0, 9), he = m.rng.u(0, 9);
      h.SetSolarHeatload_W(s), h.SetAlbedoHeatload_W(a), h.SetEarthInfraredHeatload_W(e), h.SetHeaterHeatload_W(he);
      h.UpdateTotalHeatload();
      m.check(fabs(h.GetTotalHeatload_W() - (s + a + e + he + got)) < 1e-12 && h.GetSolarHeatload_W() == s && h.GetAlbedoHeatload_W() == a && h.GetEarthInfraredHeatload_W() == e && h.GetHeaterHeatload_W() == he,
              "total_heat", "total %.17g of %.17g %.17g %.17g %.17g %.17g", h.GetTotalHeatload_W(), s, a, e, he, got);
    }
  }
}

// share of the radiation of a diffuse sphere that a small flat plate receives, by integration over the visible disc
static L ViewFactor(L lambda, L H) {
  const int n = 400;
  L sum = 0, rho = asinl(1 / H);
  for (int i = 0; i < n; i++) {
    L a = (i + 0.5L) / n * rho;  // angle from the centre of the sphere
    // mean over the azimuth of max(0, cos of the incidence)
    L A = cosl(lambda) * cosl(a), B = sinl(lambda) * sinl(a), mean;
    if (A >= B) mean = A;
    else if (A <= -B) mean = 0;
    else {
      L ph = acosl(-A / B);
      mean = (A * ph + B * sinl(ph)) / M_PIl;
    }
    sum += mean * sinl(a) * rho / n;
  }
  return 2 * sum;  // (1/pi) * integral of 2 pi sin
}
GROUP(external_heat) {
  for (long c = 0; c < m.n(3000, 30000); c++) {
    double area = m.rng.logu(1e-3, 10), alpha = m.rng.u(0, 1), eps = m.rng.u(0, 1), flux = m.rng.u(0, 1500);
    V3 n = gen::dir(m.rng), sun = gen::dir(m.rng), ear = gen::dir(m.rng);
    const double re = 6378137;
    if (m.rng.b(0.1)) n = m.rng.b() ? ear : -ear;  // exactly towards the nadir or the zenith
    if (m.rng.b(0.1)) sun = m.rng.b() ? n : ear;
    double h = m.rng.b(0.7) ? m.rng.logu(1.5e5, 1.7e6) : m.rng.logu(1.8e6, 5e8);
    if (m.rng.b(0.1)) {  // Earth's edge in the plane of the plate
      V3 ax = ref::unit(ref::cross_(ear, fabsl(ear.z) < 0.9L ? V3{0, 0, 1} : V3{1, 0, 0}));
      L la = M_PIl / 2 + (m.rng.b() ? 1 : -1) * asinl(re / (re + h)) * (m.rng.b() ? 1 : 1 + 1e-12);
      n = cosl(la) * ear + sinl(la) * ax;
    }
    n = ref::unit(n);
    Vec3 nv = tov(n), sv = tov(sun), ev = tov((L)(re + h) * ear);
    th::Node node(0, "n", th::NodeType::kDiffusive, 0, 300, 100, alpha, eps, area, nv);
    m.begin("normal %s, sun %s, Earth %s at %.9g m, area %.6g alpha %.3g epsilon %.3g", S(n).c_str(), S(sun).c_str(), S(ear).c_str(), h, area, alpha, eps);
    m.distinctv({(double)n.x, (double)sun.x, h, area});
    double cs = (double)ref::dot_(ref::v(sv), ref::v(nv));
    double got = node.CalcSolarRadiation_W(sv, flux);
    m.check(fabs(got - flux * area * alpha * std::max(0.0, cs)) <= 1e-12 * flux * area && got == node.GetSolarRadiation_W(), "solar", "solar %.17g W, expected %.17g W", got, flux * area * alpha * std::max(0.0, cs));
    L H = (re + h) / re, la = ref::angle(ref::v(nv), ref::v(ev));
    got = node.CalcEarthInfraredRadiation_W(ev, flux);
    m.finite(got, "infrared_finite", "Earth infrared");
    double vf = h < 1732e3 ? (double)ViewFactor(la, H) : la < M_PIl / 2 ? (double)(0.25L / H / H) : 0;  // far away the library uses the mean over orientations
    if (h > 1732e3 + 1 && fabsl(la - M_PIl / 2) > 1e-9L)
      m.check(fabs(got - flux * area * eps * vf) <= flux * area * eps * vf * 2e-6, "infrared_far", "Earth infrared %.9g W far from the Earth, view factor gives %.9g W", got, flux * area * eps * vf);
    if (h < 1732e3 || fabsl(la - M_PIl / 2) > 1e-9L)
      m.check(fabs(got - flux * area * eps * vf) <= flux * area * eps * 2e-4 && got == node.GetEarthInfraredRadiation_W(), "infrared", "Earth infrared %.9g W, view factor gives %.9g W", got, flux * area * eps * vf);
    got = node.CalcAlbedoRadiation_W(ev, sv, flux);
    m.finite(got, "albedo_finite", "albedo");
    m.check(got >= 0 && got <= flux * area * alpha * (vf + 2e-4) && got == node.GetAlbedoRadiation_W(), "albedo_bounds", "albedo %.9g W, at most %.9g W", got, flux * area * alpha * vf);
    // straight above the point below the Sun all of it is reflected; the further away the Sun, the less
    double full = node.CalcAlbedoRadiation_W(ev, tov(-ear), flux);
    m.check(fabs(full - flux * area * alpha * vf) <= flux * area * alpha * 2e-4 || (h >= 1732e3 && fabsl(la - M_PIl / 2) < 1e-9L), "albedo_full", "albedo %.9g W below the Sun, view factor gives %.9g W", full, flux * area * alpha * vf);
    if (h > 1732e3 + 1 && fabsl(la - M_PIl / 2) > 1e-9L)
      m.check(fabs(full - flux * area * alpha * vf) <= flux * area * alpha * vf * 2e-6, "albedo_far", "albedo %.9g W below the Sun, far from the Earth, view factor gives %.9g W", full, flux * area * alpha * vf);
    double last = full;
    V3 ax = ref::unit(ref::cross_(ear, fabsl(ear.z) < 0.9L ? V3{0, 0, 1} : V3{1, 0, 0}));
    for (int i = 1; i <= 6; i++) {
      L an = i * M_PIl / 6.5L;
      double now = node.CalcAlbedoRadiation_W(ev, tov(-(cosl(an) * ear) + sinl(an) * ax), flux);
      m.check(now <= last * (1 + 1e-12) + 1e-15, "albedo_falls", "albedo %.9g W with the Sun at %.3Lg rad, %.9g W closer", now, an, last);
      last = now;
    }
    m.ev("external_states");
  }
}

struct Net {
  size_t n;
  std::vector<std::vector<double>> C, R;
  std::vector<double> cap, T0, alpha, eps, area;
  std::vector<int> type, heater;
  std::vector<V3> normal;
  std::vector<Table> load;
  std::vector<double> power, lower, upper;
};
static Net RandomNet(mon::Mon& m, double knot, bool isolated) {
  Net n;
  n.n = (size_t)m.rng.i(1, 6);
  n.C.assign(n.n, std::vector<double>(n.n, 0)), n.R = n.C;
  for (size_t i = 0; i < n.n; i++)
    for (size_t j = 0; j < i; j++) {
      if (m.rng.b(0.7)) n.C[i][j] = n.C[j][i] = m.rng.logu(0.01, 3);
      if (m.rng.b(0.7)) n.R[i][j] = n.R[j][i] = m.rng.logu(1e-4, 0.3);
    }
  for (size_t i = 0; i < n.n; i++) {
    n.type.push_back(!isolated && m.rng.b(0.2) ? 1 : 0);
    n.cap.push_back(n.type[i] ? 0 : m.rng.logu(10, 5000));
    n.T0.push_back(n.type[i] && m.rng.b() ? 2.73 : m.rng.u(150, 400));
    n.alpha.push_back(m.rng.u(0, 1)), n.eps.push_back(m.rng.u(0, 1)), n.area.push_back(isolated ? 0 : m.rng.u(0, 1));
    n.normal.push_back(gen::dir(m.rng));
    n.load.push_back(isolated ? Table{{0, 10}, {0, 0}} : RandomTable(m, knot, 30));
    n.heater.push_back(0);
  }
  if (!isolated) {
    size_t h = (size_t)m.rng.i(0, (int64_t)n.n);
    std::vector<size_t> order(n.n);
    for (size_t i = 0; i < n.n; i++) order[i] = i;
    for (size_t i = 0; i + 1 < n.n; i++) std::swap(order[i], order[(size_t)m.rng.i((int64_t)i, (int64_t)n.n - 1)]);
    for (size_t i = 0; i < h; i++) {
      n.power.push_back(m.rng.u(1, 60));
      double t = n.T0[order[i]] - 273.15 + m.rng.u(-3, 3);
      n.lower.push_back(t), n.upper.push_back(t + m.rng.u(0, 4));
      n.heater[order[i]] = (int)i + 1;
    }
  }
  return n;
}
static L Rate(const Net& n, double T) {
  L r = 1e-5L;
  for (size_t i = 0; i < n.n; i++) {
    if (n.type[i]) continue;
    L s = 0;
    for (size_t j = 0; j < n.n; j++) s += n.C[i][j] + 4 * kSigma * n.R[i][j] * T * T * T;
    r = std::max(r, 2 * s / n.cap[i]);
  }
  return r;
}
static void Integrate(const Net& n, std::vector<L>& T, L t, L dt, int steps, const std::vector<L>& q) {
  auto D = [&](const std::vector<L>& x, L now) {
    std::vector<L> d(n.n, 0);
    for (size_t i = 0; i < n.n; i++) {
      if (n.type[i]) continue;
      L s = q[i] + n.load[i].At(now);
      for (size_t j = 0; j < n.n; j++) s += n.C[i][j] * (x[j] - x[i]) + kSigma * n.R[i][j] * (x[j] * x[j] * x[j] * x[j] - x[i] * x[i] * x[i] * x[i]);
      d[i] = s / n.cap[i];
    }
    return d;
  };
  auto A = [&](std::vector<L> x, L k, const std::vector<L>& d) {
    for (size_t i = 0; i < n.n; i++) x[i] += k * d[i];
    return x;
  };
  L h = dt / steps;
  for (int k = 0; k < steps; k++) {
    L s = t + k * h;
    auto a = D(T, s), b = D(A(T, h / 2, a), s + h / 2), c = D(A(T, h / 2, b), s + h / 2), d = D(A(T, h, c), s + h * (1 - 1e-15L));
    T = A(A(A(A(T, h / 6, a), h / 3, b), h / 3, c), h / 6, d);
  }
}
static std::unique_ptr<th::Temperature> Make(const Net& n, double step, world::World& w, bool solar) {
  std::vector<th::Node> nodes;
  std::vector<th::Heatload> loads;
  std::vector<th::Heater> heaters;
  std::vector<th::HeaterController> ctl;
  for (size_t i = 0; i < n.n; i++) {
    nodes.emplace_back(i, "node" + std::to_string(i), n.type[i] ? th::NodeType::kBoundary : th::NodeType::kDiffusive, (size_t)n.heater[i], n.T0[i], n.cap[i], n.alpha[i], n.eps[i], n.area[i], tov(n.normal[i]));
    loads.emplace_back((int)i, n.load[i].t, n.load[i].w);
  }
  for (size_t i = 0; i < n.power.size(); i++) heaters.emplace_back(i + 1, n.power[i]), ctl.emplace_back(n.lower[i], n.upper[i]);
  auto& l = w.sc[0]->Local();
  return std::make_unique<th::Temperature>(n.C, n.R, nodes, loads, heaters, ctl, n.n, step, &l.GetSolarRadiationPressure(), &l.GetEarthAlbedo(), &l.GetEarthInfrared(), true,
                                           solar ? th::SolarCalcSetting::kEnable : th::SolarCalcSetting::kDisable, false);
}
static std::vector<L> External(const Net& n, world::World& w, bool solar) {
  auto& l = w.sc[0]->Local();
  auto& c = l.GetCelestialInformation();
  V3 sun = ref::unit(ref::v(c.GetPositionFromSpacecraft_b_m("SUN"))), ear = ref::v(c.GetPositionFromSpacecraft_b_m("EARTH"));
  std::vector<L> q(n.n, 0);
  for (size_t i = 0; i < n.n; i++) {
    if (solar) {
      q[i] += std::max(0.0L, ref::dot_(sun, n.normal[i])) * l.GetSolarRadiationPressure().GetPowerDensity_W_m2() * n.area[i] * n.alpha[i];
      // the reflected part is judged by external_heat
      th::Node copy(0, "n", th::NodeType::kDiffusive, 0, 300, 100, n.alpha[i], n.eps[i], n.area[i], tov(n.normal[i]));
      q[i] += copy.CalcAlbedoRadiation_W(tov(ear), tov(sun), l.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2());
    }
    L H = ref::norm(ear) / 6378137, la = ref::angle(n.normal[i], ear);
    L vf = ref::norm(ear) - 6378137 < 1732e3L ? ViewFactor(la, H) : la < M_PIl / 2 ? 0.25L / H / H : 0;
    q[i] += vf * l.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2() * n.area[i] * n.eps[i];
  }
  return q;
}
static world::Settings Place(mon::Mon& m) {
  world::Settings s(1);
  s.Times(1, 10000);
  s.NoNoise(0), s.NoDisturbance(0);
  V3 r = m.rng.logu(6.8e6, 1.5e7) * gen::dir(m.rng), u = ref::unit(ref::cross_(r, gen::dir(m.rng)));
  s.Orbit(0, r, sqrtl(3.986e14L / ref::norm(r)) * u);
  s.Attitude(0, gen::quat(m.rng), {0, 0, 0});
  s.Local(0, "EARTH_ALBEDO", "calculation", "ENABLE");
  return s;
}

GROUP(network) {
  for (long place = 0; place < m.n(12, 60); place++) {
    world::Settings st = Place(m);
    world::World w(st);
    for (int i = 0; i < 2; i++) w.Step();
    for (long c = 0; c < m.n(20, 60); c++) {
      double knot = m.rng.logu(0.5, 200);
      Net n = RandomNet(m, knot, false);
      double rate = (double)Rate(n, 420), step = m.rng.logu(0.003, 0.1) / rate;
      const bool aligned = m.rng.b(0.6), solar = m.rng.b(0.6);
      if (aligned) {  // knots of the tables on whole steps
        knot = step * (double)m.rng.i(1, 12);
        for (auto& l : n.load) l = RandomTable(m, knot, 30);
      }
      m.begin("%zu nodes, fastest rate %.3g /s, step %.6g s, knots of %.6g s, %zu heaters%s%s", n.n, rate, step, knot, n.power.size(), aligned ? ", aligned" : "", solar ? ", sunlight" : "");
      m.distinctv({(double)n.n, rate, step, knot, n.T0[0]});
      auto t = Make(n, step, w, solar);
      auto& cel = w.sc[0]->Local().GetCelestialInformation();
      std::vector<L> T(n.T0.begin(), n.T0.end()), ext = External(n, w, solar);
      std::vector<bool> on(n.power.size(), false);
      double now = 0, tol = 1e-9, turned = 0;
      double mincap = 1e9, range = 0, wraps = 0;
      for (size_t i = 0; i < n.n; i++)
        if (!n.type[i]) mincap = std::min(mincap, n.cap[i]), range = std::max(range, n.load[i].Range());
      for (int k = 0; k < 60; k++) {
        int steps = (int)m.rng.i(1, 6);
        double dt = aligned ? steps * step : step * m.rng.u(0.2, 6);
        double next = aligned ? (round(now / step) + steps) * step : now + dt;
        dt = next - now;
        std::vector<L> q = ext;
        for (size_t i = 0; i < n.n; i++)
          if (n.heater[i] && on[(size_t)n.heater[i] - 1]) q[i] += n.power[(size_t)n.heater[i] - 1];
        Integrate(n, T, now, dt, aligned ? steps * 4 : (int)ceil(dt / step * 16), q);
        t->Propagate(&cel, next);
        // partial steps of the tables and jumps where a table repeats
        turned += rate * dt;
        double size = 0;
        for (L x : q) size = std::max(size, (double)fabsl(x));
        double full = (size + range) / mincap * dt + 100 * rate * dt;
        tol += full * pow(rate * step, 4);
        for (size_t i = 0; i < n.n; i++) {
          const Table& l = n.load[i];
          if (n.type[i] || l.t.size() < 2) continue;
          if (floor((next + step * 1e-6) / l.t.back()) != floor((now - step * 1e-6) / l.t.back())) wraps = std::max(1.0, ceil(dt / l.t.back())), tol += wraps * l.Range() * step / n.cap[i] * 1.1;
          if (!aligned) {
            for (size_t j = 0; j < l.t.size(); j++) {
              double f = fmod(now, l.t.back());
              for (double add : {0.0, l.t.back()})
                if (l.t[j] + add >= f - 1e-6 && l.t[j] + add <= f + dt + 1e-6) tol += l.Range() * step / n.cap[i];
            }
            if (dt > l.t.back()) tol += dt / l.t.back() * (double)l.t.size() * l.Range() * step / n.cap[i];
          }
        }
        tol *= 1 + 1e-12;
        now = next;
        auto nodes = t->GetNodes();
        for (size_t i = 0; i < n.n; i++) {
          double got = nodes[i].GetTemperature_K();
          if (n.type[i]) m.check(got == n.T0[i], "boundary", "boundary node at %.17g K, set to %.17g K", got, n.T0[i]);
          else m.check(fabs(got - (double)T[i]) <= tol + 2e-4 * (n.area[i] * 500 / n.cap[i]) * now, "temperature", "update %d (%.9g s): node %zu at %.12g K, heat balance gives %.12Lg K (tolerance %.3g)", k, now, i, got, T[i], tol);
          m.check(fabs(nodes[i].GetTemperature_degC() - (got - 273.15)) < 1e-9, "celsius", "%.17g K is not %.17g degC", got, nodes[i].GetTemperature_degC());
          if (n.heater[i]) {  // a heater switches only at its thresholds
            size_t h = (size_t)n.heater[i] - 1;
            double deg = nodes[i].GetTemperature_degC();
            if (on[h] ? deg > n.upper[h] : deg < n.lower[h]) on[h] = !on[h], m.ev("heater_switched");
            double p = t->GetHeaterPower_W(i);
            m.check(p == (on[h] ? n.power[h] : 0), "heater", "update %d: heater of node %zu gives %.9g W at %.9g degC (thresholds %.9g %.9g), expected %s of %.9g W", k, i, p, deg, n.lower[h], n.upper[h],
                    on[h] ? "on" : "off", n.power[h]);
          } else {
            m.check(t->GetHeaterPower_W(i) == 0, "heater", "node %zu has no heater", i);
          }
        }
        m.ev("network_updates");
        // a different switching than the reference's would already be reported; keep both together
        bool hot = false;
        for (size_t i = 0; i < n.n; i++) T[i] = nodes[i].GetTemperature_K(), hot = hot || !(T[i] < 410);
        if (hot) break;  // the accuracy of a step is known up to 420 K
        tol = 1e-9;
      }
    }
  }
  m.require("network_updates", 2000), m.require("heater_switched", 100);
}

GROUP(long_run) {  // without resynchronisation: global error and convergence order, heaters off
  world::Settings st = Place(m);
  world::World w(st);
  w.Step();
  for (long c = 0; c < m.n(60, 600); c++) {
    Net n = RandomNet(m, 10, false);
    for (auto& h : n.heater) h = 0;
    n.power.clear(), n.lower.clear(), n.upper.clear();
    for (auto& l : n.load) l = Table{{0, 1000}, {l.w[0], l.w[0]}};
    double rate = (double)Rate(n, 400), step = m.rng.logu(0.02, 0.4) / rate;
    m.begin("%zu nodes, rate %.3g /s, step %.6g s", n.n, rate, step);
    m.distinctv({(double)n.n, rate, step, n.T0[0]});
    auto t = Make(n, step, w, true);
    auto split = Make(n, step, w, true);
    std::vector<L> T(n.T0.begin(), n.T0.end()), ext = External(n, w, true);
    auto& cel = w.sc[0]->Local().GetCelestialInformation();
    double now = 0;
    for (int k = 0; k < 30; k++) {
      double dt = step * (double)m.rng.i(1, 10);
      Integrate(n, T, now, dt, (int)ceil(dt * rate * 60), ext);
      now += dt;
      bool hot = false;
      for (L x : T) hot = hot || !(x < 400);
      if (hot) break;  // beyond the bound on the rate
      t->Propagate(&cel, now);
      split->Propagate(&cel, now - dt * m.rng.u(0.1, 0.9));
      split->Propagate(&cel, now);
      auto nodes = t->GetNodes(), other = split->GetNodes();
      double x = rate * step, tol = 400 * (x * x * x * x / 60) * (1 + std::min(rate * now, 30.0) * 0) + 1e-8;
      for (size_t i = 0; i < n.n; i++) {
        m.check(fabs(nodes[i].GetTemperature_K() - (double)T[i]) <= tol + 2e-4 * (n.area[i] * 500 / std::max(n.cap[i], 1.0)) * now, "long_temperature", "%.9g s: node %zu at %.12g K, heat balance gives %.12Lg K (tolerance %.3g)", now, i,
                nodes[i].GetTemperature_K(), T[i], tol);
        m.check(fabs(nodes[i].GetTemperature_K() - other[i].GetTemperature_K()) <= tol, "long_split", "node %zu at %.12g K, %.12g K with the time split differently", i, nodes[i].GetTemperature_K(), other[i].GetTemperature_K());
      }
      m.ev("long_updates");

    }
  }
}

GROUP(isolated) {  // nothing enters or leaves: energy is conserved, heat flows from hot to cold
  world::Settings st = Place(m);
  world::World w(st);
  w.Step();
  for (long c = 0; c < m.n(200, 2000); c++) {
    Net n = RandomNet(m, 10, true);
    double rate = (double)Rate(n, 400), step = m.rng.logu(0.003, 0.3) / rate;
    m.begin("%zu nodes, rate %.3g /s, step %.6g s", n.n, rate, step);
    m.distinctv({(double)n.n, rate, step, n.T0[0]});
    auto t = Make(n, step, w, m.rng.b());
    auto& cel = w.sc[0]->Local().GetCelestialInformation();
    L e0 = 0;
    double lo = 1e9, hi = 0;
    for (size_t i = 0; i < n.n; i++) e0 += (L)n.cap[i] * n.T0[i], lo = std::min(lo, n.T0[i]), hi = std::max(hi, n.T0[i]);
    double now = 0;
    for (int k = 0; k < 50; k++) {
      now += step * m.rng.u(0.3, 20);
      t->Propagate(&cel, now);
      L e = 0;
      double l2 = 1e9, h2 = 0;
      for (auto& x : t->GetNodes()) e += (L)n.cap[x.GetNodeId()] * x.GetTemperature_K(), l2 = std::min(l2, x.GetTemperature_K()), h2 = std::max(h2, x.GetTemperature_K());
      m.check(fabsl(e - e0) <= 1e-12L * e0, "energy", "after %.9g s the energy is %.17Lg J, at the start %.17Lg J", now, e, e0);
      m.check(l2 >= lo - 1e-9 && h2 <= hi + 1e-9, "hot_to_cold", "temperatures from %.12g to %.12g K, before from %.12g to %.12g K", l2, h2, lo, hi);
      lo = l2, hi = h2;
      m.ev("isolated_updates");
    }
  }
}

GROUP(two_bodies) {  // the difference of two temperatures falls exponentially, to the fourth order of the step
  world::Settings st = Place(m);
  world::World w(st);
  w.Step();
  auto& cel = w.sc[0]->Local().GetCelestialInformation();
  for (long c = 0; c < m.n(200, 2000); c++) {
    Net n = RandomNet(m, 10, true);
    n.n = 2;
    const double coupling = m.rng.logu(0.01, 3);
    n.C = {{0, coupling}, {coupling, 0}}, n.R = {{0, 0}, {0, 0}};
    while (n.cap.size() < 2) n.cap.push_back(m.rng.logu(10, 5000)), n.T0.push_back(m.rng.u(150, 400)), n.type.push_back(0), n.alpha.push_back(0), n.eps.push_back(0), n.area.push_back(0), n.normal.push_back(gen::dir(m.rng)), n.load.push_back(Table{{0, 10}, {0, 0}}), n.heater.push_back(0);
    const L lambda = coupling * (1 / (L)n.cap[0] + 1 / (L)n.cap[1]), x = m.rng.logu(0.02, 0.6);
    const double step = (double)(x / lambda);
    if (step < 1e-3) continue;
    m.begin("capacities %.6g and %.6g J/K, conductance %.6g W/K, %.6g K and %.6g K, step %.6g s", n.cap[0], n.cap[1], coupling, n.T0[0], n.T0[1], step);
    m.distinctv({n.cap[0], n.cap[1], coupling, step});
    auto t = Make(n, step, w, false);
    const L d0 = (L)n.T0[0] - n.T0[1], mean = ((L)n.cap[0] * n.T0[0] + (L)n.cap[1] * n.T0[1]) / ((L)n.cap[0] + n.cap[1]);
    long steps = 0;
    for (int k = 0; k < 20; k++) {
      steps += m.rng.i(1, 4);
      const double now = step * (double)steps;
      t->Propagate(&cel, now);
      const L lt = lambda * now, d = d0 * expl(-lt);
      const double tol = (double)(fabsl(d0) * (2 * powl(x, 4) / 120 * lt * expl(-lt) + 1e-9L)) + 1e-9;
      const L share = n.cap[1] / ((L)n.cap[0] + n.cap[1]);
      m.close(t->GetNodes()[0].GetTemperature_K(), (double)(mean + share * d), tol, "two_bodies", "temperature of the first body");
      m.close(t->GetNodes()[1].GetTemperature_K(), (double)(mean - (1 - share) * d), tol, "two_bodies", "temperature of the second body");
      m.ev("two_body_updates");
    }
  }
  m.require("two_body_updates", 500);
}

GROUP(from_files) {  // the whole spacecraft, with the network read from its files
  V3 sun{};
  {
    world::Settings st = Place(m);
    world::World w(st);
    sun = ref::unit(ref::v(w.global->GetCelestialInformation().GetPositionFromCenter_i_m("SUN")));
  }
  for (long c = 0; c < m.n(40, 400); c++) {
    world::Settings st = Place(m);
    const bool setting = m.rng.b(0.3);  // the Sun sets or rises during the run
    if (setting) {
      const L far = m.rng.u(6.9e6, 8e6), edge = 6378137 + (m.rng.b() ? 1 : -1) * m.rng.u(3e4, 9e4);
      const V3 p = ref::unit(ref::cross_(sun, gen::dir(m.rng)));
      const V3 r = edge * p + -sqrtl(far * far - edge * edge) * sun;
      const V3 u = ref::unit(ref::cross_(ref::cross_(r, p), r));
      st.Orbit(0, r, (edge > 6378137 ? -1 : 1) * sqrtl(3.986e14L / far) * u);
    }
    Net n = RandomNet(m, 5, false);
    const bool solar = m.rng.b() || setting;
    double step = m.rng.pick(std::vector<double>{0.5, 1, 2}), rk = step * m.rng.pick(std::vector<double>{1, 0.5, 0.1});
    const int every = (int)m.rng.i(1, 3);
    st.Times(step, 1000);
    st.B("TIME", "thermal_update_period_s", step * every);
    st.B("TIME", "thermal_integral_step_s", rk);
    const std::string d = "settings/sample_satellite/thermal_csv_files/";
    auto num = [](double v) { return mon::F("%.17g", v); };
    {
      std::ofstream f(d + "node.csv");
      f << "Node_id,Node_label,node_type,heater_node_id,capacity,alpha,epsilon,area,nx,ny,nz,T\n";
      for (size_t i = 0; i < n.n; i++) {
        L k = m.rng.b() ? 1 : (L)m.rng.logu(0.1, 10);  // normals are normalised
        f << i << ",N" << i << "," << n.type[i] << "," << n.heater[i] << "," << num(n.cap[i]) << "," << num(n.alpha[i]) << "," << num(n.eps[i]) << "," << num(n.area[i]);
        for (int j = 0; j < 3; j++) f << "," << num((double)(k * n.normal[i][j]));
        f << "," << num(n.T0[i]) << "\n";
      }
    }
    {
      size_t cols = 0;
      for (auto& l : n.load) cols = std::max(cols, l.t.size());
      if (cols < 2) cols = 2;
      std::vector<double> times;
      for (size_t k = 0; k < cols; k++) times.push_back(5.0 * (double)(k * (k + 1) / 2));
      std::ofstream f(d + "heatload.csv");
      f << "NodeID/Times[s]";
      for (double x : times) f << "," << num(x);
      f << "\n";
      for (size_t i = 0; i < n.n; i++) {
        n.load[i].t = times, n.load[i].w.resize(cols, 3.0);
        f << i;
        for (double x : n.load[i].w) f << "," << num(x);
        f << "\n";
      }
    }
    {
      std::ofstream f(d + "heaters.csv");
      f << "id,power,lower,upper\n";
      for (size_t i = 0; i < n.power.size(); i++) f << i + 1 << "," << num(n.power[i]) << "," << num(n.lower[i]) << "," << num(n.upper[i]) << "\n";
    }
    for (int which = 0; which < 2; which++) {
      std::ofstream f(d + (which ? "rij.csv" : "cij.csv"));
      f << "x";
      for (size_t i = 0; i < n.n; i++) f << ",N" << i;
      f << "\n";
      for (size_t i = 0; i < n.n; i++) {
        f << "N" << i;
        for (size_t j = 0; j < n.n; j++) f << "," << num(which ? n.R[i][j] : n.C[i][j]);
        f << "\n";
      }
    }
    st.Sat(0, "THERMAL", "calculation", "ENABLE");
    st.Sat(0, "THERMAL", "solar_calc_setting", solar ? "ENABLE" : "DISABLE");
    if (Rate(n, 420) * rk > 0.05L) {
      c--;
      continue;
    }
    m.begin("%zu nodes, %zu heaters, step %.3g s, thermal every %d steps, integration %.3g s%s", n.n, n.power.size(), step, every, rk, solar ? ", sunlight" : "");
    m.distinctv({(double)n.n, step, rk, n.T0[0]});
    world::World w(st);
    std::vector<L> T(n.T0.begin(), n.T0.end());
    std::vector<bool> on(n.power.size(), false);
    auto& tmp = w.sc[0]->Dyn().GetTemperature();
    size_t columns = 0, diffusive = 0;
    for (int x : n.type) diffusive += !x;
    for (char ch : tmp.GetLogHeader()) columns += ch == ',';
    m.check(columns == 5 * diffusive, "log_columns", "%zu columns for %zu nodes", columns, diffusive);
    double last = 0, before = 1;
    for (int k = 1; k <= 40; k++) {
      w.Step();
      std::stringstream ss(tmp.GetLogValue());
      std::vector<double> v;
      std::string f;
      while (std::getline(ss, f, ','))
        if (!world::Trim(f).empty()) v.push_back(strtod(f.c_str(), nullptr));
      if (!m.check(v.size() == columns, "log_columns", "%zu values in %zu columns", v.size(), columns)) break;
      if (w.Time().GetThermalPropagateFlag()) {
        std::vector<L> q = External(n, w, solar), in;
        const double lit = w.sc[0]->Local().GetSolarRadiationPressure().GetShadowCoefficient();
        if (setting && solar && k > 1 && (lit == 0) != (before == 0)) m.ev("world_sunset");
        before = lit;
        for (size_t i = 0; i < n.n; i++)
          if (n.heater[i] && on[(size_t)n.heater[i] - 1]) q[i] += n.power[(size_t)n.heater[i] - 1];
        const double t0 = last;
        last = k * step;
        Integrate(n, T, t0, last - t0, (int)ceil(every * step / rk * 8), q);
        size_t at = 0;
        for (size_t i = 0; i < n.n; i++) {
          if (n.type[i]) continue;
          double tol = 1e-3 + 1e-5 * 400 + n.load[i].Range() * rk / n.cap[i] * 8 + 2e-4 * n.area[i] * 500 / n.cap[i] * every * step;
          m.check(fabs(v[at] + 273.15 - (double)T[i]) <= tol, "world_temperature", "step %d: node %zu at %.9g degC, heat balance gives %.9Lg degC", k, i, v[at], T[i] - 273.15L);
          double total = (double)(q[i] + n.load[i].At(k * step));
          double jump = fmod(k * step, n.load[i].t.back()) == 0 ? n.load[i].Range() : 0;
          m.check(fabs(v[diffusive + at] - total) <= 1e-4 * (1 + fabs(total)) + 0.2 * n.area[i] + jump, "world_heat", "step %d: node %zu receives %.9g W (solar %.9g, albedo %.9g, infrared %.9g), expected %.9g W (%.9g from outside)", k, i, v[diffusive + at], v[2 * diffusive + at], v[3 * diffusive + at], v[4 * diffusive + at], total, (double)q[i]);
          T[i] = v[at] + 273.15;
          if (n.heater[i]) {
            size_t h = (size_t)n.heater[i] - 1;
            double deg = v[at];
            if (fabs(deg - n.lower[h]) < 1e-3 || fabs(deg - n.upper[h]) < 1e-3) {
              // too close to the threshold for the printed precision
              k = 1000;
              break;
            }
            if (on[h] ? deg > n.upper[h] : deg < n.lower[h]) on[h] = !on[h], m.ev("world_heater_switched");
          }
          at++;
        }
        m.ev("world_updates");
      }
    }
  }
  m.require("world_updates", 300);
  m.require("world_sunset", 1);
}
