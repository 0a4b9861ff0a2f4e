// C11: geomagnetic field
#include "world.hpp"
//
#include <environment/local/geomagnetic_field.hpp>
#include <environment/local/local_environment.hpp>
#include <math_physics/geodesy/geodetic_position.hpp>
#include <math_physics/geomagnetic/igrf.h>
#include <math_physics/randomization/global_randomization.hpp>

using s2e::environment::GeomagneticField;
using s2e::geodesy::GeodeticPosition;
static const L kRad = 3.14159265358979323846264L / 180;

// The coefficient table, read here
struct Igrf {
  std::vector<double> year;
  int n_max = 0;
  struct Row {
    char kind;
    int n, m;
    std::vector<double> v;
  };
  std::vector<Row> rows;
  explicit Igrf(const std::string& file) {
    std::ifstream in(file);
    std::string line;
    std::getline(in, line);
    std::getline(in, line);
    std::istringstream h(line);
    std::string t;
    h >> t >> t >> t;
    while (h >> t)
      if (t.find('-') == std::string::npos) year.push_back(atof(t.c_str()));
    while (std::getline(in, line)) {
      std::istringstream s(line);
      Row r;
      std::string k;
      if (!(s >> k >> r.n >> r.m)) continue;
      r.kind = k[0];
      double d;
      while (s >> d) r.v.push_back(d);
      rows.push_back(r);
      n_max = std::max(n_max, r.n);
    }
  }
  L At(const Row& r, L y) const {
    size_t last = year.size() - 1;
    if (y >= year[last]) return r.v[last] + r.v[last + 1] * (y - year[last]);
    size_t i = 0;
    while (i + 1 < last && y >= year[i + 1]) i++;
    return r.v[i] + (r.v[i + 1] - (L)r.v[i]) * (y - year[i]) / ((L)year[i + 1] - year[i]);
  }
};

// -grad of V = a sum (a/r)^(n+1) P_nm(sin lat) (g cos + h sin), Schmidt semi-normalised, with first-order automatic differentiation
struct D1 {
  L v = 0, g[3] = {0, 0, 0};
  D1() {}
  D1(L c) : v(c) {}
};
static D1 operator+(const D1& a, const D1& b) {
  D1 r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++) r.g[i] = a.g[i] + b.g[i];
  return r;
}
static D1 operator*(const D1& a, const D1& b) {
  D1 r;
  r.v = a.v * b.v;
  for (int i = 0; i < 3; i++) r.g[i] = a.v * b.g[i] + a.g[i] * b.v;
  return r;
}
static V3 FieldEcef(const Igrf& t, L year, V3 p_km) {
  const L a = 6371.2L;
  D1 x(p_km.x), y(p_km.y), z(p_km.z);
  x.g[0] = y.g[1] = z.g[2] = 1;
  D1 r2 = x * x + y * y + z * z, ri;
  L r = sqrtl(r2.v);
  ri.v = 1 / r;
  for (int i = 0; i < 3; i++) ri.g[i] = -0.5L / (r * r2.v) * r2.g[i];
  D1 ux = x * ri, uy = y * ri, u = z * ri, q = D1(a) * ri;
  const int N = t.n_max;
  std::vector<std::vector<L>> g(N + 1, std::vector<L>(N + 1, 0)), h = g;
  for (auto& row : t.rows) (row.kind == 'g' ? g : h)[row.n][row.m] = t.At(row, year);
  std::vector<D1> qn(N + 2);
  qn[0] = q;
  for (int n = 1; n <= N; n++) qn[n] = qn[n - 1] * q;
  D1 total, re(1), im(0), amm(1);
  for (int m = 0; m <= N; m++) {
    if (m > 0) {
      D1 s = re * ux + D1(-1) * im * uy;
      im = re * uy + im * ux;
      re = s;
      amm = D1(m == 1 ? 1.0L : sqrtl((2.0L * m - 1) / (2.0L * m))) * amm;  // Schmidt: P_mm = sqrt((2m-1)/(2m)) cos(lat) P_m-1,m-1
    }
    D1 p2, p1 = amm;
    for (int n = m; n <= N; n++) {
      D1 an = amm;
      if (n > m) {
        an = D1((2.0L * n - 1) / sqrtl((L)n * n - (L)m * m)) * u * p1;
        if (n - 2 >= m) an = an + D1(-sqrtl((((L)n - 1) * (n - 1) - (L)m * m) / ((L)n * n - (L)m * m))) * p2;
        p2 = p1;
        p1 = an;
      }
      if (n >= 1) total = total + qn[n] * an * (D1(g[n][m]) * re + D1(h[n][m]) * im);
    }
  }
  return {-a * total.g[0], -a * total.g[1], -a * total.g[2]};
}
static V3 EllipsoidPoint(L lat, L lon, L alt_km) {  // WGS84 as in the IGRF routine
  const L a = 6378.137L, b = a * (1 - 1 / 298.25722L), c = cosl(lat), s = sinl(lat), d = sqrtl(a * a * c * c + b * b * s * s);
  return {(a * a / d + alt_km) * c * cosl(lon), (a * a / d + alt_km) * c * sinl(lon), (b * b / d + alt_km) * s};
}
static const char* kFile = "settings/environment/magnetic_field/igrf13.coef";

static void RandomPlace(mon::Rng& r, double& lat, double& lon, double& alt) {
  switch (r.i(0, 9)) {
    case 0: lat = (r.b() ? 1 : -1) * M_PI / 2; break;
    case 1: lat = (r.b() ? 1 : -1) * (M_PI / 2 - r.logu(1e-9, 0.02)); break;
    case 2: lat = (r.b() ? 1 : -1) * r.u(1.38, 1.41); break;  // around the switch of the recursion
    case 3: lat = 0; break;
    default: lat = asin(r.u(-1, 1));
  }
  lon = r.b(0.2) ? r.i(-4, 4) * M_PI / 4 : r.u(-M_PI, 2 * M_PI);
  alt = r.b(0.2) ? 0 : r.logu(1e4, 4e7);
}
static double RandomYear(mon::Rng& r, const Igrf& t) {
  switch (r.i(0, 5)) {
    case 0: return 1900 + 5 * r.i(0, 24);                         // an epoch of the table
    case 1: return 1900 + 5 * r.i(1, 24) - r.logu(1e-9, 1e-2);     // just before
    case 2: return 1900 + 5 * r.i(0, 24) + r.logu(1e-9, 1e-2);     // just after
    case 3: return r.u(2020, 2026);
    default: return r.u(1900, 2026);
  }
}
GROUP(model) {
  world::Settings st;
  Igrf t(kFile);
  m.begin("table: %zu epochs, %zu coefficients, degree %d", t.year.size(), t.rows.size(), t.n_max);
  if (t.year.size() != 25 || t.rows.size() != 195) {
    fprintf(stderr, "unexpected table\n");
    _exit(3);
  }
  set_file_path(kFile);
  double year = 2005.5;
  for (long i = 0; i < m.n(4000, 60000); i++) {
    double lat, lon, alt, side = m.rng.u(-7, 7);
    RandomPlace(m.rng, lat, lon, alt);
    if (m.rng.b(0.1)) year = RandomYear(m.rng, t);  // the date changes between queries, as in a run over several epochs
    m.begin("year %.17g latitude %.17g longitude %.17g altitude %.17g m, sidereal angle %.17g", year, lat, lon, alt, side);
    m.distinctv({year, lat, lon, alt});
    double b[3];
    {
      world::Quiet q;
      IgrfCalc(year, lat, lon, alt, side, b);
    }
    V3 e = FieldEcef(t, year, EllipsoidPoint(lat, lon, alt / 1000.0L));
    V3 want = ref::rz(-side) * e;
    vclose(m, {b[0], b[1], b[2]}, want, 1e-4 + (double)ref::norm(want) * 3e-7, "model", "field in the inertial frame [nT]");
    m.ev("fields_compared");
    if (fabs(lat) > 1.57) m.ev("at_the_poles");
  }
  m.require("at_the_poles", 100);
}
GROUP(field_class) {
  world::Settings st;
  Igrf t(kFile);
  world::Quiet q;
  for (long i = 0; i < m.n(300, 4000); i++) {
    double lat, lon, alt, year = RandomYear(m.rng, t), side = m.rng.u(0, 6.283);
    GeomagneticField f(kFile, 0, 0, 0);
    for (int k = 0; k < 3; k++) {
      RandomPlace(m.rng, lat, lon, alt);
      auto qa = gen::quat(m.rng);
      GeodeticPosition g(lat, lon, alt);
      m.begin("year %.17g latitude %.17g longitude %.17g altitude %.17g m, sidereal angle %.17g, attitude %s", year, lat, lon, alt, side, S4(qa).c_str());
      m.distinctv({year, lat, lon, alt, qa[0], qa[3]});
      bool enabled = m.rng.b(0.9);
      Vec3 old_i = f.GetGeomagneticField_i_nT(), old_b = f.GetGeomagneticField_b_nT();
      f.IsCalcEnabled = enabled;
      f.CalcMagneticField(year, side, g, toq(qa));
      if (enabled) {
        V3 want = ref::rz(-side) * FieldEcef(t, year, EllipsoidPoint(lat, lon, alt / 1000.0L));
        double tol = 1e-4 + (double)ref::norm(want) * 3e-7;
        vclose(m, ref::v(f.GetGeomagneticField_i_nT()), want, tol, "inertial", "field in the inertial frame [nT]");
        vclose(m, ref::v(f.GetGeomagneticField_b_nT()), ref::rotq(qa) * want, tol, "body", "field in the body frame [nT]");
        m.ev("class_fields");
      } else {
        for (int j = 0; j < 3; j++)
          m.check(f.GetGeomagneticField_i_nT()[j] == old_i[j] && f.GetGeomagneticField_b_nT()[j] == old_b[j], "disabled", "the field changed while the calculation is disabled");
        m.ev("disabled_fields");
      }
    }
  }
}
GROUP(noise) {
  // two environments with their own noise settings, used in turn: each deviates as configured
  world::Settings st;
  Igrf t(kFile);
  world::Quiet q;
  const double year = 2021.3;
  GeodeticPosition g(0.3, 1.1, 5e5);
  V3 truth = ref::rz(-0.4L) * FieldEcef(t, year, EllipsoidPoint(0.3L, 1.1L, 500));
  for (long w = 0; w < m.n(16, 150); w++) {
    double white[2], walk[2], limit[2];
    for (int s = 0; s < 2; s++) {
      white[s] = m.rng.b(0.3) ? 0 : m.rng.logu(0.1, 500);
      walk[s] = m.rng.b(0.4) ? 0 : m.rng.logu(0.1, 300);
      limit[s] = m.rng.logu(1, 1000);
    }
    s2e::randomization::global_randomization.SetSeed(m.rng.i(1, 1 << 30));
    GeomagneticField f0(kFile, walk[0], limit[0], white[0]), f1(kFile, walk[1], limit[1], white[1]);
    GeomagneticField* f[2] = {&f0, &f1};
    const int n = 1500;
    m.begin("white noise %g and %g, random walk %g and %g, limit %g and %g", white[0], white[1], walk[0], walk[1], limit[0], limit[1]);
    m.distinctv({white[0], white[1], walk[0], walk[1]});
    std::vector<double> e[2][3];
    for (int k = 0; k < n; k++)
      for (int s = 0; s < 2; s++) {
        f[s]->CalcMagneticField(year, 0.4, g, Quat(0, 0, 0, 1));
        for (int j = 0; j < 3; j++) {
          e[s][j].push_back(f[s]->GetGeomagneticField_i_nT()[j] - (double)truth[j]);
          m.check(fabs(f[s]->GetGeomagneticField_b_nT()[j] - f[s]->GetGeomagneticField_i_nT()[j]) < 1e-6, "noise_body", "the body field does not carry the noise of the inertial field");
        }
      }
    for (int s = 0; s < 2; s++) {  // every axis has its own noise
      if (walk[s] == 0 && white[s] == 0) continue;
      for (int j = 0; j < 3; j++) {
        double a = 0, b = 0, ab = 0;
        for (int k = 1; k < n; k++) {
          const double x = e[s][j][k] - e[s][j][k - 1], y = e[s][(j + 1) % 3][k] - e[s][(j + 1) % 3][k - 1];
          a += x * x, b += y * y, ab += x * y;
        }
        m.check(fabs(ab) < 0.3 * sqrt(a * b), "axes_independent", "noise of the axes moves together, correlation %g", ab / sqrt(a * b));
        m.ev("axis_pairs");
      }
    }
    for (int s = 0; s < 2; s++)
      for (int j = 0; j < 3; j++) {
        double mean = 0, var = 0, d2 = 0, biggest = 0;
        for (double v : e[s][j]) mean += v / n, biggest = std::max(biggest, fabs(v));
        for (double v : e[s][j]) var += (v - mean) * (v - mean) / (n - 1);
        for (int k = 1; k < n; k++) d2 += (e[s][j][k] - e[s][j][k - 1]) * (e[s][j][k] - e[s][j][k - 1]) / (n - 1);
        if (walk[s] == 0 && white[s] == 0) {
          m.check(biggest < 0.02, "no_noise", "deviation of %g nT without noise", biggest);
          m.ev("noise_free");
        } else if (walk[s] == 0) {
          m.check(fabs(mean) < 5.5 * white[s] / sqrt(n) + 0.02, "white_mean", "mean %g of the white noise of %g nT", mean, white[s]);
          m.check(fabs(sqrt(var) / white[s] - 1) < 0.12, "white_deviation", "standard deviation %g, configured %g", sqrt(var), white[s]);
          m.check(biggest < 7 * white[s] + 0.02, "white_extreme", "deviation %g of the white noise of %g nT", biggest, white[s]);
          m.ev("white_noises");
        } else {
          m.check(biggest < limit[s] + 7 * white[s] + 7 * walk[s], "walk_limit", "deviation %g beyond the limit %g of the random walk (white %g, walk %g)", biggest, limit[s], white[s], walk[s]);
          if (white[s] > walk[s]) m.check(fabs(d2 / (2 * white[s] * white[s]) - 1) < 0.3, "white_under_walk", "increments %g, white noise %g", sqrt(d2), white[s]);
          if (white[s] == 0) m.check(d2 > 0, "walk_moves", "the random walk does not move");
          m.ev("random_walks");
        }
      }
  }
  m.require("white_noises", 3);
  m.require("random_walks", 3);
}
GROUP(in_simulation) {
  // in a simulation: the field of the moment, at the position and attitude which the step started from
  for (long w = 0; w < m.n(8, 80); w++) {
    world::Settings st;
    bool earth = m.rng.b(0.85);
    const char* rot = m.rng.b() ? "SIMPLE" : "FULL";
    st.B("CELESTIAL_INFORMATION", "rotation_mode(0)", rot);
    if (!earth) st.B("CELESTIAL_INFORMATION", "center_object", "MOON");
    double step = m.rng.pick(std::vector<double>{0.1, 1, 30});
    int y = (int)m.rng.i(2001, 2025);
    bool edge = m.rng.b(0.4);
    if (edge) y = (int)m.rng.pick(std::vector<double>{2004, 2009, 2014, 2019});
    st.Times(step, step * 20, edge ? mon::F("%d/12/31 23:59:%02d.0", y, step > 5 ? 0 : 59) : mon::F("%d/%02d/%02d %02d:%02d:00.0", y, (int)m.rng.i(1, 12), (int)m.rng.i(1, 28), (int)m.rng.i(0, 23), (int)m.rng.i(0, 59)));
    st.NoNoise(0);
    st.NoDisturbance(0);
    V3 a = gen::dir(m.rng), b = ref::unit(ref::cross_(a, V3{0.36L, 0.48L, 0.8L}));
    L r = m.rng.u(6.7e6, 9e6);
    st.Orbit(0, r * a, sqrtl(3.986e14L / r) * b);
    auto q0 = gen::quat(m.rng);
    st.Attitude(0, q0, V3{m.rng.n() * 0.1L, m.rng.n() * 0.1L, m.rng.n() * 0.1L});
    world::World wd(st);
    Igrf t(kFile);
    for (int k = 0; k < 12; k++) {
      auto& d = wd.sc[0]->Dyn();
      GeodeticPosition g = d.GetOrbit().GetGeodeticPosition();
      Quat qa = d.GetAttitude().GetQuaternion_i2b();
      {
        world::Quiet q;
        wd.Step();
      }
      m.begin("%s rotation, start %d%s, step %g s, update %d, center %s", rot, y, edge ? " at the end of the year" : "", step, k, earth ? "EARTH" : "MOON");
      V3 got_i = ref::v(wd.sc[0]->Local().GetGeomagneticField().GetGeomagneticField_i_nT()), got_b = ref::v(wd.sc[0]->Local().GetGeomagneticField().GetGeomagneticField_b_nT());
      if (!earth) {
        m.check(ref::norm(got_i) == 0 && ref::norm(got_b) == 0, "other_center", "geomagnetic field around the Moon");
        m.ev("other_center");
        continue;
      }
      m.distinctv({g.GetLatitude_rad(), g.GetLongitude_rad(), wd.Time().GetCurrentDecimalYear()});
      V3 ecef = FieldEcef(t, wd.Time().GetCurrentDecimalYear(), EllipsoidPoint(g.GetLatitude_rad(), g.GetLongitude_rad(), g.GetAltitude_m() / 1000.0L));
      V3 want = ref::rz(-(L)wd.Time().GetCurrentSiderealTime()) * ecef;
      vclose(m, got_i, want, 0.05, "simulated", "field in the simulation [nT]");
      vclose(m, got_b, ref::rotq(qa) * got_i, 1e-6, "simulated_body", "body field in the simulation [nT]");
      // the same vector carried by the rotation matrix of the Earth, up to the precession since 2000 and the step
      M3 dcm = ref::m(wd.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      vclose(m, got_i, ref::T(dcm) * ecef, (double)ref::norm(ecef) * ((rot[0] == 'S' ? 1e-6 : 0.008) + 8e-5 * step), "earth_rotation", "field against the rotation of the Earth [nT]");
      m.ev("simulated_fields");
    }
  }
  m.require("simulated_fields", 40);
}
