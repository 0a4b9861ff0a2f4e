// C10: gravity models
#include "world.hpp"
//
#include <disturbances/geopotential.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/gravity/gravity_potential.hpp>

using s2e::gravity::GravityPotential;
using Coef = std::vector<std::vector<double>>;

// Value, gradient and Hessian of a function of x, y, z (automatic differentiation)
struct AD {
  L v = 0, g[3] = {0, 0, 0}, h[3][3] = {{0}};
  AD() {}
  AD(L c) : v(c) {}
};
static AD operator+(const AD& a, const AD& b) {
  AD r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++) {
    r.g[i] = a.g[i] + b.g[i];
    for (int j = i; j < 3; j++) r.h[i][j] = a.h[i][j] + b.h[i][j];
  }
  return r;
}
static AD operator*(const AD& a, const AD& b) {
  AD r;
  r.v = a.v * b.v;
  for (int i = 0; i < 3; i++) {
    r.g[i] = a.v * b.g[i] + a.g[i] * b.v;
    for (int j = i; j < 3; j++) r.h[i][j] = a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.h[i][j] * b.v;
  }
  return r;
}
static AD operator*(L s, const AD& a) {
  AD r = a;
  r.v *= s;
  for (int i = 0; i < 3; i++) {
    r.g[i] *= s;
    for (int j = i; j < 3; j++) r.h[i][j] *= s;
  }
  return r;
}
static AD pow_(const AD& a, L p) {
  AD r;
  L f = powl(a.v, p), f1 = p * powl(a.v, p - 1), f2 = p * (p - 1) * powl(a.v, p - 2);
  r.v = f;
  for (int i = 0; i < 3; i++) {
    r.g[i] = f1 * a.g[i];
    for (int j = i; j < 3; j++) r.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j];
  }
  return r;
}

// Potential of fully normalised coefficients, written with derived Legendre functions of z/r and powers of (x + iy)/r
struct Field {
  V3 acc;
  M3 part;
  L scale_a = 0, scale_p = 0, potential = 0;
};
static Field Potential(int n_max, const Coef& c, const Coef& s, L mu, L a, V3 p) {
  AD x(p.x), y(p.y), z(p.z);
  x.g[0] = y.g[1] = z.g[2] = 1;
  AD ri = pow_(x * x + y * y + z * z, -0.5L);
  AD ux = x * ri, uy = y * ri, u = z * ri, q = a * ri;
  std::vector<AD> qn(n_max + 2);
  qn[0] = q;
  for (int n = 1; n <= n_max; n++) qn[n] = qn[n - 1] * q;
  AD total, re(1), im(0), amm(1);
  Field f;
  for (int m = 0; m <= n_max; m++) {
    if (m > 0) {
      AD t = re * ux + (-1.0L) * (im * uy);
      im = re * uy + im * ux;
      re = t;
      amm = (m == 1 ? sqrtl(3) : sqrtl((2.0L * m + 1) / (2.0L * m))) * amm;
    }
    AD p2, p1 = amm;
    for (int n = m; n <= n_max; n++) {
      AD an;
      if (n == m) {
        an = amm;
      } else {
        L k1 = sqrtl((2.0L * n + 1) * (2.0L * n - 1) / ((L)(n - m) * (n + m)));
        an = k1 * (u * p1);
        if (n - 2 >= m) an = an + (-sqrtl((2.0L * n + 1) * (L)(n + m - 1) * (n - m - 1) / ((2.0L * n - 3) * (L)(n + m) * (n - m)))) * p2;
        p2 = p1;
        p1 = an;
      }
      L cc = c[n][m], ss = m ? s[n][m] : 0;
      total = total + (qn[n] * an) * (cc * re + ss * im);
      L w = (fabsl(cc) + fabsl(ss)) * sqrtl(2 * n + 1) * qn[n].v;
      f.scale_a += w * (n + 1);
      f.scale_p += w * (n + 1) * (n + 2);
    }
  }
  L k = mu / a, r = ref::norm(p);
  f.potential = k * total.v;
  f.scale_a *= k / r;
  f.scale_p *= k / r / r;
  for (int i = 0; i < 3; i++) {
    f.acc[i] = k * total.g[i];
    for (int j = 0; j < 3; j++) f.part[i][j] = k * (i <= j ? total.h[i][j] : total.h[j][i]);
  }
  return f;
}
static V3 Place(mon::Rng& r, L a) {
  L d = r.b(0.2) ? a : a * r.logu(1.0, 20);
  switch (r.i(0, 9)) {
    case 0: return {0, 0, r.b() ? d : -d};  // exactly on the polar axis
    case 1: {
      L e = r.logu(1e-12, 1e-3), t = r.u(0, 6.3);
      return {d * e * cosl(t), d * e * sinl(t), r.b() ? d : -d};
    }
    case 2: {
      L t = r.u(0, 6.3);
      return {d * cosl(t), d * sinl(t), 0};
    }
    default: return d * gen::dir(r);
  }
}
static void Random(mon::Rng& r, int n, Coef& c, Coef& s) {
  c.assign(n + 1, std::vector<double>(n + 1, 0.0));
  s = c;
  int kind = (int)r.i(0, 3);
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= i; j++) {
      double k = kind == 0 ? 1.0 : i ? 1e-5 / (i * i) : 1.0;
      if (kind == 2 && !(i == n || j == 0)) k = 0;  // zonal terms and the last degree only
      c[i][j] = r.n() * k;
      s[i][j] = j ? r.n() * k : 0.0;
    }
  if (kind == 3) {  // one single coefficient
    int i0 = (int)r.i(0, n), j0 = (int)r.i(0, i0);
    bool sine = j0 && r.b();
    for (auto& v : c) std::fill(v.begin(), v.end(), 0.0);
    s = c;
    (sine ? s : c)[i0][j0] = 1.0;
  }
}
static void OneField(mon::Mon& m, int n, int places) {
  Coef c, s;
  Random(m.rng, n, c, s);
  L mu = m.rng.b() ? 3.986004418e14L : (L)m.rng.logu(1e9, 1e20), a = m.rng.b() ? 6378136.3L : (L)m.rng.logu(1e5, 1e8);
  mu = (double)mu;
  a = (double)a;
  GravityPotential g((size_t)n, c, s, (double)mu, (double)a);
  Vec3 first(0.0), first_p(0.0);
  for (int k = 0; k < places; k++) {
    V3 pv = Place(m.rng, a);
    Vec3 p = tov(pv);
    m.begin("degree %d mu %.17g a %.17g position %s", n, (double)mu, (double)a, S3(p).c_str());
    m.distinctv({(double)n, p[0], p[1], p[2]});
    Field f = Potential(n, c, s, mu, a, ref::v(p));
    // both orders of the calls, and repeated calls: the result depends on the position only
    Vec3 acc(0.0);
    Mat3 d(0.0);
    if (m.rng.b()) {
      acc = g.CalcAcceleration_xcxf_m_s2(p);
      d = g.CalcPartialDerivative_xcxf_s2(p);
    } else {
      d = g.CalcPartialDerivative_xcxf_s2(p);
      acc = g.CalcAcceleration_xcxf_m_s2(p);
    }
    double ta = (double)(f.scale_a * 2e-14L * (n + 5)), tp = (double)(f.scale_p * 2e-14L * (n + 5));
    vclose(m, ref::v(acc), f.acc, ta, "acceleration", "gradient of the potential");
    mclose(m, ref::m(d), f.part, tp, "partial", "second derivatives of the potential");
    L tr = (L)d[0][0] + d[1][1] + d[2][2];
    m.check(fabsl(tr) <= tp, "trace", "trace %Lg of the partial derivatives (scale %Lg)", tr, f.scale_p);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < i; j++) m.check(fabsl((L)d[i][j] - d[j][i]) <= tp, "symmetry", "asymmetric partial derivatives %g %g", d[i][j], d[j][i]);
    if (k == 0) first = acc, first_p = p;
    if (k == places - 1) {
      Vec3 again = g.CalcAcceleration_xcxf_m_s2(first_p);
      for (int i = 0; i < 3; i++) m.check(again[i] == first[i], "history", "another result %.17g for the same position, first %.17g", again[i], first[i]);
    }
    m.ev("fields_compared");
    if (p[0] == 0 && p[1] == 0) m.ev("on_the_axis");
  }
}
GROUP(potential) {
  for (long i = 0; i < m.n(500, 6000); i++) OneField(m, (int)m.rng.i(2, 12), 5);
  for (long i = 0; i < m.n(40, 500); i++) OneField(m, (int)m.rng.i(13, 60), 3);
  m.require("fields_compared", 1000);
  m.require("on_the_axis", 20);
}
GROUP(potential_high) {
  for (long i = 0; i < m.n(5, 60); i++) OneField(m, (int)m.rng.i(61, 200), 2);
  for (long i = 0; i < m.n(1, 4); i++) OneField(m, 360, 2);
  // oracle against closed forms: J2 and C22
  Coef c(3, std::vector<double>(3, 0.0)), s = c;
  c[2][0] = -4.841e-4;
  c[2][2] = 2.4e-6;
  s[2][2] = -1.4e-6;
  L mu = 3.986004418e14L, a = 6378136.3L;
  GravityPotential g(2, c, s, (double)mu, (double)a);
  for (int k = 0; k < 200; k++) {
    Vec3 p = tov(Place(m.rng, a));
    m.begin("closed form at %s", S3(p).c_str());
    L x = p[0], y = p[1], z = p[2], r = ref::norm(ref::v(p));
    L c20 = sqrtl(5) * c[2][0], c22 = sqrtl(5.0L / 12) * c[2][2], s22 = sqrtl(5.0L / 12) * s[2][2];
    // U = mu a^2 / r^5 * (c20 (z^2 - (x^2+y^2)/2) + 3 c22 (x^2-y^2) + 6 s22 x y)
    L b = c20 * (z * z - (x * x + y * y) / 2) + 3 * c22 * (x * x - y * y) + 6 * s22 * x * y, k5 = mu * a * a / powl(r, 5);
    V3 w{k5 * (-c20 * x + 6 * c22 * x + 6 * s22 * y - 5 * b * x / r / r), k5 * (-c20 * y - 6 * c22 * y + 6 * s22 * x - 5 * b * y / r / r),
         k5 * (2 * c20 * z - 5 * b * z / r / r)};
    L sc = mu * a * a / powl(r, 4) * 1e-3;
    vclose(m, ref::v(g.CalcAcceleration_xcxf_m_s2(p)), w, (double)(sc * 1e-12), "closed_form", "J2 and C22 acceleration");
    vclose(m, Potential(2, c, s, mu, a, ref::v(p)).acc, w, (double)(sc * 1e-12), "oracle", "oracle of the harness");
    m.ev("closed_forms");
  }
  for (size_t n = 0; n < 2; n++) {
    GravityPotential z0(n, Coef(2, std::vector<double>(2, 1.0)), Coef(2, std::vector<double>(2, 1.0)));
    m.begin("degree %zu: no field", n);
    Vec3 acc = z0.CalcAcceleration_xcxf_m_s2(vec(7e6, 1e5, -3e5));
    Mat3 d = z0.CalcPartialDerivative_xcxf_s2(vec(7e6, 1e5, -3e5));
    for (int i = 0; i < 3; i++) {
      m.check(acc[i] == 0, "no_field", "acceleration of degree %zu", n);
      for (int j = 0; j < 3; j++) m.check(d[i][j] == 0, "no_field", "partial derivative of degree %zu", n);
    }
  }
}

static void WriteEgm(const std::string& file, int n, const Coef& c, const Coef& s) {
  FILE* f = fopen(file.c_str(), "w");
  for (int i = 2; i <= n; i++)
    for (int j = 0; j <= i; j++) fprintf(f, "%4d%4d%25.15E%25.15E%15.8E%15.8E\n", i, j, c[i][j], s[i][j], 1e-10, 2e-10);
  fclose(f);
}
static void WriteGrgm(const std::string& file, int n, const Coef& c, const Coef& s, double r_km, double mu_km) {
  FILE* f = fopen(file.c_str(), "w");
  fprintf(f, " %.10E, %.15E, 0.000000000000000E+00, %d, %d, 1, 0.0, 0.0\n", r_km, mu_km, n, n);
  for (int i = 1; i <= n; i++)
    for (int j = 0; j <= i; j++) fprintf(f, "%5d,%5d, %.15E, %.15E, %.15E, %.15E\n", i, j, c[i][j], s[i][j], 1e-10, 2e-10);
  fclose(f);
}
// coefficients as printed in the files (16 digits)
static void RandomFileCoef(mon::Rng& r, int n, Coef& c, Coef& s) {
  c.assign(n + 1, std::vector<double>(n + 1, 0.0));
  s = c;
  for (int i = 1; i <= n; i++)
    for (int j = 0; j <= i; j++) {
      c[i][j] = atof(mon::F("%.15E", r.n() * 1e-4 / i).c_str());
      s[i][j] = j ? atof(mon::F("%.15E", r.n() * 1e-4 / i).c_str()) : 0;
    }
}
static void RandomOrbit(mon::Rng& r, L mu, L r0, V3& p, V3& v) {
  V3 a = gen::dir(r), b = gen::dir(r);
  V3 c = ref::unit(ref::cross_(a, b));
  if (!(ref::norm(c) > 0.5L)) c = ref::unit(ref::cross_(a, V3{0.36L, 0.48L, 0.8L}));
  p = r0 * a;
  v = sqrtl(mu / r0) * ref::cross_(c, a);
}
GROUP(earth) {
  const L mu = s2e::environment::earth_gravitational_constant_m3_s2, a = s2e::environment::earth_equatorial_radius_m;
  for (long w = 0; w < m.n(12, 150); w++) {
    world::Settings st;
    const char* mode[] = {"FULL", "SIMPLE", "IDLE"};
    std::string rot = mode[m.rng.i(0, 2)];
    st.B("CELESTIAL_INFORMATION", "rotation_mode(0)", rot);
    double step = m.rng.pick(std::vector<double>{1, 60, 600});
    st.Times(step, step * 40, mon::F("20%02d/%02d/%02d %02d:%02d:00.0", (int)m.rng.i(10, 29), (int)m.rng.i(1, 12), (int)m.rng.i(1, 28), (int)m.rng.i(0, 23), (int)m.rng.i(0, 59)));
    st.NoNoise(0);
    st.NoDisturbance(0);
    V3 p, v;
    RandomOrbit(m.rng, mu, m.rng.u(6.6e6, 9e6), p, v);
    st.Orbit(0, p, v, "RK4");
    int n = (int)m.rng.i(2, 20);
    Coef c, s;
    RandomFileCoef(m.rng, n, c, s);
    c[1][0] = c[1][1] = s[1][1] = 0;  // not in the file
    WriteEgm("egm.txt", n, c, s);
    int used = m.rng.b() ? n : (int)m.rng.i(2, n);  // a part of the file
    world::World wd(st);
    world::Quiet q;
    s2e::disturbances::Geopotential direct(used, "egm.txt");
    world::Set("d.ini", "GEOPOTENTIAL", "calculation", std::string("ENABLE"));
    world::Set("d.ini", "GEOPOTENTIAL", "logging", std::string("ENABLE"));
    world::Set("d.ini", "GEOPOTENTIAL", "degree", (double)used);
    world::Set("d.ini", "GEOPOTENTIAL", "coefficients_file_path", std::string("egm.txt"));
    s2e::disturbances::Geopotential from_ini = s2e::disturbances::InitGeopotential("d.ini");
    s2e::disturbances::Geopotential copy(from_ini);
    for (int k = 0; k < 6; k++) {
      wd.Step();
      m.begin("rotation %s degree %d of %d, step %g, orbit %s %s, update %d", rot.c_str(), used, n, step, S(p).c_str(), S(v).c_str(), k);
      V3 r = ref::v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
      M3 dcm = ref::m(wd.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      m.distinctv({(double)r.x, (double)r.y, (double)r.z});
      Field f = Potential(used, c, s, mu, a, dcm * r);
      V3 want = ref::T(dcm) * f.acc;
      int id = 0;
      for (auto* d : {&direct, &from_ini, &copy}) {
        d->Update(wd.sc[0]->Local(), wd.sc[0]->Dyn());
        vclose(m, ref::v(d->GetAcceleration_i_m_s2()), want, (double)(f.scale_a * 1e-11L), "geopotential", id == 0 ? "geopotential" : id == 1 ? "geopotential from the settings" : "copied geopotential");
        id++;
        for (int i = 0; i < 3; i++) m.check(d->GetForce_b_N()[i] == 0 && d->GetTorque_b_Nm()[i] == 0, "only_acceleration", "force or torque of the geopotential");
      }
      m.ev("earth_fields");
    }
  }
  m.require("earth_fields", 40);
}
GROUP(earth_enabled) {
  // as a part of the simulation: the acceleration applied at each update is the one of the state before, within the rotation of one step
  const L mu = s2e::environment::earth_gravitational_constant_m3_s2, a = s2e::environment::earth_equatorial_radius_m;
  for (long w = 0; w < m.n(8, 80); w++) {
    world::Settings st;
    st.Times(0.1, 10);
    st.NoNoise(0);
    st.NoDisturbance(0);
    V3 p, v;
    RandomOrbit(m.rng, mu, m.rng.u(6.6e6, 9e6), p, v);
    st.Orbit(0, p, v, "RK4");
    int n = (int)m.rng.i(2, 12);
    Coef c, s;
    RandomFileCoef(m.rng, n, c, s);
    c[1][0] = c[1][1] = s[1][1] = 0;
    WriteEgm("egm.txt", n, c, s);
    st.Dist(0, "GEOPOTENTIAL", "calculation", "ENABLE");
    st.Dist(0, "GEOPOTENTIAL", "degree", std::to_string(n));
    st.Dist(0, "GEOPOTENTIAL", "coefficients_file_path", "egm.txt");
    world::World wd(st);
    for (int k = 0; k < 4; k++) {
      V3 r = ref::v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
      {
        world::Quiet q;
        wd.Step();
      }
      m.begin("degree %d orbit %s %s update %d", n, S(p).c_str(), S(v).c_str(), k);
      M3 dcm = ref::m(wd.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      Field f = Potential(n, c, s, mu, a, dcm * r);
      V3 want = ref::T(dcm) * f.acc;
      // 0.1 s of the Earth rotation: 7.3e-6 rad
      vclose(m, ref::v(wd.sc[0]->Dist().GetAcceleration_i_m_s2()), want, (double)(f.scale_a * n * 2e-5L), "applied", "acceleration handed to the orbit");
      m.ev("applied_fields");
    }
  }
}
GROUP(moon) {
  for (long w = 0; w < m.n(12, 150); w++) {
    world::Settings st;
    const char* mode[] = {"IDLE", "SIMPLE", "IAU_MOON"};
    std::string rot = mode[m.rng.i(0, 2)];
    st.B("CELESTIAL_INFORMATION", "center_object", "MOON");
    st.B("CELESTIAL_INFORMATION", "rotation_mode(2)", rot);
    double step = m.rng.pick(std::vector<double>{1, 60, 600});
    st.Times(step, step * 40, mon::F("20%02d/%02d/%02d %02d:%02d:00.0", (int)m.rng.i(10, 29), (int)m.rng.i(1, 12), (int)m.rng.i(1, 28), (int)m.rng.i(0, 23), (int)m.rng.i(0, 59)));
    st.NoNoise(0);
    st.NoDisturbance(0);
    int n = w % 6 == 5 ? (int)m.rng.i(101, 140) : (int)m.rng.i(2, 20), used = m.rng.b() ? n : (int)m.rng.i(std::max(2, n - 40), n);
    double r_km = 1738.0 + m.rng.i(-5, 5), mu_km = 4902.8 + m.rng.i(-9, 9) * 0.1;
    V3 p, v;
    RandomOrbit(m.rng, 4.9e12L, m.rng.u(1.8e6, 4e6), p, v);
    st.Orbit(0, p, v, "RK4");
    Coef c, s;
    RandomFileCoef(m.rng, n, c, s);
    WriteGrgm("grgm.txt", n, c, s, r_km, mu_km);
    bool enabled = m.rng.b();
    if (enabled) {
      st.Dist(0, "LUNAR_GRAVITY_FIELD", "calculation", "ENABLE");
      st.Dist(0, "LUNAR_GRAVITY_FIELD", "degree", std::to_string(used));
      st.Dist(0, "LUNAR_GRAVITY_FIELD", "coefficients_file_path", "grgm.txt");
    }
    world::World wd(st);
    world::Quiet q;
    s2e::disturbances::LunarGravityField direct(used, "grgm.txt");
    s2e::disturbances::LunarGravityField copy(direct);
    for (int k = 0; k < 6; k++) {
      V3 before = ref::v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
      wd.Step();
      m.begin("rotation %s degree %d of %d, step %g, orbit %s %s, update %d", rot.c_str(), used, n, step, S(p).c_str(), S(v).c_str(), k);
      V3 r = ref::v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
      M3 dcm = ref::m(wd.global->GetCelestialInformation().GetMoonRotation().GetDcmJ2000ToMcmf());
      m.distinctv({(double)r.x, (double)r.y, (double)r.z});
      auto want = [&](V3 x, L& scale) {
        Field f = Potential(used, c, s, (L)mu_km * 1e9L, (L)r_km * 1e3L, dcm * x);
        scale = f.scale_a;
        return ref::T(dcm) * f.acc;
      };
      L scale;
      V3 w1 = want(r, scale);
      for (auto* d : {&direct, &copy}) {
        d->Update(wd.sc[0]->Local(), wd.sc[0]->Dyn());
        vclose(m, ref::v(d->GetAcceleration_i_m_s2()), w1, (double)(scale * 1e-11L), "lunar", "lunar gravity field");
      }
      if (enabled) {
        V3 w0 = want(before, scale);
        vclose(m, ref::v(wd.sc[0]->Dist().GetAcceleration_i_m_s2()), w0, (double)(scale * 1e-11L), "applied_lunar", "acceleration handed to the orbit");
        m.ev("applied_fields");
      }
      m.ev("moon_fields");
    }
  }
  m.require("moon_fields", 40);
  m.require("applied_fields", 5);
}
GROUP(limits) {
  // degrees beyond the model, and files that do not give the coefficients: no field or the limited field, never a wrong memory access
  world::Settings st;
  st.Times(1, 10);
  st.NoNoise(0);
  st.NoDisturbance(0);
  world::World wd(st);
  world::Quiet q;
  wd.Step();
  const L mu = s2e::environment::earth_gravitational_constant_m3_s2, a = s2e::environment::earth_equatorial_radius_m;
  Coef c, s;
  RandomFileCoef(m.rng, 360, c, s);
  c[1][0] = c[1][1] = s[1][1] = 0;
  WriteEgm("egm360.txt", 360, c, s);
  V3 r = ref::v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
  M3 dcm = ref::m(wd.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
  for (int degree : {360, 361, 400}) {
    m.begin("configured degree %d, file of degree 360", degree);
    Field f = Potential(360, c, s, mu, a, dcm * r);
    s2e::disturbances::Geopotential g(degree, "egm360.txt");
    g.Update(wd.sc[0]->Local(), wd.sc[0]->Dyn());
    vclose(m, ref::v(g.GetAcceleration_i_m_s2()), ref::T(dcm) * f.acc, (double)(f.scale_a * 1e-11L), "degree_limit", "geopotential of the limited degree");
    m.ev("limited_degree");
  }
  for (int degree : {0, 1, 2, 5, 50}) {
    for (const char* file : {"missing.txt", "truncated.txt", "empty.txt"}) {
      m.begin("degree %d file %s", degree, file);
      if (file[0] == 't') WriteEgm(file, 1, c, s);
      if (file[0] == 'e') fclose(fopen(file, "w"));
      s2e::disturbances::Geopotential g(degree, file);
      g.Update(wd.sc[0]->Local(), wd.sc[0]->Dyn());
      for (int i = 0; i < 3; i++) m.check(g.GetAcceleration_i_m_s2()[i] == 0, "no_file_no_field", "acceleration %g without coefficients", g.GetAcceleration_i_m_s2()[i]);
      if (file[0] == 'm') {
        s2e::disturbances::LunarGravityField l(degree, file);
        l.Update(wd.sc[0]->Local(), wd.sc[0]->Dyn());
        for (int i = 0; i < 3; i++) m.check(l.GetAcceleration_i_m_s2()[i] == 0, "no_file_no_field", "lunar acceleration %g without coefficients", l.GetAcceleration_i_m_s2()[i]);
      }
      m.ev("files_without_coefficients");
    }
  }
}
