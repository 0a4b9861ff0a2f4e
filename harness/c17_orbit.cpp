// C17: orbit propagators
#include "world.hpp"
//
#include <dynamics/orbit/encke_orbit_propagation.hpp>
#include <dynamics/orbit/initialize_orbit.hpp>
#include <dynamics/orbit/kepler_orbit_propagation.hpp>
#include <dynamics/orbit/rk4_orbit_propagation.hpp>
#include <dynamics/orbit/sgp4_orbit_propagation.hpp>
#include <dynamics/orbit/time_series_file_orbit_propagation.hpp>
namespace orb = s2e::dynamics::orbit;
static const L kMu = 3.986004418e14L;

struct PV {
  V3 r, v;
};
// two-body motion from position and velocity (bound orbits)
static PV TwoBody(const PV& s, L dt, L mu = kMu) {
  L r0 = ref::norm(s.r), a = 1 / (2 / r0 - ref::dot_(s.v, s.v) / mu), n = sqrtl(mu / (a * a * a)), sig = ref::dot_(s.r, s.v) / sqrtl(mu);
  L M = n * dt, per = 2 * M_PIl;
  L turns = floorl(M / per + 0.5L);
  M -= turns * per;
  L ec = 1 - r0 / a, es = sig / sqrtl(a);
  L x = M;
  for (int i = 0; i < 60; i++) {
    L f = x - ec * sinl(x) + es * (1 - cosl(x)) - M, d = 1 - ec * cosl(x) + es * sinl(x);
    L st = f / d;
    if (fabsl(st) > 0.7L) st = st > 0 ? 0.7L : -0.7L;
    x -= st;
    if (fabsl(st) < 1e-19L) break;
  }
  L c = cosl(x), si = sinl(x), r = a + (r0 - a) * c + sig * sqrtl(a) * si;
  L f = 1 - a / r0 * (1 - c), g = M / n + (si - x) / n, fd = -sqrtl(mu * a) / (r * r0) * si, gd = 1 - a / r * (1 - c);
  return {f * s.r + g * s.v, fd * s.r + gd * s.v};
}
// accelerated motion: long double Runge-Kutta with small steps
static PV Accelerated(PV s, V3 acc, L dt, L angle_step) {
  auto D = [&](const PV& p) {
    L r = ref::norm(p.r);
    return PV{p.v, (-kMu / (r * r * r)) * p.r + acc};
  };
  auto A = [](const PV& p, L k, const PV& d) { return PV{p.r + k * d.r, p.v + k * d.v}; };
  L left = dt;
  while (left > 0) {
    L rate = ref::norm(s.v) / ref::norm(s.r);
    L h = std::min(left, angle_step / rate);
    PV a = D(s), b = D(A(s, h / 2, a)), c = D(A(s, h / 2, b)), d = D(A(s, h, c));
    s = A(A(A(A(s, h / 6, a), h / 3, b), h / 3, c), h / 6, d);
    left -= h;
    if (left < 1e-12L) break;
  }
  return s;
}
static PV RandomOrbit(mon::Mon& m, double emax = 0.75, bool low = false) {
  double e = m.rng.b(0.25) ? m.rng.u(0, 1e-4) : m.rng.u(0, emax);
  double rp = low ? m.rng.u(6.379e6, 6.7e6) : m.rng.logu(6.7e6, 2.5e7), inc = m.rng.b(0.15) ? m.rng.pick(std::vector<double>{0, M_PI / 2, M_PI, 1e-5}) : m.rng.u(0, M_PI);
  double raan = m.rng.u(0, 6.283), arg = m.rng.u(0, 6.283), nu = m.rng.u(0, 6.283);
  L p = rp * (1 + e), r = p / (1 + e * cosl(nu)), k = sqrtl(kMu / p);
  M3 R = ref::T(ref::rz(arg) * ref::rx(inc) * ref::rz(raan));
  return {R * V3{r * cosl(nu), r * sinl(nu), 0}, R * V3{-k * sinl(nu), k * (e + cosl(nu)), 0}};
}
static L Perigee(const PV& s) {
  L r = ref::norm(s.r), a = 1 / (2 / r - ref::dot_(s.v, s.v) / kMu);
  V3 h = ref::cross_(s.r, s.v), e = (1 / kMu) * ref::cross_(s.v, h) - ref::unit(s.r);
  return a * (1 - ref::norm(e));
}
static L Period(const PV& s) {
  L r = ref::norm(s.r), a = 1 / (2 / r - ref::dot_(s.v, s.v) / kMu);
  return 2 * M_PIl * sqrtl(a * a * a / kMu);
}
static PV Get(const orb::Orbit& o) { return {ref::v(o.GetPosition_i_m()), ref::v(o.GetVelocity_i_m_s())}; }

// everything derived must describe the state of the moment
static void Derived(mon::Mon& m, const orb::Orbit& o, const s2e::environment::CelestialInformation& cel) {
  const M3 e = ref::m(cel.GetEarthRotation().GetDcmJ2000ToEcef());
  PV s = Get(o);
  const L we = 7.292115e-5L;
  vclose(m, ref::v(o.GetPosition_ecef_m()), e * s.r, 1e-13 * (double)ref::norm(s.r) + 1e-7, "ecef_position", "Earth-fixed position");
  vclose(m, ref::v(o.GetVelocity_ecef_m_s()), e * (s.v - ref::cross_({0, 0, we}, s.r)), 3e-9 * we * (double)ref::norm(s.r) + 1e-9 + 1e-6, "ecef_velocity", "Earth-fixed velocity");
  auto g = o.GetGeodeticPosition();
  const L lat = g.GetLatitude_rad(), lon = g.GetLongitude_rad(), alt = g.GetAltitude_m();
  const L a = 6378137, f = 1 / 298.257223563L, e2 = f * (2 - f), n = a / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
  V3 p{(n + alt) * cosl(lat) * cosl(lon), (n + alt) * cosl(lat) * sinl(lon), (n * (1 - e2) + alt) * sinl(lat)};
  vclose(m, p, e * s.r, 0.5 + 1e-9 * (double)ref::norm(s.r), "geodetic", "place of the geodetic coordinates and the Earth-fixed position");
  m.check(o.GetLatitude_rad() == g.GetLatitude_rad() && o.GetLongitude_rad() == g.GetLongitude_rad() && o.GetAltitude_m() == g.GetAltitude_m(), "geodetic_getters", "getters differ");
  auto x = o.GetLatLonAlt();
  m.check(x[0] == (double)lat && x[1] == (double)lon && x[2] == (double)alt, "geodetic_getters", "GetLatLonAlt %s", S3(x).c_str());
  // local vertical frame: radial, along track, orbit normal
  M3 q = ref::rotq(o.CalcQuaternion_i2lvlh());
  V3 ex = ref::unit(s.r), ez = ref::unit(ref::cross_(s.r, s.v)), ey = ref::cross_(ez, ex);
  L d = 0;
  V3 ax[3] = {ex, ey, ez};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) d = std::max(d, fabsl(q[i][j] - ax[i][j]));
  m.check(d < 1e-13L, "lvlh", "the local vertical frame is %.3Lg off", d);
}

struct Earth {
  world::Settings s;
  world::World w;
  const s2e::environment::CelestialInformation* cel;
  Earth() : s(1), w((s.Times(1, 1000), s), false), cel(&w.global->GetCelestialInformation()) {}
};

// ---- numerical propagation ----
GROUP(numerical) {
  Earth earth;
  for (long c = 0; c < m.n(400, 4000); c++) {
    PV s = RandomOrbit(m, 0.75, m.rng.b(0.15));  // some just above the ground
    L wp = sqrtl(kMu / powl(Perigee(s), 3)) * 1.5L;
    double step = m.rng.logu(0.003, 0.03) / (double)wp;
    V3 acc = m.rng.b(0.3) ? V3{0, 0, 0} : (L)m.rng.logu(1e-7, 1e-3) * gen::dir(m.rng);
    m.begin("r %s v %s, integration step %.6g s, acceleration %s", S(s.r).c_str(), S(s.v).c_str(), step, S(acc).c_str());
    m.distinctv({(double)s.r.x, (double)s.v.y, step});
    orb::Rk4OrbitPropagation a(earth.cel, (double)kMu, step, tov(s.r), tov(s.v)), b(earth.cel, (double)kMu, step, tov(s.r), tov(s.v));
    s = {ref::v(tov(s.r)), ref::v(tov(s.v))};
    Derived(m, a, *earth.cel);
    m.check(vdiff(Get(a).r, s.r) == 0 && vdiff(Get(a).v, s.v) == 0, "initial", "initial position %s velocity %s", S(Get(a).r).c_str(), S(Get(a).v).c_str());
    a.Propagate(5, 2458900);
    m.check(vdiff(Get(a).r, s.r) == 0, "disabled", "a disabled orbit moved");
    a.SetIsCalcEnabled(true), b.SetIsCalcEnabled(true);
    const bool free = ref::norm(acc) == 0, once = !m.rng.b(0.02) || !free;
    const int updates = once ? (int)m.rng.i(3, 40) : 3000;
    double t = 0, size = 0;
    PV now = s;
    L turned = 0;
    for (int k = 0; k < updates; k++) {
      double dt = m.rng.b(0.3) ? step : step * m.rng.u(0.05, 12);
      double mass = m.rng.u(1, 500);
      if (!free && m.rng.b()) acc = (L)m.rng.logu(1e-7, 1e-3) * gen::dir(m.rng);
      auto q = gen::quat(m.rng);
      // the acceleration may come as acceleration, force in the inertial or force in the body frame
      V3 p1 = (L)m.rng.u(0, 1) * acc, p2 = (L)m.rng.u(0, 1) * acc, p3 = acc - p1 - p2;
      a.SetAcceleration_i_m_s2(vec(0, 0, 0));
      if (!free) {
        a.AddAcceleration_i_m_s2(tov(p1));
        a.AddForce_i_N(tov((L)mass * p2), mass);
        a.AddForce_b_N(tov(ref::rotq(q) * ((L)mass * p3)), toq(q), mass);
      }
      b.SetAcceleration_i_m_s2(tov(acc));
      PV next = free ? TwoBody(s, t + dt) : Accelerated(now, acc, dt, 0.004L);
      if (Perigee(next) < 6.3785e6L || ref::norm(next.v) > sqrtl(1.9L * kMu / ref::norm(next.r))) break;  // leaves the bound orbits above the ground
      a.Propagate(t + dt, 2458900);
      if (m.rng.b(0.2)) a.Propagate(t + dt, 2458900);  // no time has passed
      double u = m.rng.u(0.1, 0.9) * dt;
      b.Propagate(t + u, 2458900), b.Propagate(t + dt, 2458900);
      now = next;
      t += dt;
      L w = sqrtl(kMu / powl(std::min(Perigee(now), ref::norm(now.r)), 3)) * 1.5L;
      turned += w * dt;
      size = std::max(size, (double)ref::norm(now.r));
      double tol = (double)(powl(w * step, 4) * turned * (1 + turned) * 0.5L) + 2e-14 * (double)((1 + turned) * (1 + turned)) * (k + 1) + 1e-14;
      vclose(m, Get(a).r, now.r, tol * size, "position", "position and the solution of the equation of motion");
      vclose(m, Get(a).v, now.v, tol * size * (double)w, "velocity", "velocity and the solution of the equation of motion");
      vclose(m, Get(b).r, Get(a).r, 2 * tol * size, "split", "position when the time is split differently");
      if (k < 5 || k % 100 == 0) Derived(m, a, *earth.cel);
      auto rot = gen::quat(m.rng);
      a.UpdateByAttitude(toq(rot));
      vclose(m, ref::v(a.GetVelocity_b_m_s()), ref::rotq(rot) * Get(a).v, 1e-11, "body_velocity", "velocity in the body frame");
      m.ev(free ? "free_updates" : "accelerated_updates");
    }
  }
  m.require("free_updates", 100), m.require("accelerated_updates", 500);
}

// ---- Encke ----
GROUP(encke) {
  Earth earth;
  for (long c = 0; c < m.n(150, 1500); c++) {
    PV s = RandomOrbit(m, 0.4, m.rng.b(0.15));
    L wp = sqrtl(kMu / powl(Perigee(s), 3)) * 1.2L;
    // far: in fine steps far away from the reference orbit, where all the orders of the difference matter
    const bool far = c % 3 == 0;
    double step = (far ? m.rng.logu(0.0003, 0.001) : m.rng.logu(0.001, 0.01)) / (double)wp, tolerance = m.rng.b(0.2) ? 1e3 : far ? m.rng.logu(1e-2, 10) : m.rng.logu(1e-7, 1e-3);
    const bool free = !far && m.rng.b(0.2);
    V3 acc = free ? V3{0, 0, 0} : (L)(far ? m.rng.logu(0.02, 0.2) * (double)(kMu / ref::dot_(s.r, s.r)) : m.rng.logu(1e-6, 3e-3)) * gen::dir(m.rng);
    double farthest = 0;
    double jd = 2458900.5 + m.rng.u(0, 1000);
    m.begin("r %s v %s, step %.6g s, error tolerance %.3g, acceleration %s", S(s.r).c_str(), S(s.v).c_str(), step, tolerance, S(acc).c_str());
    m.distinctv({(double)s.r.x, (double)s.v.y, step, tolerance});
    orb::EnckeOrbitPropagation a(earth.cel, (double)kMu, step, jd, tov(s.r), tov(s.v), tolerance);
    Derived(m, a, *earth.cel);
    vclose(m, Get(a).r, s.r, 1e-6 * (double)ref::norm(s.r) * 1e-3, "encke_initial", "initial position");
    a.SetIsCalcEnabled(true);
    // The clock of a simulation is a Julian day: 40 microseconds of resolution
    const double fine = 5e-5 * (double)ref::norm(s.v) * 2;
    double t = 0;
    PV now = s;
    L turned = 0, off = 0;  // off: bound of the distance from the reference orbit
    long rect = 0;
    const int updates = (int)(far ? m.rng.i(500, 2500) : m.rng.i(20, 300));
    L drift = 0;
    for (int k = 0; k < updates; k++) {
      double dt = m.rng.b(0.8) ? step : step * m.rng.u(0.3, 3);
      if (!free && m.rng.b(0.02)) acc = ref::norm(acc) * gen::dir(m.rng);
      PV next = Accelerated(now, acc, dt, 0.004L);
      if (Perigee(next) < 6.3785e6L || ref::norm(next.v) > sqrtl(1.9L * kMu / ref::norm(next.r))) break;
      t += dt;
      a.SetAcceleration_i_m_s2(tov(acc));
      a.Propagate(t, jd + t / 86400);
      now = next;
      L w = sqrtl(kMu / powl(std::min(Perigee(now), ref::norm(now.r)), 3)) * 1.2L;
      turned += w * dt;
      // without rectification the difference may grow to acc t^2 / 2; with it to the tolerance
      L d = 0.5L * ref::norm(acc) * t * (t + 2 * dt) * (1 + turned * turned);
      off = std::min(d, (L)tolerance * ref::norm(now.r) * 1.5L + ref::norm(acc) * dt * (t + dt) * 4 + 0.5L * ref::norm(acc) * t * dt * 4);
      // the difference is integrated with the geometry of the update as a whole: first order in the update
      drift += off * (w * dt) * (w * dt);
      if (tolerance > 0.03) farthest = std::max(farthest, (double)(off / ref::norm(now.r)));
      if (tolerance * (double)ref::norm(now.r) < (double)d) rect++;
      double resolution = fine * (1 + sqrt((double)(rect + 1)) * (double)(1 + turned));
      double tol = (double)(far ? drift * (turned + 0.1L) * 0.5L : drift * (1 + turned) * 6) + resolution + 1e-9 * (double)ref::norm(now.r) * 1e-2 * (k + 1);
      vclose(m, Get(a).r, now.r, tol, "encke_position", "position and the solution of the equation of motion");
      vclose(m, Get(a).v, now.v, tol * (double)w * 3 + 1e-3 * (double)w * resolution, "encke_velocity", "velocity and the solution of the equation of motion");
      if (k < 5 || k % 50 == 0) Derived(m, a, *earth.cel);
      m.ev(free ? "encke_free" : "encke_updates");
    }
    m.ev("rectifications_expected", rect);
    if (farthest > 0.03) m.ev("encke_far");
  }
  m.require("encke_updates", 500), m.require("encke_free", 50), m.require("rectifications_expected", 100), m.require("encke_far", 3);
}

// ---- Kepler ----
GROUP(kepler) {
  Earth earth;
  for (long c = 0; c < m.n(1500, 20000); c++) {
    PV s = RandomOrbit(m, 0.75, m.rng.b(0.15));
    double jd = 2451545 + m.rng.u(0, 12000);
    m.begin("r %s v %s, Julian day %.9f", S(s.r).c_str(), S(s.v).c_str(), jd);
    m.distinctv({(double)s.r.x, (double)s.v.y, jd});
    s2e::orbit::OrbitalElements oe((double)kMu, jd, tov(s.r), tov(s.v));
    orb::KeplerOrbitPropagation a(earth.cel, jd, s2e::orbit::KeplerOrbit((double)kMu, oe));
    const double per = (double)Period(s);
    auto compare = [&](double now) {
      PV w = TwoBody(s, ((L)now - (L)jd) * 86400);
      double v = (double)ref::norm(w.v), turns = fabs((now - jd) * 86400 / per);
      // the epoch and the time are Julian days, resolved to 4e-5 s
      double tol = 2e-9 * (double)ref::norm(w.r) * (1 + turns * 0.2) + 6e-5 * v;
      // near-circular or equatorial orbits lose digits in the angles only
      vclose(m, Get(a).r, w.r, tol + 1e-3, "kepler_position", mon::F("position %.9g s after the epoch", (now - jd) * 86400).c_str());
      vclose(m, Get(a).v, w.v, (tol + 1e-3) * v / (double)ref::norm(w.r) * 6, "kepler_velocity", "velocity");
      Derived(m, a, *earth.cel);
    };
    compare(jd);
    a.Propagate(100, jd + 0.01);
    compare(jd);  // disabled
    a.SetIsCalcEnabled(true);
    a.SetAcceleration_i_m_s2(vec(1, 2, 3));  // a Kepler orbit ignores accelerations
    for (int k = 0; k < 4; k++) {
      double now = jd + m.rng.u(-1, 1) * m.rng.pick(std::vector<double>{0.001, 0.1, 3, 40});
      a.Propagate(m.rng.u(0, 1e5), now);
      compare(now);
      m.ev("kepler_states");
    }
  }
}

// ---- SGP4 ----
struct Tle {
  double inc, node, ecc, argp, ma, mm, bstar;  // deg, rev/day
  int year;
  double day;
  std::string l1, l2;
  L jd;
};
static std::string Exp(double v) {  // field with an implied decimal point and an exponent
  if (v == 0) return " 00000-0";
  int e = (int)floor(log10(fabs(v))) + 1;
  int mant = (int)llround(fabs(v) / pow(10, e) * 1e5);
  if (mant == 100000) mant = 10000, e++;
  return mon::F("%c%05d%c%d", v < 0 ? '-' : ' ', mant, e <= 0 ? '-' : '+', abs(e));
}
static void Format(Tle& t) {
  t.l1 = mon::F("1 12345U 98067A   %02d%012.8f  .00016717  00000-0 %s 0  9005", t.year % 100, t.day, Exp(t.bstar).c_str());
  t.l2 = mon::F("2 12345 %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d7", t.inc, t.node, (int)llround(t.ecc * 1e7), t.argp, t.ma, t.mm, 1764);
  // the fields as they were written
  auto field = [](const std::string& s, int from, int n) { return strtod(s.substr((size_t)from - 1, (size_t)n).c_str(), nullptr); };
  t.day = field(t.l1, 21, 12), t.inc = field(t.l2, 9, 8), t.node = field(t.l2, 18, 8), t.ecc = strtod(("0." + t.l2.substr(26, 7)).c_str(), nullptr);
  t.argp = field(t.l2, 35, 8), t.ma = field(t.l2, 44, 8), t.mm = field(t.l2, 53, 11);
  std::string b = t.l1.substr(53, 8);
  t.bstar = strtod(("0." + b.substr(1, 5)).c_str(), nullptr) * (b[0] == '-' ? -1 : 1) * pow(10, atoi(b.substr(6, 2).c_str()));
  int y = t.year - 1;
  t.jd = 1721425.5L + 365.0L * y + y / 4 - y / 100 + y / 400 - 1 + (L)t.day;
}
// near-Earth SGP4 of Spacetrack report 3 as revised by Vallado et al. (2006); minutes after the epoch -> km, km/s
static bool NearEarth(const Tle& t, int wgs, L tm, V3& pos, V3& vel) {
  L mu = wgs == 2 ? 398600.5L : wgs == 1 ? 398600.8L : 398600.79964L, re = wgs == 2 ? 6378.137L : 6378.135L;
  L xke = wgs == 0 ? 0.0743669161L : 60 / sqrtl(re * re * re / mu);
  L j2 = wgs == 2 ? .00108262998905L : wgs == 1 ? .001082616L : .001082616L, j3 = wgs == 2 ? -.00000253215306L : -.00000253881L,
    j4 = wgs == 2 ? -.00000161098761L : wgs == 1 ? -.00000165597L : -.00000165597L;
  const L x2o3 = 2.0L / 3, rad = M_PIl / 180;
  L inc = t.inc * rad, node = t.node * rad, e0 = t.ecc, w0 = t.argp * rad, m0 = t.ma * rad, no = t.mm * 2 * M_PIl / 1440;
  L ci = cosl(inc), si = sinl(inc), th2 = ci * ci, th4 = th2 * th2, b2 = 1 - e0 * e0, b1 = sqrtl(b2);
  L ak = powl(xke / no, x2o3), d1 = .75L * j2 * (3 * th2 - 1) / (b1 * b2), del = d1 / (ak * ak), adel = ak * (1 - del * del - del * (1.0L / 3 + 134 * del * del / 81));
  del = d1 / (adel * adel);
  no /= 1 + del;
  if (2 * M_PIl / no >= 225) return false;
  L ao = powl(xke / no, x2o3), po = ao * b2, con42 = 1 - 5 * th2, con41 = 3 * th2 - 1, rp = ao * (1 - e0);
  bool simple = rp < 220 / re + 1;
  L sf = 78 / re + 1, qz = powl((120 - 78) / re, 4), per = (rp - 1) * re;
  if (per < 156) {
    sf = per < 98 ? 20 : per - 78;
    qz = powl((120 - sf) / re, 4);
    sf = sf / re + 1;
  }
  L pinv = 1 / (po * po), tsi = 1 / (ao - sf), eta = ao * e0 * tsi, et2 = eta * eta, ee = e0 * eta, psi = fabsl(1 - et2), cf = qz * powl(tsi, 4), cf1 = cf / powl(psi, 3.5L);
  L c2 = cf1 * no * (ao * (1 + 1.5L * et2 + ee * (4 + et2)) + .375L * j2 * tsi / psi * con41 * (8 + 3 * et2 * (8 + et2)));
  L c1 = t.bstar * c2, c3 = e0 > 1e-4L ? -2 * cf * tsi * (j3 / j2) * no * si / e0 : 0, x1 = 1 - th2;
  L c4 = 2 * no * cf1 * ao * b2 *
         (eta * (2 + .5L * et2) + e0 * (.5L + 2 * et2) - j2 * tsi / (ao * psi) * (-3 * con41 * (1 - 2 * ee + et2 * (1.5L - .5L * ee)) + .75L * x1 * (2 * et2 - ee * (1 + et2)) * cosl(2 * w0)));
  L c5 = 2 * cf1 * ao * b2 * (1 + 2.75L * (et2 + ee) + ee * et2);
  L t1 = 1.5L * j2 * pinv * no, t2_ = .5L * t1 * j2 * pinv, t3_ = -.46875L * j4 * pinv * pinv * no;
  L md = no + .5L * t1 * b1 * con41 + .0625L * t2_ * b1 * (13 - 78 * th2 + 137 * th4), wd = -.5L * t1 * con42 + .0625L * t2_ * (7 - 114 * th2 + 395 * th4) + t3_ * (3 - 36 * th2 + 49 * th4);
  L xh = -t1 * ci, nd = xh + (.5L * t2_ * (4 - 19 * th2) + 2 * t3_ * (3 - 7 * th2)) * ci;
  L omg = t.bstar * c3 * cosl(w0), xm = e0 > 1e-4L ? -x2o3 * cf * t.bstar / ee : 0, ncf = 3.5L * b2 * xh * c1, t2c = 1.5L * c1;
  L xl_ = -.25L * (j3 / j2) * si * (3 + 5 * ci) / (fabsl(1 + ci) > 1.5e-12L ? 1 + ci : 1.5e-12L), ay = -.5L * (j3 / j2) * si, dmo = powl(1 + eta * cosl(m0), 3), x7 = 7 * th2 - 1;
  L mm = m0 + md * tm, wm = w0 + wd * tm, nn = node + nd * tm + ncf * tm * tm, xmdf = mm;
  L ta = 1 - c1 * tm, te = t.bstar * c4 * tm, tl = t2c * tm * tm;
  if (!simple) {
    L d2 = 4 * ao * tsi * c1 * c1, tt = d2 * tsi * c1 / 3, d3 = (17 * ao + sf) * tt, d4 = .5L * tt * ao * tsi * (221 * ao + 31 * sf) * c1;
    L t3c = d2 + 2 * c1 * c1, t4c = .25L * (3 * d3 + c1 * (12 * d2 + 10 * c1 * c1)), t5c = .2L * (3 * d4 + 12 * c1 * d3 + 6 * d2 * d2 + 15 * c1 * c1 * (2 * d2 + c1 * c1));
    L dm = xm * (powl(1 + eta * cosl(xmdf), 3) - dmo), q = omg * tm + dm;
    mm += q, wm -= q;
    ta -= d2 * tm * tm + d3 * tm * tm * tm + d4 * tm * tm * tm * tm;
    te += t.bstar * c5 * (sinl(mm) - sinl(m0));
    tl += t3c * tm * tm * tm + tm * tm * tm * tm * (t4c + tm * t5c);
  }
  L am = powl(xke / no, x2o3) * ta * ta, nm = xke / powl(am, 1.5L), em = e0 - te;
  if (em >= 1 || em < -0.001L || am < 0.95L || ta <= 0) return false;
  if (em < 2e-6L) return false;  // the published versions differ in the floor of the decayed eccentricity
  mm += no * tl;
  L axn = em * cosl(wm), tp = 1 / (am * (1 - em * em)), ayn = em * sinl(wm) + tp * ay, u = mm + wm + tp * xl_ * axn;
  L eo = u;
  for (int i = 0; i < 100; i++) {
    L f = (u - ayn * cosl(eo) + axn * sinl(eo) - eo) / (1 - cosl(eo) * axn - sinl(eo) * ayn);
    if (fabsl(f) > .95L) f = f > 0 ? .95L : -.95L;
    eo += f;
    if (fabsl(f) < 1e-17L) break;
  }
  L s = sinl(eo), c = cosl(eo), ec = axn * c + ayn * s, es = axn * s - ayn * c, el2 = axn * axn + ayn * ayn, pl = am * (1 - el2);
  if (pl < 0) return false;
  L rl = am * (1 - ec), rdl = sqrtl(am) * es / rl, rvl = sqrtl(pl) / rl, bl = sqrtl(1 - el2), tq = es / (1 + bl);
  L su = am / rl * (s - ayn - axn * tq), cu = am / rl * (c - axn + ayn * tq), uu = atan2l(su, cu), s2 = 2 * cu * su, cs2 = 1 - 2 * su * su;
  L k1 = .5L * j2 / pl, k2 = k1 / pl;
  L r = rl * (1 - 1.5L * k2 * bl * con41) + .5L * k1 * x1 * cs2;
  uu -= .25L * k2 * x7 * s2;
  L om = nn + 1.5L * k2 * ci * s2, ii = inc + 1.5L * k2 * ci * si * cs2, mv = rdl - nm * k1 * x1 * s2 / xke, rv = rvl + nm * k1 * (x1 * cs2 + 1.5L * con41) / xke;
  if (r < 1) return false;
  V3 U{-sinl(om) * cosl(ii) * sinl(uu) + cosl(om) * cosl(uu), cosl(om) * cosl(ii) * sinl(uu) + sinl(om) * cosl(uu), sinl(ii) * sinl(uu)};
  V3 W{-sinl(om) * cosl(ii) * cosl(uu) - cosl(om) * sinl(uu), cosl(om) * cosl(ii) * cosl(uu) - sinl(om) * sinl(uu), sinl(ii) * cosl(uu)};
  pos = (r * re) * U, vel = (re * xke / 60) * (mv * U + rv * W);
  return true;
}
static std::unique_ptr<orb::Sgp4OrbitPropagation> MakeSgp4(const s2e::environment::CelestialInformation* cel, const std::string& a, const std::string& b, int wgs, double jd) {
  char l1[130] = {0}, l2[130] = {0};
  snprintf(l1, sizeof l1, "%s", a.c_str()), snprintf(l2, sizeof l2, "%s", b.c_str());
  world::Quiet q;
  return std::make_unique<orb::Sgp4OrbitPropagation>(cel, l1, l2, wgs, jd);
}

GROUP(sgp4_near_earth) {
  Earth earth;
  for (long c = 0; c < m.n(800, 10000); c++) {
    Tle t;
    t.year = m.rng.i(1960, 2055), t.day = m.rng.u(1, 366), t.inc = m.rng.b(0.1) ? m.rng.pick(std::vector<double>{0, 90, 98.2, 179.9, 63.4}) : m.rng.u(0, 179.9);
    t.node = m.rng.u(0, 360), t.argp = m.rng.u(0, 360), t.ma = m.rng.u(0, 360);
    double rp = m.rng.b(0.2) ? m.rng.u(6550, 6610) : m.rng.u(6600, 8200), a = std::min(rp / (1 - (m.rng.b(0.3) ? m.rng.u(0, 1e-4) : m.rng.u(0, 0.35))), 11000.0);
    t.ecc = 1 - rp / a, t.mm = sqrt(398600.8 / (a * a * a)) * 86400 / 2 / M_PI;
    t.bstar = m.rng.b(0.2) ? 0 : m.rng.logu(1e-7, 1e-3) * (m.rng.b(0.1) ? -1 : 1);
    Format(t);
    int wgs = (int)m.rng.i(0, 2);
    m.begin("%s | %s | constants %d", t.l1.c_str(), t.l2.c_str(), wgs);
    m.distinct(t.l1 + t.l2);
    double jd = (double)t.jd + m.rng.u(0, 1);
    V3 p, v;
    if (!NearEarth(t, wgs, 0, p, v) || !NearEarth(t, wgs, ((L)jd - t.jd) * 1440, p, v) || ref::norm(p) < 6480) continue;
    auto o = MakeSgp4(earth.cel, t.l1, t.l2, wgs, jd);
    auto compare = [&](double now) {
      vclose(m, Get(*o).r, 1000 * p, 1.0 + 2e-8 * fabs(now - (double)t.jd) * 8000 * 1000, "sgp4_position", mon::F("position %.9g minutes after the epoch", (double)(((L)now - t.jd) * 1440)).c_str());
      vclose(m, Get(*o).v, 1000 * v, 2e-3 + 3e-5 * fabs(now - (double)t.jd), "sgp4_velocity", "velocity");
      Derived(m, *o, *earth.cel);
      m.ev("near_earth_states");
    };
    compare(jd);
    o->SetIsCalcEnabled(true);
    for (int k = 0; k < 5; k++) {
      double now = (double)t.jd + m.rng.u(-0.3, 1) * m.rng.pick(std::vector<double>{0.01, 1, 10});
      if (!NearEarth(t, wgs, ((L)now - t.jd) * 1440, p, v) || ref::norm(p) < 6480) continue;
      o->SetAcceleration_i_m_s2(vec(1, 2, 3));
      o->Propagate(now, now);
      compare(now);
    }
  }
  m.require("near_earth_states", 1000);
}

// published results of the model (Vallado et al. 2006, verification set) and results of the same code recorded for other deep space resonances
struct Known {
  const char *l1, *l2;
  struct {
    double t, r[3], v[3];
  } at[8];
};
static const Known kKnown[] = {
#include "c17_sgp4.inc"
};
GROUP(sgp4_published) {
  Earth earth;
  for (const Known& k : kKnown) {
    m.begin("%s | %s", k.l1, k.l2);
    m.distinct(k.l1);
    // epoch
    int yy = atoi(std::string(k.l1 + 18, 2).c_str()), y = (yy < 57 ? 2000 : 1900) + yy - 1;
    L jd0 = 1721425.5L + 365.0L * y + y / 4 - y / 100 + y / 400 - 1 + strtold(std::string(k.l1 + 20, 12).c_str(), nullptr);
    auto o = MakeSgp4(earth.cel, k.l1, k.l2, 1, (double)jd0);
    o->SetIsCalcEnabled(true);
    std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7};
    for (int i = 0; i < 40; i++) order.push_back((int)m.rng.i(0, 7));  // the result must not depend on the times asked before
    for (int i : order) {
      const auto& a = k.at[i];
      if (i && a.t == 0) continue;
      double now = (double)(jd0 + a.t / 1440);
      o->Propagate(a.t * 60, now);
      V3 r{a.r[0], a.r[1], a.r[2]}, v{a.v[0], a.v[1], a.v[2]};
      vclose(m, Get(*o).r, 1000 * r, 1.0 + fabs(a.t) * 1e-4, "published_position", mon::F("position %g minutes after the epoch", a.t).c_str());
      vclose(m, Get(*o).v, 1000 * v, 2e-3, "published_velocity", "velocity");
      m.ev("published_states");
    }
  }
  m.require("published_states", 100);
}
GROUP(sgp4_deep_space) {  // any path in time leads to the same state; velocity is the rate of the position
  Earth earth;
  for (long c = 0; c < m.n(60, 600); c++) {
    Tle t;
    t.year = m.rng.i(1990, 2030), t.day = m.rng.u(1, 366), t.inc = m.rng.b(0.3) ? m.rng.u(0, 12) : m.rng.u(0, 150), t.node = m.rng.u(0, 360), t.argp = m.rng.u(0, 360), t.ma = m.rng.u(0, 360);
    int kind = (int)m.rng.i(0, 3);
    t.mm = kind == 0 ? m.rng.u(0.95, 1.05) : kind == 1 ? m.rng.u(1.95, 2.05) : m.rng.u(0.9, 5.5);
    double a = pow(398600.8 / pow(t.mm * 2 * M_PI / 86400, 2), 1.0 / 3), emax = 1 - 6700 / a;
    t.ecc = kind == 1 && m.rng.b() ? std::min(emax, m.rng.u(0.5, 0.74)) : kind == 0 ? m.rng.u(0, 0.1) : m.rng.u(0, std::min(emax, 0.74)), t.bstar = m.rng.b() ? 0 : m.rng.logu(1e-6, 1e-3);
    Format(t);
    m.begin("%s | %s", t.l1.c_str(), t.l2.c_str());
    m.distinct(t.l1 + t.l2);
    auto o = MakeSgp4(earth.cel, t.l1, t.l2, 1, (double)t.jd), direct = MakeSgp4(earth.cel, t.l1, t.l2, 1, (double)t.jd);
    o->SetIsCalcEnabled(true), direct->SetIsCalcEnabled(true);
    double now = (double)t.jd;
    PV first = Get(*o);
    for (int k = 0; k < 12; k++) {
      double target = (double)t.jd + m.rng.u(-0.2, 1) * m.rng.pick(std::vector<double>{0.3, 2, 15});
      int n = (int)m.rng.i(1, 20);
      for (int i = 1; i < n; i++) o->Propagate(0, now + (target - now) * i / n);
      o->Propagate(0, target);
      now = target;
      direct = MakeSgp4(earth.cel, t.l1, t.l2, 1, target);
      vclose(m, Get(*o).r, Get(*direct).r, 1e-2, "path", "position reached in steps and at once");
      // the speed of a two-body orbit at that place, and the slope of the position
      PV s = Get(*o);
      const double h = 30;
      direct->SetIsCalcEnabled(true);
      direct->Propagate(0, target + h / 86400);
      V3 r1 = Get(*direct).r;
      direct->Propagate(0, target - h / 86400);
      V3 r0 = Get(*direct).r;
      V3 slope = (1 / (2 * (L)h)) * (r1 - r0);
      L w = ref::norm(s.v) / ref::norm(s.r);
      // resolution of the Julian day, third derivative, and the model's own neglected terms
      double tol = (double)ref::norm(s.v) * (8e-5 / h + (double)(w * w) * h * h / 2 + 2.5e-3);
      vclose(m, slope, s.v, tol, "deep_velocity", "velocity and the slope of the position");
      Derived(m, *o, *earth.cel);
      m.ev("deep_space_states");
    }
    // stays on the orbit of its elements: secular two-body motion with J2, plus what Sun and Moon do in a day
    direct = MakeSgp4(earth.cel, t.l1, t.l2, 1, (double)t.jd);
    L ref_r = 6.378135e6L, n0 = t.mm * 2 * M_PIl / 86400, aa = powl(398600.8e9L / (n0 * n0), 1.0L / 3), p = aa * (1 - (L)t.ecc * t.ecc), j = 1.5L * 0.001082616L * ref_r * ref_r / (p * p) * n0, ci = cosl(t.inc * M_PIl / 180);
    L E = t.ma * M_PIl / 180;
    for (int i = 0; i < 200; i++) E -= (E - t.ecc * sinl(E) - t.ma * M_PIl / 180) / (1 - t.ecc * cosl(E));
    V3 q = ref::T(ref::rz(t.argp * M_PIl / 180) * ref::rx(t.inc * M_PIl / 180) * ref::rz(t.node * M_PIl / 180)) * V3{aa * (cosl(E) - t.ecc), aa * sqrtl(1 - (L)t.ecc * t.ecc) * sinl(E), 0};
    (void)j, (void)ci;
    m.check(vdiff(first.r, q) < 0.02 * (double)aa, "deep_elements", "position at the epoch %s, of the mean elements %s", S(first.r).c_str(), S(q).c_str());
  }
  m.require("deep_space_states", 300);
}

// ---- time series ----
GROUP(time_series) {
  Earth earth;
  for (long c = 0; c < m.n(250, 2500); c++) {
    PV s = RandomOrbit(m, 0.15);
    const double per = (double)Period(s);
    int n = (int)m.rng.i(3, 11), rows = n + (int)(m.rng.b(0.3) ? m.rng.i(0, 3) : m.rng.i(4, 120)), method = m.rng.b(0.75) ? 0 : 1;
    if (m.rng.b(0.05)) rows = (int)m.rng.i(1, n);
    const bool even = m.rng.b(), stationary = m.rng.b(0.05);
    double gap = per * m.rng.logu(0.003, 0.02), et0 = 6.4e8 + m.rng.u(0, 1e8);
    std::vector<double> time{et0};
    for (int i = 1; i < rows; i++) time.push_back(time.back() + gap * (even ? 1 : m.rng.u(0.4, 1)));
    std::vector<PV> table;
    {
      std::ofstream f("table.csv");
      f << "ephemeris_time[s],position_i_x[m],position_i_y[m],position_i_z[m],velocity_i_x[m/s],velocity_i_y[m/s],velocity_i_z[m/s]\n";
      for (int i = 0; i < rows; i++) {
        PV p = stationary ? s : TwoBody(s, time[(size_t)i] - et0);
        table.push_back(p);
        f << mon::F("%.17g,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg\n", time[(size_t)i], p.r.x, p.r.y, p.r.z, p.v.x, p.v.y, p.v.z);
      }
    }
    auto jd = [](double et) { return et / 86400 + 2451545; };
    auto et = [](double j) { return (j - 2451545) * 86400; };
    const double span = std::max(time.back() - et0, 1.0);
    double start = et0 + (m.rng.b(0.2) ? -m.rng.u(0, 0.3) * span : m.rng.b(0.1) ? 1.2 * span : m.rng.u(0, 0.9) * span);
    if (m.rng.b(0.1)) start = time[(size_t)m.rng.i(0, rows - 1)];
    double h = gap * (m.rng.b(0.3) ? m.rng.u(1, 6) : m.rng.u(0.1, 1));
    m.begin("%d rows, gap %.6g s (%s) of a period of %.6g s, %d points, %s, start %.9g s after the first row, update %.6g s, orbit r %s v %s", rows, gap, even ? "even" : "uneven", per, n,
            method ? "trigonometric" : "polynomial", start - et0, h, S(s.r).c_str(), S(s.v).c_str());
    m.distinctv({(double)rows, gap, (double)n, start, h});
    world::Quiet quiet;
    orb::TimeSeriesFileOrbitPropagation o(earth.cel, "table.csv", n, m.rng.b(0.05) && !method ? 7 : method, per, jd(start));
    o.SetIsCalcEnabled(true);
    const int used = std::min(n, rows);
    const L wp = sqrtl(kMu / powl(Perigee(s), 3)) * 1.35L;
    double now = start;
    for (int k = 0; k < 60; k++) {
      if (k > 0) {
        now += h;
        if (m.rng.b(0.2)) {  // on a row
          for (double x : time)
            if (x >= now) {
              now = x;
              break;
            }
        }
        if (m.rng.b(0.02)) now += span * 0.3;
        o.Propagate(now - start, jd(now));
      }
      double actual = et(jd(now));
      PV w = Get(o);
      double res = 6e-5 * (double)ref::norm(s.v) * 1.5;
      V3 want;
      double tol;
      bool inside = actual >= time.front() && actual <= time.back();
      if (fabs(actual - time.front()) < 1e-3 || fabs(actual - time.back()) < 1e-3) {
        want = fabs(actual - time.front()) < 1e-3 ? table.front().r : table.back().r, tol = 1e-3 * (double)ref::norm(s.v) * 1.5 + res;
        m.ev("ends");
      } else if (!inside) {
        want = actual < time.front() ? table.front().r : table.back().r, tol = 1e-6;
        m.ev(actual < time.front() ? "before" : "after");
      } else {
        want = stationary ? s.r : TwoBody(s, actual - et0).r;
        // error of the interpolation of that many points, in the worst (outermost) interval
        L x = wp * gap;
        L bound = powl(x, used) / (4 * used) * 4;
        if (method == 1) bound = powl(1.5L * x, used - (used % 2 ? 0 : 1)) * (1 + used);
        if (used == 1) bound = 1e9L;
        tol = stationary ? 1e-6 : (double)(bound * ref::norm(s.r)) + res + 1e-9 * (double)ref::norm(s.r) * 1e-3;
        m.ev("inside");
      }
      vclose(m, w.r, want, tol, inside ? "series_position" : "series_outside", mon::F("position %.9g s after the first of %.9g s", actual - et0, span).c_str());
      if (inside && used > 1) {
        V3 wv = stationary ? s.v : TwoBody(s, actual - et0).v;
        vclose(m, w.v, wv, tol * (double)wp * 3 + 1e-3, "series_velocity", "velocity");
      }
      Derived(m, o, *earth.cel);
    }
  }
  m.require("inside", 1000), m.require("before", 50), m.require("after", 50);
}

// A table with few rows per revolution: what is between the rows comes from the rows around it, and the trigonometric
// method knows the period of the orbit
GROUP(sparse_time_series) {
  Earth earth;
  for (long c = 0; c < m.n(60, 600); c++) {
    PV s = RandomOrbit(m, 1e-9);
    const L size = ref::norm(s.r);
    s.v = (sqrtl(kMu / size) / ref::norm(s.v)) * s.v;
    s.v = s.v - (ref::dot_(s.v, s.r) / (size * size)) * s.r;
    s.v = (sqrtl(kMu / size) / ref::norm(s.v)) * s.v;
    const L w = sqrtl(kMu / (size * size * size));
    const double per = (double)Period(s);
    const int method = (int)m.rng.i(0, 1), n = method ? (int)m.rng.i(1, 5) * 2 + 1 : (int)m.rng.i(4, 11), rows = n + (int)m.rng.i(6, 40);
    const double gap = per * (method ? m.rng.u(0.03, 0.6 / n) : m.rng.u(0.03, 0.1)), et0 = 6.4e8 + m.rng.u(0, 1e8);
    std::vector<double> time;
    for (int i = 0; i < rows; i++) time.push_back(et0 + gap * (i + m.rng.u(-0.2, 0.2)));
    {
      std::ofstream f("sparse.csv");
      f << "ephemeris_time[s],position_i_x[m],position_i_y[m],position_i_z[m],velocity_i_x[m/s],velocity_i_y[m/s],velocity_i_z[m/s]\n";
      for (double t : time) {
        PV p = TwoBody(s, t - et0);
        f << mon::F("%.17g,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg\n", t, p.r.x, p.r.y, p.r.z, p.v.x, p.v.y, p.v.z);
      }
    }
    auto jd = [](double et) { return et / 86400 + 2451545; };
    const double span = time.back() - time.front(), start = time.front() + m.rng.u(0, 0.7) * span, h = gap * (m.rng.b(0.3) ? m.rng.u(1, 3) : m.rng.u(0.05, 0.7));
    m.begin("%d rows, %.4g of a period apart, %d points, %s, start %.9g s after the first row, update %.6g s, radius %.9Lg m", rows, gap / per, n, method ? "trigonometric" : "polynomial", start - time.front(), h, size);
    m.distinctv({(double)rows, gap, (double)n, start, h});
    world::Quiet quiet;
    orb::TimeSeriesFileOrbitPropagation o(earth.cel, "sparse.csv", n, method, per, jd(start));
    o.SetIsCalcEnabled(true);
    double now = start;
    for (int k = 0; k < 80; k++, now += h) {
      if (k > 0) o.Propagate(now - start, jd(now));
      const double t = (jd(now) - 2451545) * 86400;
      if (t <= time.front() + 1e-3 || t >= time.back() - 1e-3) continue;
      PV want = TwoBody(s, t - et0), got = Get(o);
      int next = 0;
      while (time[(size_t)next] <= t) next++;
      L bound = 0, lebesgue = 1;
      for (int d = -1; d <= 1; d++) {
        const int first = std::min(std::max(next - n / 2 + d, 0), rows - n);
        L prod = 1, sum = 0;
        for (int i = 0; i < n; i++) {
          prod *= fabsl(t - time[(size_t)(first + i)]) * w / (i + 1);
          L l = 1;
          for (int j = 0; j < n; j++)
            if (j != i) {
              const L a = (L)t - time[(size_t)(first + j)], b = (L)time[(size_t)(first + i)] - time[(size_t)(first + j)];
              l *= method ? sinl(w * a / 2) / sinl(w * b / 2) : a / b;
            }
          sum += fabsl(l);
        }
        bound = std::max(bound, prod), lebesgue = std::max(lebesgue, sum);
      }
      if (method) bound = 0;
      const double tol = (double)((bound * 1.05L + 1e-11L * lebesgue * n) * size + 6e-5L * w * size * lebesgue);
      vclose(m, got.r, want.r, tol, "sparse_position", "position between the rows");
      vclose(m, got.v, want.v, tol * (double)w, "sparse_velocity", "velocity between the rows");
      m.ev(method ? "sparse_trigonometric" : "sparse_polynomial");
    }
  }
  m.require("sparse_trigonometric", 300), m.require("sparse_polynomial", 300);
}

// ---- in the simulation ----
// An orbit described in a settings file is the orbit built from the values written there
GROUP(from_file) {
  Earth earth;
  for (long c = 0; c < m.n(250, 2500); c++) {
    std::string mode = m.rng.pick(std::vector<std::string>{"RK4", "ENCKE", "ENCKE", "KEPLER", "KEPLER", "SGP4", "TIME_SERIES_FILE", "TIME_SERIES_FILE", "UNKNOWN"});
    std::string start = m.rng.pick(std::vector<std::string>{"POSITION_VELOCITY_I", "ORBITAL_ELEMENTS", "DEFAULT"});
    PV s = RandomOrbit(m, 0.3);
    const double jd = 2458900.5 + m.rng.u(0, 1000), mu = (double)kMu * m.rng.pick(std::vector<double>{1, 1, 0.9995});
    const double a = m.rng.logu(7.2e6, 4e7), e = m.rng.u(0, std::min(0.6, 1 - 6.75e6 / a)), inc = m.rng.u(0.05, 3), raan = m.rng.u(0, 6.2), arg = m.rng.u(0, 6.2), epoch = jd + m.rng.u(-3, 1);
    const double step = m.rng.logu(0.3, 10), tolerance = m.rng.logu(1e-9, 1e-3), period = (double)Period(s) * m.rng.u(0.97, 1.03);
    const int wgs = (int)m.rng.i(0, 2), method = (int)m.rng.i(0, 1), points = method ? (int)m.rng.i(2, 4) * 2 + 1 : (int)m.rng.i(4, 9);
    const bool enabled = m.rng.b(0.85), logged = m.rng.b();
    Tle t;
    t.year = 2020, t.day = m.rng.u(70, 92), t.inc = m.rng.u(1, 110), t.node = m.rng.u(0, 360), t.argp = m.rng.u(0, 360), t.ma = m.rng.u(0, 360), t.ecc = m.rng.u(0, 0.02), t.mm = m.rng.u(12.5, 15.3), t.bstar = 1e-4;
    Format(t);
    const double et0 = (jd - 2451545) * 86400, gap = (double)Period(s) / 25;
    {
      std::ofstream f("orbit.csv");
      f << "t,x,y,z,vx,vy,vz\n";
      for (int i = -12; i < 20; i++) {
        PV p = TwoBody(s, i * (L)gap);
        f << mon::F("%.17g,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg\n", et0 + i * gap, p.r.x, p.r.y, p.r.z, p.v.x, p.v.y, p.v.z);
      }
    }
    {
      std::vector<std::string> lines{"calculation = " + std::string(enabled ? "ENABLE" : "DISABLE"), "logging = " + std::string(logged ? "ENABLE" : "DISABLE"), "propagate_mode = " + mode, "initialize_mode = " + start,
                                     mon::F("semi_major_axis_m = %.17g", a), mon::F("eccentricity = %.17g", e), mon::F("inclination_rad = %.17g", inc), mon::F("raan_rad = %.17g", raan),
                                     mon::F("argument_of_perigee_rad = %.17g", arg), mon::F("epoch_jday = %.17g", epoch), "tle1 = " + t.l1, "tle2 = " + t.l2, mon::F("wgs_setting = %d", wgs),
                                     mon::F("error_tolerance = %.17g", tolerance), "time_series_file_path = orbit.csv", mon::F("number_of_interpolation = %d", points), mon::F("interpolation_method = %d", method),
                                     mon::F("orbital_period_correction_s = %.17g", period)};
      const double x[6] = {(double)s.r.x, (double)s.r.y, (double)s.r.z, (double)s.v.x, (double)s.v.y, (double)s.v.z};
      for (int i = 0; i < 3; i++) lines.push_back(mon::F("initial_position_i_m(%d) = %.17g", i, x[i])), lines.push_back(mon::F("initial_velocity_i_m_s(%d) = %.17g", i, x[i + 3]));
      for (size_t i = lines.size() - 1; i > 0; i--) std::swap(lines[i], lines[(size_t)m.rng.i(0, (long)i)]);
      std::ofstream f("orbit.ini");
      f << "[SOMETHING]\npropagate_mode = RK4\n[ORBIT]\n";
      for (auto& l : lines) f << l << "\n";
    }
    m.begin("%s %s, r %s v %s, elements %.9g %.6g, step %.5g, tolerance %.4g, constants %d, %d points %d, period correction %.5g", mode.c_str(), start.c_str(), S(s.r).c_str(), S(s.v).c_str(), a, e, step, tolerance, wgs, points, method,
            period);
    m.distinctv({(double)s.r.x, a, step, tolerance, period});
    world::Quiet quiet;
    std::unique_ptr<orb::Orbit> got(orb::InitOrbit(earth.cel, "orbit.ini", step, jd, mu, "ORBIT")), want;
    // KEPLER takes elements unless told to start from a position; the others the other way round
    const bool elements = start == "ORBITAL_ELEMENTS" || (mode == "KEPLER" && start == "DEFAULT");
    s2e::orbit::OrbitalElements oe = elements ? s2e::orbit::OrbitalElements(epoch, a, e, inc, raan, arg) : s2e::orbit::OrbitalElements(mu, jd, tov(s.r), tov(s.v));
    s2e::orbit::KeplerOrbit kepler(mu, oe);
    auto r0 = tov(s.r), v0 = tov(s.v);
    if (elements) {
      kepler.CalcOrbit(jd);
      r0 = kepler.GetPosition_i_m(), v0 = kepler.GetVelocity_i_m_s();
    }
    if (mode == "RK4" || mode == "UNKNOWN")
      want.reset(new orb::Rk4OrbitPropagation(earth.cel, mu, step, r0, v0));
    else if (mode == "ENCKE")
      want.reset(new orb::EnckeOrbitPropagation(earth.cel, mu, step, jd, r0, v0, tolerance));
    else if (mode == "KEPLER")
      want.reset(new orb::KeplerOrbitPropagation(earth.cel, jd, kepler));
    else if (mode == "SGP4")
      want = MakeSgp4(earth.cel, t.l1, t.l2, wgs, jd);
    else
      want.reset(new orb::TimeSeriesFileOrbitPropagation(earth.cel, "orbit.csv", points, method, period, jd));
    want->SetIsCalcEnabled(enabled);
    m.check(got->GetIsCalcEnabled() == enabled, "file_enabled", "the file says calculation is %sabled", enabled ? "en" : "dis");
    m.check(got->is_log_enabled_ == logged, "file_logged", "the file says logging is %sabled", logged ? "en" : "dis");
    const orb::OrbitPropagateMode mode_id = mode == "ENCKE" ? orb::OrbitPropagateMode::kEncke
                                            : mode == "KEPLER" ? orb::OrbitPropagateMode::kKepler
                                            : mode == "SGP4" ? orb::OrbitPropagateMode::kSgp4
                                            : mode == "TIME_SERIES_FILE" ? orb::OrbitPropagateMode::kTimeSeriesFile
                                                                         : orb::OrbitPropagateMode::kRk4;
    m.check(got->GetPropagateMode() == mode_id, "file_mode", "mode %d instead of %d", (int)got->GetPropagateMode(), (int)mode_id);
    m.check(got->GetPropagateMode() == want->GetPropagateMode(), "file_mode", "mode %d instead of %d", (int)got->GetPropagateMode(), (int)want->GetPropagateMode());
    const V3 push = (L)m.rng.logu(1e-4, 0.03) * gen::dir(m.rng);
    for (int k = 0; k <= 60; k++) {
      if (k > 0) {
        const double el = step * k;
        got->SetAcceleration_i_m_s2(tov(push)), want->SetAcceleration_i_m_s2(tov(push));
        got->Propagate(el, jd + el / 86400), want->Propagate(el, jd + el / 86400);
      }
      PV x = Get(*got), y = Get(*want);
      vclose(m, x.r, y.r, 1e-6, "file_position", mon::F("position after %d steps", k).c_str());
      vclose(m, x.v, y.v, 1e-9, "file_velocity", mon::F("velocity after %d steps", k).c_str());
    }
    m.ev("file_" + mode), m.ev("file_from_" + start);
  }
  for (auto n : {"file_RK4", "file_ENCKE", "file_KEPLER", "file_SGP4", "file_TIME_SERIES_FILE", "file_from_DEFAULT", "file_from_ORBITAL_ELEMENTS"}) m.require(n, 10);
}

GROUP(in_the_simulation) {
  for (long c = 0; c < m.n(80, 800); c++) {
    std::string mode = m.rng.pick(std::vector<std::string>{"RK4", "ENCKE", "KEPLER", "SGP4", "TIME_SERIES_FILE", "SOMETHING"});
    PV s = RandomOrbit(m, 0.3);
    double step = m.rng.pick(std::vector<double>{0.1, 1, 5});
    const int every = (int)m.rng.i(1, 3);
    world::Settings st(1);
    st.Times(step, 300 * step);
    st.B("TIME", "orbit_update_period_s", step * every);
    st.B("TIME", "orbit_integral_step_s", step * (m.rng.b() ? every : 1));
    st.NoNoise(0), st.NoDisturbance(0);
    V3 w0 = 0.05L * gen::dir(m.rng);
    st.Attitude(0, gen::quat(m.rng), w0);
    st.Orbit(0, s.r, s.v, mode);
    bool elements = m.rng.b(0.4) && (mode == "RK4" || mode == "ENCKE" || mode == "KEPLER"), off = m.rng.b(0.1);
    const L kMuSim = 3.98600435436e14L;  // of the ephemeris in stubs
    const double jd0 = 2458941.0;  // 2020/04/01 12:00:00
    if (elements) {
      double a = m.rng.logu(7.2e6, 4e7), e = m.rng.u(0, std::min(0.7, 1 - 6.75e6 / a)), inc = m.rng.u(0, M_PI), raan = m.rng.u(0, 6.2), arg = m.rng.u(0, 6.2), ep = jd0 + m.rng.u(-3, 1);
      st.Sat(0, "ORBIT", "initialize_mode", "ORBITAL_ELEMENTS");
      st.Sat(0, "ORBIT", "semi_major_axis_m", a), st.Sat(0, "ORBIT", "eccentricity", e), st.Sat(0, "ORBIT", "inclination_rad", inc), st.Sat(0, "ORBIT", "raan_rad", raan);
      st.Sat(0, "ORBIT", "argument_of_perigee_rad", arg), st.Sat(0, "ORBIT", "epoch_jday", ep);
      L r = a * (1 - (L)e), v = sqrtl(kMuSim * (2 / r - 1 / (L)a));
      M3 R = ref::T(ref::rz(arg) * ref::rx(inc) * ref::rz(raan));
      s = TwoBody({R * V3{r, 0, 0}, R * V3{0, v, 0}}, ((L)jd0 - (L)ep) * 86400, kMuSim);
    } else if (m.rng.b(0.3) && mode != "KEPLER") {
      st.Sat(0, "ORBIT", "initialize_mode", "DEFAULT");
    }
    if (off) st.Sat(0, "ORBIT", "calculation", "DISABLE");
    Tle t;
    if (mode == "SGP4") {
      t.year = 2020, t.day = m.rng.u(70, 92), t.inc = m.rng.u(1, 110), t.node = m.rng.u(0, 360), t.argp = m.rng.u(0, 360), t.ma = m.rng.u(0, 360), t.ecc = m.rng.u(0, 0.02), t.mm = m.rng.u(12.5, 15.3), t.bstar = 1e-4;
      Format(t);
      st.Sat(0, "ORBIT", "tle1", t.l1), st.Sat(0, "ORBIT", "tle2", t.l2), st.Sat(0, "ORBIT", "wgs_setting", 1.0);
    }
    if (mode == "TIME_SERIES_FILE") {
      std::ofstream f("settings/table.csv");
      f << "t,x,y,z,vx,vy,vz\n";
      double et0 = (jd0 - 2451545) * 86400;
      for (int i = -10; i < 60; i++) {
        PV p = TwoBody(s, i * 20.0L, kMuSim);
        f << mon::F("%.17g,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg,%.17Lg\n", et0 + i * 20, p.r.x, p.r.y, p.r.z, p.v.x, p.v.y, p.v.z);
      }
      f.close();
      st.Sat(0, "ORBIT", "time_series_file_path", "SETTINGS_DIR_FROM_EXE/table.csv");
      st.Sat(0, "ORBIT", "number_of_interpolation", 7.0), st.Sat(0, "ORBIT", "interpolation_method", 0.0);
    }
    m.begin("%s, r %s v %s%s%s, step %.3g s, orbit every %d steps %s", mode.c_str(), S(s.r).c_str(), S(s.v).c_str(), elements ? ", from elements" : "", off ? ", disabled" : "", step, every,
            mode == "SGP4" ? (t.l1 + "|" + t.l2).c_str() : "");
    m.distinctv({(double)s.r.x, (double)s.v.y, step, (double)every});
    world::World w(st);
    auto& o = w.sc[0]->Dyn().GetOrbit();
    auto& cel = w.global->GetCelestialInformation();
    auto& att = w.sc[0]->Dyn().GetAttitude();
    auto expect = [&](double el) {
      if (mode != "SGP4") return TwoBody(s, off ? 0 : el, kMuSim);
      V3 p, v;
      NearEarth(t, 1, ((L)jd0 + (off ? 0 : el) / 86400 - t.jd) * 1440, p, v);
      return PV{1000 * p, 1000 * v};
    };
    auto compare = [&](double el, int k) {
      PV want = expect(el);
      double tol = 1e-8 * (double)ref::norm(want.r) + 1 + 0.05 * (mode == "ENCKE") * el;
      vclose(m, Get(o).r, want.r, tol, "world_position", mon::F("step %d: position", k).c_str());
      vclose(m, Get(o).v, want.v, tol * 3 * (double)(ref::norm(want.v) / ref::norm(want.r)) + 1e-3, "world_velocity", mon::F("step %d: velocity", k).c_str());
      vclose(m, ref::v(o.GetVelocity_b_m_s()), ref::rotq(att.GetQuaternion_i2b()) * Get(o).v, 1e-9, "world_body_velocity", mon::F("step %d: velocity in the body frame", k).c_str());
    };
    compare(0, 0);
    Derived(m, o, cel);
    for (int k = 1; k <= 60; k++) {
      w.Step();
      bool due = w.Time().GetOrbitPropagateFlag();
      if (due) {
        compare(k * step, k);
        if (!off) Derived(m, o, cel);
        m.ev("world_" + mode);
      } else {
        vclose(m, ref::v(o.GetVelocity_b_m_s()), ref::rotq(att.GetQuaternion_i2b()) * Get(o).v, 1e-9, "world_body_velocity", mon::F("step %d: velocity in the body frame", k).c_str());
      }
    }
  }
}
