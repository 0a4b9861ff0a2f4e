// C07: Kepler orbits and orbital elements
#include "s2e.hpp"
//
#include <math_physics/orbit/kepler_orbit.hpp>
#include <math_physics/orbit/orbital_elements.hpp>

using s2e::orbit::KeplerOrbit;
using s2e::orbit::OrbitalElements;

struct State {
  V3 r, v;
};
struct El {
  L mu, a, e, i, raan, argp, M;  // M: mean anomaly
};
static L SolveE(L e, L M) {
  M = ref::wrappi(M);
  L lo = M - e - 1e-12L, hi = M + e + 1e-12L;
  for (int k = 0; k < 80; k++) {
    L c = (lo + hi) / 2;
    (c - e * sinl(c) < M ? lo : hi) = c;
  }
  return (lo + hi) / 2;
}
static State At(const El& o) {
  L E = SolveE(o.e, o.M), n = sqrtl(o.mu / (o.a * o.a * o.a)), b = o.a * sqrtl(1 - o.e * o.e);
  V3 p{o.a * (cosl(E) - o.e), b * sinl(E), 0}, w{-o.a * n * sinl(E) / (1 - o.e * cosl(E)), b * n * cosl(E) / (1 - o.e * cosl(E)), 0};
  // in-plane components to inertial: inverse of the frame conversion Z(raan), X(i), Z(argp)
  M3 c = ref::T(ref::rz(o.argp) * ref::rx(o.i) * ref::rz(o.raan));
  return {c * p, c * w};
}
static El Random(mon::Mon& m) {
  El o;
  auto angle = [&]() -> L {
    switch (m.rng.i(0, 5)) {
      case 0: return (L)(m.rng.i(0, 7) * M_PI / 4);
      case 1: return (L)(m.rng.i(0, 4) * M_PI / 2 + m.rng.n() * 1e-8);
      default: return m.rng.u(0, 2 * M_PI);
    }
  };
  switch (m.rng.i(0, 5)) {
    case 0: o.mu = 4.902800066e12L, o.a = m.rng.logu(1.8e6, 5e7); break;   // Moon
    case 1: o.mu = 1.32712440018e20L, o.a = m.rng.logu(5e10, 1e12); break;  // Sun
    default: o.mu = 3.986004418e14L, o.a = m.rng.logu(6.6e6, 4e8);
  }
  switch (m.rng.i(0, 6)) {
    case 0: o.e = 0; break;
    case 1: o.e = m.rng.logu(1e-10, 1e-2); break;
    case 2: o.e = m.rng.u(0.7, 0.9); break;
    default: o.e = m.rng.u(0, 0.8);
  }
  switch (m.rng.i(0, 7)) {
    case 0: o.i = 0; break;
    case 1: o.i = ref::kPi; break;
    case 2: o.i = ref::kPi / 2; break;
    case 3: o.i = m.rng.logu(1e-9, 1e-2); break;
    case 4: o.i = ref::kPi - m.rng.logu(1e-9, 1e-2); break;
    default: o.i = m.rng.u(0, M_PI);
  }
  o.raan = angle(), o.argp = angle(), o.M = angle();
  return o;
}
static std::string Show(const El& o) {
  return mon::F("mu %.10Lg a %.10Lg m e %.10Lg i %.10Lg raan %.10Lg argp %.10Lg M %.10Lg", o.mu, o.a, o.e, o.i, o.raan, o.argp, o.M);
}
// two-body invariants of a state: energy, angular momentum vector, eccentricity vector
static void Invariants(L mu, V3 r, V3 v, L& en, V3& h, V3& ev) {
  en = ref::dot_(v, v) / 2 - mu / ref::norm(r);
  h = ref::cross_(r, v);
  ev = (1 / mu) * ref::cross_(v, h) - ref::unit(r);
}
// time resolution of a Julian day in double precision is 4e-5 s
static constexpr double kTimeTol_s = 2e-4;

static void CheckState(mon::Mon& m, KeplerOrbit& k, const El& o, double dt_s, double jd_from, double jd_to, const char* key) {
  k.CalcOrbit(jd_to);
  L n = sqrtl(o.mu / (o.a * o.a * o.a));
  El at = o;
  at.M = o.M + n * (L)((L)jd_to - (L)jd_from) * 86400;
  State s = At(at);
  V3 r = ref::v(k.GetPosition_i_m()), v = ref::v(k.GetVelocity_i_m_s());
  L acc = o.mu / ref::dot_(s.r, s.r);
  // rounding of the elements grows with the number of revolutions
  L phase = fabsl(n * dt_s) * 1e-13L + 1e-9L * 5;
  L vr = ref::norm(s.v), rr = ref::norm(s.r), vp = n * o.a * sqrtl((1 + o.e) / (1 - o.e));
  double tr = (double)(vr * kTimeTol_s + vp / n * phase + 1e-10L * rr), tv = (double)(acc * kTimeTol_s + acc / n * phase + 1e-9L * vp);
  vclose(m, r, s.r, tr, key, "position");
  vclose(m, v, s.v, tv, key, "velocity");
  L en, en2;
  V3 h, h2, e, e2;
  State s0 = At(o);
  Invariants(o.mu, s0.r, s0.v, en, h, e);
  Invariants(o.mu, r, v, en2, h2, e2);
  m.check(fabsl(en2 - en) <= 1e-8L * fabsl(en) * (vp * vp / (n * n * o.a * o.a)), "energy", "energy %.15Lg, at the epoch %.15Lg", en2, en);
  vclose(m, h2, h, (double)(1e-9L * ref::norm(h)), "angular_momentum", "angular momentum");
  vclose(m, e2, e, 1e-8, "eccentricity_vector", "eccentricity vector");
  m.ev("states_compared");
}
static double RandomDt(mon::Mon& m) { return m.rng.b(0.3) ? m.rng.u(-6000, 6000) : m.rng.u(-1, 1) * m.rng.logu(1, 3e6); }

GROUP(state_to_elements_and_back) {
  for (long c = 0; c < m.n(8000, 300000); c++) {
    El o = Random(m);
    double jd = 2400000.5 + m.rng.u(30000, 70000);
    if (m.rng.b(0.3)) jd = floor(jd);
    State s = At(o);
    m.begin("%s at JD %.9f, r %s v %s", Show(o).c_str(), jd, S(s.r).c_str(), S(s.v).c_str());
    m.distinctv({(double)o.a, (double)o.e, (double)o.i, (double)o.raan});
    Vec3 r = tov(s.r), v = tov(s.v);
    OrbitalElements oe((double)o.mu, jd, r, v);
    m.close(oe.GetSemiMajorAxis_m(), (double)o.a, (double)o.a * 1e-12 / (double)(1 - o.e), "semi_major_axis", "semi major axis");
    m.close(oe.GetEccentricity(), (double)o.e, 1e-9, "eccentricity", "eccentricity");
    m.close(oe.GetInclination_rad(), (double)o.i, 3e-8, "inclination", "inclination");
    if (o.i > 1e-3 && o.i < M_PI - 1e-3) {
      double d = (double)ref::wrappi(oe.GetRaan_rad() - o.raan);
      m.check(fabs(d) < 1e-9 || fabs(fabs(d) - 2 * M_PI) < 1e-9, "raan", "RAAN %.12g, expected %.12Lg", oe.GetRaan_rad(), o.raan);
      if (o.e > 1e-3) {
        double d2 = (double)ref::wrappi(oe.GetArgPerigee_rad() - o.argp);
        m.check(fabs(d2) < 1e-8, "arg_perigee", "argument of perigee %.12g, expected %.12Lg", oe.GetArgPerigee_rad(), o.argp);
      }
      if (cosl(o.raan) < 0) m.ev("node_in_second_or_third_quadrant");
    }
    KeplerOrbit k((double)o.mu, oe);
    CheckState(m, k, o, 0, jd, jd, "state_at_epoch");
    for (int q = 0; q < 3; q++) {
      double dt = RandomDt(m);
      CheckState(m, k, o, dt, jd, jd + dt / 86400, "propagated_state");
    }
  }
  m.require("states_compared", 1000);
  m.require("node_in_second_or_third_quadrant", 100);
}

GROUP(elements_to_state) {  // elements given directly; the epoch is the perigee passage
  for (long c = 0; c < m.n(8000, 300000); c++) {
    El o = Random(m);
    o.M = 0;
    double jd = 2451545.0 + m.rng.u(-3000, 9000);
    m.begin("%s perigee at JD %.9f", Show(o).c_str(), jd);
    m.distinctv({(double)o.a, (double)o.e, (double)o.i, (double)o.raan});
    OrbitalElements oe(jd, (double)o.a, (double)o.e, (double)o.i, (double)o.raan, (double)o.argp);
    m.check(oe.GetSemiMajorAxis_m() == (double)o.a && oe.GetEccentricity() == (double)o.e && oe.GetInclination_rad() == (double)o.i && oe.GetRaan_rad() == (double)o.raan &&
                oe.GetArgPerigee_rad() == (double)o.argp && oe.GetEpoch_jday() == jd,
            "getters", "the elements are not returned as given");
    KeplerOrbit k((double)o.mu, oe);
    CheckState(m, k, o, 0, jd, jd, "state_at_perigee");
    double last = 0;
    for (int q = 0; q < 4; q++) {
      double dt = RandomDt(m);
      CheckState(m, k, o, dt, jd, jd + dt / 86400, "propagated_state");
      last = dt;
    }
    // history independence: asking for the same time again, after others, gives the same state
    k.CalcOrbit(jd + last / 86400);
    V3 r1 = ref::v(k.GetPosition_i_m());
    k.CalcOrbit(jd + 1.234);
    k.CalcOrbit(jd + last / 86400);
    m.check(vdiff(ref::v(k.GetPosition_i_m()), r1) == 0, "repeatable", "the same time gave another state");
  }
  m.require("states_compared", 1000);
}

GROUP(dense_eccentric) {  // a complete revolution in fine steps, for high eccentricities: every phase, particularly around the perigee
  for (long c = 0; c < m.n(60, 2000); c++) {
    El o = Random(m);
    o.M = 0;
    o.e = m.rng.b() ? 0.9 : m.rng.u(0.6, 0.9);
    double jd = 2459000.5;
    L n = sqrtl(o.mu / (o.a * o.a * o.a));
    OrbitalElements oe(jd, (double)o.a, (double)o.e, (double)o.i, (double)o.raan, (double)o.argp);
    KeplerOrbit k((double)o.mu, oe);
    for (int q = 0; q < 400; q++) {
      double ph = q < 300 ? m.rng.u(0, 2 * M_PI) : m.rng.n() * 0.05;
      double dt = ph / (double)n;
      m.begin("%s phase %.9f", Show(o).c_str(), ph);
      m.distinctv({(double)o.e, ph});
      CheckState(m, k, o, dt, jd, jd + dt / 86400, "propagated_state");
    }
  }
  m.require("states_compared", 1000);
}
