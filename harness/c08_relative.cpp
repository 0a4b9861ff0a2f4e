// C08: relative orbit propagation
#include "world.hpp"
//
#include <dynamics/orbit/relative_orbit.hpp>
#include <math_physics/orbit/relative_orbit_models.hpp>

using s2e::dynamics::orbit::RelativeOrbit;
namespace so = s2e::orbit;

struct M6 {
  L a[6][6] = {{0}};
};
static M6 Mul(const M6& x, const M6& y) {
  M6 r;
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++)
      for (int k = 0; k < 6; k++) r.a[i][j] += x.a[i][k] * y.a[k][j];
  return r;
}
// linearised two-body motion in the frame (radial, along track, normal) that rotates at the rate n of a circular orbit
static M6 Hill(L n) {
  M6 m;
  for (int i = 0; i < 3; i++) m.a[i][i + 3] = 1;
  m.a[3][0] = 3 * n * n, m.a[3][4] = 2 * n, m.a[4][3] = -2 * n, m.a[5][2] = -n * n;
  return m;
}
static M6 Exp(M6 x) {  // in scaled units: rows 3..5 per unit of n t
  const int s = 17;
  for (auto& r : x.a)
    for (L& v : r) v /= (1 << s);
  M6 e, t;
  for (int i = 0; i < 6; i++) e.a[i][i] = t.a[i][i] = 1;
  for (int k = 1; k < 14; k++) {
    t = Mul(t, x);
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++) {
        t.a[i][j] /= k;
        e.a[i][j] += t.a[i][j];
      }
  }
  for (int k = 0; k < s; k++) e = Mul(e, e);
  return e;
}
// exp(A t) through the nondimensional matrix (length unit 1, time unit 1/n), to keep the exponential well scaled
static M6 Stm(L n, L t) {
  M6 h = Hill(1);
  for (auto& r : h.a)
    for (L& v : r) v *= n * t;
  M6 e = Exp(h);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      e.a[i][j + 3] /= n;
      e.a[i + 3][j] *= n;
    }
  return e;
}
template <class X>
static void Same(mon::Mon& m, const X& got, const M6& want, L n, double tol, const char* key) {  // nondimensional comparison
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) {
      L scale = i < 3 && j >= 3 ? n : i >= 3 && j < 3 ? 1 / n : 1;
      m.check(fabsl((L)got[i][j] - want.a[i][j]) * scale <= tol, key, "element (%d,%d): %.15g, expected %.15Lg", i, j, (double)got[i][j], want.a[i][j]);
    }
}

GROUP(transition_matrix) {
  for (long c = 0; c < m.n(1500, 40000); c++) {
    const L mu = m.rng.b(0.8) ? 3.986004418e14L : 4.9028e12L;
    double R = m.rng.logu(2e6, 5e7);
    L n = sqrtl(mu / ((L)R * R * R));
    double top = m.rng.b() ? 4 : 300;  // up to many revolutions
    double t1 = m.rng.b(0.2) ? 0 : m.rng.u(-1, 1) * m.rng.logu(0.1, top / (double)n), t2 = m.rng.u(-1, 1) * m.rng.logu(0.1, top / (double)n);
    m.begin("radius %.9g m, mu %.6Lg, t1 %.9g s, t2 %.9g s", R, mu, t1, t2);
    m.distinctv({R, t1, t2});
    auto a = so::CalcHillSystemMatrix(R, (double)mu);
    Same(m, a, Hill(n), n, 1e-13 / 1, "system_matrix");
    for (int i = 3; i < 6; i++)
      for (int j = 0; j < 6; j++) {  // relative comparison of the small elements
        L w = Hill(n).a[i][j];
        m.check(fabsl((L)a[i][j] - w) <= 1e-13L * fabsl(w), "system_matrix", "element (%d,%d): %.15g, expected %.15Lg", i, j, a[i][j], w);
      }
    auto z = so::CalcHcwStm(R, (double)mu, 0.0);
    M6 one;
    for (int i = 0; i < 6; i++) one.a[i][i] = 1;
    Same(m, z, one, n, 1e-14, "identity_at_zero");
    auto s1 = so::CalcHcwStm(R, (double)mu, t1), s2 = so::CalcHcwStm(R, (double)mu, t2), s12 = so::CalcHcwStm(R, (double)mu, t1 + t2);
    Same(m, s1, Stm(n, t1), n, 1e-11 * (1 + fabs((double)n * t1)), "exponential");
    M6 p1, p2;
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++) p1.a[i][j] = s1[i][j], p2.a[i][j] = s2[i][j];
    Same(m, s12, Mul(p2, p1), n, 1e-10 * (1 + 0.01 * (double)n * (fabs(t1) + fabs(t2)) * (1 + (double)n * (fabs(t1) + fabs(t2)))), "composition");
    m.ev("matrices_compared", 5);
  }
  m.require("matrices_compared", 1000);
}

GROUP(nonlinear_limit) {  // the linear model against the difference of two exact Kepler orbits, for separations small against the radius
  for (long c = 0; c < m.n(400, 6000); c++) {
    const L mu = 3.986004418e14L;
    L R = m.rng.logu(6.6e6, 4.3e7), n = sqrtl(mu / (R * R * R));
    L d = 1e-6L * R;
    V3 rho = d * gen::dir(m.rng), rd = (d * n) * gen::dir(m.rng);
    double t = m.rng.u(0, 3) / (double)n;
    // leader: circular in the x-y plane; follower integrated in long double
    V3 r = V3{R, 0, 0} + rho, v = V3{0, R * n, 0} + rd + ref::cross_({0, 0, n}, rho);
    const int N = 4000;
    L h = (L)t / N;
    auto acc = [&](V3 x) { L q = ref::norm(x); return (-mu / (q * q * q)) * x; };
    for (int k = 0; k < N; k++) {
      V3 k1 = acc(r), k2 = acc(r + (h / 2) * v), k3 = acc(r + (h / 2) * v + (h * h / 4) * k1), k4 = acc(r + h * v + (h * h / 2) * k2);
      V3 rn = r + h * v + (h * h / 6) * (k1 + k2 + k3);
      v = v + (h / 6) * (k1 + 2 * k2 + 2 * k3 + k4);
      r = rn;
    }
    M3 z = ref::rz(n * t);
    V3 got_ref = z * r - V3{R, 0, 0}, vel_ref = z * (v - ref::cross_({0, 0, n}, r)) ;
    auto s = so::CalcHcwStm((double)R, (double)mu, t);
    L x0[6] = {rho.x, rho.y, rho.z, rd.x, rd.y, rd.z};
    L x[6] = {0};
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++) x[i] += (L)s[i][j] * x0[j];
    m.begin("radius %.9Lg m, separation %s m, relative velocity %s m/s, t %.9g s", R, S(rho).c_str(), S(rd).c_str(), t);
    m.distinctv({(double)R, t, (double)rho.x});
    // second order terms: (d/R)^2 times secular growth
    double tol = (double)(d * 1e-6L * 3000);
    vclose(m, {x[0], x[1], x[2]}, got_ref, tol, "nonlinear_position", "relative position of the linear model");
    vclose(m, {x[3], x[4], x[5]}, vel_ref, tol * (double)n, "nonlinear_velocity", "relative velocity of the linear model");
    m.ev("trajectories_compared");
  }
  m.require("trajectories_compared", 100);
}

struct Leader {
  V3 r, v;
  L R, n;
};
static Leader RandomLeader(mon::Mon& m, bool circular) {
  const L mu = 3.986004418e14L;
  V3 u = gen::dir(m.rng);
  V3 w = ref::unit(ref::cross_(u, gen::dir(m.rng)));
  while (!(ref::norm(w) > 0.5L)) w = ref::unit(ref::cross_(u, gen::dir(m.rng)));
  Leader l;
  l.R = m.rng.logu(6.9e6, 3e7);
  L s = sqrtl(mu / l.R);
  l.r = l.R * u;
  l.v = s * w;
  if (!circular) l.v = (s * m.rng.u(1.0, 1.15)) * w + (s * m.rng.u(0, 0.1)) * u;
  l.n = ref::norm(ref::cross_(l.r, l.v)) / (l.R * l.R);
  return l;
}

static void Propagation(mon::Mon& m, bool circular, bool through_settings, long cases) {
  const L mu = 3.986004418e14L;
  for (long c = 0; c < cases; c++) {
    Leader l = RandomLeader(m, circular);
    V3 rho = m.rng.logu(1, 1e4) * gen::dir(m.rng), rd = m.rng.logu(1e-3, 3) * gen::dir(m.rng);
    if (m.rng.b(0.1)) rd = {0, 0, 0};
    int method = (int)m.rng.i(0, 1);
    double step = m.rng.pick(std::vector<double>{0.1, 0.5, 1.0, 2.0});
    if (method == 1 && m.rng.b(0.3)) step = m.rng.pick(std::vector<double>{60, 300});  // several revolutions
    double rk = method == 0 && m.rng.b() ? step / m.rng.i(1, 4) : step;
    if (method == 0 && m.rng.b(0.4)) rk = step * m.rng.u(0.2, 1);  // the last step of the integration is shorter
    // the leader need not be the first spacecraft
    const int leader = through_settings && m.rng.b(0.4) ? 1 : 0, follower = leader + 1;
    world::Settings s(follower + 1);
    s.Times(step, 100 * step);
    s.B("TIME", "orbit_integral_step_s", rk);
    for (int i = 0; i <= follower; i++) s.NoNoise(i), s.NoDisturbance(i);
    if (leader > 0) {
      Leader other = RandomLeader(m, circular);
      s.Orbit(0, other.r, other.v, "RK4");
    }
    s.Orbit(leader, l.r, l.v, "RK4");
    if (through_settings) {
      s.Orbit(follower, l.r, l.v, "RELATIVE");
      s.Sat(follower, "ORBIT", "relative_orbit_update_method", (double)method);
      s.Sat(follower, "ORBIT", "reference_satellite_id", (double)leader);
      world::SetV(s.sats[follower], "ORBIT", "initial_relative_position_lvlh_m", rho, 3);
      world::SetV(s.sats[follower], "ORBIT", "initial_relative_velocity_lvlh_m_s", rd, 3);
    } else {
      s.Orbit(follower, l.r, l.v, "RK4");
    }
    m.begin("leader r %s v %s, follower %s m %s m/s, method %s, step %g s, integration step %g s, from settings %d, leader %d", S(l.r).c_str(), S(l.v).c_str(), S(rho).c_str(), S(rd).c_str(),
            method ? "transition matrix" : "RK4", step, rk, through_settings, leader);
    m.distinctv({(double)l.R, (double)rho.x, (double)rd.y, (double)method});
    world::World w(s);
    const double gm = w.global->GetCelestialInformation().GetCenterBodyGravityConstant_m3_s2();
    m.check(fabs(gm / (double)mu - 1) < 1e-3, "gravity_constant", "gravity constant %.9g", gm);
    std::unique_ptr<RelativeOrbit> own;
    if (!through_settings) {
      own = std::make_unique<RelativeOrbit>(&w.global->GetCelestialInformation(), gm, rk, 0, tov(rho), tov(rd), (RelativeOrbit::RelativeOrbitUpdateMethod)method,
                                            so::RelativeOrbitModel::kHill, so::StmModel::kHcw, &w.relative);
      own->SetIsCalcEnabled(true);
    }
    const s2e::dynamics::orbit::Orbit& f = own ? *own : w.sc[follower]->Dyn().GetOrbit();
    const s2e::dynamics::orbit::Orbit& lead = w.sc[leader]->Dyn().GetOrbit();
    std::vector<V3> dp, dv;
    const L R0 = ref::norm(ref::v(lead.GetPosition_i_m())), n0 = sqrtl((L)gm / (R0 * R0 * R0));
    int steps = 60;
    for (int k = 0; k <= steps; k++) {
      if (k > 0) {
        w.Step();
        if (own) own->Propagate(w.Time().GetElapsedTime_s(), w.Time().GetCurrentTime_jd());
      }
      V3 lr = ref::v(lead.GetPosition_i_m()), lv = ref::v(lead.GetVelocity_i_m_s()), p = ref::v(f.GetPosition_i_m()), v = ref::v(f.GetVelocity_i_m_s());
      V3 ex = ref::unit(lr), ez = ref::unit(ref::cross_(lr, lv)), ey = ref::cross_(ez, ex);
      V3 om = (1 / ref::dot_(lr, lr)) * ref::cross_(lr, lv);
      L t = (L)step * k;
      V3 x0, xv;
      {
        // the transition of the relative state uses the rate at the radius: initial radius for RK4, current radius for the transition matrix
        L Rn = method == 1 && k > 0 ? ref::norm(lr) : R0;
        M6 st = Stm(sqrtl((L)gm / (Rn * Rn * Rn)), t);
        L s0[6] = {rho.x, rho.y, rho.z, rd.x, rd.y, rd.z}, x[6] = {0};
        for (int i = 0; i < 6; i++)
          for (int j = 0; j < 6; j++) x[i] += st.a[i][j] * s0[j];
        x0 = {x[0], x[1], x[2]}, xv = {x[3], x[4], x[5]};
      }
      V3 pi = lr + (x0.x * ex + x0.y * ey + x0.z * ez);
      V3 vi = lv + (xv.x * ex + xv.y * ey + xv.z * ez) + ref::cross_(om, pi - lr);
      double sc = (double)(ref::norm(rho) + ref::norm(rd) * t);
      vclose(m, p, pi, 1e-8 + 1e-8 * sc + 4e-9, "follower_position", "inertial position of the follower");
      if (circular || method == 0) vclose(m, v, vi, 1e-10 + 1e-8 * sc * (double)n0 * 3 + 1e-9 * (double)ref::norm(rd) + 1e-11, "follower_velocity", "inertial velocity of the follower");
      dp.push_back(p - lr), dv.push_back(v - lv);
      if (k >= 2 && step <= 2 && (circular || method == 0)) {
        V3 fd = (1 / (2 * (L)step)) * (dp[k] - dp[k - 2]);
        // truncation of the central difference, and rounding of the positions
        double tol = (double)(8 * n0 * n0 * (n0 * sc + ref::norm(rd)) * step * step) + 1e-8 / step;
        vclose(m, dv[k - 1], fd, tol + 1e-9, "velocity_is_derivative", "relative velocity and the difference quotient of the relative position");
      }
      m.ev(method ? "states_transition_matrix" : "states_rk4");
      // accompanying quantities
      m.check(vdiff(ref::v(f.GetPosition_ecef_m()), ref::m(w.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef()) * p) < 1e-6, "ecef",
              "Earth-fixed position of the follower");
    }
  }
  m.require("states_rk4", 50);
  m.require("states_transition_matrix", 50);
}
GROUP(circular_leader) { Propagation(m, true, false, m.n(40, 500)); }
GROUP(circular_leader_from_settings) { Propagation(m, true, true, m.n(40, 500)); }
GROUP(eccentric_leader) { Propagation(m, false, false, m.n(40, 500)); }
