// C16: attitude dynamics
#include "world.hpp"
//
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include <dynamics/attitude/controlled_attitude.hpp>
#include <dynamics/attitude/initialize_attitude.hpp>
#include <simulation/spacecraft/structure/kinematics_parameters.hpp>
namespace at = s2e::dynamics::attitude;

static V3 Solve(const M3& a, V3 b) {  // Cramer
  L d = ref::det(a);
  V3 r;
  for (int k = 0; k < 3; k++) {
    M3 c = a;
    for (int i = 0; i < 3; i++) c[i][k] = b[i];
    r[k] = ref::det(c) / d;
  }
  return r;
}
static M3 RandomInertia(mon::Mon& m, L scale) {
  // moments of a real body: the sum of two exceeds the third
  L a = m.rng.u(0.1, 1), b = m.rng.u(0.1, 1), c = m.rng.u(0.1, 1);
  if (m.rng.b(0.2)) b = a;
  M3 p;
  p[0][0] = b + c, p[1][1] = a + c, p[2][2] = a + b;
  M3 r = m.rng.b(0.3) ? ref::eye() : ref::rot(gen::dir(m.rng), m.rng.u(0, 6));
  M3 x = ref::T(r) * p * r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) x[i][j] *= scale;
  return x;
}
struct State {
  V3 w;
  L q[4];
};
static State Deriv(const State& s, const M3& I, V3 h, V3 tau) {
  State d;
  d.w = Solve(I, tau - ref::cross_(s.w, I * s.w + h));
  V3 e{s.q[0], s.q[1], s.q[2]};
  V3 de = (0.5L) * (s.q[3] * s.w + ref::cross_(e, s.w));
  for (int i = 0; i < 3; i++) d.q[i] = de[i];
  d.q[3] = -0.5L * ref::dot_(e, s.w);
  return d;
}
static State Axpy(const State& s, L k, const State& d) {
  State r = s;
  r.w = s.w + k * d.w;
  for (int i = 0; i < 4; i++) r.q[i] += k * d.q[i];
  return r;
}
// motion over dt with torque constant in the body frame
static void Advance(State& s, const M3& I, V3 h, V3 tau, L dt, L rate) {
  int n = (int)std::min(4000.0L, std::max(1.0L, ceill(dt * rate / 0.01L)));
  L k = dt / n;
  for (int i = 0; i < n; i++) {
    State a = Deriv(s, I, h, tau), b = Deriv(Axpy(s, k / 2, a), I, h, tau), c = Deriv(Axpy(s, k / 2, b), I, h, tau), d = Deriv(Axpy(s, k, c), I, h, tau);
    s = Axpy(s, k / 6, a), s = Axpy(s, k / 3, b), s = Axpy(s, k / 3, c), s = Axpy(s, k / 6, d);
    L q = 0;
    for (L x : s.q) q += x * x;
    for (L& x : s.q) x /= sqrtl(q);
  }
}
static M3 RotOf(const State& s) { return ref::rotq(s.q); }
static V3 Momentum_i(const at::Attitude& a, const M3& I, V3 h) {
  return ref::T(ref::rotq(a.GetQuaternion_i2b())) * (I * ref::v(a.GetAngularVelocity_b_rad_s()) + h);
}
static void Reported(mon::Mon& m, const at::Attitude& a, const M3& I, V3 h) {
  V3 w = ref::v(a.GetAngularVelocity_b_rad_s());
  L e = 0.5L * ref::dot_(w, I * w), p = ref::norm(I * w + h);
  m.check(fabsl(a.GetKineticEnergy_J() - e) <= 1e-12L * fabsl(e), "reported_energy", "kinetic energy %.15g, expected %.15Lg", a.GetKineticEnergy_J(), e);
  m.check(fabsl(a.GetTotalAngularMomentNorm_Nms() - p) <= 1e-12L * (p + ref::norm(h)), "reported_momentum", "angular momentum %.15g, expected %.15Lg", a.GetTotalAngularMomentNorm_Nms(), p);
  m.check(fabs(qnorm(a.GetQuaternion_i2b()) - 1) < 1e-13, "unit_quaternion", "norm %.17g", qnorm(a.GetQuaternion_i2b()));
}

// history of updates with torque, wheel momentum
static void Motion(mon::Mon& m, bool driven, long cases) {
  for (long c = 0; c < cases; c++) {
    L scale = m.rng.logu(1e-3, 1e4);
    M3 I = RandomInertia(m, scale);
    Mat3 inertia = tom(I);
    I = ref::m(inertia);
    double rate = m.rng.logu(1e-4, 3);
    V3 w0 = m.rng.b(0.05) ? V3{0, 0, 0} : rate * gen::dir(m.rng);
    auto q0 = gen::quat(m.rng);
    double step = m.rng.logu(0.003, 0.05) / rate;  // angle per integration step
    V3 h = m.rng.b(0.3) ? V3{0, 0, 0} : (scale * rate * m.rng.u(0, 1)) * gen::dir(m.rng);
    V3 tau = driven ? (scale * rate * rate * m.rng.u(0, 1)) * gen::dir(m.rng) : V3{0, 0, 0};
    int updates = (int)m.rng.i(5, 30);
    m.begin("inertia rows %s %s %s, angular velocity %s, quaternion %s, wheels %s, integration step %.6g s, %s", S(I[0] ? V3{I[0][0], I[0][1], I[0][2]} : V3()).c_str(),
            S(V3{I[1][0], I[1][1], I[1][2]}).c_str(), S(V3{I[2][0], I[2][1], I[2][2]}).c_str(), S(w0).c_str(), S4(q0).c_str(), S(h).c_str(), step, driven ? "torque per update" : "no torque");
    m.distinctv({(double)w0.x, step, (double)scale, q0[0]});
    Vec3 wv = tov(w0);
    at::AttitudeRk4 a(wv, toq(q0), inertia, tov(tau), step), b(wv, toq(q0), inertia, tov(tau), step, "attitude_b");
    a.SetRwAngularMomentum_b_Nms(tov(h)), b.SetRwAngularMomentum_b_Nms(tov(h));
    State s;
    s.w = ref::v(wv);
    for (int i = 0; i < 4; i++) s.q[i] = q0[i];
    V3 H0 = Momentum_i(a, I, h);
    L E0 = 0.5L * ref::dot_(s.w, I * s.w);
    double t = 0;
    L fastest = rate, turned = 0;
    for (int k = 0; k < updates; k++) {
      double dt = m.rng.b(0.3) ? step : m.rng.b(0.3) ? step * m.rng.u(0.05, 1) : step * m.rng.u(1, 12);
      if (m.rng.b(0.05)) dt = step * m.rng.i(2, 8) * (1 + 1e-13);
      if (driven) {
        if (m.rng.b(0.7)) tau = (scale * rate * rate * m.rng.u(0, 1)) * gen::dir(m.rng);
        if (m.rng.b(0.3)) {  // a wheel takes over momentum: the reaction belongs to the torque, the gyroscopic term to the momentum
          h = h + (0.1L * scale * rate) * gen::dir(m.rng);
        }
        a.SetTorque_b_Nm(tov(tau)), b.SetTorque_b_Nm(tov(0.25L * tau)), b.AddTorque_b_Nm(tov(0.75L * tau));
        a.SetRwAngularMomentum_b_Nms(tov(h)), b.SetRwAngularMomentum_b_Nms(tov(h));
      }
      a.Propagate(t + dt);
      if (m.rng.b(0.1)) {  // nothing happens in no time
        Quat q1 = a.GetQuaternion_i2b();
        Vec3 w1 = a.GetAngularVelocity_b_rad_s();
        a.Propagate(t + dt);
        double d = 0;
        for (int i = 0; i < 4; i++) d = std::max(d, fabs(q1[i] - a.GetQuaternion_i2b()[i])), d = std::isnan(a.GetQuaternion_i2b()[i]) ? NAN : d;
        m.check(d < 1e-14 && vdiff(ref::v(w1), ref::v(a.GetAngularVelocity_b_rad_s())) <= 1e-14 * (double)fastest, "zero_time", "propagating to the same time: quaternion %s, then %s", S4(q1).c_str(),
                S4(a.GetQuaternion_i2b()).c_str());
        m.ev("zero_time_updates");
      }
      // the same interval in parts
      int parts = (int)m.rng.i(1, 4);
      for (int j = 1; j <= parts; j++) b.Propagate(t + dt * j / parts);
      t += dt;
      Advance(s, I, h, tau, dt, fastest + ref::norm(h) / scale);
      fastest = std::max(fastest, ref::norm(s.w));
      turned += (fastest + ref::norm(h) / scale) * dt;
      L x = (fastest * 3 + ref::norm(h) / scale * 5) * step;  // angle per integration step, amplified by the ratio of the moments
      double tol = (double)(x * x * x * x * turned * 2) + 1e-12;
      L d1 = ref::rotdist(ref::rotq(a.GetQuaternion_i2b()), RotOf(s));
      m.check(d1 <= tol, "attitude", "after %.9g s the attitude is %.3Lg rad off the solution (tolerance %.3g)", t, d1, tol);
      vclose(m, ref::v(a.GetAngularVelocity_b_rad_s()), s.w, tol * (double)fastest * 3, "angular_velocity", "angular velocity");
      L d2 = ref::rotdist(ref::rotq(b.GetQuaternion_i2b()), RotOf(s));
      m.check(d2 <= tol, "split", "split into %d updates the attitude is %.3Lg rad off the solution (tolerance %.3g)", parts, d2, tol);
      vclose(m, ref::v(b.GetAngularVelocity_b_rad_s()), s.w, tol * (double)fastest * 3, "split", "angular velocity after split updates");
      Reported(m, a, I, h);
      if (!driven) {
        V3 H = Momentum_i(a, I, h);
        L E = 0.5L * ref::dot_(ref::v(a.GetAngularVelocity_b_rad_s()), I * ref::v(a.GetAngularVelocity_b_rad_s()));
        m.check(ref::norm(H - H0) <= tol * 10 * (ref::norm(H0) + ref::norm(h) + scale * fastest * 1e-3L), "momentum_conserved", "inertial angular momentum %s, at the start %s", S(H).c_str(), S(H0).c_str());
        m.check(fabsl(E - E0) <= tol * 10 * (E0 + scale * fastest * fastest * 1e-3L), "energy_conserved", "rotational energy %.15Lg, at the start %.15Lg", E, E0);
      }
      m.ev("updates");
    }
  }
  m.require("updates", 1000);
}
GROUP(free_motion) { Motion(m, false, m.n(800, 12000)); }
GROUP(driven_motion) { Motion(m, true, m.n(800, 12000)); }

GROUP(changing_inertia) {  // a structure that changes (propellant, deployment): internal forces do not change the angular momentum
  for (long c = 0; c < m.n(500, 6000); c++) {
    L scale = m.rng.logu(1e-2, 1e3);
    Mat3 I0 = tom(RandomInertia(m, scale));
    s2e::spacecraft::KinematicsParameters kin(vec(0, 0, 0), 10, I0);
    double rate = m.rng.logu(1e-3, 1), step = m.rng.logu(1e-4, 3e-3) / rate;
    V3 w0 = rate * gen::dir(m.rng), h = m.rng.b() ? V3{0, 0, 0} : (0.5L * scale * rate) * gen::dir(m.rng);
    auto q0 = gen::quat(m.rng);
    Vec3 wv = tov(w0);
    at::AttitudeRk4 a(wv, toq(q0), kin.GetInertiaTensor_b_kgm2(), vec(0, 0, 0), step);
    a.SetRwAngularMomentum_b_Nms(tov(h));
    double per = m.rng.logu(1e-4, 3e-2);
    bool same_matrix = m.rng.b(0.3);
    m.begin("angular velocity %s, quaternion %s, wheels %s, step %.6g s, inertia changes by %.3g per update", S(w0).c_str(), S4(q0).c_str(), S(h).c_str(), step, per);
    m.distinctv({(double)w0.x, step, per, q0[0]});
    V3 H0 = Momentum_i(a, ref::m(I0), h);
    double t = 0, tol = 1e-11;
    M3 dI = RandomInertia(m, scale * per);
    for (int k = 0; k < 40; k++) {
      M3 I = ref::m(kin.GetInertiaTensor_b_kgm2());
      if (k < 30) {
        if (!same_matrix) dI = RandomInertia(m, scale * per);
        L sg = (k / 5) % 2 ? -1 : 1;
        if (k >= 25) sg = 0;
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++) I[i][j] += sg * dI[i][j];
        if (!(ref::det(I) > 0.05L * scale * scale * scale * 0.1L)) continue;
        kin.SetInertiaTensor_b_kgm2(tom(I));
      }
      double dt = step * (m.rng.b() ? 1 : m.rng.i(2, 5));
      double w = (double)ref::norm(ref::v(a.GetAngularVelocity_b_rad_s())) + (double)(ref::norm(h) / scale);
      t += dt;
      a.Propagate(t);
      tol += 40 * dt * w * (per + pow(dt * w, 3));
      V3 H = Momentum_i(a, ref::m(kin.GetInertiaTensor_b_kgm2()), h);
      m.check(ref::norm(H - H0) <= tol * (ref::norm(H0) + ref::norm(h)), "momentum_conserved", "update %d: inertial angular momentum %s, at the start %s (relative tolerance %.3g)", k, S(H).c_str(), S(H0).c_str(), tol);
      Reported(m, a, ref::m(kin.GetInertiaTensor_b_kgm2()), h);
      m.ev("updates_with_changed_inertia");
    }
  }
  m.require("updates_with_changed_inertia", 1000);
}

// ---- flexible appendage ----
struct Cant {
  V3 w, wc, e;
  L q[4];
};
struct CantModel {
  M3 I, Ic;
  L zeta, wn;
  V3 h, tau;
  Cant D(const Cant& s) const {
    V3 net = tau - ref::cross_(s.w, I * s.w + h);
    M3 S2 = I;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) S2[i][j] += Ic[i][j];
    // (I + Ic) w' + Ic e'' = net,  w' + e'' = -(damping, spring)
    V3 f = (2 * zeta * wn) * s.wc + (wn * wn) * s.e;
    // w' = I^-1 (net + Ic f) from eliminating e''
    Cant d;
    d.w = Solve(I, net + Ic * f);
    d.wc = -f - d.w;
    d.e = s.wc;
    V3 qv{s.q[0], s.q[1], s.q[2]};
    V3 dq = 0.5L * (s.q[3] * s.w + ref::cross_(qv, s.w));
    for (int i = 0; i < 3; i++) d.q[i] = dq[i];
    d.q[3] = -0.5L * ref::dot_(qv, s.w);
    return d;
  }
};
static Cant AddC(const Cant& s, L k, const Cant& d) {
  Cant r = s;
  r.w = s.w + k * d.w, r.wc = s.wc + k * d.wc, r.e = s.e + k * d.e;
  for (int i = 0; i < 4; i++) r.q[i] += k * d.q[i];
  return r;
}
static std::vector<double> LogNumbers(const at::Attitude& a) {
  std::vector<double> v;
  std::stringstream ss(a.GetLogValue());
  std::string f;
  while (std::getline(ss, f, ','))
    if (!world::Trim(f).empty()) v.push_back(strtod(f.c_str(), nullptr));
  return v;
}

GROUP(cantilever) {
  for (long c = 0; c < m.n(300, 4000); c++) {
    L scale = m.rng.logu(1e-1, 1e3);
    Mat3 I0 = tom(RandomInertia(m, scale)), C0 = tom(RandomInertia(m, scale * m.rng.logu(1e-3, 0.5)));
    CantModel mod;
    mod.I = ref::m(I0), mod.Ic = ref::m(C0);
    double wn = m.rng.logu(0.1, 10), zeta = m.rng.b(0.2) ? 0 : m.rng.u(0, 0.3), rate = m.rng.logu(1e-3, 0.3);
    mod.zeta = zeta, mod.wn = wn;
    double ratio = 1;
    for (int i = 0; i < 3; i++) ratio = std::max(ratio, (double)(1 + mod.Ic[i][i] / mod.I[i][i] * 20));
    double step = m.rng.logu(0.003, 0.02) / (wn * sqrt(ratio) + rate);
    V3 w0 = rate * gen::dir(m.rng);
    auto q0 = gen::quat(m.rng);
    mod.h = m.rng.b() ? V3{0, 0, 0} : (scale * rate) * gen::dir(m.rng);
    Vec3 wv = tov(w0);
    at::AttitudeWithCantileverVibration a(wv, toq(q0), I0, C0, zeta, wn, vec(0, 0, 0), step);
    m.begin("inertia diagonal %.6Lg %.6Lg %.6Lg, appendage %.6Lg, frequency %.6g rad/s, damping %.6g, angular velocity %s, step %.6g s", mod.I[0][0], mod.I[1][1], mod.I[2][2], mod.Ic[0][0], wn, zeta,
            S(w0).c_str(), step);
    m.distinctv({(double)scale, wn, step, q0[0]});
    Cant s;
    s.w = ref::v(wv);
    for (int i = 0; i < 4; i++) s.q[i] = q0[i];
    double t = 0, turned = 0;
    a.SetRwAngularMomentum_b_Nms(tov(mod.h));
    for (int k = 0; k < 30; k++) {
      mod.tau = m.rng.b(0.4) ? V3{0, 0, 0} : (scale * rate * wn * 0.1L * m.rng.u(0, 1)) * gen::dir(m.rng);
      a.SetTorque_b_Nm(tov(mod.tau));
      double dt = m.rng.b() ? step : step * (m.rng.b(0.2) ? m.rng.u(0.01, 0.3) : m.rng.u(0.3, 12));
      if (dt < 3e-6) dt = 3e-6;
      t += dt;
      a.Propagate(t);
      int n = (int)ceil(dt / step * 4);
      for (int i = 0; i < n; i++) {
        L x = (L)dt / n;
        Cant d1 = mod.D(s), d2 = mod.D(AddC(s, x / 2, d1)), d3 = mod.D(AddC(s, x / 2, d2)), d4 = mod.D(AddC(s, x, d3));
        s = AddC(s, x / 6, d1), s = AddC(s, x / 3, d2), s = AddC(s, x / 3, d3), s = AddC(s, x / 6, d4);
      }
      L q = 0;
      for (L x : s.q) q += x * x;
      for (L& x : s.q) x /= sqrtl(q);
      double lam = wn * sqrt(ratio) + (double)ref::norm(s.w) * 3 + (double)(ref::norm(mod.h) / scale) * 5;
      turned += lam * dt;
      double tol = pow(lam * step, 4) * turned * 2 + 1e-11;
      double size = (double)(ref::norm(s.w) + ref::norm(s.wc)) + rate;
      vclose(m, ref::v(a.GetAngularVelocity_b_rad_s()), s.w, tol * size * ratio, "angular_velocity", "angular velocity of the body");
      L d = ref::rotdist(ref::rotq(a.GetQuaternion_i2b()), ref::rotq(s.q));
      m.check(d <= tol * ratio * (1 + turned), "attitude", "after %.9g s the attitude is %.3Lg rad off the solution", t, d);
      auto v = LogNumbers(a);
      if (m.check(v.size() >= 6, "log", "%zu logged numbers", v.size())) {
        size_t o = v.size() - 6;
        vclose(m, {v[o], v[o + 1], v[o + 2]}, s.e, tol * size / wn * ratio + 2e-5 * (double)ref::norm(s.e), "appendage_angle", "logged deflection of the appendage");
        vclose(m, {v[o + 3], v[o + 4], v[o + 5]}, s.wc, tol * size * ratio + 2e-5 * (double)ref::norm(s.wc), "appendage_rate", "logged rate of the appendage");
      }
      Reported(m, a, mod.I, mod.h);
      m.ev("cantilever_updates");
    }
  }
  // the body's inertia changes once: from then on it moves as a body of that inertia
  for (long c = 0; c < m.n(150, 1500); c++) {
    const L scale = m.rng.logu(1e-1, 1e3);
    Mat3 I0 = tom(RandomInertia(m, scale)), I1 = tom(RandomInertia(m, scale * m.rng.u(0.3, 3))), C0 = tom(RandomInertia(m, scale * m.rng.logu(1e-2, 0.5)));
    s2e::spacecraft::KinematicsParameters kin(vec(0, 0, 0), 10, I0);
    CantModel mod;
    mod.Ic = ref::m(C0), mod.I = ref::m(I1);
    const double wn = m.rng.logu(0.1, 10), zeta = m.rng.b(0.2) ? 0 : m.rng.u(0, 0.3), rate = m.rng.logu(1e-3, 0.3);
    mod.zeta = zeta, mod.wn = wn;
    double ratio = 1;
    for (int i = 0; i < 3; i++) ratio = std::max(ratio, (double)(1 + mod.Ic[i][i] / std::min(mod.I[i][i], (L)I0[i][i]) * 20));
    const double step = m.rng.logu(0.003, 0.02) / (wn * sqrt(ratio) + rate);
    auto q0 = gen::quat(m.rng);
    Vec3 wv = tov((L)rate * gen::dir(m.rng));
    at::AttitudeWithCantileverVibration a(wv, toq(q0), kin.GetInertiaTensor_b_kgm2(), C0, zeta, wn, vec(0, 0, 0), step);
    m.begin("inertia diagonal %.6g %.6g %.6g becomes %.6g %.6g %.6g, frequency %.6g rad/s, damping %.6g, step %.6g s", I0[0][0], I0[1][1], I0[2][2], I1[0][0], I1[1][1], I1[2][2], wn, zeta, step);
    m.distinctv({(double)scale, wn, step, q0[0]});
    double t = 0, turned = 0;
    Cant s;
    for (int k = 0; k < 30; k++) {
      if (k == 8) kin.SetInertiaTensor_b_kgm2(I1);
      mod.tau = ((L)m.rng.u(0, 0.3) * scale * rate * wn) * gen::dir(m.rng);
      a.SetTorque_b_Nm(tov(mod.tau));
      const double dt = std::max(3e-6, step * m.rng.u(0.3, 12));
      t += dt;
      a.Propagate(t);
      auto v = LogNumbers(a);
      if (v.size() < 6) break;
      const size_t o = v.size() - 6;
      if (k < 10) {  // the change itself has its own checks: from here the motion is followed
        s.w = ref::v(a.GetAngularVelocity_b_rad_s()), s.e = {v[o], v[o + 1], v[o + 2]}, s.wc = {v[o + 3], v[o + 4], v[o + 5]};
        const Quat q = a.GetQuaternion_i2b();
        for (int i = 0; i < 4; i++) s.q[i] = q[i];
        continue;
      }
      const int n = (int)ceil(dt / step * 4);
      for (int i = 0; i < n; i++) {
        L x = (L)dt / n;
        Cant d1 = mod.D(s), d2 = mod.D(AddC(s, x / 2, d1)), d3 = mod.D(AddC(s, x / 2, d2)), d4 = mod.D(AddC(s, x, d3));
        s = AddC(s, x / 6, d1), s = AddC(s, x / 3, d2), s = AddC(s, x / 3, d3), s = AddC(s, x / 6, d4);
      }
      const double lam = wn * sqrt(ratio) + (double)ref::norm(s.w) * 3;
      turned += lam * dt;
      const double size = (double)(ref::norm(s.w) + ref::norm(s.wc) + ref::norm(s.e) * wn) + rate;
      vclose(m, ref::v(a.GetAngularVelocity_b_rad_s()), s.w, (pow(lam * step, 4) * turned * 2 + 3e-5 * (1 + turned)) * size * ratio, "changed_inertia", "angular velocity after the inertia changed");
      m.ev("flexible_with_changed_inertia");
    }
  }
  // one axis: total momentum is conserved whatever happens inside, also while the body's inertia changes
  for (long c = 0; c < m.n(200, 2000); c++) {
    int ax = (int)m.rng.i(0, 2);
    Mat3 I0(0.0), C0(0.0);
    for (int i = 0; i < 3; i++) I0[i][i] = m.rng.u(5, 10), C0[i][i] = m.rng.u(0.5, 3);
    s2e::spacecraft::KinematicsParameters kin(vec(0, 0, 0), 10, I0);
    double wn = m.rng.logu(0.3, 5), zeta = m.rng.u(0, 0.2), w0 = m.rng.u(-0.2, 0.2), step = 0.01 / wn;
    Vec3 w(0.0);
    w[ax] = w0;
    at::AttitudeWithCantileverVibration a(w, Quat(0, 0, 0, 1), kin.GetInertiaTensor_b_kgm2(), C0, zeta, wn, vec(0, 0, 0), step);
    m.begin("axis %d, rate %.9g, frequency %.6g, damping %.6g, inertia %.6g + %.6g", ax, w0, wn, zeta, I0[ax][ax], C0[ax][ax]);
    m.distinctv({w0, wn, zeta, I0[ax][ax]});
    double t = 0, L0 = (I0[ax][ax] + C0[ax][ax]) * w0;
    Mat3 I = I0;
    for (int k = 0; k < 60; k++) {
      if (k < 40) {
        for (int i = 0; i < 3; i++) I[i][i] *= 1.004;
        kin.SetInertiaTensor_b_kgm2(I);
      }
      t += step * 2;
      a.Propagate(t);
      auto v = LogNumbers(a);
      if (v.size() < 6) continue;
      double now = (I[ax][ax] + C0[ax][ax]) * a.GetAngularVelocity_b_rad_s()[ax] + C0[ax][ax] * v[v.size() - 3 + ax];
      m.check(fabs(now - L0) <= 1e-4 * fabs(L0) + 1e-9, "total_momentum", "momentum of body and appendage %.9g, at the start %.9g", now, L0);
      m.ev("one_axis_updates");
    }
  }
  m.require("cantilever_updates", 500);
}

// ---- pointing ----
static const std::vector<std::string> kModes = {"SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING"};
static V3 Target(const std::string& mode, V3 r, V3 v, V3 sun, const M3& e, double lat, double lon, double alt) {
  if (mode == kModes[0]) return ref::unit(sun - r);
  if (mode == kModes[1]) return ref::unit(-r);
  if (mode == kModes[2]) return ref::unit(v);
  if (mode == kModes[3]) return ref::unit(v - ref::cross_({0, 0, 0}, r));  // replaced by the caller
  if (mode == kModes[4]) return ref::unit(ref::cross_(r, v));
  const L a = 6378137, f = 1 / 298.257223563L, e2 = f * (2 - f), n = a / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
  V3 p{(n + alt) * cosl(lat) * cosl(lon), (n + alt) * cosl(lat) * sinl(lon), (n * (1 - e2) + alt) * sinl(lat)};
  return ref::unit(ref::T(e) * p - r);
}

GROUP(from_file) {  // an attitude described in a settings file is the one built from the values written there
  for (long c = 0; c < m.n(400, 4000); c++) {
    const std::string mode = m.rng.pick(std::vector<std::string>{"RK4", "RK4", "CANTILEVER_VIBRATION", "SOMETHING"}), start = m.rng.pick(std::vector<std::string>{"MANUAL", "MANUAL", "OTHER"});
    const double step = m.rng.logu(1e-3, 0.1), rate = m.rng.logu(1e-4, 0.5), wn = m.rng.u(0.3, 3), zeta = m.rng.u(0, 0.3);
    auto q0 = gen::quat(m.rng);
    const V3 w0 = rate * gen::dir(m.rng), t0 = (L)m.rng.logu(1e-5, 1e-1) * gen::dir(m.rng);
    Mat3 I0 = tom(RandomInertia(m, m.rng.logu(1, 100))), C0 = tom(RandomInertia(m, m.rng.logu(0.1, 1)));
    std::vector<std::string> lines{"propagate_mode = " + mode, "initialize_mode = " + start, "logging = ENABLE"};
    for (int i = 0; i < 3; i++) {
      lines.push_back(mon::F("initial_angular_velocity_b_rad_s(%d) = %.17g", i, (double)w0[i]));
      lines.push_back(mon::F("initial_torque_b_Nm(%d) = %.17g", i, (double)t0[i]));
    }
    const s2e::math::Quaternion q = toq(q0);
    for (int i = 0; i < 4; i++) lines.push_back(mon::F("initial_quaternion_i2b(%d) = %.17g", i, q[i]));
    for (size_t i = lines.size() - 1; i > 0; i--) std::swap(lines[i], lines[(size_t)m.rng.i(0, (long)i)]);
    {
      std::ofstream f("a.ini");
      f << "[OTHER]\npropagate_mode = CONTROLLED\n[ATTITUDE]\n";
      for (auto& l : lines) f << l << "\n";
      f << "[SETTING_FILES]\nstructure_file = st.ini\n";
    }
    {
      std::ofstream f("st.ini");
      f << "[CANTILEVER_PARAMETERS]\n" << mon::F("damping_ratio_cantilever = %.17g\nintrinsic_angular_velocity_cantilever_rad_s = %.17g\n", zeta, wn);
      for (int k = 8; k >= 0; k--) f << mon::F("inertia_tensor_cantilever_kgm2(%d) = %.17g\n", k, C0[k / 3][k % 3]);
    }
    m.begin("%s, angular velocity %s, torque %s, step %.3g s, appendage of %.3g rad/s damping %.3g", mode.c_str(), S(w0).c_str(), S(t0).c_str(), step, wn, zeta);
    m.distinctv({(double)w0.x, (double)t0.y, step, wn});
    world::Quiet quiet;
    std::unique_ptr<at::Attitude> got(at::InitAttitude("a.ini", nullptr, nullptr, step, I0, 0)), want;
    if (mode == "CANTILEVER_VIBRATION")
      want.reset(new at::AttitudeWithCantileverVibration(tov(w0), q, I0, C0, zeta, wn, tov(t0), step));
    else
      want.reset(new at::AttitudeRk4(tov(w0), q, I0, tov(t0), step));
    vclose(m, ref::v(got->GetAngularVelocity_b_rad_s()), w0, 1e-13 * rate, "file_initial_rate", "initial angular velocity");
    const L d0 = ref::rotdist(ref::rotq(got->GetQuaternion_i2b()), ref::rotq(q));
    m.check(d0 < 1e-12, "file_initial_attitude", "%.3Lg rad off at the beginning", d0);
    for (int k = 1; k <= 30; k++) {
      if (k == 15) {
        const Vec3 torque = tov((L)m.rng.logu(1e-5, 1e-1) * gen::dir(m.rng));
        got->SetTorque_b_Nm(torque), want->SetTorque_b_Nm(torque);
      }
      got->Propagate(step * k), want->Propagate(step * k);
      vclose(m, ref::v(got->GetAngularVelocity_b_rad_s()), ref::v(want->GetAngularVelocity_b_rad_s()), 1e-12 * rate, "file_rate", "angular velocity");
      const L d = ref::rotdist(ref::rotq(got->GetQuaternion_i2b()), ref::rotq(want->GetQuaternion_i2b()));
      m.check(d < 1e-11, "file_attitude", "step %d: %.3Lg rad off", k, d);
      m.ev("file_" + mode);
    }
  }
  for (auto n : {"file_RK4", "file_CANTILEVER_VIBRATION", "file_SOMETHING"}) m.require(n, 100);
}

GROUP(pointing) {
  for (long c = 0; c < m.n(60, 700); c++) {
    size_t mi = (size_t)m.rng.i(0, 5), si = (size_t)m.rng.i(0, 5);
    if (mi == si) si = (si + 1) % 6;
    std::string main = kModes[mi], sub = kModes[si];
    V3 mb = gen::dir(m.rng), sb = gen::dir(m.rng);
    if (ref::norm(ref::cross_(mb, sb)) < 0.52L) sb = ref::unit(ref::cross_(mb, ref::norm(ref::cross_(mb, {0, 0, 1})) > 0.1L ? V3{0, 0, 1} : V3{1, 0, 0})) + 0.5L * mb;
    double len1 = m.rng.b() ? 1 : m.rng.logu(0.1, 10), len2 = m.rng.b() ? 1 : m.rng.logu(0.1, 10);
    double lat = m.rng.u(-1.5, 1.5), lon = m.rng.u(-3.1, 3.1), alt = m.rng.u(0, 3000), step = m.rng.pick(std::vector<double>{0.1, 1, 10, 30});
    V3 r = m.rng.logu(6.8e6, 4.3e7) * gen::dir(m.rng), u = gen::dir(m.rng);
    while (ref::norm(ref::cross_(u, ref::unit(r))) < 0.5L) u = gen::dir(m.rng);
    V3 v = (sqrtl(3.986e14L / ref::norm(r)) * m.rng.u(0.95, 1.1)) * ref::unit(ref::cross_(r, u));
    const bool only_initial = m.rng.b(0.3);
    world::Settings s(1);
    s.Times(step, 100 * step);
    s.NoNoise(0), s.NoDisturbance(0);
    s.Orbit(0, r, v, "RK4");
    s.Sat(0, "ATTITUDE", "propagate_mode", only_initial ? "RK4" : "CONTROLLED");
    s.Sat(0, "ATTITUDE", "initialize_mode", only_initial || m.rng.b(0.3) ? "CONTROLLED" : "MANUAL");
    for (int k = 0; k < 4; k++) s.Sat(0, "ATTITUDE", "initial_quaternion_i2b(" + std::to_string(k) + ")", k == 3 ? 1.0 : 0.0);
    // what the file says of the rate is for a manual start
    world::SetV(s.sats[0], "ATTITUDE", "initial_angular_velocity_b_rad_s", (L)m.rng.logu(1e-3, 0.3) * gen::dir(m.rng), 3);
    s.Sat(0, "CONTROLLED_ATTITUDE", "main_mode", main);
    s.Sat(0, "CONTROLLED_ATTITUDE", "sub_mode", sub);
    world::SetV(s.sats[0], "CONTROLLED_ATTITUDE", "main_pointing_direction_b", len1 * mb, 3);
    world::SetV(s.sats[0], "CONTROLLED_ATTITUDE", "sub_pointing_direction_b", len2 * sb, 3);
    s.Sat(0, "CONTROLLED_ATTITUDE", "target_position_latitude_deg", lat * 180 / M_PI);
    s.Sat(0, "CONTROLLED_ATTITUDE", "target_position_longitude_deg", lon * 180 / M_PI);
    s.Sat(0, "CONTROLLED_ATTITUDE", "altitude_m", alt);
    m.begin("main %s towards %s, sub %s towards %s, orbit r %s v %s, ground %.6g %.6g, step %.3g s%s", main.c_str(), S(mb).c_str(), sub.c_str(), S(sb).c_str(), S(r).c_str(), S(v).c_str(), lat, lon, step,
            only_initial ? ", initial attitude only" : "");
    m.distinctv({(double)mi, (double)si, (double)r.x, lat, step});
    world::World w(s);
    auto& att = w.sc[0]->Dyn().GetAttitude();
    auto& orb = w.sc[0]->Dyn().GetOrbit();
    auto& cel = w.global->GetCelestialInformation();
    M3 last = ref::rotq(att.GetQuaternion_i2b());
    const int steps = only_initial ? 0 : 40;
    if (only_initial) m.check(ref::norm(ref::v(att.GetAngularVelocity_b_rad_s())) == 0, "initial_rate", "an attitude given by its targets begins with the rate %s", S3(att.GetAngularVelocity_b_rad_s()).c_str());
    for (int k = only_initial ? 0 : 1; k <= steps; k++) {
      V3 pr = ref::v(orb.GetPosition_i_m()), pv = ref::v(orb.GetVelocity_i_m_s()), pe = ref::v(orb.GetVelocity_ecef_m_s());
      if (k > 0) w.Step();
      M3 e = ref::m(cel.GetEarthRotation().GetDcmJ2000ToEcef());
      V3 sun = ref::v(cel.GetPositionFromCenter_i_m("SUN"));
      auto target = [&](const std::string& mode) { return mode == kModes[3] ? ref::unit(ref::T(e) * pe) : Target(mode, pr, pv, sun, e, lat, lon, alt); };
      V3 mt = target(main), st = target(sub);
      M3 now = ref::rotq(att.GetQuaternion_i2b());
      V3 got = ref::T(now) * mb;
      double sep = (double)ref::norm(ref::cross_(mt, st));
      const double tol = 1e-8 + (mi == 5 || si == 5 ? 0.3 / (double)(ref::norm(pr) - 6.4e6L) : 0);  // the library rounds the Earth's flattening: 0.1 m on ground
      m.check((double)ref::angle(got, mt) <= tol, "main_target", "step %d: the main direction points to %s, the target %s is at %s", k, S(got).c_str(), main.c_str(), S(mt).c_str());
      if (sep > 1e-3) {
        V3 gs = ref::T(now) * sb;
        V3 p1 = gs - ref::dot_(gs, mt) * mt, p2 = st - ref::dot_(st, mt) * mt;
        m.check((double)ref::angle(p1, p2) <= tol / sep, "sub_target", "step %d: the sub direction is %.3Lg rad off the half plane of %s", k, ref::angle(p1, p2), sub.c_str());
      }
      m.check(fabs(qnorm(att.GetQuaternion_i2b()) - 1) < 1e-12, "unit_quaternion", "norm %.17g", qnorm(att.GetQuaternion_i2b()));
      if (k >= 3) {
        M3 d = now * ref::T(last);
        V3 ax{d[1][2] - d[2][1], d[2][0] - d[0][2], d[0][1] - d[1][0]};
        L th = atan2l(ref::norm(ax), d[0][0] + d[1][1] + d[2][2] - 1);
        V3 want = (th / step) * ref::unit(ax);
        vclose(m, ref::v(att.GetAngularVelocity_b_rad_s()), want, (double)(th * th * th / 20 / step) + 2e-9 / step, "angular_velocity", "angular velocity and the rate of the quaternion");
        const M3 I = ref::m(att.GetInertiaTensor_b_kgm2());
        V3 wb = ref::v(att.GetAngularVelocity_b_rad_s());
        L en = 0.5L * ref::dot_(wb, I * wb);
        m.check(fabsl(att.GetKineticEnergy_J() - en) <= 1e-12L * en, "reported_energy", "kinetic energy %.15g, expected %.15Lg", att.GetKineticEnergy_J(), en);
      }
      last = now;
      m.ev("pointing_" + main);
    }
  }
  for (auto& k : kModes) m.require("pointing_" + k, 20);
}

GROUP(inertial_and_invalid) {
  for (long c = 0; c < m.n(60, 600); c++) {
    auto q0 = gen::quat(m.rng);
    world::Settings s(1);
    s.Times(1, 100);
    s.NoNoise(0), s.NoDisturbance(0);
    s.Orbit(0, {7e6, 0, 0}, {0, 5e3, 5.6e3}, "RK4");
    s.Sat(0, "ATTITUDE", "propagate_mode", "CONTROLLED");
    s.Sat(0, "ATTITUDE", "initialize_mode", "MANUAL");
    for (int k = 0; k < 4; k++) s.Sat(0, "ATTITUDE", "initial_quaternion_i2b(" + std::to_string(k) + ")", q0[k]);
    // inertial stabilisation, equal modes, an unknown mode, directions too close to each other: the attitude stays
    int kind = (int)m.rng.i(0, 3);
    s.Sat(0, "CONTROLLED_ATTITUDE", "main_mode", kind == 0 ? "INERTIAL_STABILIZE" : kind == 2 ? "SOMEWHERE" : "SUN_POINTING");
    s.Sat(0, "CONTROLLED_ATTITUDE", "sub_mode", kind == 1 ? "SUN_POINTING" : "ORBIT_NORMAL_POINTING");
    V3 mb = gen::dir(m.rng), ax = ref::unit(ref::cross_(mb, fabsl(mb.z) < 0.9L ? V3{0, 0, 1} : V3{1, 0, 0}));
    L al = kind == 3 ? m.rng.u(0, 0.5) * (m.rng.b() ? 1 : -1) : 1.0L;
    V3 sb = cosl(al) * mb + sinl(al) * ax;
    if (kind == 3 && m.rng.b()) sb = -sb;
    world::SetV(s.sats[0], "CONTROLLED_ATTITUDE", "main_pointing_direction_b", mb, 3);
    world::SetV(s.sats[0], "CONTROLLED_ATTITUDE", "sub_pointing_direction_b", sb, 3);
    m.begin("kind %d, quaternion %s, directions %s %s", kind, S4(q0).c_str(), S(mb).c_str(), S(sb).c_str());
    m.distinctv({(double)kind, q0[0], q0[3], (double)mb.x});
    world::World w(s);
    auto& att = w.sc[0]->Dyn().GetAttitude();
    world::Quiet quiet;
    for (int k = 0; k < 10; k++) {
      w.Step();
      double d = 0;
      for (int i = 0; i < 4; i++) d = std::max(d, fabs(att.GetQuaternion_i2b()[i] - q0[i]));
      m.check(d < 1e-15, "stays", "step %d: quaternion %s", k, S4(att.GetQuaternion_i2b()).c_str());
      m.check(att.GetAngularVelocity_b_rad_s().CalcNorm() == 0, "stays", "step %d: angular velocity %s", k, S3(att.GetAngularVelocity_b_rad_s()).c_str());
      m.ev("steps_held");
    }
  }
  m.require("steps_held", 100);
}

GROUP(from_settings) {  // the flexible spacecraft described by its files is the one of the class
  for (long c = 0; c < m.n(40, 400); c++) {
    const double step = m.rng.pick(std::vector<double>{0.01, 0.02, 0.05}), rate = m.rng.logu(1e-3, 0.1), wn = m.rng.u(0.3, 3), zeta = m.rng.u(0, 0.3);
    auto q0 = gen::quat(m.rng);
    V3 w0 = rate * gen::dir(m.rng);
    Mat3 I0 = tom(RandomInertia(m, m.rng.logu(1, 100))), C0 = tom(RandomInertia(m, m.rng.logu(0.1, 1)));
    world::Settings s(1);
    s.Times(step, 100);
    s.NoNoise(0), s.NoDisturbance(0);
    s.Orbit(0, {7e6, 0, 0}, {0, 5e3, 5.6e3}, "RK4");
    s.Attitude(0, q0, w0);
    s.Sat(0, "ATTITUDE", "propagate_mode", "CANTILEVER_VIBRATION");
    for (int k = 0; k < 9; k++) {
      s.Struct(0, "KINEMATIC_PARAMETERS", mon::F("inertia_tensor_kgm2(%d)", k), mon::F("%.17g", I0[k / 3][k % 3]));
      s.Struct(0, "CANTILEVER_PARAMETERS", mon::F("inertia_tensor_cantilever_kgm2(%d)", k), mon::F("%.17g", C0[k / 3][k % 3]));
    }
    s.Struct(0, "CANTILEVER_PARAMETERS", "damping_ratio_cantilever", mon::F("%.17g", zeta));
    s.Struct(0, "CANTILEVER_PARAMETERS", "intrinsic_angular_velocity_cantilever_rad_s", mon::F("%.17g", wn));
    m.begin("appendage of %.3g rad/s, damping %.3g, angular velocity %s, step %.3g s", wn, zeta, S(w0).c_str(), step);
    m.distinctv({(double)w0.x, wn, zeta, C0[0][1]});
    world::World w(s);
    auto& att = w.sc[0]->Dyn().GetAttitude();
    Vec3 wv = tov(w0);
    at::AttitudeWithCantileverVibration a(wv, toq(q0), I0, C0, zeta, wn, vec(0, 0, 0), step);
    for (int k = 1; k <= 40; k++) {
      w.Step();
      a.Propagate(k * step);
      vclose(m, ref::v(att.GetAngularVelocity_b_rad_s()), ref::v(a.GetAngularVelocity_b_rad_s()), 1e-9 * rate, "settings_rate", "angular velocity");
      const L d = ref::rotdist(ref::rotq(att.GetQuaternion_i2b()), ref::rotq(a.GetQuaternion_i2b()));
      m.check(d < 1e-9, "settings_attitude", "step %d: %.3Lg rad off", k, d);
      m.ev("flexible steps");
    }
  }
  m.require("flexible steps", 100);
}

GROUP(in_the_simulation) {  // the spacecraft as a whole: attitude at the simulation time, with torque given per step
  for (long c = 0; c < m.n(60, 600); c++) {
    double step = m.rng.pick(std::vector<double>{0.05, 0.1, 0.2}), rate = m.rng.logu(1e-3, 0.1);
    auto q0 = gen::quat(m.rng);
    V3 w0 = rate * gen::dir(m.rng);
    world::Settings s(1);
    s.Times(step, 100);
    s.NoNoise(0), s.NoDisturbance(0);
    s.Orbit(0, {7e6, 0, 0}, {0, 5e3, 5.6e3}, "RK4");
    s.Attitude(0, q0, w0);
    m.begin("angular velocity %s, quaternion %s, step %.3g s", S(w0).c_str(), S4(q0).c_str(), step);
    m.distinctv({(double)w0.x, q0[0], step});
    world::World w(s);
    auto& att = w.sc[0]->Dyn().GetAttitude();
    M3 I = ref::m(w.sc[0]->Structure().GetKinematicsParameters().GetInertiaTensor_b_kgm2());
    State st;
    st.w = ref::v(att.GetAngularVelocity_b_rad_s());
    for (int i = 0; i < 4; i++) st.q[i] = att.GetQuaternion_i2b()[i];
    m.check(vdiff(st.w, w0) < 1e-12 && ref::rotdist(RotOf(st), ref::rotq(q0)) < 1e-9, "initial", "initial attitude %s", S4(att.GetQuaternion_i2b()).c_str());
    for (int k = 0; k < 40; k++) {
      w.Step();
      Advance(st, I, {0, 0, 0}, {0, 0, 0}, step, rate * 5);
      L d = ref::rotdist(ref::rotq(att.GetQuaternion_i2b()), RotOf(st));
      m.check(d < 1e-7, "attitude", "step %d: %.3Lg rad off the solution", k, d);
      vclose(m, ref::v(att.GetAngularVelocity_b_rad_s()), st.w, 1e-7 * rate, "angular_velocity", "angular velocity");
      m.ev("simulation_steps");
    }
  }
  m.require("simulation_steps", 100);
}
