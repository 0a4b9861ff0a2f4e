// C21: actuators deliver what was commanded, within their limits, after their delay and lag
#include "component.hpp"
//
#include <components/ideal/force_generator.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <complex>
#include <environment/local/local_environment.hpp>
#include <fstream>

using namespace s2e::components;
using ref::v;
static const L kDeg = ref::kPi / 180;
typedef std::complex<L> C;

// rest position of a delay line: `steps` samples late, then a lag of the first order
struct Line {
  std::vector<L> line;
  L out = 0, keep, in;
  Line(long steps, L dt, L tau) : line((size_t)steps, 0.0L), keep(tau / (dt + tau)), in(dt / (dt + tau)) {}
  L step(L x) {
    const L y = line.front();
    line.push_back(x);
    line.erase(line.begin());
    return out = keep * out + in * y;
  }
  void clear() { std::fill(line.begin(), line.end(), 0.0L); }
};
// a dead time that needs `steps` samples, often a multiple of the step as a user writes it
static double DeadTime(mon::Rng& r, double dt, long& steps) {
  steps = r.b(0.3) ? 1 : r.i(1, r.b() ? 4 : 30);
  if (r.b(0.4)) return std::stod(mon::F("%.9g", (double)(steps - 1) * dt));
  return ((double)(steps - 1) + r.u(0.1, 0.9)) * dt;
}

static void Csv(const char* path, const std::vector<std::pair<double, double>>& rows) {
  std::ofstream f(path);
  f.precision(17);
  for (auto& r : rows) f << r.first << "," << r.second << "\n";
}
struct WheelSpec {
  double dt, inertia, max_torque, max_rpm, dead, tau, stop, w0;
  long delay;
  int prescaler, fast;
  bool drive, by_direction, jitter;
  Quat q;
  V3 axis, pos;
  std::vector<double> friction;
  std::vector<std::pair<double, double>> force, torque;
  bool resonance;
  double f0, damping, bandwidth;
  double fast_dt() const { return dt / prescaler * fast; }
};
static WheelSpec MakeWheel(mon::Rng& r) {
  WheelSpec s;
  s.dt = r.pick(std::vector<double>{0.125, 0.25, 1.0, 0.0078125, 0.5, 0.1, 0.01, 0.3, 0.05});
  s.inertia = r.logu(1e-5, 1e-1), s.max_torque = r.logu(1e-4, 1), s.max_rpm = r.logu(100, 10000);
  s.dead = DeadTime(r, s.dt, s.delay), s.tau = r.b(0.3) ? 0 : s.dt * r.logu(0.1, 30);
  s.stop = r.b(0.3) ? 0 : r.logu(1e-3, 1);
  s.w0 = r.b(0.3) ? 0 : r.u(-1, 1) * s.max_rpm * 0.1047;
  s.prescaler = (int)r.i(1, 4), s.fast = (int)r.i(1, 3), s.drive = r.b(), s.by_direction = r.b(), s.jitter = false;
  s.q = toq(gen::quat(r));
  s.axis = ref::T(ref::rotq(s.q)) * V3{0, 0, 1};
  if (s.by_direction) s.axis = r.b(0.3) ? V3{0, 0, 0} : gen::dir(r);
  if (ref::norm(s.axis) == 0) s.axis[(int)r.i(0, 2)] = r.b() ? 1 : -1;
  s.pos = V3{r.n(), r.n(), r.n()};
  const long order = r.i(0, 4);
  for (long i = 0; i < order; i++) s.friction.push_back(r.b(0.2) ? 0 : r.logu(1e-4, 0.3) / std::pow(300.0, (double)i) / s.dt);
  s.resonance = false, s.f0 = 585, s.damping = 0.1, s.bandwidth = 0.001;
  return s;
}
static std::unique_ptr<ReactionWheel> Build(const WheelSpec& s, int id, s2e::environment::ClockGenerator* clock, PowerPort* port) {
  File f = Fresh("reaction_wheel.ini");
  const std::string w = mon::F("REACTION_WHEEL_%d", id), j = mon::F("REACTION_WHEEL_JITTER_%d", id);
  world::Set(f.path, w, "prescaler", (double)s.prescaler);
  world::Set(f.path, w, "moment_of_inertia_kgm2", s.inertia);
  world::Set(f.path, w, "max_output_torque_Nm", s.max_torque);
  world::Set(f.path, w, "max_angular_velocity_rpm", s.max_rpm);
  world::Set(f.path, w, "direction_determination_mode", s.by_direction ? "DIRECTION" : "QUATERNION");
  world::SetV(f.path, w, "quaternion_b2c", s.q, 4);
  world::SetV(f.path, w, "direction_b", s.axis, 3);
  world::SetV(f.path, w, "position_b_m", s.pos, 3);
  world::Set(f.path, w, "dead_time_s", s.dead);
  world::Set(f.path, w, "time_constant_s", s.tau);
  world::Set(f.path, w, "friction_order", (double)s.friction.size());
  for (size_t i = 0; i < s.friction.size(); i++) world::Set(f.path, w, mon::F("friction_coefficients(%zu)", i), s.friction[i]);
  world::Set(f.path, w, "stop_limit_angular_velocity_rad_s", s.stop);
  world::Set(f.path, w, "initial_motor_drive_flag", s.drive ? "1" : "0");
  world::Set(f.path, w, "initial_angular_velocity_rad_s", s.w0);
  world::Set(f.path, j, "jitter_calculation", s.jitter ? "ENABLE" : "DISABLE");
  world::Set(f.path, j, "fast_prescaler", (double)s.fast);
  if (s.jitter) {
    Csv("force.csv", s.force), Csv("torque.csv", s.torque);
    world::Set(f.path, j, "radial_force_harmonics_coefficient_file", "force.csv");
    world::Set(f.path, j, "radial_torque_harmonics_coefficient_file", "torque.csv");
    world::Set(f.path, j, "considers_structural_resonance", s.resonance ? "ENABLE" : "DISABLE");
    world::Set(f.path, j, "structural_resonance_frequency_Hz", s.f0);
    world::Set(f.path, j, "damping_factor", s.damping);
    world::Set(f.path, j, "bandwidth", s.bandwidth);
  }
  f.Port(3.0, 0.5);
  world::Quiet quiet;
  if (port) return std::make_unique<ReactionWheel>(InitReactionWheel(clock, port, id, f.path, s.dt / s.prescaler));
  return std::make_unique<ReactionWheel>(InitReactionWheel(clock, id, f.path, s.dt / s.prescaler));
}

// Wheels under random commands, coasting, power cuts and changing velocity limits
GROUP(wheel) {
  world::World W(Plain(m.rng, 1.0));
  const long n = m.n(250, 2500), ticks = m.n(400, 1200);
  for (long k = 0; k < n; k++) {
    const WheelSpec s = MakeWheel(m.rng);
    s2e::environment::ClockGenerator clock;
    PowerPort power(0, 1.0);
    const bool port = m.rng.b();
    const int id = (int)m.rng.i(0, 5);
    auto p = Build(s, id, &clock, port ? &power : nullptr);
    ReactionWheel& rw = *p;
    m.begin("wheel of %g kgm2, %g Nm, %g rpm, step %g s, dead time %g s, lag %g s, stop below %g rad/s, %d friction terms, axis %s%s", s.inertia, s.max_torque, s.max_rpm, s.dt, s.dead, s.tau, s.stop,
            (int)s.friction.size(), s.by_direction ? "by direction" : "by quaternion", port ? ", with a power port" : "");
    if (port) power.SetVoltage_V(5), power.Update();
    Line line(s.delay, s.dt, s.tau);
    L w = s.w0, impulse = 0, limit = s.max_rpm * 2 * ref::kPi / 60, target = 0;
    bool drive = s.drive;
    const L amax = s.max_torque / s.inertia;
    m.check(fabsl(rw.GetAngularVelocity_rad_s() - w) <= 1e-12L * (1 + fabsl(w)) && rw.GetDriveFlag() == drive, "wheel:initial", "starts at %.9g rad/s, drive %d", rw.GetAngularVelocity_rad_s(), rw.GetDriveFlag());
    if (m.rng.b(0.5)) rw.SetDriveFlag(drive = true);
    L scale_h = s.inertia * (fabsl(w) + 1);
    for (long t = 0; t < ticks; t++) {
      if (m.rng.b(0.05)) {
        const double u = m.rng.pick(std::vector<double>{0, s.max_torque, -s.max_torque, s.max_torque * m.rng.n(), s.max_torque * m.rng.u(-1, 1), 1e6, -1e6});
        const bool body = m.rng.b();
        body ? rw.SetTargetTorque_b_Nm(u) : rw.SetTargetTorque_rw_Nm(u);
        const L c = std::max(-(L)s.max_torque, std::min((L)s.max_torque, (L)u));
        target = (body ? -c : c) / s.inertia;
      }
      if (m.rng.b(0.01)) rw.SetDriveFlag(drive = !drive);
      if (m.rng.b(0.01)) {
        const double rpm = m.rng.b(0.3) ? s.max_rpm * m.rng.u(1, 3) : s.max_rpm * m.rng.u(0, 1);
        rw.SetVelocityLimit_rpm(rpm);
        limit = std::min((L)rpm, (L)s.max_rpm) * 2 * ref::kPi / 60;
      }
      if (port && m.rng.b(0.02)) power.SetVoltage_V(m.rng.b(0.7) ? 5 : 0), power.Update();
      const bool on = !port || power.GetIsOn();
      const double before = rw.GetAngularVelocity_rad_s();
      rw.Tick((unsigned)(t * s.prescaler));
      if (s.prescaler > 1) rw.Tick((unsigned)(t * s.prescaler + 1));  // not a multiple of the prescaler
      const L got = rw.GetAngularVelocity_rad_s(), dw = got - w;
      const V3 torque = v(rw.GetOutputTorque_b_Nm());
      scale_h = std::max(scale_h, (L)s.inertia * fabsl(got));
      m.check(fabsl(rw.GetAngularVelocity_rpm() - got * 30 / ref::kPi) <= 1e-9L * (1 + fabsl(got)), "wheel:rpm", "%.12g rpm at %.12Lg rad/s", rw.GetAngularVelocity_rpm(), got);
      // what the body feels is the opposite of what the rotor gains, in every mode
      impulse += ref::dot_(torque, s.axis) * s.dt;
      vclose(m, torque, (-s.inertia * (got - (L)before) / (L)s.dt) * s.axis, (double)(1e-9L * (s.max_torque + ref::norm(torque))), "wheel:reaction", "torque on the body");
      m.check(fabsl(impulse + s.inertia * (got - (L)s.w0)) <= 1e-9L * scale_h * 10, "wheel:conservation", "the body received %.12Lg Nms while the rotor gained %.12Lg Nms", impulse, s.inertia * (got - (L)s.w0));
      if (!on) {
        drive = false;
        m.check(!rw.GetDriveFlag(), "wheel:power_off", "motor still driven without power");
        w = got;
        m.ev("power_off");
        continue;
      }
      if (!drive) {
        line.clear();
        L a = 0, x = 1;
        for (double c : s.friction) a += c * x, x *= fabsl(w);
        L want = w > 0 ? w - a * s.dt : w + a * s.dt;
        if (fabsl(w) < s.stop) want = 0;
        // friction may only be tested for its size while the wheel is inside of its velocity limit and keeps its direction
        if (fabsl(fabsl(w) - s.stop) > 1e-12L && fabsl(w) <= limit && w * want >= 0) {
          m.check(fabsl(got - want) <= 1e-10L * (1 + fabsl(w)), "wheel:coast", "coasting from %.12Lg rad/s reached %.12Lg instead of %.12Lg rad/s", w, got, want);
          m.ev(fabsl(w) < s.stop ? "stopped" : a == 0 ? "coast_free" : "coast");
        }
        if (a == 0 && fabsl(w) >= s.stop) m.check(fabsl(dw) <= 1e-12L * (1 + fabsl(w)), "wheel:coast", "changed its rate by %.12Lg rad/s without friction and without drive", dw);
      } else {
        const L a = line.step(target);
        const L want = w + a * s.dt, top = std::max(fabsl(w), fabsl(want));
        m.check(fabsl(dw) <= amax * s.dt * (1 + 1e-9L) + 1e-12L * fabsl(w), "wheel:torque_limit", "rotor torque %.9Lg exceeds the limit of %.9g Nm", fabsl(dw) / s.dt * s.inertia, s.max_torque);
        const L tol = 1e-10L * (1 + fabsl(w) + fabsl(a) * s.dt);
        if (top < limit * (1 - 1e-9L)) {
          m.check(fabsl(got - want) <= tol, "wheel:drive", "step %ld: reached %.12Lg instead of %.12Lg rad/s with %.9Lg Nm", t, got, want, a * s.inertia);
          m.ev(a == 0 ? "no_torque" : fabsl(a) >= amax * 0.999L ? "full_torque" : "torque");
        } else if (fabsl(w) > limit * (1 + 1e-9L) && a * w > 0) {
          m.check(fabsl(dw) <= tol, "wheel:velocity_limit", "sped up by %.9Lg rad/s beyond the limit of %.9Lg rad/s (now %.9Lg)", dw, limit, got);
          m.ev("beyond_limit");
        } else if (a * w < 0 && fabsl(w) <= amax * s.dt ) {
          m.ev("turns");
        } else if (a * w < 0) {
          m.check(fabsl(got - want) <= tol, "wheel:drive", "slowing down from beyond its limit of %.9Lg: reached %.12Lg instead of %.12Lg rad/s", limit, got, want);
          m.ev("returns");
        } else {
          m.check(dw * a >= -tol * fabsl(a) && fabsl(dw) <= fabsl(a) * s.dt + tol, "wheel:velocity_limit", "changed by %.9Lg rad/s for a command of %.9Lg at the limit", dw, a * s.dt);
          m.ev("reaches_limit");
        }
      }
      w = got;
      vclose(m, v(rw.GetAngularMomentum_b_Nms()), (s.inertia * got) * s.axis, (double)(1e-10L * (scale_h + 1e-9L)), "wheel:momentum", "angular momentum");
      m.distinctv({(double)w, (double)target});
    }
  }
  for (const char* e : {"power_off", "stopped", "coast", "no_torque", "full_torque", "torque", "beyond_limit", "reaches_limit", "returns"}) m.require(e, 40);
}

// several rotating components of known frequency in a sequence of complex numbers: their complex amplitudes, from the first samples
static std::vector<C> Decompose(const std::vector<C>& z, size_t from, const std::vector<L>& theta) {
  const size_t n = theta.size();
  std::vector<std::vector<C>> a(n, std::vector<C>(n + 1));
  for (size_t i = 0; i < n; i++) {
    for (size_t j = 0; j < n; j++) a[i][j] = std::polar((L)1, theta[j] * (L)i);
    a[i][n] = z[from + i];
  }
  for (size_t i = 0; i < n; i++) {
    size_t best = i;
    for (size_t j = i; j < n; j++)
      if (std::abs(a[j][i]) > std::abs(a[best][i])) best = j;
    std::swap(a[i], a[best]);
    for (size_t j = 0; j < n; j++) {
      if (j == i) continue;
      const C q = a[j][i] / a[i][i];
      for (size_t k = i; k <= n; k++) a[j][k] -= q * a[i][k];
    }
  }
  std::vector<C> c(n);
  for (size_t i = 0; i < n; i++) c[i] = a[i][n] / a[i][i];
  return c;
}
static C Resonance(const WheelSpec& s, L theta) {  // the second-order system at the frequency of one component, with the resonance kept in place by the sampling
  const L T = s.fast_dt(), w0 = 2 / T * tanl(2 * ref::kPi * s.f0 * T / 2), w = 2 / T * tanl(theta / 2);
  const C jw(0, w);
  return (jw * jw + 2 * s.damping * w0 * jw + w0 * w0) / (jw * jw + 2 * s.bandwidth * s.damping * w0 * jw + w0 * w0);
}

// Jitter of several wheels that exist together
GROUP(jitter) {
  world::World W(Plain(m.rng, 1.0));
  const long n = m.n(120, 1500);
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    std::vector<WheelSpec> spec;
    std::vector<std::unique_ptr<ReactionWheel>> wheel;
    std::vector<std::unique_ptr<PowerPort>> power;
    const int count = (int)m.rng.i(1, 3);
    m.begin("%d wheels with jitter", count);
    for (int i = 0; i < count; i++) {
      WheelSpec s = MakeWheel(m.rng);
      s.jitter = true, s.drive = false, s.friction.clear(), s.stop = 0, s.by_direction = false;
      s.axis = ref::T(ref::rotq(s.q)) * V3{0, 0, 1};
      s.w0 = s.max_rpm * 0.1047 * m.rng.u(0.1, 1) * (m.rng.b() ? 1 : -1);
      const L turn = fabsl(s.w0 * s.fast_dt());
      auto lines = [&](std::vector<std::pair<double, double>>& c) {
        const long h = m.rng.i(1, 3);
        for (long j = 0; j < h; j++) c.push_back({(double)((0.3L + 0.8L * (L)j + (L)m.rng.u(-0.1, 0.1)) / turn), m.rng.logu(1e-9, 1e-6)});
      };
      lines(s.force), lines(s.torque);
      s.resonance = m.rng.b();
      const double f_nyquist = 0.5 / s.fast_dt();
      s.f0 = f_nyquist * m.rng.u(0.1, 0.7), s.damping = m.rng.u(0.1, 0.9), s.bandwidth = m.rng.u(0.3, 1.5);
      power.push_back(std::make_unique<PowerPort>(i, 1.0));
      wheel.push_back(Build(s, i, &clock, power.back().get()));
      power.back()->SetVoltage_V(5), power.back()->Update();
      spec.push_back(s);
    }
    const size_t settle = 600, length = 40;
    std::vector<std::vector<C>> zf((size_t)count), zt((size_t)count);
    for (size_t t = 0; t < settle + length; t++) {
      for (int i = 0; i < count; i++) {
        const WheelSpec& s = spec[(size_t)i];
        wheel[(size_t)i]->FastTick((unsigned)(t * (size_t)s.fast));
        if (s.fast > 1) wheel[(size_t)i]->FastTick((unsigned)(t * (size_t)s.fast + 1));
      }
      for (int i = 0; i < count; i++) {
        const WheelSpec& s = spec[(size_t)i];
        ReactionWheel& rw = *wheel[(size_t)i];
        const M3 b2c = ref::rotq(s.q);
        const V3 fb = v(rw.GetJitterForce_b_N()), f = b2c * fb;
        const V3 tq = b2c * (-1.0L * (v(rw.GetOutputTorque_b_Nm()) + ref::cross_(s.pos, fb)));
        const L w2 = (L)s.w0 * s.w0;
        L sf = 0, st = 0;
        for (auto& h : s.force) sf += h.second * w2;
        for (auto& h : s.torque) st += h.second * w2;
        const L slack = s.resonance ? 100 : 1;
        m.check(fabsl(f.z) <= 1e-12L * slack * sf && fabsl(tq.z) <= 1e-12L * slack * (st + sf * ref::norm(s.pos)), "jitter:plane", "wheel %d: jitter of %.3Lg N and %.3Lg Nm along the rotation axis", i, f.z, tq.z);
        zf[(size_t)i].push_back({f.y, f.x}), zt[(size_t)i].push_back({tq.y, tq.x});
      }
    }
    for (int i = 0; i < count; i++) {
      const WheelSpec& s = spec[(size_t)i];
      for (int kind = 0; kind < 2; kind++) {
        auto& z = kind ? zt[(size_t)i] : zf[(size_t)i];
        auto& lines = kind ? s.torque : s.force;
        std::vector<L> theta;
        std::vector<L> amplitude;
        L total = 0;
        for (auto& h : lines) theta.push_back((L)h.first * s.w0 * s.fast_dt()), amplitude.push_back((L)h.second * s.w0 * s.w0), total += amplitude.back();
        L scale = kind ? total + ref::norm(s.pos) * (L)1e-3 * total : total;
        for (auto& h : s.force) scale += ref::norm(s.pos) * (L)h.second * s.w0 * s.w0 * 1e-3L;
        const size_t from = s.resonance ? settle : 0;
        const auto c = Decompose(z, from, theta);
        const L tol = s.resonance ? 1e-6L : 1e-9L;
        for (size_t j = 0; j < c.size(); j++) {
          const L want = amplitude[j] * (s.resonance ? std::abs(Resonance(s, theta[j])) : 1);
          m.check(fabsl(std::abs(c[j]) - want) <= tol * (scale + want) * 100, "jitter:amplitude", "wheel %d of %d, %s harmonic %zu at %.5Lg rad per sample: amplitude %.9Lg instead of %.9Lg%s", i, count, kind ? "torque" : "force", j,
                  theta[j], std::abs(c[j]), want, s.resonance ? " with resonance" : "");
          m.distinctv({(double)want, (double)theta[j]});
        }
        for (size_t t = from; t < z.size(); t++) {
          C want = 0;
          for (size_t j = 0; j < c.size(); j++) want += c[j] * std::polar((L)1, theta[j] * (L)(t - from));
          L big = scale;
          for (auto& x : c) big += std::abs(x);
          m.check(std::abs(z[t] - want) <= tol * big * 100 * (1 + (L)(t - from)), "jitter:sequence", "wheel %d of %d, %s sample %zu is %.6Lg away from its harmonics (amplitude %.6Lg)", i, count, kind ? "torque" : "force", t, std::abs(z[t] - want), big);
        }
        m.ev(s.resonance ? "resonance" : "plain");
      }
      // without power there is no output
      power[(size_t)i]->SetVoltage_V(0), power[(size_t)i]->Update();
      for (unsigned t = 0; t < 3000; t++) wheel[(size_t)i]->FastTick(t * (unsigned)s.fast), wheel[(size_t)i]->Tick(t * (unsigned)s.prescaler);
      const L rest = s.resonance ? 1e-6L : 0;
      m.check(ref::norm(v(wheel[(size_t)i]->GetOutputTorque_b_Nm())) <= rest && ref::norm(v(wheel[(size_t)i]->GetJitterForce_b_N())) <= rest, "jitter:power_off", "wheel without power still outputs %.6Lg N and %.6Lg Nm",
              ref::norm(v(wheel[(size_t)i]->GetJitterForce_b_N())), ref::norm(v(wheel[(size_t)i]->GetOutputTorque_b_Nm())));
      m.ev("power_off");
    }
  }
  // the phases are part of the seeded randomness
  for (long k = 0; k < 20; k++) {
    WheelSpec s = MakeWheel(m.rng);
    s.jitter = true, s.drive = false, s.friction.clear(), s.stop = 0, s.w0 = 300, s.max_rpm = 6000;
    for (int j = 0; j < 4; j++) s.force.push_back({m.rng.u(1, 5), 1e-7}), s.torque.push_back({m.rng.u(1, 5), 1e-8});
    const long seed = (long)m.rng.i(1, 1000000);
    m.begin("jitter with seed %ld", seed);
    V3 f[3], t[3];
    for (int i = 0; i < 3; i++) {
      s2e::randomization::global_randomization.SetSeed(seed + (i == 2));
      s2e::environment::ClockGenerator clock;
      auto p = Build(s, 0, &clock, nullptr);
      for (unsigned c = 0; c < 6; c++) p->FastTick(c);
      f[i] = v(p->GetJitterForce_b_N()), t[i] = v(p->GetOutputTorque_b_Nm());
    }
    m.check(ref::norm(f[0] - f[1]) == 0 && ref::norm(t[0] - t[1]) == 0, "jitter:reproducible", "same seed, different jitter: %.9Lg N apart", ref::norm(f[0] - f[1]));
    m.check(ref::norm(f[0] - f[2]) != 0, "jitter:reproducible", "different seeds, same jitter");
    m.ev("seeded");
  }
  m.require("resonance", 50), m.require("plain", 50);
}

// error rotation of a direction, split along two axes across it, and its angle
static void Deflection(const V3& d, const V3& e, Stats& across, Stats& angle, L sign) {
  const V3 x = ref::unit(ref::cross_(d, fabsl(d.x) < 0.6L ? V3{1, 0, 0} : V3{0, 1, 0})), y = ref::cross_(d, x);
  const L a = atan2l(ref::norm(ref::cross_(d, e)), ref::dot_(d, e));
  V3 t = e - ref::dot_(d, e) * d;
  if (ref::norm(t) > 0) t = ref::unit(t);
  across.add({a * ref::dot_(t, x), a * ref::dot_(t, y)});
  angle.add({a * sign});
}

GROUP(thruster) {
  const long n = m.n(60, 600), ticks = 300;
  world::World W(Plain(m.rng, 1.0));
  auto& sc = *W.sc[0];
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    const bool noisy = k % 6 == 5, from_file = m.rng.b(), port = m.rng.b();
    const double dt = m.rng.pick(std::vector<double>{0.125, 0.25, 1.0, 0.0078125, 0.1, 0.01, 0.3, 0.05});
    long delay;
    const double dead = DeadTime(m.rng, dt, delay), tau = m.rng.b(0.3) ? 0 : dt * m.rng.logu(0.1, 30), thrust = m.rng.logu(1e-4, 100);
    const V3 dir = m.rng.b(0.3) ? V3{m.rng.b() ? 1.0L : -1.0L, 0, 0} : gen::dir(m.rng), given = (L)m.rng.logu(0.1, 10) * dir, pos{m.rng.n(), m.rng.n(), m.rng.n()};
    const double sm = noisy && m.rng.b() ? thrust * m.rng.logu(1e-4, 1e-1) : 0, sd = noisy && (sm == 0 || m.rng.b()) ? m.rng.logu(1e-4, 0.2) : 0;
    const int pre = from_file ? (int)m.rng.i(1, 5) : 1;
    PowerPort power[2] = {PowerPort(0, 1.0), PowerPort(1, 1.0)};
    std::unique_ptr<SimpleThruster> p[2];
    for (int i = 0; i < 2; i++) {
      PowerPort* pp = port ? &power[i] : nullptr;
      if (from_file) {
        File f = Fresh("thruster.ini");
        const std::string s = mon::F("THRUSTER_%d", i + 1);
        world::Set(f.path, s, "prescaler", (double)pre);
        world::SetV(f.path, s, "thruster_position_b_m", pos, 3);
        world::SetV(f.path, s, "thruster_direction_b", given, 3);
        world::Set(f.path, s, "thrust_magnitude_N", thrust);
        world::Set(f.path, s, "thrust_error_standard_deviation_N", sm);
        world::Set(f.path, s, "direction_error_standard_deviation_deg", sd / (double)kDeg);
        world::Set(f.path, s, "dead_time_s", dead);
        world::Set(f.path, s, "time_constant_s", tau);
        world::Set(f.path, s, "step_width_s", dt);
        f.Port(3.0, 0.5);
        world::Quiet quiet;
        p[i] = pp ? std::make_unique<SimpleThruster>(InitSimpleThruster(&clock, pp, i + 1, f.path, &sc.Structure(), &sc.Dyn()))
                  : std::make_unique<SimpleThruster>(InitSimpleThruster(&clock, i + 1, f.path, &sc.Structure(), &sc.Dyn()));
      } else if (pp) {
        p[i] = std::make_unique<SimpleThruster>(1, &clock, pp, i, tov(pos), tov(given), thrust, sm, sd, dead, tau, dt, &sc.Structure(), &sc.Dyn());
      } else {
        p[i] = std::make_unique<SimpleThruster>(1, &clock, i, tov(pos), tov(given), thrust, sm, sd, dead, tau, dt, &sc.Structure(), &sc.Dyn());
      }
      power[i].SetVoltage_V(5), power[i].Update();
    }
    m.begin("thruster of %g N along (%.3Lf %.3Lf %.3Lf), step %g s, dead time %g s, lag %g s, noise %g N %g rad%s%s", thrust, dir.x, dir.y, dir.z, dt, dead, tau, sm, sd, from_file ? ", from a file" : "", port ? ", with a power port" : "");
    if (noisy) {
      Stats mag(2), across(2), angle(1);
      for (int i = 0; i < 2; i++) p[i]->SetDuty(1.0);
      for (long t = 0; t < 4000 + 31 + (long)(60 * tau / dt); t++) {
        L err[2];
        V3 f[2];
        for (int i = 0; i < 2; i++) {
          p[i]->Tick((unsigned)(t * pre));
          f[i] = v(p[i]->GetOutputThrust_b_N());
          err[i] = ref::norm(f[i]) - thrust;
        }
        if (t < 31 + (long)(60 * tau / dt)) continue;
        mag.add({err[0], err[1]});
        if (ref::norm(f[0]) > 0) Deflection(dir, ref::unit(f[0]), across, angle, m.rng.b() ? 1 : -1);
      }
      if (sm > 0) mag.White(m, {(L)sm, (L)sm}, "thruster:noise");
      else m.check(std::max(mag.sd(0), mag.sd(1)) < 1e-9L * thrust, "thruster:noise", "magnitude varies by %.3Lg N", mag.sd(0));
      if (sd > 0) {
        across.White(m, {sd / sqrtl(2), sd / sqrtl(2)}, "thruster:direction_noise");
        angle.White(m, {(L)sd}, "thruster:direction_noise");
      } else {
        m.check(angle.sd(0) < 1e-7L, "thruster:direction_noise", "direction varies by %.3Lg rad", angle.sd(0));
      }
      m.ev("noisy");
      continue;
    }
    Line line(delay, dt, tau);
    L duty = 0;
    for (long t = 0; t < ticks; t++) {
      if (m.rng.b(0.1)) duty = m.rng.pick(std::vector<double>{0, 1, 1, m.rng.u01()}), p[0]->SetDuty((double)duty);
      if (port && m.rng.b(0.02)) power[0].SetVoltage_V(m.rng.b(0.7) ? 5 : 0), power[0].Update();
      if (t % 60 == 0) {
        auto& kin = sc.Structure().GetToSetKinematicsParameters();
        kin.SetCenterOfGravityVector_b_m(tov(V3{m.rng.n() * 0.3, m.rng.n() * 0.3, m.rng.n() * 0.3}));
      }
      p[0]->Tick((unsigned)(t * pre));
      if (pre > 1) p[0]->Tick((unsigned)(t * pre + 1));
      const V3 f = v(p[0]->GetOutputThrust_b_N()), tq = v(p[0]->GetOutputTorque_b_Nm());
      const V3 arm = pos - v(sc.Structure().GetKinematicsParameters().GetCenterOfGravity_b_m());
      if (port && !power[0].GetIsOn()) {
        m.check(ref::norm(f) == 0 && ref::norm(tq) == 0, "thruster:power_off", "thrust of %.9Lg N without power", ref::norm(f));
        m.ev("power_off");
        continue;
      }
      const L want = thrust * line.step(duty);
      vclose(m, f, want * dir, 1e-11 * thrust, "thruster:thrust", "thrust");
      vclose(m, tq, ref::cross_(arm, f), 1e-12 * thrust * (double)ref::norm(arm), "thruster:torque", "torque about the centre of mass");
      m.check(ref::norm(f) <= thrust * (1 + 1e-12L), "thruster:limit", "thrust of %.9Lg N exceeds %.9g N", ref::norm(f), thrust);
      m.ev(want == 0 ? "silent" : want > 0.999L * thrust ? "full" : "partial");
      m.distinctv({(double)f.x, (double)f.y, (double)f.z});
    }
  }
  for (const char* e : {"power_off", "silent", "full", "partial"}) m.require(e, 50);
}

struct Inside : Component {
  static PowerPort& Of(Component& c) { return *(c.*(&Inside::power_port_)); }
};
static PowerPort& Port(Component& c) { return Inside::Of(c); }
GROUP(generators) {
  const long n = m.n(60, 600);
  world::World W(Plain(m.rng, 10.0));
  auto& sc = *W.sc[0];
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    const bool noisy = k % 4 == 3, from_file = m.rng.b();
    const double size = m.rng.logu(1e-10, 1e3);
    const double sm = noisy && m.rng.b() ? size * m.rng.logu(1e-4, 1e-1) : 0, sd = noisy && (sm == 0 || m.rng.b()) ? m.rng.logu(1e-4, 0.2) : 0;
    std::unique_ptr<ForceGenerator> f[2];
    std::unique_ptr<TorqueGenerator> t[2];
    const int pre = from_file ? (int)m.rng.i(1, 3) : 1;
    for (int i = 0; i < 2; i++) {
      if (from_file) {
        File a = Fresh("force_generator.ini"), b = Fresh("torque_generator.ini");
        world::Set(a.path, "COMPONENT_BASE", "prescaler", (double)pre), world::Set(b.path, "COMPONENT_BASE", "prescaler", (double)pre);
        world::Set(a.path, "FORCE_GENERATOR", "force_magnitude_standard_deviation_N", sm), world::Set(b.path, "TORQUE_GENERATOR", "torque_magnitude_standard_deviation_Nm", sm);
        world::Set(a.path, "FORCE_GENERATOR", "force_direction_standard_deviation_deg", sd / (double)kDeg);
        world::Set(b.path, "TORQUE_GENERATOR", "torque_direction_standard_deviation_deg", sd / (double)kDeg);
        world::Quiet quiet;
        f[i] = std::make_unique<ForceGenerator>(InitializeForceGenerator(&clock, a.path, &sc.Dyn()));
        t[i] = std::make_unique<TorqueGenerator>(InitializeTorqueGenerator(&clock, b.path, &sc.Dyn()));
      } else {
        f[i] = std::make_unique<ForceGenerator>(1, &clock, sm, sd, &sc.Dyn());
        t[i] = std::make_unique<TorqueGenerator>(1, &clock, sm, sd, &sc.Dyn());
      }
    }
    m.begin("force and torque generators, size %g, errors %g and %g rad%s", size, sm, sd, from_file ? ", from a file" : "");
    const V3 fixed = (L)size * (m.rng.b(0.3) ? V3{0, 0, 1} : gen::dir(m.rng));
    Stats mag(4), across[2] = {Stats(2), Stats(2)}, angle[2] = {Stats(1), Stats(1)};
    V3 order{0, 0, 0}, order_t{0, 0, 0}, run{0, 0, 0}, run_t{0, 0, 0};
    for (long c = 0; c < (noisy ? 4000 : 200); c++) {
      const V3 in_t = (L)size * V3{m.rng.n(), m.rng.n(), m.rng.n()};
      if (!noisy) Turn(m, W);
      if (c % 50 == 0) W.Step();
      auto& att = sc.Dyn().GetAttitude();
      auto& orb = sc.Dyn().GetOrbit();
      if (noisy && c == 0)
        for (int i = 0; i < 2; i++) f[i]->SetForce_b_N(tov(fixed)), t[i]->SetTorque_b_Nm(tov(fixed));
      const M3 i2b = ref::rotq(att.GetQuaternion_i2b());
      const V3 r = ref::unit(v(orb.GetPosition_i_m())), h = ref::unit(ref::cross_(r, v(orb.GetVelocity_i_m_s()))), al = ref::cross_(h, r);
      M3 rtn;
      for (int j = 0; j < 3; j++) rtn[0][j] = r[j], rtn[1][j] = al[j], rtn[2][j] = h[j];
      if (!noisy && m.rng.b(0.5)) {
        const V3 o = m.rng.b(0.2) ? V3{0, 0, 0} : (L)size * V3{m.rng.n(), m.rng.n(), m.rng.n()};
        const int frame = (int)m.rng.i(0, 2);
        if (frame == 0) f[0]->SetForce_b_N(tov(o)), order = o;
        if (frame == 1) f[0]->SetForce_i_N(tov(o)), order = i2b * o;
        if (frame == 2) f[0]->SetForce_rtn_N(tov(o)), order = i2b * (ref::T(rtn) * o);
        m.ev(frame == 0 ? "ordered_b" : frame == 1 ? "ordered_i" : "ordered_rtn");
        t[0]->SetTorque_b_Nm(tov(in_t)), order_t = in_t;
      }
      const unsigned count = (unsigned)(noisy ? c * 6 : c);
      for (int i = 0; i < 2; i++) f[i]->Tick(noisy ? count : (unsigned)(c * pre)), t[i]->Tick(noisy ? count : (unsigned)(c * pre));
      if (noisy) {
        const V3 a = v(f[0]->GetGeneratedForce_b_N()), b = v(f[1]->GetGeneratedForce_b_N()), x = v(t[0]->GetGeneratedTorque_b_Nm()), y = v(t[1]->GetGeneratedTorque_b_Nm());
        mag.add({ref::norm(a) - size, ref::norm(b) - size, ref::norm(x) - size, ref::norm(y) - size});
        Deflection(ref::unit(fixed), ref::unit(a), across[0], angle[0], m.rng.b() ? 1 : -1);
        Deflection(ref::unit(fixed), ref::unit(x), across[1], angle[1], m.rng.b() ? 1 : -1);
        continue;
      }
      run = order, run_t = order_t;
      const V3 b = v(f[0]->GetGeneratedForce_b_N()), i = v(f[0]->GetGeneratedForce_i_N()), o = v(f[0]->GetGeneratedForce_rtn_N());
      vclose(m, b, run, 1e-13 * size * 10, "force:body", "force in the body frame");
      vclose(m, i, ref::T(i2b) * run, 1e-13 * size * 10, "force:inertial", "force in the inertial frame");
      vclose(m, o, rtn * (ref::T(i2b) * run), 1e-13 * size * 20, "force:rtn", "force in the orbit frame");
      vclose(m, v(t[0]->GetGeneratedTorque_b_Nm()), run_t, 1e-13 * size * 10, "torque:body", "torque");
      if (m.rng.b(0.05)) {  // without power there is nothing; with power again it is the last order
        Port(*f[0]).SetVoltage_V(0), Port(*t[0]).SetVoltage_V(0);
        f[0]->Tick((unsigned)(c * pre)), t[0]->Tick((unsigned)(c * pre));
        m.check(ref::norm(v(f[0]->GetGeneratedForce_b_N())) == 0 && ref::norm(v(f[0]->GetGeneratedForce_i_N())) == 0 && ref::norm(v(f[0]->GetGeneratedForce_rtn_N())) == 0, "force:off", "force without power");
        m.check(ref::norm(v(t[0]->GetGeneratedTorque_b_Nm())) == 0, "torque:off", "torque without power");
        Port(*f[0]).SetVoltage_V(5), Port(*t[0]).SetVoltage_V(5);
        f[0]->Tick((unsigned)(c * pre)), t[0]->Tick((unsigned)(c * pre));
        vclose(m, v(f[0]->GetGeneratedForce_b_N()), run, 1e-13 * size * 10, "force:on", "force with power again");
        vclose(m, v(t[0]->GetGeneratedTorque_b_Nm()), run_t, 1e-13 * size * 10, "torque:on", "torque with power again");
        m.ev("power_cycled");
      }
      m.distinctv({(double)b.x, (double)i.y, (double)o.z});
    }
    if (!noisy) continue;
    if (sm > 0) mag.White(m, {(L)sm, (L)sm, (L)sm, (L)sm}, "generator:noise");
    else m.check(mag.sd(0) < 1e-12L * size && mag.sd(2) < 1e-12L * size, "generator:noise", "magnitude varies by %.3Lg and %.3Lg", mag.sd(0), mag.sd(2));
    for (int i = 0; i < 2; i++) {
      if (sd > 0) {
        across[i].White(m, {sd / sqrtl(2), sd / sqrtl(2)}, i ? "torque:direction_noise" : "force:direction_noise");
        angle[i].White(m, {(L)sd}, i ? "torque:direction_noise" : "force:direction_noise");
      } else {
        m.check(angle[i].sd(0) < 1e-7L, "generator:direction_noise", "direction varies by %.3Lg rad", angle[i].sd(0));
      }
    }
    m.ev("noisy");
  }
  for (const char* e : {"ordered_b", "ordered_i", "ordered_rtn", "noisy"}) m.require(e, 5);
}

GROUP(magnetorquer) {
  const long n = m.n(80, 800);
  world::World W(Plain(m.rng, 10.0));
  auto& sc = *W.sc[0];
  auto& field = sc.Local().GetGeomagneticField();
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    const bool noisy = k % 4 == 3, from_file = m.rng.b(), port = m.rng.b(), walk = !noisy && k % 8 == 1;
    const double size = m.rng.logu(1e-3, 100);
    const int pre = from_file ? (int)m.rng.i(1, 4) : 1;
    const Quat q = toq(gen::quat(m.rng));
    const M3 b2c = ref::rotq(q);
    M3 scale = ref::eye();
    V3 bias{0, 0, 0}, hi, lo, sd{0, 0, 0};
    for (int i = 0; i < 3; i++) {
      hi[i] = size * m.rng.u(0.3, 1), lo[i] = m.rng.b(0.3) ? -hi[i] : -size * m.rng.u(0.3, 1);
      if (m.rng.b()) bias[i] = size * 0.1 * m.rng.n();
      if (noisy) sd[i] = size * m.rng.logu(1e-4, 1e-1);
      for (int j = 0; j < 3; j++)
        if (!noisy && !walk && m.rng.b(0.4)) scale[i][j] += m.rng.n() * 0.2;
    }
    const V3 walk_sd = walk ? size * V3{m.rng.logu(1e-3, 0.1), m.rng.logu(1e-3, 0.1), m.rng.logu(1e-3, 0.1)} : V3{0, 0, 0}, walk_limit = walk ? (L)m.rng.u(4, 30) * walk_sd : V3{0, 0, 0};
    PowerPort power[2] = {PowerPort(0, 1.0), PowerPort(1, 1.0)};
    std::unique_ptr<Magnetorquer> p[2];
    for (int i = 0; i < 2; i++) {
      PowerPort* pp = port ? &power[i] : nullptr;
      if (from_file) {
        File f = Fresh("magnetorquer.ini");
        const std::string s = mon::F("MAGNETORQUER_%d", i);
        world::Set(f.path, s, "prescaler", (double)pre);
        world::SetV(f.path, s, "quaternion_b2c", q, 4);
        for (int j = 0; j < 9; j++) world::Set(f.path, s, mon::F("scale_factor_c(%d)", j), (double)scale[j / 3][j % 3]);
        world::SetV(f.path, s, "max_output_magnetic_moment_c_Am2", hi, 3);
        world::SetV(f.path, s, "min_output_magnetic_moment_c_Am2", lo, 3);
        world::SetV(f.path, s, "constant_bias_noise_c_Am2", bias, 3);
        world::SetV(f.path, s, "random_walk_standard_deviation_c_Am2", walk_sd, 3);
        world::SetV(f.path, s, "random_walk_limit_c_Am2", walk_limit, 3);
        world::SetV(f.path, s, "white_noise_standard_deviation_c_Am2", sd, 3);
        f.Port(3.0, 0.5);
        world::Quiet quiet;
        p[i] = pp ? std::make_unique<Magnetorquer>(InitMagnetorquer(&clock, pp, i, f.path, 0.1, &field)) : std::make_unique<Magnetorquer>(InitMagnetorquer(&clock, i, f.path, 0.1, &field));
      } else if (pp) {
        p[i] = std::make_unique<Magnetorquer>(1, &clock, pp, i, q, tom(scale), tov(hi), tov(lo), tov(bias), 0.1, tov(walk_sd), tov(walk_limit), tov(sd), &field);
      } else {
        p[i] = std::make_unique<Magnetorquer>(1, &clock, i, q, tom(scale), tov(hi), tov(lo), tov(bias), 0.1, tov(walk_sd), tov(walk_limit), tov(sd), &field);
      }
      power[i].SetVoltage_V(5), power[i].Update();
    }
    m.begin("magnetorquer of %g Am2%s%s%s%s", size, noisy ? " with noise" : "", walk ? " with random walk" : "", from_file ? ", from a file" : "", port ? ", with a power port" : "");
    V3 cmd{0, 0, 0};
    Stats noise(6), wander(3);
    for (long t = 0; t < (noisy || walk ? 3000 : 300); t++) {
      if (t % 50 == 0) W.Step(), sc.Local().Update(&sc.Dyn(), &W.Time());
      if (t % 7 == 0) Turn(m, W);
      if (m.rng.b(0.15)) {
        for (int i = 0; i < 3; i++) cmd[i] = m.rng.pick(std::vector<double>{0, size * m.rng.n(), size * m.rng.u(-0.3, 0.3), 1e4 * size, -1e4 * size});
        for (int i = 0; i < 2; i++) p[i]->SetOutputMagneticMoment_c_Am2(tov(cmd));
      }
      if (port && !noisy && !walk && m.rng.b(0.02)) power[0].SetVoltage_V(m.rng.b(0.7) ? 5 : 0), power[0].Update();
      for (int i = 0; i < 2; i++) p[i]->Tick((unsigned)(t * pre));
      if (pre > 1) p[0]->Tick((unsigned)(t * pre + 1));
      const V3 c = v(p[0]->GetOutputMagneticMoment_c_Am2()), b = v(p[0]->SetOutputMagneticMoment_b_Am2()), tq = v(p[0]->GetOutputTorque_b_Nm()), B = v(field.GetGeomagneticField_b_nT());
      vclose(m, b, ref::T(b2c) * c, 1e-12 * size * 10, "mtq:body", "moment in the body frame");
      vclose(m, tq, 1e-9L * ref::cross_(b, B), 1e-12 * size * 1e-9 * (double)ref::norm(B), "mtq:torque", "torque");
      if (port && !power[0].GetIsOn()) {
        m.check(ref::norm(c) == 0 && ref::norm(tq) == 0, "mtq:power_off", "moment of %.6Lg Am2 without power", ref::norm(c));
        m.ev("power_off");
        cmd = V3{0, 0, 0};  // at rest until the next command
        continue;
      }
      V3 want;
      for (int i = 0; i < 3; i++) want[i] = std::min(hi[i], std::max(lo[i], cmd[i])) + bias[i];
      want = scale * want;
      if (noisy) {
        const V3 e = c - want, o = v(p[1]->GetOutputMagneticMoment_c_Am2()) - want;
        noise.add({e.x, e.y, e.z, o.x, o.y, o.z});
      } else if (walk) {
        const V3 e = c - want;
        wander.add({e.x, e.y, e.z});
      } else {
        vclose(m, c, want, 1e-12 * size * 10, "mtq:moment", "moment in the component frame");
        m.ev("moment");
        m.distinctv({(double)c.x, (double)c.y, (double)tq.z});
      }
    }
    if (noisy) noise.White(m, {sd.x, sd.y, sd.z, sd.x, sd.y, sd.z}, "mtq:noise"), m.ev("noisy");
    if (walk) {
      for (int j = 0; j < 3; j++) Walk(m, std::vector<L>(wander.x[(size_t)j].begin(), wander.x[(size_t)j].end()), walk_sd[j], walk_limit[j], 0.1L * pre, 1e-12L * size, "mtq:walk");
      m.ev("walk");
    }
  }
  for (const char* e : {"power_off", "moment", "noisy", "walk"}) m.require(e, 5);
}
