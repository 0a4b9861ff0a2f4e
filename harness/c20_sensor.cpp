// C20: sensors report the truth of the moment in their own frame with only the configured errors
#include "component.hpp"
//
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <environment/global/celestial_information.hpp>
#include <environment/global/physical_constants.hpp>
#include <environment/local/local_environment.hpp>

using namespace s2e::components;
using ref::v;
static const L kDeg = ref::kPi / 180;

template <size_t N>
struct Probe : Sensor<N> {
  using Sensor<N>::Sensor;
  s2e::math::Vector<N> Read(const s2e::math::Vector<N>& a) { return this->Measure(a); }
};
static L Clip(L x, L c, L z) { return fabsl(x) < c ? x : fabsl(x) < z ? (x > 0 ? c : -c) : 0; }
static void Effective(L& c, L& z) {  // as documented on construction: made positive, zero range at least the constant one
  if (c < 0 || z < 0) c = fabsl(c), z = fabsl(z);
  if (c > z) z = 2 * c;
}

template <size_t N>
static void Base(mon::Mon& m, long n) {
  for (long k = 0; k < n; k++) {
    s2e::math::Matrix<N, N> scale;
    s2e::math::Vector<N> c, z, bias, none(0.0), sd(0.0), wsd(0.0), lim(0.0);
    const bool noisy = k % 20 == 0, walking = k % 20 == 10;
    const double step = m.rng.logu(1e-3, 10);
    for (size_t i = 0; i < N; i++) {
      for (size_t j = 0; j < N; j++) scale[i][j] = (i == j) + (m.rng.b() ? 0 : m.rng.n() * 0.3);
      c[i] = noisy || walking ? 1e9 : m.rng.logu(0.1, 30) * (m.rng.b(0.1) ? -1 : 1);
      z[i] = noisy || walking ? 1e10 : m.rng.b(0.2) ? m.rng.logu(0.1, 30) : fabs(c[i]) * m.rng.u(1, 3);
      bias[i] = m.rng.b(0.3) ? 0 : m.rng.n();
      if (noisy) sd[i] = m.rng.b(0.2) ? 0 : m.rng.logu(1e-6, 10);
      if (walking) wsd[i] = m.rng.b(0.2) ? 0 : m.rng.logu(1e-6, 10), lim[i] = wsd[i] * step * m.rng.u(3, 60);
    }
    world::Quiet q;
    Probe<N> p(scale, c, z, bias, sd, step, wsd, lim);
    m.begin("sensor of %d axes, case %ld (%s)", (int)N, k, noisy ? "noise" : walking ? "walk" : "exact");
    std::vector<std::vector<L>> err(N);
    const long reads = noisy || walking ? 3000 : 30;
    for (long t = 0; t < reads; t++) {
      s2e::math::Vector<N> x;
      for (size_t i = 0; i < N; i++) x[i] = m.rng.b(0.1) ? 0 : m.rng.n() * (noisy || walking ? 1 : 10);
      const auto y = p.Read(x);
      for (size_t i = 0; i < N; i++) {
        L want = bias[i], size = fabs(bias[i]);
        for (size_t j = 0; j < N; j++) want += (L)scale[i][j] * x[j], size += fabs(scale[i][j] * x[j]);
        L cc = c[i], zz = z[i];
        Effective(cc, zz);
        err[i].push_back((L)y[i] - want);
        m.check(fabs(y[i]) <= cc, "range", "output %.17g beyond the range %.17Lg", y[i], cc);
        if (noisy || walking) continue;
        if (fabsl(fabsl(want) - cc) < 1e-12L * size || fabsl(fabsl(want) - zz) < 1e-12L * size) continue;
        const L w = Clip(want, cc, zz);
        m.check(fabsl(y[i] - w) <= 1e-14L * (size + 1), "exact", "axis %d: output %.17g, expected %.17Lg (ranges %.6Lg, %.6Lg)", (int)i, y[i], w, cc, zz);
        m.ev(w == want ? "in_range" : w == 0 ? "beyond_zero_range" : "held_at_range");
      }
    }
    m.distinctv({c[0], z[0], bias[0], scale[0][0]});
    if (noisy) {
      Stats s(N);
      for (size_t i = 0; i < N; i++)
        for (L e : err[i]) s.x[i].push_back((double)(fabsl(e) < 1e-13L ? 0 : e));
      std::vector<L> want;
      for (size_t i = 0; i < N; i++) want.push_back(sd[i]);
      s.White(m, want, "base:noise");
    }
    if (walking)
      for (size_t i = 0; i < N; i++) {
        const L kick = step * wsd[i];
        L s2 = 0, inc = 0;
        long cnt = 0;
        for (size_t t = 1; t < err[i].size(); t++) {
          m.check(fabsl(err[i][t]) <= lim[i] + 7 * kick + 1e-13L, "walk:limit", "walk %.5Lg beyond its limit %.5g (kick %.3Lg)", err[i][t], lim[i], kick);
          if (fabsl(err[i][t]) > lim[i] || fabsl(err[i][t - 1]) > lim[i]) continue;
          inc = err[i][t] - err[i][t - 1], s2 += inc * inc, cnt++;
        }
        if (wsd[i] == 0) {
          for (L e : err[i]) m.check(fabsl(e) <= 1e-13L, "walk:none", "error %.5Lg without any configured noise", e);
        } else if (cnt > 1000) {
          m.check(sqrtl(s2 / (L)cnt) > 0.3L * kick && sqrtl(s2 / (L)cnt) < 1.1L * kick, "walk:speed", "increments of %.5Lg at a speed of %.5g over %.5g s", sqrtl(s2 / (L)cnt), wsd[i], step);
          m.ev("walks");
        }
      }
  }
}
// A noisy reading is held at the range, or lost, as often as the noise carries it there
static void Edges(mon::Mon& m, long n) {
  for (long k = 0; k < n; k++) {
    s2e::math::Matrix<1, 1> scale(1.0);
    s2e::math::Vector<1> c, z, bias, sd, none(0.0);
    sd[0] = m.rng.logu(1e-3, 1), c[0] = m.rng.u(5, 30), z[0] = c[0] + sd[0] * m.rng.u(0.3, 4), bias[0] = m.rng.n();
    world::Quiet q;
    Probe<1> p(scale, c, z, bias, sd, 0.1, none, none);
    const double sign = m.rng.b() ? 1 : -1, at = m.rng.u(-2.5, 2.5) + (m.rng.b() ? 0 : (z[0] - c[0]) / sd[0]), value = sign * (c[0] + at * sd[0]) - bias[0];
    m.begin("range %.6g, lost from %.6g, deviation %.6g, the true value %.3g deviations from the range", c[0], z[0], sd[0], at);
    m.distinctv({c[0], z[0], sd[0], at});
    const int reads = 4000;
    int in = 0, held = 0, lost = 0;
    for (int t = 0; t < reads; t++) {
      s2e::math::Vector<1> x;
      x[0] = value;
      const double y = p.Read(x)[0] * sign;
      if (y == c[0]) held++;
      else if (y == 0) lost++;
      else in++;
    }
    auto below = [&](double x) { return 0.5 * erfc(-x / sqrt(2)); };
    const double pin = below(-at), plost = 1 - below((z[0] - c[0]) / sd[0] - at);
    const double e = 6.5 / sqrt((double)reads) * 0.5 + 1.0 / reads;
    m.check(fabs((double)in / reads - pin) < e && fabs((double)lost / reads - plost) < e && fabs((double)held / reads - (1 - pin - plost)) < e, "edges", "%d readings inside, %d held and %d lost of %d, expected %.4g, %.4g and %.4g", in, held,
            lost, reads, pin * reads, (1 - pin - plost) * reads, plost * reads);
    m.ev("noise at the range");
  }
}
GROUP(sensor_base) {
  Edges(m, m.n(60, 600));
  Base<1>(m, m.n(200, 2000));
  Base<3>(m, m.n(300, 3000));
  Base<4>(m, m.n(100, 1000));
  m.require("in_range", 500);
  m.require("held_at_range", 50);
  m.require("beyond_zero_range", 50);
  m.require("walks", 20);
}

// Gyros, magnetometers and the angular velocity observer, all set up from their files
GROUP(body_sensors) {
  const long worlds = m.n(12, 60), reads = m.n(400, 1500);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, 0.1));
    s2e::environment::ClockGenerator clock;  // not the one of the spacecraft, so that only Tick() below runs the component
    auto& sc = *W.sc[0];
    const bool walk = w % 4 == 3, noisy = !walk && w % 3 == 2;
    struct Unit {
      int kind;
      M3 scale;
      V3 bias, sd, walk, limit;
      L rc, rz;
      Quat q;
      int prescaler;
      bool port;
      std::unique_ptr<PowerPort> power;
      std::unique_ptr<GyroSensor> gyro;
      std::unique_ptr<Magnetometer> mag;
      std::unique_ptr<AngularVelocityObserver> avo;
      V3 held;
      std::vector<V3> err;
    };
    std::vector<Unit> units(6);
    for (int k = 0; k < 6; k++) {
      Unit& u = units[(size_t)k];
      u.kind = k % 3;
      const L size = u.kind == 1 ? 1e4L : 0.1L;
      u.scale = ref::eye();
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
          if (m.rng.b(0.4)) u.scale[i][j] += m.rng.n() * 0.1;
      if (m.rng.b(0.2)) {  // an element, a row or everything but one element is zero
        const int z = (int)m.rng.i(0, 2), w = (int)m.rng.i(0, 2), kind = (int)m.rng.i(0, 2);
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++)
            if (kind == 0 ? i == z && j == z : kind == 1 ? i == z : i != z || j != w) u.scale[i][j] = 0;
        if (kind == 2) u.scale[z][w] = 1 + m.rng.n() * 0.1;
      }
      u.bias = m.rng.b(0.3) ? V3{0, 0, 0} : size * 0.1L * V3{m.rng.n(), m.rng.n(), m.rng.n()};
      u.sd = noisy ? size * V3{m.rng.logu(1e-3, 1), m.rng.logu(1e-3, 1), m.rng.logu(1e-3, 1)} : V3{0, 0, 0};
      u.walk = walk ? size * V3{m.rng.logu(1e-3, 1), m.rng.logu(1e-3, 1), m.rng.logu(1e-3, 1)} : V3{0, 0, 0};
      for (int i = 0; i < 3; i++) u.limit[i] = u.walk[i] * (L)m.rng.u(4, 30);
      u.rc = noisy || walk ? size * 1e6L : size * (L)m.rng.logu(0.3, 20);
      u.rz = u.rc * (L)m.rng.u(1, 3);
      u.q = toq(gen::quat(m.rng));
      u.prescaler = (int)m.rng.i(0, 3);
      u.port = u.kind != 2 && m.rng.b();
      File f = Fresh(u.kind == 0 ? "gyro_sensor.ini" : u.kind == 1 ? "magnetometer.ini" : "angular_velocity_observer.ini");
      const int id = (int)m.rng.i(0, 5);
      const std::string name = u.kind == 0 ? mon::F("GYRO_SENSOR_%d", id) : u.kind == 1 ? mon::F("MAGNETOMETER_%d", id) : "ANGULAR_VELOCITY_OBSERVER";
      f.Base(name, u.kind == 1 ? "nT" : "rad_s", u.scale, u.bias, u.sd, u.walk, u.limit, (double)u.rc, (double)u.rz);
      world::Set(f.path, u.kind == 2 ? "COMPONENT_BASE" : name, "prescaler", (double)u.prescaler);
      if (u.kind != 2) world::SetV(f.path, name, "quaternion_b2c", u.q, 4);
      f.Port(3.0, 0.5);
      if (u.kind == 2) u.q = Quat(0, 0, 0, 1);
      u.power = std::make_unique<PowerPort>(0, 1.0);
      world::Quiet quiet;
      
      auto* field = &sc.Local().GetGeomagneticField();
      if (u.kind == 0 && u.port) u.gyro = std::make_unique<GyroSensor>(InitGyroSensor(&clock, u.power.get(), id, f.path, 0.1, &sc.Dyn()));
      if (u.kind == 0 && !u.port) u.gyro = std::make_unique<GyroSensor>(InitGyroSensor(&clock, id, f.path, 0.1, &sc.Dyn()));
      if (u.kind == 1 && u.port) u.mag = std::make_unique<Magnetometer>(InitMagnetometer(&clock, u.power.get(), id, f.path, 0.1, field));
      if (u.kind == 1 && !u.port) u.mag = std::make_unique<Magnetometer>(InitMagnetometer(&clock, id, f.path, 0.1, field));
      if (u.kind == 2) u.avo = std::make_unique<AngularVelocityObserver>(InitializeAngularVelocityObserver(&clock, f.path, 0.1, sc.Dyn().GetAttitude()));
      if (u.prescaler < 1) u.prescaler = 1;
      if (u.port) u.power->SetVoltage_V(5), u.power->Update();
      if (u.port) m.check(u.power->GetIsOn() && fabs(u.power->GetCurrentConsumption_A() - 0.1) < 1e-12, "port", "power settings of the sensor were not applied");
    }
    m.begin("world %ld of gyros, magnetometers and angular velocity observers%s", w, noisy ? " with noise" : walk ? " with random walks" : "");
    for (long t = 0; t < (noisy || walk ? 3000 : reads); t++) {
      if (t % 50 == 0) W.Step();
      Turn(m, W);
      const unsigned count = (unsigned)t;
      for (Unit& u : units) {
        Component* c = u.gyro ? (Component*)u.gyro.get() : u.mag ? (Component*)u.mag.get() : (Component*)u.avo.get();
        if (u.port && !noisy && !walk && m.rng.b(0.1)) u.power->SetVoltage_V(m.rng.b() ? 5 : 0), u.power->Update();
        c->Tick(count);
        const V3 truth_b = u.kind == 1 ? v(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT()) : v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s());
        const V3 want = u.scale * (ref::rotq(u.q) * truth_b) + u.bias;
        const V3 got = v(u.kind == 0 ? u.gyro->GetMeasuredAngularVelocity_c_rad_s() : u.kind == 1 ? u.mag->GetMeasuredMagneticField_c_nT() : u.avo->GetAngularVelocity_b_rad_s());
        const L size = ref::norm(truth_b) * 3 + ref::norm(u.bias);
        const bool runs = count % (unsigned)u.prescaler == 0 && (!u.port || u.power->GetIsOn());
        if (!runs) {
          m.check(ref::norm(got - u.held) == 0, "held", "output changed without a measurement");
          m.ev("held");
          continue;
        }
        u.held = got;
        if (noisy || walk) {
          u.err.push_back(got - want);
          continue;
        }
        V3 clipped;
        bool edge = false;
        for (int i = 0; i < 3; i++) {
          clipped[i] = Clip(want[i], u.rc, u.rz);
          if (fabsl(fabsl(want[i]) - u.rc) < 1e-12L * size || fabsl(fabsl(want[i]) - u.rz) < 1e-12L * size) edge = true;
        }
        if (!edge) vclose(m, got, clipped, (double)(1e-13L * size), u.kind == 0 ? "gyro" : u.kind == 1 ? "magnetometer" : "angular_velocity_observer", "measurement");
        m.ev(u.kind == 0 ? "gyro" : u.kind == 1 ? "magnetometer" : "observer");
        m.distinctv({(double)got.x, (double)got.y, (double)got.z});
      }
    }
    if (walk)
      for (Unit& u : units)
        for (int i = 0; i < 3; i++) {
          std::vector<L> x;
          for (V3& e : u.err) x.push_back(e[i]);
          Walk(m, x, u.walk[i], u.limit[i], 0.1L * u.prescaler, 1e-12L * (u.kind == 1 ? 1e5L : 1), u.kind == 0 ? "gyro:walk" : u.kind == 1 ? "magnetometer:walk" : "observer:walk");
        }
    if (noisy) {
      size_t least = 1u << 30;
      for (Unit& u : units) {
        Stats s(3);
        for (V3& e : u.err) s.add({e.x, e.y, e.z});
        s.White(m, {u.sd.x, u.sd.y, u.sd.z}, "body_sensors:noise");
        least = std::min(least, u.err.size());
      }
      Stats s(6);  // between the sensors
      for (size_t t = 0; t < least; t++) s.add({units[0].err[t].x, units[1].err[t].x, units[2].err[t].x, units[3].err[t].x, units[4].err[t].x, units[5].err[t].x});
      std::vector<L> sd;
      for (Unit& u : units) sd.push_back(u.sd.x);
      s.White(m, sd, "body_sensors:noise");
    }
  }
  m.require("gyro", 200);
  m.require("magnetometer", 200);
  m.require("observer", 200);
  m.require("walk_speed", 20);
  m.require("held", 200);
}

GROUP(sun_sensor) {
  const long worlds = m.n(12, 60), reads = m.n(600, 2500);
  for (long w = 0; w < worlds; w++) {
    auto st = Plain(m.rng, m.rng.pick(std::vector<double>{1, 30, 60}));
    if (w % 3 == 0) st.Attitude(0, {0, 0, 0, 1}, {0, 0, 0});
    world::World W(st);
    s2e::environment::ClockGenerator clock;  // not the one of the spacecraft, so that only Tick() below runs the component
    auto& sc = *W.sc[0];
    const bool noisy = w % 3 == 2, any = m.rng.b(), from_file = noisy ? w / 6 % 2 == 1 : any, port = w % 2 == 0;
    const Quat q = toq(gen::quat(m.rng));
    const bool only_bias = noisy && w / 3 % 2 == 1;
    const double fov = (noisy && w / 3 % 2 == 0 ? m.rng.u(89.5, 89.99) : m.rng.u(5, 88)) * (double)kDeg, thr = m.rng.b(0.3) ? 0 : m.rng.b() ? m.rng.u(0, 60) : m.rng.u(0, 5), sd = noisy && !only_bias ? m.rng.logu(1e-6, 3e-3) : 0, bsd = noisy ? m.rng.logu(1e-6, 3e-3) : 0;
    auto* srp = &sc.Local().GetSolarRadiationPressure();
    auto* cel = &sc.Local().GetCelestialInformation();
    PowerPort power[2] = {PowerPort(0, 1.0), PowerPort(1, 1.0)};
    std::vector<std::unique_ptr<SunSensor>> ss;
    for (int k = 0; k < 2; k++) {
      if (from_file) {
        File f = Fresh("sun_sensor.ini");
        const std::string s = mon::F("SUN_SENSOR_%d", k);
        world::Set(f.path, s, "prescaler", "1");
        world::SetV(f.path, s, "quaternion_b2c", q, 4);
        world::Set(f.path, s, "field_of_view_deg", fov / (double)kDeg);
        world::Set(f.path, s, "white_noise_standard_deviation_deg", sd / (double)kDeg);
        world::Set(f.path, s, "bias_standard_deviation_deg", bsd / (double)kDeg);
        world::Set(f.path, s, "intensity_lower_threshold_percent", thr);
        ss.push_back(std::make_unique<SunSensor>(port ? InitSunSensor(&clock, &power[k], k, f.path, srp, cel) : InitSunSensor(&clock, k, f.path, srp, cel)));
      } else {
        ss.push_back(port ? std::make_unique<SunSensor>(1, &clock, &power[k], k, q, fov, sd, bsd, thr, srp, cel) : std::make_unique<SunSensor>(1, &clock, k, q, fov, sd, bsd, thr, srp, cel));
      }
      power[k].SetVoltage_V(5), power[k].Update();
    }
    m.begin("sun sensor, field of view %.3f deg, threshold %.3f %%, noise %g, bias %g%s", fov / (double)kDeg, thr, sd, bsd, from_file ? ", from a file" : "");
    Stats noise(4);
    for (long t = 0; t < (noisy ? 6000 : reads); t++) {
      if (t % 3 == 0) W.Step();
      Turn(m, W);
      if (noisy || m.rng.b(0.6)) {  // the sun near the axis or the edges of the field of view
        const V3 sun_i = ref::T(ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b())) * v(cel->GetPositionFromSpacecraft_b_m("SUN"));
        const L off = noisy ? (L)(t % 10 ? m.rng.u(0, fov * 0.9) : m.rng.u(fov * 0.99, fov)) : m.rng.pick(std::vector<L>{0, (L)m.rng.u(0, fov), fov * (1 + 1e-6L), fov * (1 - 1e-6L), (L)m.rng.u(0, 3)});
        const V3 z_i = ref::rot(ref::unit(ref::cross_(sun_i, V3{m.rng.n(), m.rng.n(), m.rng.n()})), off) * ref::unit(sun_i);
        // any rotation that brings z_c to z_i
        V3 x_i = ref::unit(ref::cross_(z_i, V3{m.rng.n(), m.rng.n(), m.rng.n()}));
        V3 y_i = ref::cross_(z_i, x_i);
        M3 i2c;
        for (int k = 0; k < 3; k++) i2c[0][k] = x_i[k], i2c[1][k] = y_i[k], i2c[2][k] = z_i[k];
        const M3 i2b = ref::T(ref::rotq(q)) * i2c;
        sc.Dyn().SetAttitude().SetQuaternion_i2b(Quat::ConvertFromDcm(tom(i2b)));
        sc.Local().Update(&sc.Dyn(), &W.Time());
      }
      const V3 s = ref::unit(ref::rotq(q) * v(cel->GetPositionFromSpacecraft_b_m("SUN")));
      const L c = s.z, angle = atan2l(hypotl(s.x, s.y), s.z), power = srp->GetPowerDensity_W_m2(), level = power * std::max((L)0, c), limit = (L)thr / 100 * srp->GetSolarConstant_W_m2();
      for (auto& p : ss) p->Tick((unsigned)t);
      const bool edge = fabsl(angle - fov) < 1e-8L || fabsl(level - limit) < 1e-6L;
      const bool want = angle < fov && level >= limit;
      for (auto& p : ss) {
        m.check(fabsl(p->GetSolarIlluminance_W_m2() - level) <= 1e-4L, "sun:illuminance", "illuminance %.12g, expected %.12Lg at %.6Lg deg", p->GetSolarIlluminance_W_m2(), level, angle / kDeg);
        if (edge) continue;
        m.check(p->GetSunDetectedFlag() == want, "sun:flag", "sun %sdetected at %.9Lg deg (field of view %.9g deg) with %.6Lg of at least %.6Lg W/m2", p->GetSunDetectedFlag() ? "" : "not ",
                angle / kDeg, fov / (double)kDeg, level, limit);
        const V3 got = v(p->GetMeasuredSunDirection_c());
        m.ev(want ? "sun_seen" : level < limit ? "sun_too_dark" : "sun_outside");
        if (!p->GetSunDetectedFlag()) {
          m.check(ref::norm(got) == 0 && p->GetSunAngleAlpha_rad() == 0 && p->GetSunAngleBeta_rad() == 0, "sun:none", "a direction is given without the sun");
        } else {
          m.check(fabsl(ref::norm(got) - 1) < 1e-12L, "sun:unit", "measured direction has length %.17Lg", ref::norm(got));
          m.check(fabs(p->GetSunAngleAlpha_rad()) <= M_PI_2 && fabs(p->GetSunAngleBeta_rad()) <= M_PI_2, "sun:angle_range", "angles %.9g and %.9g rad", p->GetSunAngleAlpha_rad(), p->GetSunAngleBeta_rad());
          m.check(got.x * p->GetSunAngleAlpha_rad() >= 0 && got.y * p->GetSunAngleBeta_rad() >= 0 && got.z >= 0, "sun:angle_side", "direction %s with the angles %.9g and %.9g rad", S(got).c_str(), p->GetSunAngleAlpha_rad(),
                  p->GetSunAngleBeta_rad());
          const V3 body = v(p->GetMeasuredSunDirection_b());
          vclose(m, body, ref::T(ref::rotq(q)) * got, 1e-12, "sun:body", "measured direction in the body frame");
          if (!noisy) {
            vclose(m, got, s, 3e-8, "sun:direction", "sun direction");
            m.close(p->GetSunAngleAlpha_rad(), (double)atan2l(s.x, s.z), 1e-7, "sun:angles", "alpha");
            m.close(p->GetSunAngleBeta_rad(), (double)atan2l(s.y, s.z), 1e-7, "sun:angles", "beta");
          }
        }
      }
      if (noisy && ss[0]->GetSunDetectedFlag() && ss[1]->GetSunDetectedFlag() && angle < 1.2L) {
        noise.add({ss[0]->GetSunAngleAlpha_rad() - atan2l(s.x, s.z), ss[0]->GetSunAngleBeta_rad() - atan2l(s.y, s.z), ss[1]->GetSunAngleAlpha_rad() - atan2l(s.x, s.z),
                   ss[1]->GetSunAngleBeta_rad() - atan2l(s.y, s.z)});
      }
      m.distinctv({(double)s.x, (double)s.y, (double)s.z, (double)level});
    }
    if (noisy && noise.n() > 500) {
      std::vector<L> sds(4, sd);
      std::vector<double> bias;
      for (size_t i = 0; i < 4; i++) {
        const L b = noise.mean(i);
        bias.push_back((double)b);
        m.check(fabsl(b) <= 6 * (L)bsd + 6 * (L)sd / sqrtl((L)noise.n()), "sun:bias", "bias %.4Lg rad with a configured deviation of %.4g", b, bsd);
        for (double& x : noise.x[i]) x -= (double)b;
      }
      if (sd > 0) noise.White(m, sds, "sun:noise");
      m.check(bsd < 100 * sd || (bias[0] != bias[1] && bias[0] != bias[2] && fabs(bias[0] - bias[1]) > 1e-6 * bsd), "sun:bias", "the biases of different axes or sensors are the same");
    }
  }
  m.require("sun_seen", 1000);
  m.require("sun_outside", 500);
  m.require("sun_too_dark", 100);
  m.require("noise_samples", 1000);
}

GROUP(star_sensor) {
  const long worlds = m.n(8, 40), sensors = m.n(12, 40);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, m.rng.pick(std::vector<double>{1, 20, 60}), 2e5, 3e8));
    s2e::environment::ClockGenerator clock;  // not the one of the spacecraft, so that only Tick() below runs the component
    auto& sc = *W.sc[0];
    for (long k = 0; k < sensors; k++) {
      const bool noisy = k % 6 == 5, from_file = m.rng.b();
      const Quat q = toq(gen::quat(m.rng));
      const M3 b2c = ref::rotq(q);
      const double step = m.rng.pick(std::vector<double>{0.1, 0.05, 0.3, 1.0, 2.5, 7.0});
      const int delay = (int)m.rng.i(from_file ? 1 : 0, m.rng.b() ? 3 : 12), interval = (int)m.rng.i(1, 6);
      const double so = noisy ? m.rng.logu(1e-6, 1e-2) : 0, ss = noisy ? m.rng.logu(1e-6, 1e-2) : 0;
      const double sun = m.rng.u(0, 80) * (double)kDeg, earth = m.rng.u(0, 50) * (double)kDeg, moon = m.rng.u(0, 80) * (double)kDeg, rate = m.rng.logu(1e-3, 1);
      const bool port = k % 4 < 2;
      PowerPort power(0, 1.0);
      std::unique_ptr<StarSensor> p;
      if (from_file) {
        File f = Fresh("star_sensor.ini");
        const std::string s = mon::F("STAR_SENSOR_%d", (int)k);
        const int pre = (int)m.rng.i(1, 4);
        world::Set(f.path, s, "prescaler", (double)pre);
        world::SetV(f.path, s, "quaternion_b2c", q, 4);
        world::Set(f.path, s, "standard_deviation_orthogonal_direction_rad", so);
        world::Set(f.path, s, "standard_deviation_sight_direction_rad", ss);
        world::Set(f.path, s, "output_delay_s", mon::F("%.9g", delay * step));
        world::Set(f.path, s, "output_interval_s", mon::F("%.9g", interval * step));
        world::Set(f.path, s, "sun_exclusion_angle_deg", sun / (double)kDeg);
        world::Set(f.path, s, "earth_exclusion_angle_deg", earth / (double)kDeg);
        world::Set(f.path, s, "moon_exclusion_angle_deg", moon / (double)kDeg);
        world::Set(f.path, s, "angular_rate_limit_deg_s", rate / (double)kDeg);
        p = std::make_unique<StarSensor>(port ? InitStarSensor(&clock, &power, (int)k, f.path, step / pre, &sc.Dyn(), &sc.Local()) : InitStarSensor(&clock, (int)k, f.path, step / pre, &sc.Dyn(), &sc.Local()));
      } else {
        p = port ? std::make_unique<StarSensor>(1, &clock, &power, (int)k, q, so, ss, step, (unsigned)delay, (unsigned)interval, sun, earth, moon, rate, &sc.Dyn(), &sc.Local())
                 : std::make_unique<StarSensor>(1, &clock, (int)k, q, so, ss, step, (unsigned)delay, (unsigned)interval, sun, earth, moon, rate, &sc.Dyn(), &sc.Local());
      }
      power.SetVoltage_V(5), power.Update();
      m.begin("star sensor, step %g s, delay %d, interval %d, exclusion %.3f %.3f %.3f deg%s", step, delay, interval, sun / (double)kDeg, earth / (double)kDeg, moon / (double)kDeg, from_file ? ", from a file" : "");
      std::vector<M3> history;
      M3 shown = ref::eye();
      Stats noise(3);
      for (long t = 0; t < (noisy ? 3000 : 150); t++) {
        if (t % 40 == 0) W.Step();
        Turn(m, W, (double)rate);
        auto& cel = sc.Local().GetCelestialInformation();
        if (m.rng.b(0.4)) {  // a body near the limit of its exclusion
          const char* name = m.rng.pick(std::vector<const char*>{"SUN", "EARTH", "MOON"});
          const V3 d = ref::T(ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b())) * v(cel.GetPositionFromSpacecraft_b_m(name));
          L off = *name == 'S' ? sun : *name == 'M' ? moon : earth + asinl(6378136.6L / ref::norm(d));
          off *= m.rng.pick(std::vector<L>{1 + 1e-6L, 1 - 1e-6L, (L)m.rng.u(0.9, 1.1), 0});
          const V3 x_i = ref::rot(ref::unit(ref::cross_(d, V3{m.rng.n(), m.rng.n(), m.rng.n()})), off) * ref::unit(d);
          V3 y_i = ref::unit(ref::cross_(x_i, V3{m.rng.n(), m.rng.n(), m.rng.n()})), z_i = ref::cross_(x_i, y_i);
          M3 i2c;
          for (int j = 0; j < 3; j++) i2c[0][j] = x_i[j], i2c[1][j] = y_i[j], i2c[2][j] = z_i[j];
          sc.Dyn().SetAttitude().SetQuaternion_i2b(Quat::ConvertFromDcm(tom(ref::T(b2c) * i2c)));
          sc.Local().Update(&sc.Dyn(), &W.Time());
        }
        p->Tick((unsigned)(t * 12));
        history.push_back(b2c * ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b()));
        const bool renewed = t % interval == 0;
        if (renewed) shown = t >= delay ? history[(size_t)(t - delay)] : ref::eye();
        const M3 got = ref::rotq(p->GetMeasuredQuaternion_i2c());
        m.check(fabs(qnorm(p->GetMeasuredQuaternion_i2c()) - 1) < 1e-9, "star:norm", "quaternion of length %.17g", qnorm(p->GetMeasuredQuaternion_i2c()));
        if (!noisy) {
          m.check(ref::rotdist(got, shown) < 1e-8L, "star:quaternion", "update %ld: output is %.4Lg rad away from the attitude of %d updates ago", t, ref::rotdist(got, shown), delay);
          m.ev(t < delay ? "before_first" : renewed ? "renewed" : "kept");
        } else if (renewed && t >= delay) {
          const M3 e = got * ref::T(shown);
          noise.add({(e[1][2] - e[2][1]) / 2, (e[2][0] - e[0][2]) / 2, (e[0][1] - e[1][0]) / 2});
        }
        // exclusion of the moment
        auto angle = [&](const char* name) {
          const V3 d = b2c * v(cel.GetPositionFromSpacecraft_b_m(name));
          return atan2l(hypotl(d.y, d.z), d.x);
        };
        const L as = angle("SUN"), am = angle("MOON"), ae = angle("EARTH") - asinl(std::min((L)1, 6378136.6L / ref::norm(v(cel.GetPositionFromSpacecraft_b_m("EARTH")))));
        const L om = ref::norm(v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()));
        const bool want = as < sun || am < moon || ae < earth || om > rate;
        const bool edge = fabsl(as - sun) < 1e-7L || fabsl(am - moon) < 1e-7L || fabsl(ae - earth) < 1e-7L || fabsl(om - rate) < 1e-9L;
        if (!edge)
          m.check(p->GetErrorFlag() == want, "star:flag", "error flag %d with the Sun at %.7Lg (limit %.7g), the Earth's edge at %.7Lg (%.7g), the Moon at %.7Lg (%.7g) deg, rate %.5Lg (%.5g)", p->GetErrorFlag(),
                  as / kDeg, sun / (double)kDeg, ae / kDeg, earth / (double)kDeg, am / kDeg, moon / (double)kDeg, om, rate);
        m.ev(!want ? "stars_seen" : om > rate ? "too_fast" : as < sun ? "sun_excluded" : ae < earth ? "earth_excluded" : "moon_excluded");
        m.distinctv({(double)as, (double)ae, (double)am, (double)om});
      }
      if (noisy && noise.n() > 300) noise.White(m, {ss, so / sqrtl(2), so / sqrtl(2)}, "star:noise");
    }
  }
  for (const char* e : {"stars_seen", "too_fast", "sun_excluded", "earth_excluded", "moon_excluded", "renewed", "kept"}) m.require(e, 50);
}

GROUP(ideal_observers) {
  const long worlds = m.n(6, 30);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, 1.0));
    s2e::environment::ClockGenerator clock;  // not the one of the spacecraft, so that only Tick() below runs the component
    auto& sc = *W.sc[0];
    // attitude
    const double sa = w % 3 == 0 ? 0 : m.rng.logu(1e-5, 0.1);
    std::vector<std::unique_ptr<AttitudeObserver>> ao;
    ao.push_back(std::make_unique<AttitudeObserver>(1, &clock, sa, sc.Dyn().GetAttitude()));
    {
      File f = Fresh("attitude_observer.ini");
      world::Set(f.path, "COMPONENT_BASE", "prescaler", "0");
      world::Set(f.path, "ATTITUDE_OBSERVER", "error_angle_standard_deviation_deg", sa / (double)kDeg);
      ao.push_back(std::make_unique<AttitudeObserver>(InitializeAttitudeObserver(&clock, f.path, sc.Dyn().GetAttitude())));
    }
    // orbit
    s2e::math::Vector<6> sd;
    for (int i = 0; i < 6; i++) sd[(size_t)i] = w % 3 == 1 ? 0 : m.rng.logu(1e-3, 1e3);
    const bool rtn = m.rng.b();
    File f = Fresh("orbit_observer.ini");
    world::Set(f.path, "COMPONENT_BASE", "prescaler", "1");
    world::Set(f.path, "ORBIT_OBSERVER", "noise_frame", rtn ? "RTN" : "INERTIAL");
    world::SetV(f.path, "ORBIT_OBSERVER", "noise_standard_deviation", sd, 6);
    std::vector<std::unique_ptr<OrbitObserver>> oo;
    oo.push_back(std::make_unique<OrbitObserver>(InitializeOrbitObserver(&clock, f.path, sc.Dyn().GetOrbit())));
    oo.push_back(std::make_unique<OrbitObserver>(1, &clock, rtn ? NoiseFrame::kRtn : NoiseFrame::kInertial, sd, sc.Dyn().GetOrbit()));
    m.begin("attitude observer of %g rad, orbit observer in the %s frame", sa, rtn ? "orbital" : "inertial");
    Stats a(6), angle(1), o(12);
    for (long t = 0; t < 4000; t++) {
      if (t % 100 == 0) W.Step();
      Turn(m, W);
      V3 e[2];
      for (size_t k = 0; k < 2; k++) {
        ao[k]->Tick((unsigned)t);
        const M3 d = ref::rotq(ao[k]->GetQuaternion_i2b()) * ref::T(ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b()));
        e[k] = 0.5L * V3{d[1][2] - d[2][1], d[2][0] - d[0][2], d[0][1] - d[1][0]};
        // small random rotation back in the inertial frame (independent of the attitude)
        e[k] = ref::T(ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b())) * e[k];
        const L size = ref::norm(e[k]) * 1.0L;
        if (sa == 0) m.check(size < 1e-8L, "attitude_observer:exact", "observed attitude is %.4Lg rad away", size);
        angle.add({size});
      }
      a.add({e[0].x, e[0].y, e[0].z, e[1].x, e[1].y, e[1].z});
      V3 ep[2], ev[2];
      for (size_t k = 0; k < 2; k++) {
        oo[k]->Tick((unsigned)t);
        const V3 r = v(sc.Dyn().GetOrbit().GetPosition_i_m()), u = v(sc.Dyn().GetOrbit().GetVelocity_i_m_s());
        ep[k] = v(oo[k]->GetPosition_i_m()) - r, ev[k] = v(oo[k]->GetVelocity_i_m_s()) - u;
        if (rtn) {
          const V3 R = ref::unit(r), N = ref::unit(ref::cross_(r, u)), T = ref::cross_(N, R);
          ep[k] = V3{ref::dot_(ep[k], R), ref::dot_(ep[k], T), ref::dot_(ep[k], N)};
          ev[k] = V3{ref::dot_(ev[k], R), ref::dot_(ev[k], T), ref::dot_(ev[k], N)};
        }
        if (sd[0] == 0) m.check(ref::norm(ep[k]) == 0 && ref::norm(ev[k]) == 0, "orbit_observer:exact", "observed orbit is %.4Lg m away", ref::norm(ep[k]));
      }
      o.add({ep[0].x, ep[0].y, ep[0].z, ev[0].x, ev[0].y, ev[0].z, ep[1].x, ep[1].y, ep[1].z, ev[1].x, ev[1].y, ev[1].z});
      m.distinctv({(double)e[0].x, (double)ep[0].x, (double)ev[0].x});
    }
    m.ev("observations", 4000);
    if (sa > 0) {
      a.White(m, std::vector<L>(6, sa / sqrtl(3) * (1 - (L)sa * sa / 6 * 3)), "attitude_observer:noise");
      m.check(fabsl(angle.sd(0) / sa - 1) < 0.06L + (L)sa * sa, "attitude_observer:noise", "error angles of deviation %.5Lg instead of %.5g", angle.sd(0), sa);
    }
    if (sd[0] > 0) {
      std::vector<L> want;
      for (int k = 0; k < 2; k++)
        for (size_t i = 0; i < 6; i++) want.push_back(sd[i]);
      for (auto& x : o.x)
        for (double& y : x) y += 0;
      o.White(m, want, "orbit_observer:noise");
    }
  }
  m.require("observations", 4000);
}

struct Gnss : GnssReceiver {
  using GnssReceiver::GnssReceiver;
  explicit Gnss(const GnssReceiver& g) : GnssReceiver(g) {}
  bool Visible() const { return is_gnss_visible_; }
};
GROUP(gnss_receiver) {
  const long worlds = m.n(8, 40), reads = m.n(600, 2500);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, m.rng.pick(std::vector<double>{0.1, 10, 60})));
    s2e::environment::ClockGenerator clock;  // not the one of the spacecraft, so that only Tick() below runs the component
    auto& sc = *W.sc[0];
    const bool noisy = w % 2;
    const Quat q = toq(gen::quat(m.rng));
    V3 sp, sv;
    if (noisy) sp = {m.rng.logu(0.1, 1e3), m.rng.logu(0.1, 1e3), m.rng.logu(0.1, 1e3)}, sv = {m.rng.logu(0.1, 1e3), m.rng.logu(0.1, 1e3), m.rng.logu(0.1, 1e3)};
    File f = Fresh("gnss_receiver.ini");
    world::Set(f.path, "GNSS_RECEIVER_3", "prescaler", "1");
    world::SetV(f.path, "GNSS_RECEIVER_3", "quaternion_b2c", q, 4);
    world::SetV(f.path, "GNSS_RECEIVER_3", "antenna_position_b_m", V3{1, 2, 3}, 3);
    world::Set(f.path, "GNSS_RECEIVER_3", "antenna_model", w % 4 < 2 ? "SIMPLE" : "CONE");  // falls back to the simple model without GNSS satellites
    world::SetV(f.path, "GNSS_RECEIVER_3", "white_noise_standard_deviation_position_ecef_m", sp, 3);
    world::SetV(f.path, "GNSS_RECEIVER_3", "white_noise_standard_deviation_velocity_ecef_m_s", sv, 3);
    PowerPort power(0, 1.0);
    std::unique_ptr<Gnss> g;
    {
      world::Quiet quiet;
      g = std::make_unique<Gnss>(w % 8 >= 4 ? InitGnssReceiver(&clock, &power, 3, f.path, &sc.Dyn(), &W.global->GetGnssSatellites(), &W.Time()) : InitGnssReceiver(&clock, 3, f.path, &sc.Dyn(), &W.global->GetGnssSatellites(), &W.Time()));
    }
    power.SetVoltage_V(5), power.Update();
    m.begin("gnss receiver %s", noisy ? "with noise" : "without noise");
    V3 held, heldv;
    Stats s(6);
    for (long t = 0; t < (noisy ? 6000 : reads); t++) {
      if (t % 5 == 0) W.Step();
      Turn(m, W);
      g->Tick((unsigned)t);
      auto& o = sc.Dyn().GetOrbit();
      const V3 up = ref::rotq(q) * (ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b()) * v(o.GetPosition_i_m()));
      const V3 p = v(g->GetMeasuredPosition_ecef_m()), u = v(g->GetMeasuredVelocity_ecef_m_s());
      if (fabsl(up.z) > 1e-9L * ref::norm(up)) {
        m.check(g->Visible() == (up.z > 0), "gnss:flag", "visible %d with the antenna %s", g->Visible(), up.z > 0 ? "upwards" : "downwards");
        m.ev(up.z > 0 ? "seen" : "hidden");
      }
      if (g->Visible()) {
        const V3 ep = p - v(o.GetPosition_ecef_m()), ev = u - v(o.GetVelocity_ecef_m_s());
        if (!noisy) m.check(ref::norm(ep) == 0 && ref::norm(ev) == 0, "gnss:exact", "position %s and velocity %s off without noise", S(ep).c_str(), S(ev).c_str());
        s.add({ep.x, ep.y, ep.z, ev.x, ev.y, ev.z});
        held = p, heldv = u;
      } else {
        m.check(ref::norm(p - held) == 0 && ref::norm(u - heldv) == 0, "gnss:held", "output changed without visible satellites");
      }
      if (ref::norm(held) > 0) {
        const auto geo = g->GetMeasuredGeodeticPosition();
        s2e::geodesy::GeodeticPosition again;
        again.UpdateFromEcef(tov(held));
        m.check(geo.GetLatitude_rad() == again.GetLatitude_rad() && geo.GetLongitude_rad() == again.GetLongitude_rad() && geo.GetAltitude_m() == again.GetAltitude_m(), "gnss:geodetic",
                "geodetic position is not the one of the measured position");
      }
      std::vector<std::string> log;
      std::stringstream ss(g->GetLogValue());
      for (std::string x; std::getline(ss, x, ',');) log.push_back(x);
      const auto& utc = W.Time().GetCurrentUtc();
      m.check(log.size() > 5 && atof(log[0].c_str()) == utc.year && atof(log[1].c_str()) == utc.month && atof(log[2].c_str()) == utc.day && atof(log[3].c_str()) == utc.hour && atof(log[4].c_str()) == utc.minute,
              "gnss:time", "logged time %s-%s-%s is not the one of the simulation", log[0].c_str(), log[1].c_str(), log[2].c_str());
      m.distinctv({(double)up.x, (double)up.y, (double)up.z});
    }
    if (noisy && s.n() > 1000) s.White(m, {sp.x, sp.y, sp.z, sv.x, sv.y, sv.z}, "gnss:noise");
  }
  m.require("seen", 500);
  m.require("hidden", 500);
}

GROUP(interference) {
  const long cases = m.n(20, 150);
  world::World W(Plain(m.rng, 1.0));
  s2e::environment::ClockGenerator clock;  // not the one of the spacecraft, so that only Tick() below runs the component
  auto& sc = *W.sc[0];
  for (long k = 0; k < cases; k++) {
    s2e::math::Vector<3> big(1e30), zero(0.0), inf(1e9);
    const V3 bias{m.rng.n() * 100, m.rng.n() * 100, m.rng.n() * 100};
    Sensor<3> base(s2e::math::MakeIdentityMatrix<3>(), inf, big, tov(bias), zero, 1.0, zero, zero);
    Magnetometer mag(1, &clock, base, 0, toq({0, 0, 0, 1}), &sc.Local().GetGeomagneticField());
    Magnetorquer mtq(1, &clock, 0, toq({0, 0, 0, 1}), s2e::math::MakeIdentityMatrix<3>(), big, -1.0 * big, zero, 1.0, zero, zero, zero, &sc.Local().GetGeomagneticField());
    File f = Fresh("component_interference.ini");
    const int degree = (int)m.rng.i(0, 3), id = (int)m.rng.i(0, 2);
    const std::string s = mon::F("MTQ_MAGNETOMETER_INTERFERENCE_%d", id);
    world::Set(f.path, s, "polynomial_degree", (double)degree);
    std::vector<M3> c((size_t)degree);
    for (int d = 0; d < degree; d++)
      for (int i = 0; i < 9; i++) c[(size_t)d][i / 3][i % 3] = m.rng.n() * 100, world::Set(f.path, s, mon::F("additional_bias_by_mtq_coefficients_%d(%d)", d + 1, i), (double)c[(size_t)d][i / 3][i % 3]);
    MtqMagnetometerInterference inter(f.path, mag, mtq, (size_t)id);
    m.begin("interference of degree %d", degree);
    for (int t = 0; t < 60; t++) {
      const V3 x{m.rng.n() * 3, m.rng.n() * 3, m.rng.b(0.2) ? 0 : m.rng.n() * 3};
      mtq.SetOutputMagneticMoment_c_Am2(tov(x));
      mtq.Tick((unsigned)t);  // without noise the output is the command
      inter.UpdateInterference();
      if (m.rng.b(0.3)) inter.UpdateInterference();
      V3 want = bias, power{1, 1, 1};
      L size = ref::norm(bias);
      for (auto& a : c) {
        for (int i = 0; i < 3; i++) power[i] *= x[i];
        want = want + a * power;
        size += 300 * ref::norm(power);
      }
      vclose(m, v(mag.GetConstantBiasNoise_c_nT()), want, (double)(1e-12L * size * (t + 1)) + 1e-9 , "interference", "bias of the magnetometer");
      Turn(m, W);
      mag.Tick((unsigned)t);
      vclose(m, v(mag.GetMeasuredMagneticField_c_nT()), v(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT()) + v(mag.GetConstantBiasNoise_c_nT()), (double)(1e-12L * size) + 1e-6, "interference:measured",
             "measured field");
      m.ev("interference");
      m.distinctv({(double)x.x, (double)x.y});
    }
  }
  m.require("interference", 300);
}
