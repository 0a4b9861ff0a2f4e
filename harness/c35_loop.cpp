// C35: one simulation step puts the state, the environment, the components and the loads together consistently
#include "component.hpp"
//
#include <components/base/component.hpp>
#include <functional>
#include <logger/loggable.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include <simulation/spacecraft/spacecraft.hpp>

namespace {
using namespace s2e;
using ref::v;

// What happened during one update of the spacecraft: c component, i interference, t torque, f force
struct Trace {
  std::string calls;
};
struct Installed : spacecraft::InstalledComponents {
  Trace* log;
  V3 force, torque;
  explicit Installed(Trace* t) : log(t) {}
  std::function<void()> each;
  void ComponentInterference() override {
    log->calls += 'i';
    each();
  }
  math::Vector<3> GenerateForce_b_N() override {
    log->calls += 'f';
    return tov(force);
  }
  math::Vector<3> GenerateTorque_b_Nm() override {
    log->calls += 't';
    return tov(torque);
  }
};
struct Watch : components::Component {
  std::function<void()> act;
  Watch(environment::ClockGenerator* clock, std::function<void()> a) : Component(1, clock), act(a) {}
  void MainRoutine(const int) override { act(); }
};
struct PeekAttitude : dynamics::attitude::Attitude {
  static V3 Torque(const Attitude& a) { return v(a.*(&PeekAttitude::torque_b_Nm_)); }
};
struct PeekOrbit : dynamics::orbit::Orbit {
  static V3 Acceleration(const Orbit& o) { return v(o.*(&PeekOrbit::spacecraft_acceleration_i_m_s2_)); }
};

// Everything that the environment and the disturbances tell about the moment
std::vector<double> Moment(world::Sc& sc, const std::vector<std::string>& bodies) {
  std::vector<double> x;
  auto add = [&](const math::Vector<3>& a) {
    for (size_t i = 0; i < 3; i++) x.push_back(a[i]);
  };
  auto& l = sc.Local();
  for (auto& b : bodies) add(l.GetCelestialInformation().GetPositionFromSpacecraft_i_m(b.c_str())), add(l.GetCelestialInformation().GetPositionFromSpacecraft_b_m(b.c_str()));
  add(l.GetGeomagneticField().GetGeomagneticField_i_nT()), add(l.GetGeomagneticField().GetGeomagneticField_b_nT());
  x.push_back(l.GetSolarRadiationPressure().GetPressure_N_m2()), x.push_back(l.GetSolarRadiationPressure().GetShadowCoefficient());
  x.push_back(l.GetAtmosphere().GetAirDensity_kg_m3());
  x.push_back(l.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2()), x.push_back(l.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2());
  add(sc.Dist().GetForce_b_N()), add(sc.Dist().GetTorque_b_Nm()), add(sc.Dist().GetAcceleration_i_m_s2());
  return x;
}
}  // namespace

GROUP(steps) {
  const long worlds = m.n(30, 200);
  const L mu = 3.986004418e14L;
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    const int n = (int)g.i(1, 3);
    const double step = g.pick(std::vector<double>{0.1, 0.25, 0.5, 1});
    auto every = [&] { return g.b(0.4) ? 1 : (int)g.i(2, 6); };
    const int att = every(), orb = every(), comp = every(), th = every();
    world::Settings s(n);
    s.Times(step, 1e6, Start(g));
    s.B("TIME", "attitude_update_period_s", step * att), s.B("TIME", "orbit_update_period_s", step * orb);
    s.B("TIME", "component_update_period_s", step * comp), s.B("TIME", "thermal_update_period_s", step * th);
    const double att_h = step * (g.b() ? att : g.pick(std::vector<double>{0.4, 0.5, 1}));
    s.B("TIME", "attitude_integral_step_s", att_h), s.B("TIME", "orbit_integral_step_s", step * (g.b() ? orb : g.pick(std::vector<double>{0.4, 0.5, 1})));
    const std::vector<std::string> bodies = {"EARTH", "SUN", "MOON"};
    s.B("CELESTIAL_INFORMATION", "number_of_selected_body", 3.0);
    for (size_t i = 0; i < 3; i++) s.B("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", bodies[i]);
    std::vector<L> mass, inertia;
    for (int k = 0; k < n; k++) {
      const L a = 6378137.0L + g.u(2.5e5, 1.5e6);
      const V3 e1 = gen::dir(g), e2 = ref::unit(ref::cross_(e1, gen::dir(g) + V3{0.001L, 0.002L, 0.003L}));
      s.Orbit(k, a * e1, sqrtl(mu / a) * (L)g.u(1.0, 1.05) * e2);
      s.Attitude(k, gen::quat(g), V3{g.n() * 0.01, g.n() * 0.01, g.n() * 0.01});
      s.NoNoise(k), s.NoDisturbance(k);
      for (const char* d : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"})
        if (g.b()) s.Dist(k, d, "calculation", "ENABLE");
      s.Dist(k, "THIRD_BODY_GRAVITY", "number_of_third_body", "1");
      s.Dist(k, "THIRD_BODY_GRAVITY", "third_body_name(0)", g.b() ? "SUN" : "MOON");
      mass.push_back((L)(double)g.logu(1, 1000)), inertia.push_back((L)(double)g.logu(0.1, 100));
      for (int i = 0; i < 9; i++) s.Struct(k, "KINEMATIC_PARAMETERS", mon::F("inertia_tensor_kgm2(%d)", i), world::D(i % 4 ? 0.0 : (double)inertia.back()));
      for (const char* r : {"rmm_random_walk_speed_Am2", "rmm_random_walk_limit_Am2", "rmm_white_noise_standard_deviation_Am2"}) s.Struct(k, "RESIDUAL_MAGNETIC_MOMENT", r, "0");
      s.Struct(k, "KINEMATIC_PARAMETERS", "mass_kg", world::D((double)mass.back()));
    }
    world::World W(s);
    // the time of a simulation in which everything is due in every step
    std::filesystem::copy_file(s.base, "always.ini", std::filesystem::copy_options::overwrite_existing);
    for (const char* k : {"attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s"})
      world::Set("always.ini", "TIME", k, world::D(step));
    std::unique_ptr<environment::SimulationTime> always(environment::InitSimulationTime("always.ini"));
    m.begin("%d spacecraft, steps of %g s; attitude every %d, orbit every %d, components every %d, thermal every %d", n, step, att, orb, comp, th);
    struct Craft {
      Trace log;
      Installed* in;
      std::unique_ptr<Watch> watch;
      V3 p, vel, omega;
      M3 i2b;
      L attitude_t = 0, orbit_t = 0;
      std::vector<double> last;
    };
    std::vector<Craft> craft((size_t)n);
    for (size_t k = 0; k < (size_t)n; k++) {
      Craft& c = craft[k];
      world::Sc& sc = *W.sc[k];
      c.in = new Installed(&c.log);
      sc.Install(c.in);
      auto look = [&m, &W, &c, &sc, &bodies, &always] {
        // The components see the state of the beginning of the step and its environment
        const V3 p = v(sc.Dyn().GetOrbit().GetPosition_i_m());
        m.check(ref::norm(p - c.p) == 0, "component:orbit", "a component sees the position %s, the step began at %s", S(p).c_str(), S(c.p).c_str());
        const M3 i2b = ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b());
        // The environment is renewed in the steps in which the attitude or the orbit is due, and held in between
        if (!W.Time().GetAttitudePropagateFlag() && !W.Time().GetOrbitPropagateFlag()) {
          const auto x = Moment(sc, bodies);
          for (size_t i = 0; i < x.size(); i++) m.check(x[i] == c.last[i], "component:held", "value %zu of the environment changed from %.17g to %.17g between two updates", i, c.last[i], x[i]);
          m.ev("held environment");
          return;
        }
        const auto& info = W.global->GetCelestialInformation();
        for (auto& b : bodies) {
          const V3 x = v(info.GetPositionFromCenter_i_m(b.c_str())) - c.p, y = v(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_i_m(b.c_str()));
          m.check(ref::norm(x - y) <= 1e-15L * (ref::norm(x) + ref::norm(c.p)), "component:celestial", "%s is at %s for a component instead of %s", b.c_str(), S(y).c_str(), S(x).c_str());
          const V3 z = v(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m(b.c_str()));
          m.check(ref::norm(i2b * x - z) <= 1e-13L * ref::norm(x), "component:celestial_b", "%s is at %s in the body frame for a component instead of %s", b.c_str(), S(z).c_str(), S(i2b * x).c_str());
        }
        const V3 bi = v(sc.Local().GetGeomagneticField().GetGeomagneticField_i_nT()), bb = v(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT());
        m.check(ref::norm(i2b * bi - bb) <= 1e-12L * ref::norm(bi) && ref::norm(bi) > 0, "component:geomagnetic", "geomagnetic field %s in the body frame, %s in the inertial one", S(bb).c_str(), S(bi).c_str());
        // nothing changes when the environment and the disturbances are computed again for the same state
        const auto before = Moment(sc, bodies);
        sc.Local().Update(&sc.Dyn(), &W.Time());
        sc.Dist().Update(sc.Local(), sc.Dyn(), &W.Time());
        auto after = Moment(sc, bodies);
        if (W.Time().GetAttitudePropagateFlag()) {  // what depends on the attitude
          sc.Dist().Update(sc.Local(), sc.Dyn(), always.get());
          const auto x = Moment(sc, bodies);
          for (size_t i = x.size() - 9; i < x.size() - 3; i++) after[i] = x[i];
        }
        for (size_t i = 0; i < before.size(); i++)
          m.check(fabs(before[i] - after[i]) <= 1e-13 * fabs(after[i]), "component:moment", "a component sees the value %zu %.17g of the environment, for the state of the moment it is %.17g", i, before[i], after[i]);
      };
      c.watch = std::make_unique<Watch>(&sc.Clock(), [&m, &c, look] {
        c.log.calls += 'c';
        look();
        m.ev("component");
      });
      c.in->each = look;  // in every step, with components or without
    }
    for (int t = 0; t < 60; t++) {
      for (size_t k = 0; k < (size_t)n; k++) {
        Craft& c = craft[k];
        world::Sc& sc = *W.sc[k];
        c.log.calls.clear();
        c.last = Moment(sc, bodies);
        c.in->force = (L)(g.b(0.2) ? 0 : g.logu(1e-6, 1e-2)) * mass[k] * gen::dir(g);
        c.in->torque = (L)(g.b(0.2) ? 0 : g.logu(1e-8, 1e-4)) * inertia[k] * gen::dir(g);
        c.p = v(sc.Dyn().GetOrbit().GetPosition_i_m()), c.vel = v(sc.Dyn().GetOrbit().GetVelocity_i_m_s());
        c.omega = v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s());
        c.i2b = ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b());
      }
      always->UpdateTime();
      W.Step();
      const L now = W.Time().GetElapsedTime_s();
      for (size_t k = 0; k < (size_t)n; k++) {
        Craft& c = craft[k];
        world::Sc& sc = *W.sc[k];
        const std::string want = W.Time().GetCompoUpdateFlag() ? "ci" : "i", &got = c.log.calls;
        m.check(got == want + "tf" || got == want + "ft", "order", "calls of the components in a step: %s, expected %s and the loads", got.c_str(), want.c_str());
        const auto& a = sc.Dyn().GetAttitude();
        const auto& o = sc.Dyn().GetOrbit();
        const V3 torque = v(sc.Dist().GetTorque_b_Nm()) + c.in->torque, force = v(sc.Dist().GetForce_b_N()) + c.in->force, own = v(sc.Dist().GetAcceleration_i_m_s2());
        const M3 i2b = ref::rotq(a.GetQuaternion_i2b());
        const V3 omega = v(a.GetAngularVelocity_b_rad_s()), p = v(o.GetPosition_i_m()), vel = v(o.GetVelocity_i_m_s());
        if (W.Time().GetAttitudePropagateFlag()) {
          const V3 applied = PeekAttitude::Torque(a);
          m.check(ref::norm(applied - torque) <= 1e-14L * (ref::norm(c.in->torque) + ref::norm(torque)), "load:torque", "torque %s applied to the attitude instead of %s", S(applied).c_str(), S(torque).c_str());
          // a sphere under a constant torque, from the last update of the attitude to this one
          const L dt = now - c.attitude_t;
          const V3 alpha = (1 / inertia[k]) * torque;
          m.check(ref::norm(omega - (c.omega + dt * alpha)) <= 1e-13L + 1e-9L * dt * ref::norm(alpha), "attitude:rate", "angular velocity %s after %.6Lg s, expected %s", S(omega).c_str(), dt, S(c.omega + dt * alpha).c_str());
          M3 R = c.i2b;
          const int sub = 200;
          for (int i = 0; i < sub; i++) {
            const V3 mid = c.omega + ((i + 0.5L) * dt / sub) * alpha;
            if (ref::norm(mid) > 0) R = ref::rot(ref::unit(mid), ref::norm(mid) * dt / sub) * R;
          }
          L off = 0;
          for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) off = std::max(off, fabsl(R[i][j] - i2b[i][j]));
          m.check(off <= 1e-9L + dt / (L)att_h * powl(std::max(ref::norm(c.omega), ref::norm(omega)) * (L)att_h, 5) + ref::norm(omega) * ref::norm(alpha) * dt * dt * dt / (sub * sub), "attitude:turn", "the attitude is %.3Lg off after %.6Lg s", off, dt);
          c.attitude_t = now;
          m.ev(att > 1 ? "attitude update" : "attitude step");
        } else {
          bool same = ref::norm(omega - c.omega) == 0;
          for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) same = same && i2b[i][j] == c.i2b[i][j];
          m.check(same, "attitude:held", "the attitude moved between two updates");
          m.ev("attitude held");
        }
        if (W.Time().GetOrbitPropagateFlag()) {
          const V3 total = own + (1 / mass[k]) * (ref::T(c.i2b) * force), applied = PeekOrbit::Acceleration(o);
          m.check(ref::norm(applied - total) <= 1e-13L * (ref::norm(own) + ref::norm(force) / mass[k] + ref::norm(c.in->force) / mass[k]), "load:acceleration", "acceleration %s applied to the orbit instead of %s", S(applied).c_str(), S(total).c_str());
          const L dt = now - c.orbit_t, gm = W.global->GetCelestialInformation().GetCenterBodyGravityConstant_m3_s2();
          V3 x = c.p, u = c.vel;
          const int sub = 64;
          const L h = dt / sub;
          auto f = [&](const V3& q) { return -(gm / powl(ref::norm(q), 3)) * q + total; };
          for (int i = 0; i < sub; i++) {
            const V3 k1 = f(x), x2 = x + (h / 2) * u, k2 = f(x2), u2 = u + (h / 2) * k1, x3 = x + (h / 2) * u2, k3 = f(x3), u3 = u + (h / 2) * k2, x4 = x + h * u3, k4 = f(x4), u4 = u + h * k3;
            x = x + (h / 6) * (u + 2.0L * u2 + 2.0L * u3 + u4);
            u = u + (h / 6) * (k1 + 2.0L * k2 + 2.0L * k3 + k4);
          }
          m.check(ref::norm(p - x) <= 1e-6L && ref::norm(vel - u) <= 1e-8L, "orbit:motion", "position %.3Lg m and velocity %.3Lg m/s off after %.6Lg s", ref::norm(p - x), ref::norm(vel - u), dt);
          c.orbit_t = now;
          m.ev(orb > 1 ? "orbit update" : "orbit step");
        } else {
          m.check(ref::norm(p - c.p) == 0 && ref::norm(vel - c.vel) == 0, "orbit:held", "the orbit moved between two updates");
          m.ev("orbit held");
        }
        const V3 vb = v(o.GetVelocity_b_m_s());
        m.check(ref::norm(vb - i2b * vel) <= 1e-12L * ref::norm(vel), "velocity_b", "velocity %s in the body frame instead of %s", S(vb).c_str(), S(i2b * vel).c_str());
        m.distinctv({(double)p.x, (double)omega.x, (double)torque.x});
      }
    }
  }
  for (const char* e : {"component", "held environment", "attitude update", "attitude step", "attitude held", "orbit update", "orbit step", "orbit held"}) m.require(e, 100);
}

// ---------- a whole simulation ----------
// The n-th update of the targets is that of the time n steps after the start, and what is logged at a time is the
// state of that time: the same states as those of spacecraft that are stepped one by one by hand.
namespace {
struct RunLog : logger::ILoggable {
  std::function<void()> act;
  std::string GetLogHeader() const override { return "run[-],"; }
  std::string GetLogValue() const override {
    act();
    return "0,";
  }
};
struct RunCase : simulation::SimulationCase {
  std::vector<std::unique_ptr<world::Sc>> sc;
  RunLog log;
  std::function<void(RunCase&)> updated;
  bool craft;
  RunCase(const std::string& base, bool with) : SimulationCase(base), craft(with) {}
  ~RunCase() {
    while (!sc.empty()) sc.pop_back();
  }
  const environment::GlobalEnvironment& Global() const { return *global_environment_; }
  double Now() const { return global_environment_->GetSimulationTime().GetElapsedTime_s(); }
  void InitializeTargetObjects() override {
    for (unsigned i = 0; craft && i < simulation_configuration_.number_of_simulated_spacecraft_; i++) sc.push_back(std::make_unique<world::Sc>(&simulation_configuration_, global_environment_, (int)i));
    simulation_configuration_.main_logger_->AddLogList(&log);
  }
  void UpdateTargetObjects() override {
    for (auto& s : sc) s->Update(&global_environment_->GetSimulationTime());
    updated(*this);
  }
};
std::vector<double> RunState(const environment::GlobalEnvironment& g, const std::vector<std::unique_ptr<world::Sc>>& sc) {
  std::vector<double> x;
  auto add = [&](const math::Vector<3>& a) {
    for (size_t i = 0; i < 3; i++) x.push_back(a[i]);
  };
  auto& t = g.GetSimulationTime();
  x.push_back(t.GetElapsedTime_s()), x.push_back(t.GetCurrentTime_jd()), x.push_back(t.GetCurrentSiderealTime());
  for (const char* b : {"SUN", "MOON"}) add(g.GetCelestialInformation().GetPositionFromCenter_i_m(b));
  auto d = g.GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef();
  for (size_t i = 0; i < 3; i++)
    for (size_t j = 0; j < 3; j++) x.push_back(d[i][j]);
  for (auto& s : sc) {
    add(s->Dyn().GetOrbit().GetPosition_i_m()), add(s->Dyn().GetOrbit().GetVelocity_i_m_s()), add(s->Dyn().GetOrbit().GetPosition_ecef_m());
    add(s->Dyn().GetAttitude().GetAngularVelocity_b_rad_s());
    for (size_t i = 0; i < 4; i++) x.push_back(s->Dyn().GetAttitude().GetQuaternion_i2b()[i]);
    add(s->Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN")), add(s->Local().GetGeomagneticField().GetGeomagneticField_b_nT());
    add(s->Dist().GetTorque_b_Nm());
  }
  return x;
}
}  // namespace
GROUP(run) {
  auto& g = m.rng;
  for (long c = 0; c < m.n(24, 200); c++) {
    const int n = (int)g.i(1, 2);
    const bool craft = g.b(0.6);
    const double step = g.pick(std::vector<double>{0.1, 0.25, 0.5, 1, 2});
    const int steps = (int)g.i(3, 60), every = (int)g.i(1, 5), att = (int)g.i(1, 3), orb = (int)g.i(1, 3);
    world::Settings s(n);
    s.Times(step, step * steps, Start(g));
    s.B("TIME", "attitude_update_period_s", step * att), s.B("TIME", "orbit_update_period_s", step * orb), s.B("TIME", "log_output_period_s", step * every);
    s.B("TIME", "simulation_speed_setting", 0.0);
    s.B("RANDOMIZE", "rand_seed", 5.0);
    s.B("CELESTIAL_INFORMATION", "number_of_selected_body", 3.0);
    s.B("SIMULATION_SETTINGS", "log_file_save_directory", "logs/");
    world::fs::create_directories("logs");
    for (int i = 0; i < n; i++) {
      s.NoNoise(i);
      for (const char* x : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY"}) s.Dist(i, x, "calculation", "DISABLE");
    }
    m.begin("%d spacecraft (%s), %d steps of %.4g s, attitude every %d, orbit every %d, log every %d", n, craft ? "simulated" : "absent", steps, step, att, orb, every);
    m.distinctv({step, (double)steps, (double)every, (double)att, (double)orb, (double)n});
    std::vector<std::vector<double>> states, logged;
    {
      world::Quiet q;
      RunCase r(s.base, craft);
      long updates = 0;
      r.updated = [&](RunCase& x) {
        updates++;
        m.check(std::fabs(x.Now() - step * (double)updates) <= 1e-6 * step, "run_time", "update %ld of the targets is at %.9g s, the step is %.9g s", updates, x.Now(), step);
        states.push_back(RunState(x.Global(), x.sc));
        m.ev("target_updates");
      };
      r.log.act = [&] {
        if (craft) logged.push_back(RunState(r.Global(), r.sc));
        const double want = step * (double)updates;
        m.check(std::fabs(r.Now() - want) <= 1e-6 * step, "run_log", "a row of %.9g s has the state of %.9g s", r.Now(), want);
        m.ev("rows");
      };
      r.Initialize();
      r.Main();
      m.check(updates == steps || updates == steps + 1, "run_end", "%ld updates in %d steps", updates, steps);
    }
    if (!craft) continue;
    world::World w(s);
    std::vector<std::vector<double>> want;
    for (size_t k = 0; k < states.size(); k++) {
      w.Step();
      want.push_back(RunState(*w.global, w.sc));
      if (!m.check(states[k] == want.back(), "run_state", "the states of the update %zu are not those of spacecraft stepped by hand", k + 1)) break;
    }
    for (size_t k = 1; k < logged.size() && k * (size_t)every <= want.size(); k++)
      if (!m.check(logged[k] == want[k * (size_t)every - 1], "run_log", "row %zu has not the state of its time", k)) break;
  }
  m.require("target_updates", 300);
  m.require("rows", 100);
}
