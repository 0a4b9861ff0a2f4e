// C19: disturbance forces, torques and accelerations, and their totals
#include "world.hpp"
//
#include <disturbances/air_drag.hpp>
#include <disturbances/disturbances.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <environment/global/celestial_information.hpp>
#include <environment/local/local_environment.hpp>

using namespace s2e::disturbances;
using s2e::spacecraft::Surface;
using ref::v;

static const L kMu = 3.986004415e14L, kBoltzmann = 1.380649e-23L, kAvogadro = 6.02214076e23L;

struct Plate {
  V3 pos, n;
  L area, rho, spec, air;
};
struct FT {
  V3 f, t;
  L size_f = 0, size_t = 0;  // sums of the magnitudes
  bool grazing = false;      // a plate on the edge between facing and not
  L floor_ = 0;              // force of all plates face on
};
static void Add(FT& s, const V3& f, const V3& arm) {
  s.f = s.f + f;
  s.t = s.t + ref::cross_(arm, f);
  s.size_f += ref::norm(f);
  s.size_t += ref::norm(f) * ref::norm(arm);
}
// Flat plates in sunlight: absorbed, specularly and diffusely reflected photons
static FT Sunlight(const std::vector<Plate>& plates, const V3& cg, const V3& to_sun, L pressure) {
  FT r;
  const V3 s = ref::unit(to_sun);
  for (auto& p : plates) {
    const L c = ref::dot_(s, p.n);
    r.floor_ += pressure * p.area;
    if (c <= 0) continue;
    const L mirror = p.rho * p.spec, diffuse = p.rho * (1 - p.spec);
    const V3 f = -(pressure * p.area * c) * ((1 - mirror) * s + (2 * mirror * c + 2.0L / 3.0L * diffuse) * p.n);
    Add(r, f, p.pos - cg);
  }
  return r;
}
// Free molecular flow on flat plates: shares of specular and diffuse re-emission
static FT Air(const std::vector<Plate>& plates, const V3& cg, const V3& velocity, L density, L t_wall, L t_gas, L weight_g_mol) {
  FT r;
  const L speed = ref::norm(velocity);
  const L s = speed / sqrtl(2 * kBoltzmann * t_wall / (weight_g_mol * 1e-3L / kAvogadro));
  const V3 u = ref::unit(velocity);
  for (auto& p : plates) {
    const L c = ref::dot_(u, p.n);
    r.floor_ += density * speed * speed * p.area;
    if (fabsl(c) < 1e-12L) r.grazing = true;
    if (c <= 0) continue;
    const V3 across = u - c * p.n;  // length sin(theta)
    const L sn = s * c, gauss = expl(-sn * sn), flux = gauss + sqrtl(ref::kPi) * sn * (1 + erfl(sn));
    const L momentum = sn * gauss + sqrtl(ref::kPi) * (sn * sn + 0.5L) * (1 + erfl(sn));
    const L sigma = 1 - p.air;
    const L cn = (2 - sigma) / sqrtl(ref::kPi) * momentum / (s * s) + sigma / 2 * flux / (s * s) * sqrtl(t_wall / t_gas);
    const L ct = sigma * flux / (sqrtl(ref::kPi) * s);  // times sin(theta)
    const L k = 0.5L * density * speed * speed * p.area;
    Add(r, -(k * cn) * p.n - (k * ct) * across, p.pos - cg);
  }
  return r;
}
static V3 GravityTorque(const M3& inertia, const V3& body, L mu) {
  const V3 u = ref::unit(body);
  const L d = ref::norm(body);
  return (3 * mu / (d * d * d)) * ref::cross_(u, inertia * u);
}
static V3 Tidal(const V3& body_from_center, const V3& body_from_sc, L mu) {
  const L a = ref::norm(body_from_sc), b = ref::norm(body_from_center);
  return (mu / (a * a * a)) * body_from_sc - (mu / (b * b * b)) * body_from_center;
}

static V3 RandomNormal(mon::Rng& r, const V3& special) {
  switch (r.i(0, 5)) {
    case 0: return special;                                                  // facing the source
    case 1: return -special;                                                 // facing away
    case 2: return ref::unit(ref::cross_(special, gen::dir(r) + V3{1e-3L, 2e-3L, 3e-3L}));  // edge-on
    default: return gen::dir(r);
  }
}
static std::vector<Plate> RandomPlates(mon::Rng& r, const V3& special, int n) {
  std::vector<Plate> p;
  auto share = [&] { return r.b(0.2) ? 0.0 : r.b(0.2) ? 1.0 : r.u01(); };
  for (int i = 0; i < n; i++) p.push_back({(L)r.u(0, 3) * gen::dir(r), RandomNormal(r, special), r.logu(1e-3, 30), share(), share(), share()});
  return p;
}
static std::vector<Surface> Surfaces(std::vector<Plate>& plates, bool setters) {
  std::vector<Surface> s;
  for (auto& p : plates) {
    if (setters) {
      s.emplace_back(vec(0, 0, 0), vec(0, 0, 1), 1.0, 0.5, 0.5, 0.5);
      s.back().SetPosition_b_m(tov(p.pos));
      s.back().SetNormal_b(tov(2.5L * p.n));
      s.back().SetArea_m2((double)p.area);
      s.back().SetReflectivity((double)p.rho);
      s.back().SetSpecularity((double)p.spec);
      s.back().SetAirSpecularity((double)p.air);
    } else {
      s.emplace_back(tov(p.pos), tov(p.n), (double)p.area, (double)p.rho, (double)p.spec, (double)p.air);
    }
    p.n = v(s.back().GetNormal_b());  // as rounded
  }
  return s;
}
static void SameFT(mon::Mon& m, const V3& f, const V3& t, const FT& want, const char* key, const char* what) {
  if (want.grazing) return;
  vclose(m, f, want.f, (double)(1e-7L * want.size_f + 1e-13L * want.floor_) + 1e-30, key, mon::F("%s force", what).c_str());
  vclose(m, t, want.t, (double)(1e-7L * want.size_t + 1e-12L * want.floor_) + 1e-30, key, mon::F("%s torque", what).c_str());
}

static std::string Start(mon::Rng& r) {
  return mon::F("%d/%02d/%02d %02d:%02d:%06.3f", (int)r.i(2000, 2030), (int)r.i(1, 12), (int)r.i(1, 28), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9));
}
static void RandomOrbit(mon::Rng& r, V3& p, V3& vel) {
  const L a = 6378137.0L + r.logu(3e5, 3e7);
  const V3 e1 = gen::dir(r), e2 = ref::unit(ref::cross_(e1, gen::dir(r) + V3{0.001L, 0.002L, 0.003L}));
  p = a * e1;
  vel = sqrtl(kMu / a) * (L)r.u(0.99, 1.2) * e2;
}
// Settings of a world with everything deterministic and a known light atmosphere
static world::Settings Plain(mon::Rng& r, double step, int sats = 1) {
  world::Settings s(sats);
  s.Times(step, 1e6, Start(r));
  for (int i = 0; i < sats; i++) {
    V3 p, vel;
    RandomOrbit(r, p, vel);
    s.Orbit(i, p, vel);
    s.Attitude(i, gen::quat(r), V3{r.n() * 0.01, r.n() * 0.01, r.n() * 0.01});
    s.NoNoise(i);
    s.Local(i, "ATMOSPHERE", "model", "STANDARD");
    s.Struct(i, "RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_speed_Am2", "0");
    s.Struct(i, "RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_limit_Am2", "0");
    s.Struct(i, "RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", "0");
    s.NoDisturbance(i);
  }
  return s;
}

// Sunlight and air on sets of surfaces, from the state of the moment
GROUP(surface_forces) {
  const long worlds = m.n(6, 20), cases = m.n(250, 900);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, 1.0));
    auto& sc = *W.sc[0];
    // the same disturbances from step to step, through light and shadow
    std::vector<Plate> hull = RandomPlates(m.rng, gen::dir(m.rng), 6);
    const std::vector<Surface> hull_surfaces = Surfaces(hull, false);
    const auto hull_cg = tov((L)m.rng.u(0, 0.5) * gen::dir(m.rng));
    SolarRadiationPressureDisturbance hull_srp(hull_surfaces, hull_cg);
    AirDrag hull_drag(hull_surfaces, hull_cg, 300, 900, 18);
    for (long c = 0; c < cases; c++) {
      if (c % 10 == 0) W.Step();
      sc.Dyn().SetAttitude().SetQuaternion_i2b(toq(gen::quat(m.rng)));
      sc.Local().Update(&sc.Dyn(), &W.Time());
      const V3 sun = v(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN"));
      const L pressure = sc.Local().GetSolarRadiationPressure().GetPressure_N_m2();
      const auto q = sc.Dyn().GetAttitude().GetQuaternion_i2b();
      const M3 i2ecef = ref::m(sc.Local().GetCelestialInformation().GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      const M3 i2b = ref::rotq(q);
      const V3 air = i2b * (ref::T(i2ecef) * v(sc.Dyn().GetOrbit().GetVelocity_ecef_m_s()));
      const L density = sc.Local().GetAtmosphere().GetAirDensity_kg_m3();
      const bool drag = m.rng.b();
      m.begin("hull of %d surfaces, attitude %s", (int)hull.size(), S4(q).c_str());
      hull_srp.UpdateIfEnabled(sc.Local(), sc.Dyn());
      hull_drag.UpdateIfEnabled(sc.Local(), sc.Dyn());
      SameFT(m, v(hull_srp.GetForce_b_N()), v(hull_srp.GetTorque_b_Nm()), Sunlight(hull, v(hull_cg), sun, pressure), "srp:kept", "radiation pressure from update to update");
      SameFT(m, v(hull_drag.GetForce_b_N()), v(hull_drag.GetTorque_b_Nm()), Air(hull, v(hull_cg), air, density, 300, 900, 18), "air:kept", "air drag from update to update");
      const V3 source = drag ? air : sun;
      std::vector<Plate> plates = RandomPlates(m.rng, ref::unit(source), (int)m.rng.i(0, 8));
      std::vector<Surface> surfaces = Surfaces(plates, m.rng.b());
      auto cg = tov((L)m.rng.u(0, 0.5) * gen::dir(m.rng));
      m.begin("%s on %d surfaces, cg %s, source %s, attitude %s", drag ? "air drag" : "sunlight", (int)plates.size(), S3(cg).c_str(), S(source).c_str(), S4(q).c_str());
      FT want;
      V3 f, t, f_log;
      if (drag) {
        const double tw = m.rng.u(150, 500), tg = m.rng.u(150, 1500), mw = m.rng.u(1, 40);
        AirDrag d(surfaces, cg, tw, tg, mw);
        d.UpdateIfEnabled(sc.Local(), sc.Dyn());
        f = v(d.GetForce_b_N());
        t = v(d.GetTorque_b_Nm());
        want = Air(plates, v(cg), air, density, tw, tg, mw);
        // the air co-rotates with the Earth
        const V3 axis{i2ecef[2][0], i2ecef[2][1], i2ecef[2][2]};
        const V3 rel = v(sc.Dyn().GetOrbit().GetVelocity_i_m_s()) - ref::cross_(7.292115e-5L * axis, v(sc.Dyn().GetOrbit().GetPosition_i_m()));
        vclose(m, air, i2b * rel, 5e-3 * 7.3e-5 * (double)ref::norm(v(sc.Dyn().GetOrbit().GetPosition_i_m())) + 1e-4 * (double)ref::norm(rel), "air:corotation", "velocity relative to the air");
        if (density > 0 && want.size_f > 0) m.ev("drag");
        // never pushes along the motion
        m.check(ref::dot_(f, air) <= 1e-9L * ref::norm(air) * (want.size_f + 1e-6L * want.floor_), "air:opposes", "drag %s along the motion %s", S(f).c_str(), S(air).c_str());
        m.check(v(d.GetAcceleration_i_m_s2()).x == 0, "air:acceleration", "drag reports an acceleration on top of the force");
      } else {
        SolarRadiationPressureDisturbance d(surfaces, cg);
        d.UpdateIfEnabled(sc.Local(), sc.Dyn());
        f = v(d.GetForce_b_N());
        t = v(d.GetTorque_b_Nm());
        want = Sunlight(plates, v(cg), sun, pressure);
        if (pressure > 0 && want.size_f > 0) m.ev("sunlight");
        if (pressure == 0) m.ev("shadow");
        m.check(ref::dot_(f, sun) <= 1e-9L * ref::norm(sun) * (want.size_f + 1e-6L * want.floor_), "srp:opposes", "light pressure %s towards the Sun %s", S(f).c_str(), S(sun).c_str());
      }
      SameFT(m, f, t, want, drag ? "air:force" : "srp:force", drag ? "air drag" : "radiation pressure");
      m.distinctv({(double)f.x, (double)f.y, (double)f.z});
      // structure changes are followed, disabled ones give nothing
      if (c % 5 == 0 && !plates.empty()) {
        SolarRadiationPressureDisturbance d(surfaces, cg);
        d.UpdateIfEnabled(sc.Local(), sc.Dyn());
        cg = tov((L)m.rng.u(0, 2) * gen::dir(m.rng));
        for (size_t i = 0; i < plates.size(); i++) {
          plates[i].area = m.rng.u(0.1, 9);
          surfaces[i].SetArea_m2((double)plates[i].area);
          surfaces[i].SetArea_m2(-1);
          surfaces[i].SetReflectivity(1.5);
          surfaces[i].SetSpecularity(-0.5);
        }
        d.UpdateIfEnabled(sc.Local(), sc.Dyn());
        SameFT(m, v(d.GetForce_b_N()), v(d.GetTorque_b_Nm()), Sunlight(plates, v(cg), sun, pressure), "srp:changed-structure", "after a change of the structure");
        SolarRadiationPressureDisturbance off(surfaces, cg, false);
        off.UpdateIfEnabled(sc.Local(), sc.Dyn());
        m.check(ref::norm(v(off.GetForce_b_N())) == 0 && ref::norm(v(off.GetTorque_b_Nm())) == 0, "disabled", "disabled radiation pressure gives a force");
        AirDrag off2(surfaces, cg, 300, 300, 18, false);
        off2.UpdateIfEnabled(sc.Local(), sc.Dyn());
        m.check(ref::norm(v(off2.GetForce_b_N())) == 0 && ref::norm(v(off2.GetTorque_b_Nm())) == 0, "disabled", "disabled drag gives a force");
      }
    }
  }
  m.require("drag", 100);
  m.require("sunlight", 100);
}

GROUP(gravity_gradient) {
  const long worlds = m.n(8, 30), n = m.n(500, 4000);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, 1.0));
    auto& sc = *W.sc[0];
    for (long c = 0; c < n; c++) {
      if (c % 50 == 0) W.Step();
      const double mu = m.rng.b(0.3) ? 3.986004415e14 : m.rng.logu(1e12, 1e20);
      GravityGradient g(mu), standard, off(mu, false);
      M3 R = ref::rot(gen::dir(m.rng), m.rng.u(-3, 3)), diag;
      for (int i = 0; i < 3; i++) diag[i][i] = m.rng.logu(1e-2, 1e5);
      if (m.rng.b(0.2)) diag[1][1] = diag[0][0];
      const M3 I = m.rng.b(0.2) ? diag : R * diag * ref::T(R);
      const auto Id = tom(I);
      sc.Structure().GetToSetKinematicsParameters().SetInertiaTensor_b_kgm2(Id);
      sc.Dyn().SetAttitude().SetQuaternion_i2b(toq(gen::quat(m.rng)));
      sc.Local().Update(&sc.Dyn(), &W.Time());
      const V3 body = v(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m("EARTH"));
      m.begin("gravity gradient, body at %s, mu %g, inertia %s %s %s", S(body).c_str(), mu, S(I * V3{1,0,0}).c_str(), S(I * V3{0,1,0}).c_str(), S(I * V3{0,0,1}).c_str());
      g.UpdateIfEnabled(sc.Local(), sc.Dyn());
      standard.UpdateIfEnabled(sc.Local(), sc.Dyn());
      off.UpdateIfEnabled(sc.Local(), sc.Dyn());
      const V3 t = v(g.GetTorque_b_Nm());
      L size = 0;
      for (int i = 0; i < 3; i++) size += fabsl(diag[i][i]);
      const L unit_ = 3 * (L)mu / powl(ref::norm(body), 3) * size;
      vclose(m, t, GravityTorque(ref::m(Id), body, mu), (double)(1e-12L * unit_), "gravity-gradient", "gravity gradient torque");
      m.check(fabsl(ref::dot_(t, ref::unit(body))) <= 1e-12L * unit_, "gravity-gradient:vertical", "torque about the vertical");
      vclose(m, v(standard.GetTorque_b_Nm()), GravityTorque(ref::m(Id), body, 3.986004418e14L), (double)(1e-6L * unit_ / mu * 4e14L), "gravity-gradient:default",
             "gravity gradient torque of the Earth");
      m.check(ref::norm(v(off.GetTorque_b_Nm())) == 0 && ref::norm(v(g.GetForce_b_N())) == 0 && ref::norm(v(g.GetAcceleration_i_m_s2())) == 0, "disabled",
              "a disabled gravity gradient gives a torque, or an enabled one a force");
      m.ev("torques");
      m.distinctv({(double)t.x, (double)t.y});
    }
  }
  m.require("torques", 1000);
}

// Residual magnetic moment: the constant, the bounded random walk and the white noise of its own spacecraft
static std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> o;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) o.push_back(t);
  return o;
}
GROUP(residual_magnetism) {
  const long rounds = m.n(3, 12), draws = m.n(3000, 20000);
  for (long w = 0; w < rounds; w++) {
    world::World W(Plain(m.rng, 1.0));
    auto& sc = *W.sc[0];
    struct Part {
      std::unique_ptr<s2e::spacecraft::ResidualMagneticMoment> rmm;
      std::unique_ptr<MagneticDisturbance> d;
      double walk, limit, white;
      V3 constant;
      V3 sum, sq;
      L cross = 0;
      long n = 0;
      V3 last, steps_sq, steps_cross;
      long steps = -1;
    };
    std::vector<Part> parts(4);
    for (int k = 0; k < 4; k++) {
      Part& p = parts[(size_t)k];
      p.constant = (L)m.rng.logu(1e-3, 10) * gen::dir(m.rng);
      p.white = k == 1 || k == 3 ? m.rng.logu(1e-6, 1e-1) : 0;
      p.walk = k == 2 || k == 3 ? m.rng.logu(1e-6, 1e-1) : 0;
      p.limit = p.walk > 0 ? p.walk * m.rng.u(0.5, 20) : 0;
    }
    for (size_t i = 3; i > 0; i--) std::swap(parts[i], parts[(size_t)m.rng.i(0, (int64_t)i)]);
    for (auto& p : parts) {
      p.rmm = std::make_unique<s2e::spacecraft::ResidualMagneticMoment>(tov(p.constant), p.walk, p.limit, p.white);
      p.constant = v(p.rmm->GetConstantValue_b_Am2());
      p.d = std::make_unique<MagneticDisturbance>(*p.rmm);
    }
    m.begin("four residual moments, white noise %g %g %g %g, walk %g %g %g %g", parts[0].white, parts[1].white, parts[2].white, parts[3].white, parts[0].walk, parts[1].walk,
            parts[2].walk, parts[3].walk);
    const int half = (int)(draws / 2);
    for (long i = 0; i < draws; i++) {
      if (i % 50 == 0) {
        sc.Dyn().SetAttitude().SetQuaternion_i2b(toq(gen::quat(m.rng)));
        W.global->Update();
        sc.Local().Update(&sc.Dyn(), &W.Time());
      }
      const V3 b = 1e-9L * v(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT());
      for (auto& p : parts) {
        if (i == half) {
          p.rmm->AddRmmConstant_b_Am2(vec(0.5, -0.25, 0.125));
          p.constant = p.constant + V3{0.5L, -0.25L, 0.125L};
        }
        p.d->UpdateIfEnabled(sc.Local(), sc.Dyn());
        // the log gives the moment
        auto cell = Split(p.d->GetLogValue());
        if (!m.check(cell.size() >= 6, "rmm:log", "log has %d values", (int)cell.size())) return;
        V3 mom;
        for (int k = 0; k < 3; k++) mom[k] = strtold(cell[(size_t)k].c_str(), nullptr);
        const V3 t = v(p.d->GetTorque_b_Nm());
        const L round = 2e-5L;  // digits of the log
        vclose(m, t, ref::cross_(mom, b), (double)(round * ref::norm(b) * (ref::norm(mom) + 1e-300L)) + 1e-30, "rmm:torque", "magnetic torque");
        if (p.walk == 0 && p.white == 0) {
          vclose(m, t, ref::cross_(p.constant, b), (double)(1e-12L * ref::norm(b) * ref::norm(p.constant)), "rmm:exact", "torque of a constant moment");
          m.ev("constant");
        } else {
          for (int k = 0; k < 3; k++) {
            const L dev = fabsl(mom[k] - p.constant[k]);
            m.check(dev <= p.limit * (p.walk > 0 ? 1 : 0) + p.walk * 7 + 7 * p.white + 1e-5L * ref::norm(mom), "rmm:bound", "moment deviates by %g with white noise %g, walk %g limited to %g",
                    (double)dev, p.white, p.walk, p.limit);
          }
          m.ev("noisy");
        }
        const V3 d = mom - p.constant;
        if (p.walk > 1e-3L * ref::norm(p.constant) && p.white == 0) {
          if (p.steps >= 0 && i != half) {
            const V3 x = d - p.last;
            for (int k = 0; k < 3; k++) p.steps_sq[k] += x[k] * x[k], p.steps_cross[k] += x[k] * x[(k + 1) % 3];
          }
          p.last = d, p.steps++;
        }
        if (p.white > 0 && p.walk == 0 && p.white > 1e-3L * ref::norm(p.constant)) {
          p.n++;
          for (int k = 0; k < 3; k++) {
            p.sum[k] += d[k];
            p.sq[k] += d[k] * d[k];
          }
          p.cross += d[0] * d[1];
        }
      }
    }
    for (auto& p : parts)
      if (p.steps > 1000)
        for (int k = 0; k < 3; k++) {
          const double r = (double)(p.steps_cross[k] / sqrtl(p.steps_sq[k] * p.steps_sq[(k + 1) % 3]));
          m.check(fabs(r) < 0.3, "rmm:walk-axes", "the random walks of the axes move together, correlation %g over %ld updates", r, p.steps);
          m.ev("walks");
        }
    for (auto& p : parts)
      if (p.n > 1000)
        for (int k = 0; k < 3; k++) {
          const double sd = (double)sqrtl(p.sq[k] / p.n), mean = (double)(p.sum[k] / p.n);
          m.check(fabs(mean) <= 6 * p.white / sqrt((double)p.n), "rmm:mean", "white noise of standard deviation %g has mean %g over %ld", p.white, mean, p.n);
          m.check(fabs(sd / p.white - 1) <= 6 / sqrt(2.0 * (double)p.n) + 0.01, "rmm:deviation", "white noise of standard deviation %g observed as %g", p.white, sd);
          m.check(fabs((double)p.cross / (double)p.n) <= 7 * p.white * p.white / sqrt((double)p.n), "rmm:axes", "white noise of the axes is correlated");
          m.ev("statistics");
        }
    MagneticDisturbance off(*parts[0].rmm, false);
    off.UpdateIfEnabled(sc.Local(), sc.Dyn());
    m.check(ref::norm(v(off.GetTorque_b_Nm())) == 0, "disabled", "disabled magnetic disturbance gives a torque");
  }
  m.require("constant", 1000);
  m.require("noisy", 1000);
}

GROUP(third_bodies) {
  const long worlds = m.n(8, 30);
  for (long w = 0; w < worlds; w++) {
    const bool moon = m.rng.b(0.3);
    const std::string center = moon ? "MOON" : "EARTH";
    world::Settings s = Plain(m.rng, 3600.0);
    std::vector<std::string> names = {"EARTH", "SUN", "MOON", "VENUS", "MERCURY", "MARS", "JUPITER"};
    for (size_t i = names.size() - 1; i > 0; i--) std::swap(names[i], names[(size_t)m.rng.i(0, (int64_t)i)]);
    s.B("CELESTIAL_INFORMATION", "center_object", center);
    s.B("CELESTIAL_INFORMATION", "number_of_selected_body", (double)names.size());
    for (size_t i = 0; i < names.size(); i++) s.B("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", names[i]);
    if (moon) s.Orbit(0, V3{2.2e6L, 1e5L, 3e5L}, V3{0, 1400, 300});
    std::set<std::string> used;
    for (auto& n : names)
      if (n != center && m.rng.b(0.6)) used.insert(n);
    world::World W(s);
    auto& sc = *W.sc[0];
    ThirdBodyGravity g(used), off(used, false);
    std::string list;
    for (auto& n : used) list += n + " ";
    for (int k = 0; k < (int)m.n(20, 60); k++) {
      W.global->Update();
      sc.Local().Update(&sc.Dyn(), &W.Time());
      m.begin("third bodies %s around the %s, step %d", list.c_str(), center.c_str(), k);
      g.UpdateIfEnabled(sc.Local(), sc.Dyn());
      off.UpdateIfEnabled(sc.Local(), sc.Dyn());
      const V3 p = v(sc.Dyn().GetOrbit().GetPosition_i_m());
      V3 want;
      L size = 0;
      const auto& info = W.global->GetCelestialInformation();
      for (auto& n : used) {
        const V3 b = v(info.GetPositionFromCenter_i_m(n.c_str()));
        const L mu = info.GetGravityConstant_m3_s2(n.c_str());
        const V3 a = Tidal(b, b - p, mu);
        want = want + a;
        size += mu / ref::dot_(b, b);
      }
      vclose(m, v(g.GetAcceleration_i_m_s2()), want, (double)(1e-11L * size) + 1e-30, "third-body", "third body acceleration");
      m.check(ref::norm(v(off.GetAcceleration_i_m_s2())) == 0, "disabled", "disabled third bodies accelerate");
      m.check(ref::norm(v(g.GetForce_b_N())) == 0 && ref::norm(v(g.GetTorque_b_Nm())) == 0, "third-body:force", "third bodies also give a force");
      m.ev("accelerations");
      m.distinctv({(double)want.x, (double)want.y, (double)want.z});
    }
  }
  m.require("accelerations", 100);
}

// The totals of all enabled disturbances, the multi-rate schedule and what reaches the dynamics
GROUP(totals) {
  const long worlds = m.n(24, 90);
  for (long w = 0; w < worlds; w++) {
    const double step = m.rng.b() ? 1.0 : 0.25;
    world::Settings s = Plain(m.rng, step);
    const int orbit_every = m.rng.b(0.5) ? 1 : (int)m.rng.i(2, 4);
    s.B("TIME", "orbit_update_period_s", step * orbit_every);
    std::map<std::string, bool> on;
    for (const char* n : {"GEOPOTENTIAL", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"}) {
      on[n] = m.rng.b(0.6);
      s.Dist(0, n, "calculation", on[n] ? "ENABLE" : "DISABLE");
    }
    // low orbit, so that the air is felt
    const L a = 6378137.0L + m.rng.u(2e5, 6e5);
    const V3 e1 = gen::dir(m.rng), e2 = ref::unit(ref::cross_(e1, gen::dir(m.rng) + V3{0.001L, 0.002L, 0.003L}));
    s.Orbit(0, a * e1, sqrtl(kMu / a) * e2);
    const L c20 = -4.84e-4L;
    {
      FILE* f = fopen("egm.txt", "w");
      for (int i = 2; i <= 2; i++)
        for (int j = 0; j <= i; j++) fprintf(f, "%4d%4d%25.15E%25.15E%15.8E%15.8E\n", i, j, i == 2 && j == 0 ? (double)c20 : 0.0, 0.0, 1e-10, 2e-10);
      fclose(f);
    }
    s.Dist(0, "GEOPOTENTIAL", "coefficients_file_path", "egm.txt");
    s.Dist(0, "GEOPOTENTIAL", "degree", "2");
    const std::vector<std::string> third = {"SUN", "MOON", "MARS"};
    const int n_third = (int)m.rng.i(0, 3);
    s.Dist(0, "THIRD_BODY_GRAVITY", "number_of_third_body", std::to_string(n_third));
    s.B("CELESTIAL_INFORMATION", "number_of_selected_body", 4.0);
    for (int i = 0; i < 3; i++) {
      s.Dist(0, "THIRD_BODY_GRAVITY", "third_body_name(" + std::to_string(i) + ")", third[(size_t)i]);
      s.B("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", third[(size_t)i]);
    }
    s.B("CELESTIAL_INFORMATION", "selected_body_name(3)", "EARTH");
    const double tw = m.rng.u(-50, 100), tg = m.rng.u(0, 900), mw = m.rng.u(4, 30);
    s.Dist(0, "AIR_DRAG", "wall_temperature_degC", world::D(tw));
    s.Dist(0, "AIR_DRAG", "molecular_temperature_degC", world::D(tg));
    s.Dist(0, "AIR_DRAG", "molecular_weight_g_mol", world::D(mw));
    // structure
    std::vector<Plate> plates = RandomPlates(m.rng, gen::dir(m.rng), (int)m.rng.i(1, 7));
    const std::string file = s.Dir(0) + "/structure.ini";
    s.Struct(0, "SURFACES", "number_of_surfaces", std::to_string(plates.size()));
    for (size_t i = 0; i < plates.size(); i++) {
      const std::string k = "_" + std::to_string(i);
      Plate& p = plates[i];
      for (int j = 0; j < 3; j++) p.pos[j] = (double)p.pos[j];
      world::Set(file, "SURFACES", "area" + k + "_m2", (double)p.area);
      world::Set(file, "SURFACES", "reflectivity" + k, (double)p.rho);
      world::Set(file, "SURFACES", "specularity" + k, (double)p.spec);
      world::Set(file, "SURFACES", "air_specularity" + k, (double)p.air);
      world::SetV(file, "SURFACES", "position" + k + "_b_m", p.pos, 3);
      world::SetV(file, "SURFACES", "normal_vector" + k + "_b", (L)m.rng.pick(std::vector<double>{1.0, 1.0, 3.0, 0.5, 1e-2}) * p.n, 3);
    }
    const double mass = m.rng.logu(1, 1000);
    const V3 cg = v(tov((L)m.rng.u(0, 0.4) * gen::dir(m.rng)));
    M3 I, R = ref::rot(gen::dir(m.rng), m.rng.u(-3, 3));
    {
      const L x = m.rng.u(1, 2), y = m.rng.u(1, 2), z = m.rng.u(std::fabs((double)(x - y)) + 0.2, (double)(x + y) - 0.2);
      M3 d;
      const L scale = m.rng.logu(0.1, 100);
      d[0][0] = x * scale;
      d[1][1] = y * scale;
      d[2][2] = z * scale;
      I = R * d * ref::T(R);
      for (int i = 0; i < 3; i++)
        for (int j = 0; j <= i; j++) I[i][j] = I[j][i] = (double)I[i][j];
    }
    std::vector<double> flat;
    for (int i = 0; i < 9; i++) flat.push_back((double)I[i / 3][i % 3]);
    world::SetV(file, "KINEMATIC_PARAMETERS", "inertia_tensor_kgm2", flat, 9);
    world::SetV(file, "KINEMATIC_PARAMETERS", "center_of_gravity_b_m", cg, 3);
    world::Set(file, "KINEMATIC_PARAMETERS", "mass_kg", mass);
    const V3 moment = v(tov((L)m.rng.logu(1e-2, 10) * gen::dir(m.rng)));
    world::SetV(file, "RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", moment, 3);
    world::World W(s);
    auto& sc = *W.sc[0];
    std::string enabled;
    for (auto& e : on)
      if (e.second) enabled += e.first + " ";
    const bool whole = m.rng.b();  // let the spacecraft do the step, or observe its parts
    V3 held_acc;
    L held_acc_size = 0;
    bool had = false;
    for (int k = 0; k < (int)m.n(12, 40); k++) {
      m.begin("totals of %s, step %d of %g s, orbit every %d, %d third bodies, mass %g", enabled.c_str(), k, step, orbit_every, n_third, mass);
      W.global->Update();
      const V3 p = v(sc.Dyn().GetOrbit().GetPosition_i_m()), vel = v(sc.Dyn().GetOrbit().GetVelocity_i_m_s());
      const V3 v_ecef = v(sc.Dyn().GetOrbit().GetVelocity_ecef_m_s()), p_ecef = v(sc.Dyn().GetOrbit().GetPosition_ecef_m());
      const M3 i2b = ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b());
      const V3 h_before = ref::T(i2b) * (I * v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()));
      const bool orbit_now = W.Time().GetOrbitPropagateFlag();
      if (whole) {
        sc.Update(&W.Time());
      } else {
        sc.Local().Update(&sc.Dyn(), &W.Time());
        sc.Dist().Update(sc.Local(), sc.Dyn(), &W.Time());
      }
      const auto& local = sc.Local();
      const M3 i2ecef = ref::m(local.GetCelestialInformation().GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      FT force;
      V3 torque, acc;
      L size_t = 0, acc_size = 0;
      const V3 sun = i2b * (v(W.global->GetCelestialInformation().GetPositionFromCenter_i_m("SUN")) - p);
      if (on["SOLAR_RADIATION_PRESSURE_DISTURBANCE"]) {
        FT x = Sunlight(plates, cg, sun, local.GetSolarRadiationPressure().GetPressure_N_m2());
        force.f = force.f + x.f;
        force.t = force.t + x.t;
        force.size_f += x.size_f;
        force.size_t += x.size_t;
      }
      if (on["AIR_DRAG"]) {
        FT x = Air(plates, cg, i2b * (ref::T(i2ecef) * v_ecef), local.GetAtmosphere().GetAirDensity_kg_m3(), tw + 273.0L, tg + 273.0L, mw);
        force.f = force.f + x.f;
        force.t = force.t + x.t;
        force.size_f += x.size_f;
        force.size_t += x.size_t;
      }
      torque = force.t;
      size_t = force.size_t;
      if (on["GRAVITY_GRADIENT"]) {
        torque = torque + GravityTorque(I, i2b * -p, kMu);
        size_t += 3 * kMu / powl(ref::norm(p), 3) * (I[0][0] + I[1][1] + I[2][2]);
      }
      if (on["MAGNETIC_DISTURBANCE"]) {
        const V3 b = 1e-9L * v(local.GetGeomagneticField().GetGeomagneticField_b_nT());
        torque = torque + ref::cross_(moment, b);
        size_t += ref::norm(moment) * ref::norm(b);
      }
      if (on["GEOPOTENTIAL"]) {
        const L R0 = 6378136.3L, J2 = -c20 * sqrtl(5.0L), r = ref::norm(p_ecef), z2 = p_ecef.z * p_ecef.z / (r * r);
        const L c = -1.5L * J2 * kMu * R0 * R0 / powl(r, 5);
        const V3 aa{c * p_ecef.x * (1 - 5 * z2), c * p_ecef.y * (1 - 5 * z2), c * p_ecef.z * (3 - 5 * z2)};
        acc = acc + ref::T(i2ecef) * aa;
        acc_size += 100 * ref::norm(aa);
      }
      if (on["THIRD_BODY_GRAVITY"])
        for (int i = 0; i < n_third; i++) {
          const auto& info = W.global->GetCelestialInformation();
          const V3 b = v(info.GetPositionFromCenter_i_m(third[(unsigned)i].c_str()));
          const L mu = info.GetGravityConstant_m3_s2(third[(unsigned)i].c_str());
          acc = acc + Tidal(b, b - p, mu);
          acc_size += 1e-4L * mu / ref::dot_(b, b);
        }
      // accelerations depend on the position only: they are renewed with the orbit and kept in between
      if (orbit_now || !had) {
        held_acc = acc;
        held_acc_size = acc_size;
        had = orbit_now;
      }
      auto& d = sc.Dist();
      vclose(m, v(d.GetForce_b_N()), force.f, (double)(1e-7L * force.size_f) + 1e-30, "total:force", "total force");
      vclose(m, v(d.GetTorque_b_Nm()), torque, (double)(1e-7L * size_t) + 1e-30, "total:torque", "total torque");
      if (orbit_now) {
        vclose(m, v(d.GetAcceleration_i_m_s2()), held_acc, (double)(1e-7L * held_acc_size) + 1e-30, "total:acceleration", "total acceleration");
        m.ev("renewed");
      } else if (had) {
        vclose(m, v(d.GetAcceleration_i_m_s2()), held_acc, (double)(1e-7L * held_acc_size) + 1e-30, "total:held", "total acceleration between orbit updates");
        m.ev("held");
      }
      // what reached the dynamics
      if (whole && orbit_now && orbit_every == 1) {
        const V3 total = acc + (1 / (L)mass) * (ref::T(i2b) * force.f);
        V3 x = p, u = vel;  // the same motion by small steps
        const int sub = 40;
        const L h = (L)step / sub;
        const L mu = W.global->GetCelestialInformation().GetCenterBodyGravityConstant_m3_s2();
        auto f = [&](const V3& q) { return -(mu / powl(ref::norm(q), 3)) * q + total; };
        for (int i = 0; i < sub; i++) {
          const V3 k1 = f(x), x2 = x + (h / 2) * u, k2 = f(x2), u2 = u + (h / 2) * k1, x3 = x + (h / 2) * u2, k3 = f(x3), u3 = u + (h / 2) * k2, x4 = x + h * u3, k4 = f(x4), u4 = u + h * k3;
          x = x + (h / 6) * (u + 2.0L * u2 + 2.0L * u3 + u4);
          u = u + (h / 6) * (k1 + 2.0L * k2 + 2.0L * k3 + k4);
        }
        const double resolution = 8e3 * 1e-15 * 100;  // of the velocity
        vclose(m, v(sc.Dyn().GetOrbit().GetVelocity_i_m_s()), u, resolution + 1e-4 * step * (double)ref::norm(total), "applied:orbit", "velocity after the step");
        if (ref::norm(total) * step > 1e3 * resolution) m.ev("felt by the orbit");
      }
      if (whole) {
        const M3 now = ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b());
        const V3 h = ref::T(now) * (I * v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()));
        const V3 dh = h - h_before, want = (L)step * (ref::T(i2b) * torque);
        const L rate = ref::norm(v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s()));
        const L own = 1e-11L * ref::norm(h) + ref::norm(h) * powl(4 * rate * step, 5);
        vclose(m, dh, want, (double)(own + ref::norm(want) * (2 * rate * step + 1e-3L) + ref::norm(want) * ref::norm(want) * step / (ref::norm(h) + 1e-30L)), "applied:attitude",
               "angular momentum gained in the step");
        if (ref::norm(want) > 1e2L * own) m.ev("felt by the attitude");
      }
      m.ev("steps");
      m.distinctv({(double)torque.x, (double)acc.x, (double)force.f.x});
    }
  }
  m.require("steps", 100);
  m.require("renewed", 50);
}

// Several spacecraft in one simulation: each feels the disturbances of its own structure
GROUP(several_spacecraft) {
  for (long w = 0; w < m.n(3, 12); w++) {
    world::Settings s = Plain(m.rng, 1.0, 3);
    std::vector<V3> moment(3);
    std::vector<double> white(3);
    for (int i = 0; i < 3; i++) {
      s.Dist(i, "MAGNETIC_DISTURBANCE", "calculation", "ENABLE");
      moment[(size_t)i] = v(tov((L)m.rng.u(0.1, 1) * gen::dir(m.rng)));
      white[(size_t)i] = i == w % 3 ? 0.05 : 0;
      world::SetV(s.Dir(i) + "/structure.ini", "RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", moment[(size_t)i], 3);
      s.Struct(i, "RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", world::D(white[(size_t)i]));
    }
    world::World W(s);
    long noisy = 0;
    for (int k = 0; k < 20; k++) {
      m.begin("three spacecraft, noise only on %ld, step %d", w % 3, k);
      W.global->Update();
      for (int i = 0; i < 3; i++) {
        auto& sc = *W.sc[(size_t)i];
        sc.Local().Update(&sc.Dyn(), &W.Time());
        sc.Dist().Update(sc.Local(), sc.Dyn(), &W.Time());
        const V3 b = 1e-9L * v(sc.Local().GetGeomagneticField().GetGeomagneticField_b_nT());
        const V3 t = v(sc.Dist().GetTorque_b_Nm()), want = ref::cross_(moment[(size_t)i], b);
        if (white[(size_t)i] == 0)
          vclose(m, t, want, (double)(1e-10L * ref::norm(moment[(size_t)i]) * ref::norm(b)), "several:own-moment", "torque of a noise-free spacecraft");
        else if (ref::norm(t - want) > 1e-6L * ref::norm(b))
          noisy++;
        m.ev("torques");
      }
      for (auto& sc : W.sc) sc->Dyn().Update(&W.Time(), &sc->Local().GetCelestialInformation());
    }
    m.check(noisy >= 15, "several:noise", "a noisy moment was constant in all but %ld of 20 steps", noisy);
  }
  m.require("torques", 100);
}
