// C36: the structure of a spacecraft as described by its file, and as changed while the simulation runs
#include "component.hpp"
//
#include <components/examples/example_change_structure.hpp>
#include <functional>
#include <simulation/spacecraft/structure/initialize_structure.hpp>
#include <simulation/spacecraft/structure/structure.hpp>

#include "civil.hpp"

namespace {
using namespace s2e;
using ref::v;

struct Face {
  V3 position, normal;
  double area, reflectivity, specularity, air;
};
struct Body {
  double mass;
  V3 cg;
  M3 inertia;
  V3 rmm;
  std::vector<Face> faces;
};
M3 Inertia(mon::Rng& g, L scale) {
  const L a = g.u(0.1, 1), b = g.u(0.1, 1), c = g.u(0.1, 1);
  M3 p;
  p[0][0] = (b + c) * scale, p[1][1] = (a + c) * scale, p[2][2] = (a + b) * scale;
  const M3 r = ref::rot(gen::dir(g), g.u(0, 6));
  M3 x = ref::T(r) * p * r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) x[i][j] = (L)(double)(i <= j ? x[i][j] : x[j][i]);
  return x;
}
V3 Rounded(V3 x) { return {(L)(double)x.x, (L)(double)x.y, (L)(double)x.z}; }
Face RandomFace(mon::Rng& g) {
  auto share = [&] { return g.b(0.15) ? 0.0 : g.b(0.15) ? 1.0 : g.u(0, 1); };
  Face f;
  f.position = Rounded((L)g.logu(0.05, 3) * gen::dir(g)), f.normal = Rounded(gen::dir(g));
  f.area = g.logu(1e-3, 20), f.reflectivity = share(), f.specularity = share(), f.air = share();
  return f;
}
Body RandomBody(mon::Rng& g, size_t faces) {
  Body b;
  b.mass = g.logu(1, 3000), b.cg = Rounded((L)g.logu(1e-3, 0.5) * gen::dir(g)), b.inertia = Inertia(g, (L)g.logu(0.1, 1000)), b.rmm = Rounded((L)g.logu(1e-3, 2) * gen::dir(g));
  for (size_t i = 0; i < faces; i++) b.faces.push_back(RandomFace(g));
  return b;
}
// The lines of a structure file, section by section and in any order
void WriteBody(mon::Rng& g, const std::string& file, const Body& b, const std::vector<L>& stretch = {}) {
  std::vector<std::vector<std::string>> section(3);
  auto vec = [&](size_t s, const std::string& key, V3 x) {
    for (int i = 0; i < 3; i++) section[s].push_back(mon::F("%s(%d) = %.17g", key.c_str(), i, (double)x[i]));
  };
  for (int i = 0; i < 9; i++) section[0].push_back(mon::F("inertia_tensor_kgm2(%d) = %.17g", i, (double)b.inertia[i / 3][i % 3]));
  section[0].push_back(mon::F("mass_kg = %.17g", b.mass));
  vec(0, "center_of_gravity_b_m", b.cg);
  section[1].push_back(mon::F("number_of_surfaces = %zu", b.faces.size()));
  for (size_t k = 0; k < b.faces.size(); k++) {
    const Face& f = b.faces[k];
    section[1].push_back(mon::F("area_%zu_m2 = %.17g", k, f.area)), section[1].push_back(mon::F("reflectivity_%zu = %.17g", k, f.reflectivity));
    section[1].push_back(mon::F("specularity_%zu = %.17g", k, f.specularity)), section[1].push_back(mon::F("air_specularity_%zu = %.17g", k, f.air));
    vec(1, mon::F("position_%zu_b_m", k), f.position), vec(1, mon::F("normal_vector_%zu_b", k), (k < stretch.size() ? stretch[k] : 1) * f.normal);
  }
  vec(2, "rmm_constant_b_Am2", b.rmm);
  for (const char* k : {"rmm_random_walk_speed_Am2", "rmm_random_walk_limit_Am2", "rmm_white_noise_standard_deviation_Am2"}) section[2].push_back(std::string(k) + " = 0");
  const char* name[] = {"KINEMATIC_PARAMETERS", "SURFACES", "RESIDUAL_MAGNETIC_MOMENT"};
  std::ofstream out(file);
  const size_t first = (size_t)g.i(0, 2);
  for (size_t i = 0; i < 3; i++) {
    auto& s = section[(first + i) % 3];
    for (size_t j = s.size() - 1; j > 0; j--) std::swap(s[j], s[(size_t)g.i(0, (long)j)]);
    out << "[" << name[(first + i) % 3] << "]\n";
    for (auto& l : s) out << l << "\n";
  }
}
void Same(mon::Mon& m, const spacecraft::Surface& s, const Face& f, size_t k, const char* key) {
  m.check(ref::norm(v(s.GetPosition_b_m()) - f.position) == 0, key, "surface %zu is at %s instead of %s", k, S3(s.GetPosition_b_m()).c_str(), S(f.position).c_str());
  m.check(ref::norm(v(s.GetNormal_b()) - ref::unit(f.normal)) <= 2e-6L, key, "surface %zu points to %s instead of %s", k, S3(s.GetNormal_b()).c_str(), S(f.normal).c_str());
  m.check(s.GetArea_m2() == f.area, key, "surface %zu has %.17g m2 instead of %.17g", k, s.GetArea_m2(), f.area);
  m.check(s.GetReflectivity() == f.reflectivity && s.GetSpecularity() == f.specularity && s.GetAirSpecularity() == f.air, key, "surface %zu has the optical properties %.17g %.17g %.17g instead of %.17g %.17g %.17g", k,
          s.GetReflectivity(), s.GetSpecularity(), s.GetAirSpecularity(), f.reflectivity, f.specularity, f.air);
}
void Same(mon::Mon& m, const spacecraft::KinematicsParameters& p, const Body& b, const char* key) {
  m.check(p.GetMass_kg() == b.mass, key, "mass %.17g instead of %.17g", p.GetMass_kg(), b.mass);
  m.check(ref::norm(v(p.GetCenterOfGravity_b_m()) - b.cg) == 0, key, "centre of gravity %s instead of %s", S3(p.GetCenterOfGravity_b_m()).c_str(), S(b.cg).c_str());
  for (size_t i = 0; i < 9; i++)
    m.check(p.GetInertiaTensor_b_kgm2()[i / 3][i % 3] == (double)b.inertia[(int)i / 3][(int)i % 3], key, "inertia element %zu is %.17g instead of %.17g", i, p.GetInertiaTensor_b_kgm2()[i / 3][i % 3],
            (double)b.inertia[(int)i / 3][(int)i % 3]);
}
}  // namespace

GROUP(from_file) {
  for (long c = 0; c < m.n(1500, 20000); c++) {
    auto& g = m.rng;
    const Body b = RandomBody(g, (size_t)(g.b(0.1) ? 0 : g.b(0.1) ? g.i(10, 25) : g.i(1, 8)));
    std::vector<L> stretch;  // normals of any length
    for (size_t k = 0; k < b.faces.size(); k++) stretch.push_back(g.b() ? 1 : (L)g.logu(0.01, 100));
    Body w = b;
    size_t good = b.faces.size();
    if (good && g.b(0.15)) {  // a surface that cannot be
      good = (size_t)g.i(0, (long)good - 1);
      Face& f = w.faces[good];
      const double bad = g.b() ? -g.logu(1e-3, 2) : 1 + g.logu(1e-3, 2);
      const long what = g.i(0, 3);
      if (what == 0) f.area = -g.logu(1e-3, 5);
      if (what == 1) f.reflectivity = bad;
      if (what == 2) f.specularity = bad;
      if (what == 3) f.air = bad;
    }
    WriteBody(g, "st.ini", w, stretch);
    m.begin("structure of %.17g kg with %zu surfaces, %zu of them good", b.mass, b.faces.size(), good);
    world::Quiet quiet;
    const auto kin = spacecraft::InitKinematicsParameters("st.ini");
    Same(m, kin, b, "file:kinematics");
    const auto rmm = spacecraft::InitResidualMagneticMoment("st.ini");
    m.check(ref::norm(v(rmm.GetConstantValue_b_Am2()) - b.rmm) == 0, "file:rmm", "residual magnetic moment %s instead of %s", S3(rmm.GetConstantValue_b_Am2()).c_str(), S(b.rmm).c_str());
    const auto faces = spacecraft::InitSurfaces("st.ini");
    if (good == b.faces.size()) {
      m.check(faces.size() == good, "file:number", "%zu surfaces instead of %zu", faces.size(), good);
    } else {
      m.check(faces.size() < b.faces.size(), "file:impossible", "an impossible surface is among the %zu surfaces", faces.size());
      m.ev("impossible surface");
    }
    for (size_t k = 0; k < std::min(faces.size(), good); k++) Same(m, faces[k], b.faces[k], k, "file:surface");
    m.ev("structures");
    m.distinctv({b.mass, (double)b.cg.x, (double)b.faces.size()});
  }
  m.require("structures", 500), m.require("impossible surface", 50);
}

// The setters keep what a body can be
GROUP(setters) {
  for (long c = 0; c < m.n(3000, 40000); c++) {
    auto& g = m.rng;
    Body b = RandomBody(g, 1);
    spacecraft::KinematicsParameters kin(tov(b.cg), b.mass, tom(b.inertia));
    Face& f = b.faces[0];
    spacecraft::Surface face(tov(f.position), tov(f.normal), f.area, f.reflectivity, f.specularity, f.air);
    spacecraft::ResidualMagneticMoment rmm(tov(b.rmm), 0.1, 0.2, 0.3);
    m.begin("a body of %.17g kg", b.mass);
    for (int i = 0; i < 30; i++) {
      auto share = [&] { return g.b(0.3) ? (g.b() ? -g.logu(1e-9, 2) : 1 + g.logu(1e-9, 2)) : g.b(0.1) ? 0.0 : g.b(0.1) ? 1.0 : g.u(0, 1); };
      const double x = g.b(0.3) ? (g.b(0.2) ? 0.0 : -g.logu(1e-6, 10)) : g.logu(1e-3, 1e3), s = share();
      const bool in = s >= 0 && s <= 1;
      V3 r = Rounded((L)g.logu(0.01, 10) * gen::dir(g));
      switch (g.i(0, 10)) {
        case 0:
          kin.SetMass_kg(x);
          if (x > 0) b.mass = x;
          break;
        case 1: {
          const double d = g.b(0.7) ? -b.mass * g.u(0, 1.3) : g.logu(1e-3, 10);
          kin.AddMass_kg(d);
          if (b.mass + d > 0) b.mass = b.mass + d;
          m.ev(b.mass + d > 0 ? "mass added" : "too much consumed");
          break;
        }
        case 2:
          kin.SetCenterOfGravityVector_b_m(tov(r)), b.cg = r;
          break;
        case 3:
          b.inertia = Inertia(g, 10), kin.SetInertiaTensor_b_kgm2(tom(b.inertia));
          break;
        case 4:
          face.SetPosition_b_m(tov(r)), f.position = r;
          break;
        case 5:
          face.SetNormal_b(tov(r)), f.normal = ref::unit(r);
          break;
        case 6:
          face.SetArea_m2(x);
          if (x > 0) f.area = x;
          break;
        case 7:
          face.SetReflectivity(s);
          if (in) f.reflectivity = s;
          break;
        case 8:
          face.SetSpecularity(s);
          if (in) f.specularity = s;
          break;
        case 9:
          face.SetAirSpecularity(s);
          if (in) f.air = s;
          break;
        default:
          if (g.b())
            rmm.SetRmmConstant_b_Am2(tov(r)), b.rmm = r;
          else
            rmm.AddRmmConstant_b_Am2(tov(r)), b.rmm = Rounded(b.rmm + r);
      }
      Same(m, kin, b, "set:kinematics");
      Same(m, face, f, 0, "set:surface");
      m.check(ref::norm(v(rmm.GetConstantValue_b_Am2()) - b.rmm) <= 1e-15L * ref::norm(b.rmm) + 1e-14L, "set:rmm", "residual magnetic moment %s instead of %s", S3(rmm.GetConstantValue_b_Am2()).c_str(), S(b.rmm).c_str());
      m.check(rmm.GetRandomWalkStandardDeviation_Am2() == 0.1 && rmm.GetRandomWalkLimit_Am2() == 0.2 && rmm.GetRandomNoiseStandardDeviation_Am2() == 0.3, "set:rmm_noise", "the noise of the magnetic moment changed");
      m.ev("settings");
    }
    m.distinctv({b.mass, f.area});
  }
  m.require("mass added", 200), m.require("too much consumed", 50);
}

// A spacecraft changed on the way moves on like one that was built so
namespace {
M3 Redistributed(mon::Rng& g, const M3& a) {
  const M3 r = ref::rot(gen::dir(g), g.u(0, 0.5));
  M3 x = ref::T(r) * a * r;
  const L s = g.u(0.7, 1.4);
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) x[i][j] = x[j][i] = (L)(double)(s * x[i][j]);
  return x;
}
struct State {
  V3 r, vel, w;
  std::array<double, 4> q;
};
State Now(world::Sc& sc) {
  State s;
  s.r = v(sc.Dyn().GetOrbit().GetPosition_i_m()), s.vel = v(sc.Dyn().GetOrbit().GetVelocity_i_m_s()), s.w = v(sc.Dyn().GetAttitude().GetAngularVelocity_b_rad_s());
  const auto q = sc.Dyn().GetAttitude().GetQuaternion_i2b();
  for (size_t i = 0; i < 4; i++) s.q[i] = q[i];
  return s;
}
}  // namespace
GROUP(changed) {
  for (long c = 0; c < m.n(60, 500); c++) {
    auto& g = m.rng;
    const int step = (int)g.i(1, 4), before = g.b(0.3) ? 0 : (int)g.i(1, 12), after = 25;
    const bool example = g.b(0.15);
    const size_t faces = example ? (size_t)g.i(1, 6) : (size_t)g.i(0, 8);
    Body one = RandomBody(g, faces);
    if (example) one.inertia = Inertia(g, 0.2L);
    Body two = one;
    const int64_t day = civil::days(g.i(2015, 2022), (int)g.i(1, 12), (int)g.i(1, 28)), sec = g.i(0, 86000);
    auto utc = [&](int64_t later) {
      int y, mo, d;
      const int64_t t = sec + later;
      civil::fromdays(day + t / 86400, y, mo, d);
      const int s = (int)(t % 86400);
      return mon::F("%04d/%02d/%02d %02d:%02d:%02d.0", y, mo, d, s / 3600, s / 60 % 60, s % 60);
    };
    const L a = 6378137.0L + g.u(2.2e5, 9e5);
    const V3 e1 = gen::dir(g), e2 = ref::unit(ref::cross_(e1, gen::dir(g) + V3{0.001L, 0.002L, 0.003L}));
    State start{a * e1, sqrtl(3.986004418e14L / a) * e2, V3{g.n() * 0.01, g.n() * 0.01, g.n() * 0.01}, gen::quat(g)};
    std::vector<std::string> on;
    for (const char* d : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT"})
      if (g.b(0.8)) on.push_back(d);
    auto settings = [&](const Body& b, const State& s, int64_t later) {
      world::Settings st(1);
      st.Times(step, 1e5, utc(later));
      st.NoNoise(0), st.NoDisturbance(0);
      for (auto& d : on) st.Dist(0, d, "calculation", "ENABLE");
      st.Orbit(0, s.r, s.vel), st.Attitude(0, s.q, s.w);
      WriteBody(g, st.Dir(0) + "/structure.ini", b);
      return st;
    };
    // the names of the objects of a simulation are taken while it lives
    auto changed = std::make_unique<world::World>(settings(one, start, 0));
    world::World& A = *changed;
    for (int k = 0; k < before; k++) A.Step();
    auto& st = A.sc[0]->Structure();
    bool inertia = false;
    std::string what;
    if (example) {
      // the example in the library does nothing up to its tick 1000, and sets what it documents later
      components::ExampleChangeStructure change(&A.sc[0]->Clock(), &st);
      change.MainRoutine((int)g.i(0, 1000));
      Same(m, st.GetKinematicsParameters(), one, "example:before");
      change.MainRoutine((int)g.i(1001, 5000));
      inertia = true, what = "as in the example";
      two.mass = 100, two.cg = {0.01, -0.01, 0.02}, two.rmm = {0.1, -0.1, 0.2}, two.faces[0].area = 0.5;
      for (int i = 0; i < 9; i++) two.inertia[i / 3][i % 3] = i % 4 ? 0 : 0.2;
      two.cg = Rounded({(L)0.01, (L)-0.01, (L)0.02}), two.rmm = Rounded({(L)0.1, (L)-0.1, (L)0.2});
      m.ev("example");
    } else {
      const Body other = RandomBody(g, faces);
      auto& kin = st.GetToSetKinematicsParameters();
      if (g.b()) two.mass = other.mass, kin.SetMass_kg(two.mass), what += " mass", m.ev("mass");
      if (g.b()) two.cg = other.cg, kin.SetCenterOfGravityVector_b_m(tov(two.cg)), what += " centre", m.ev("centre of gravity");
      if (g.b(0.3)) two.inertia = Redistributed(g, one.inertia), kin.SetInertiaTensor_b_kgm2(tom(two.inertia)), inertia = true, what += " inertia", m.ev("inertia");
      if (g.b()) two.rmm = other.rmm, st.GetToSetResidualMagneticMoment().SetRmmConstant_b_Am2(tov(two.rmm)), what += " magnetic moment", m.ev("magnetic moment");
      for (size_t k = 0; k < faces; k++) {
        auto& f = st.GetToSetSurfaces()[k];
        Face& t = two.faces[k];
        const Face& o = other.faces[k];
        if (g.b(0.3)) t.position = o.position, f.SetPosition_b_m(tov(t.position)), m.ev("position");
        if (g.b(0.3)) t.normal = o.normal, f.SetNormal_b(tov(t.normal)), m.ev("normal");
        if (g.b(0.3)) t.area = o.area, f.SetArea_m2(t.area), m.ev("area");
        if (g.b(0.3)) t.reflectivity = o.reflectivity, f.SetReflectivity(t.reflectivity), m.ev("reflectivity");
        if (g.b(0.3)) t.specularity = o.specularity, f.SetSpecularity(t.specularity), m.ev("specularity");
        if (g.b(0.3)) t.air = o.air, f.SetAirSpecularity(t.air), m.ev("air specularity");
      }
      if (faces && g.b(0.3)) st.GetToSetSurfaces().pop_back(), two.faces.pop_back(), what += " lost surface", m.ev("lost surface");
    }
    m.begin("spacecraft of %.6g kg, then %.6g kg, %zu surfaces, changed after %d steps of %d s:%s; %zu disturbances", one.mass, two.mass, faces, before, step, what.c_str(), on.size());
    m.distinctv({one.mass, two.mass, (double)faces, (double)start.r.x});
    Same(m, st.GetKinematicsParameters(), two, "changed:kinematics");
    m.check(st.GetSurfaces().size() == two.faces.size(), "changed:surfaces", "%zu surfaces instead of %zu", st.GetSurfaces().size(), two.faces.size());
    for (size_t k = 0; k < std::min(two.faces.size(), st.GetSurfaces().size()); k++) Same(m, st.GetSurfaces()[k], two.faces[k], k, "changed:surface");
    // the moment of the change of inertia itself is one of redistribution inside the spacecraft
    const int lag = inertia ? 1 : 0;
    for (int k = 0; k < lag; k++) A.Step();
    const State then = Now(*A.sc[0]);
    std::vector<State> way;
    std::vector<std::array<V3, 2>> load;
    auto loads = [](world::Sc& sc) { return std::array<V3, 2>{v(sc.Dist().GetForce_b_N()), v(sc.Dist().GetTorque_b_Nm())}; };
    for (int k = 1; k <= after; k++) A.Step(), way.push_back(Now(*A.sc[0])), load.push_back(loads(*A.sc[0]));
    changed.reset();
    world::World B(settings(two, then, (int64_t)(before + lag) * step));
    for (int k = 1; k <= after; k++) {
      B.Step();
      const State x = way[(size_t)k - 1], y = Now(*B.sc[0]);
      const auto [fa, ta] = load[(size_t)k - 1];
      const auto [fb, tb] = loads(*B.sc[0]);
      // single contributions may cancel in the sum
      L arm = ref::norm(two.cg) + 1e-3L, fs = 0, ts = 1e-6L * (ref::norm(two.rmm) * 6e-5L + ref::norm(two.inertia * V3{1, 1, 1}) * 4e-6L);
      for (auto& f : two.faces) fs += f.area * 1e-3L, arm = std::max(arm, ref::norm(f.position) + ref::norm(two.cg));
      fs *= 1e-6L;
      vclose(m, fa, fb, (double)(2e-5L * ref::norm(fb) + fs), "changed:force", mon::F("disturbance force in step %d", k).c_str());
      vclose(m, ta, tb, (double)(2e-5L * ref::norm(tb) + fs * arm + ts), "changed:torque", mon::F("disturbance torque in step %d", k).c_str());
      vclose(m, x.r, y.r, 1e-5, "changed:orbit", mon::F("position after %d steps", k).c_str());
      const L d = ref::rotdist(ref::rotq(toq(x.q)), ref::rotq(toq(y.q)));
      m.check(d < 1e-6L, "changed:attitude", "after %d steps %.3Lg rad off", k, d);
      m.check(ref::norm(x.w - y.w) < 1e-7L, "changed:rate", "after %d steps an angular velocity of %s instead of %s", k, S(x.w).c_str(), S(y.w).c_str());
      m.ev("steps");
    }
  }
  for (const char* k : {"mass", "centre of gravity", "inertia", "magnetic moment", "position", "normal", "area", "reflectivity", "specularity", "air specularity", "lost surface", "example"}) m.require(k, 2);
}
