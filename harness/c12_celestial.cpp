// C12: celestial bodies, Earth and Moon rotation, celestial bodies seen from the spacecraft
#include "world.hpp"
//
#include <SpiceUsr.h>

#include <environment/global/celestial_information.hpp>
#include <environment/global/earth_rotation.hpp>
#include <environment/global/moon_rotation.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <environment/local/local_environment.hpp>
#include <math_physics/planet_rotation/moon_rotation_utilities.hpp>

using namespace s2e::environment;
using ref::M3;
using ref::v;
static const L kSec = ref::kPi / 180 / 3600;

// ---- independent model of the Earth rotation
static L Gmst(L jd) {  // IAU 1982
  L t = (jd - 2451545.0L) / 36525;
  L s = 67310.54841L + (876600.0L * 3600 + 8640184.812866L) * t + 0.093104L * t * t - 6.2e-6L * t * t * t;
  return ref::wrap(fmodl(s, 86400) / 86400 * ref::kTau);
}
static M3 Full(L jd) {
  const L t = (jd + 32.184L / 86400 - 2451545.0L) / 36525;
  auto poly = [&](std::initializer_list<L> c, L x0) {
    L r = x0, p = t;
    for (L k : c) r += k * kSec * p, p *= t;
    return r;
  };
  const L deg = ref::kPi / 180;
  const L l = poly({1717915923.2178L, 31.8792L, 0.051635L, -0.00024470L}, 134.96340251L * deg);
  const L lp = poly({129596581.0481L, -0.5532L, 0.000136L, -0.00001149L}, 357.52910918L * deg);
  const L f = poly({1739527262.8478L, -12.7512L, -0.001037L, 0.00000417L}, 93.27209062L * deg);
  const L d = poly({1602961601.2090L, -6.3706L, 0.006593L, -0.00003169L}, 297.85019547L * deg);
  const L om = poly({-6962890.5431L, 7.4722L, 0.007702L, -0.00005939L}, 125.04455501L * deg);
  const L eps = poly({-46.8150L, -0.00059L, 0.001813L}, 23.4392911L * deg);
  // largest terms of the nutation series: multiples of l, l', F, D, Om; longitude and obliquity in arc seconds
  struct Term {
    int a[5];
    L psi, e;
  };
  static const Term terms[] = {{{0, 0, 0, 0, 1}, -17.206L, 9.205L}, {{0, 0, 2, -2, 2}, -1.317L, 0.573L}, {{0, 0, 0, 0, 2}, 0.207L, -0.090L},
                               {{0, 0, 2, 0, 2}, -0.228L, 0.098L},  {{0, 1, 0, 0, 0}, 0.148L, 0.007L},    {{1, 0, 0, 0, 0}, 0.071L, -0.001L},
                               {{0, 1, 2, -2, 2}, -0.052L, 0.022L}, {{1, 0, 2, 0, 2}, -0.030L, 0.013L},   {{0, -1, 2, -2, 2}, 0.022L, -0.010L}};
  L dpsi = 0, deps = 0;
  for (auto& k : terms) {
    L arg = k.a[0] * l + k.a[1] * lp + k.a[2] * f + k.a[3] * d + k.a[4] * om;
    dpsi += k.psi * kSec * sinl(arg);
    deps += k.e * kSec * cosl(arg);
  }
  const L zeta = poly({2306.2181L, 0.30188L, 0.017998L}, 0), theta = poly({2004.3109L, -0.42665L, -0.041833L}, 0), z = poly({2306.2181L, 1.09468L, 0.018203L}, 0);
  M3 pre = ref::rz(-z) * ref::ry(theta) * ref::rz(-zeta);
  M3 nut = ref::rx(-(eps + deps)) * ref::rz(-dpsi) * ref::rx(eps);
  return ref::rz(Gmst(jd) + dpsi * cosl(eps + deps)) * nut * pre;
}
static bool Proper(mon::Mon& m, const M3& r, const char* key) {
  L d = ref::maxdiff(r * ref::T(r), ref::eye());
  return m.check(d < 1e-13L && ref::det(r) > 0.5L, key, "not a proper rotation: deviation %.3Lg, determinant %.6Lg", d, ref::det(r));
}

GROUP(earth) {
  for (long c = 0; c < m.n(4000, 60000); c++) {
    auto& r = m.rng;
    const double jd = r.b(0.1) ? 2451545.0 : r.u(2433282.5, 2488070.5);  // 1950 .. 2100
    m.begin("jd=%.17g", jd);
    m.distinctv({jd - 2451545.0});
    const double kTol = 1e-8;  // of an angle; a Julian day in double precision resolves 3e-9 rad
    EarthRotation full(EarthRotationMode::kFull), simple(EarthRotationMode::kSimple), idle(EarthRotationMode::kIdle);
    const double before = r.u(2433282.5, 2488070.5);
    if (r.b()) full.Update(before), simple.Update(before), idle.Update(before);  // the result depends on the moment only
    full.Update(jd);
    simple.Update(jd);
    idle.Update(jd);
    const M3 f = ref::m(full.GetDcmJ2000ToEcef()), s = ref::m(simple.GetDcmJ2000ToEcef());
    Proper(m, f, "earth-proper");
    Proper(m, s, "earth-proper");
    m.check(ref::rotdist(s, ref::rz(Gmst(jd))) < kTol, "earth-simple", "SIMPLE is %.3Lg rad from the rotation by the mean sidereal angle", ref::rotdist(s, ref::rz(Gmst(jd))));
    m.check(ref::rotdist(f, Full(jd)) < kTol, "earth-full", "FULL is %.3Lg rad from precession, nutation and apparent sidereal rotation", ref::rotdist(f, Full(jd)));
    m.check(ref::maxdiff(ref::m(idle.GetDcmJ2000ToEcef()), ref::eye()) == 0, "earth-idle", "IDLE rotates");
    for (auto* e : {&full, &simple})
      m.check(ref::rotdist(ref::m(e->GetDcmTemeToEcef()), ref::rz(Gmst(jd))) < kTol, "earth-teme", "TEME to ECEF is %.3Lg rad from the rotation by the mean sidereal angle",
              ref::rotdist(ref::m(e->GetDcmTemeToEcef()), ref::rz(Gmst(jd))));
    // rate: over dt, the rotation is by w dt about (nearly) the z axis
    const double dt = r.logu(1e-3, 20000), jd2 = jd + dt / 86400;
    const double real = (jd2 - jd) * 86400;
    for (auto* e : {&full, &simple}) {
      const M3 a = ref::m(e->GetDcmJ2000ToEcef());
      e->Update(jd2);
      const M3 b = ref::m(e->GetDcmJ2000ToEcef());
      const L d = ref::rotdist(b * ref::T(a), ref::rz(7.292115e-5L * real));
      m.check(d < 5e-9 + 1e-11 * real, "earth-rate", "over %.9g s the Earth turned %.3Lg rad away from w dt", real, d);
      m.ev("rates of rotation");
    }
  }
  m.check(ConvertEarthRotationMode("IDLE") == EarthRotationMode::kIdle && ConvertEarthRotationMode("SIMPLE") == EarthRotationMode::kSimple &&
              ConvertEarthRotationMode("FULL") == EarthRotationMode::kFull && ConvertEarthRotationMode("DISABLE") == EarthRotationMode::kIdle,
          "earth-mode-words", "rotation mode words");
  m.require("rates of rotation", 1000);
}

static const std::vector<std::string> kNames = {"SUN", "EARTH", "MOON", "MERCURY", "VENUS", "MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE", "PLUTO"};
static const std::vector<int> kIds = {10, 399, 301, 199, 299, 499, 599, 699, 799, 899, 999};
static int IdOf(const std::string& n) {
  for (size_t i = 0; i < kNames.size(); i++)
    if (kNames[i] == n) return kIds[i];
  return -1;
}
struct State6 {
  V3 p, w;
};
static State6 Spice(const std::string& target, double et, const std::string& center) {
  double s[6], lt;
  std::string t = target;
  if (t == "MARS" || t == "JUPITER" || t == "SATURN" || t == "URANUS" || t == "NEPTUNE" || t == "PLUTO") t += "_BARYCENTER";
  spkezr_c(t.c_str(), et, "J2000", "NONE", center.c_str(), s, &lt);
  return {{s[0] * 1000.0L, s[1] * 1000.0L, s[2] * 1000.0L}, {s[3] * 1000.0L, s[4] * 1000.0L, s[5] * 1000.0L}};
}
static std::unique_ptr<SimulationTime> MakeTime(mon::Rng& r, double step) {
  std::string start = mon::F("%d/%d/%d %02d:%02d:%06.3f", (int)r.i(1960, 2090), (int)r.i(1, 12), (int)r.i(1, 28), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9));
  return std::make_unique<SimulationTime>(1e6, step, step, step, step, step, step, step, step, step, start.c_str(), 0.0);
}
static M3 MoonSimple(const State6& moon_from_earth) {
  V3 x = -ref::unit(moon_from_earth.p), z = ref::unit(ref::cross_(moon_from_earth.p, moon_from_earth.w)), y = ref::cross_(z, x);
  M3 me;
  for (int i = 0; i < 3; i++) me[0][i] = x[i], me[1][i] = y[i], me[2][i] = z[i];
  return ref::rz(67.573L * kSec) * ref::ry(78.580L * kSec) * ref::rx(0.285L * kSec) * me;
}
// columns of a log, read back
static std::vector<double> Values(const std::string& line) {
  std::vector<double> r;
  std::stringstream ss(line);
  std::string t;
  while (std::getline(ss, t, ',')) r.push_back(atof(t.c_str()));
  return r;
}

GROUP(bodies) {
  for (long c = 0; c < m.n(400, 6000); c++) {
    auto& r = m.rng;
    // a random list of bodies in random order, which includes the center
    std::vector<std::string> names = kNames;
    for (size_t i = names.size() - 1; i > 0; i--) std::swap(names[i], names[(size_t)r.i(0, (int64_t)i)]);
    names.resize((size_t)r.i(1, 11));
    auto has = [&](const char* n) { return std::find(names.begin(), names.end(), n) != names.end(); };
    for (const char* n : {"EARTH", "MOON"})
      if (!has(n) && r.b(0.7)) names.insert(names.begin() + r.i(0, (int64_t)names.size()), n);
    const std::string center = r.pick(names);
    std::vector<std::string> modes;
    std::string moon_mode = "IDLE", earth_mode = "IDLE";
    for (auto& n : names) {
      std::string mode = r.pick(std::vector<std::string>{"DISABLE", "IDLE"});
      if (n == "EARTH") earth_mode = mode = r.pick(std::vector<std::string>{"IDLE", "SIMPLE", "FULL"});
      if (n == "MOON") moon_mode = mode = has("EARTH") ? r.pick(std::vector<std::string>{"IDLE", "SIMPLE", "IAU_MOON"}) : r.pick(std::vector<std::string>{"IDLE", "IAU_MOON"});
      modes.push_back(mode);
    }
    if (!has("EARTH")) earth_mode = modes[0];  // unlisted bodies: see below
    const double step = r.logu(0.01, 10000);
    auto time = MakeTime(r, step);
    std::string list;
    for (auto& n : names) list += n + " ";
    m.begin("bodies=%scenter=%s earth=%s moon=%s step=%.9g", list.c_str(), center.c_str(), earth_mode.c_str(), moon_mode.c_str(), step);
    m.distinct(m.context_);
    int* ids = new int[names.size()];
    for (size_t i = 0; i < names.size(); i++) ids[i] = IdOf(names[i]);
    auto info = std::make_unique<CelestialInformation>("J2000", "NONE", center, (unsigned)names.size(), ids, modes);
    const int steps = (int)r.i(0, 4);
    info->UpdateAllObjectsInformation(*time);
    for (int k = 0; k < steps; k++) {
      time->UpdateTime();
      info->UpdateAllObjectsInformation(*time);
    }
    const double et = time->GetCurrentEphemerisTime();
    if (r.b(0.3)) {  // a copy is the same and does not depend on the original
      auto copy = std::make_unique<CelestialInformation>(*info);
      info = std::move(copy);
      m.ev("copies");
      if (r.b()) info->UpdateAllObjectsInformation(*time);
    }
    m.check(info->GetNumberOfSelectedBodies() == (int)names.size() && info->GetCenterBodyName() == center, "body-list", "number or center of the bodies");
    for (size_t i = 0; i < names.size(); i++) {
      const char* n = names[i].c_str();
      const State6 want = Spice(names[i], et, center);
      m.check(info->CalcBodyIdFromName(n) == (int)i && info->GetSelectedBodyIds()[i] == IdOf(n), "body-index", "index %d of %s, expected %zu", info->CalcBodyIdFromName(n), n, i);
      const double tp = 1e-13 * (double)ref::norm(want.p) + 1e-6, tv = 1e-13 * (double)ref::norm(want.w) + 1e-9;
      vclose(m, v(info->GetPositionFromCenter_i_m((unsigned)i)), want.p, tp, "body-position", n);
      vclose(m, v(info->GetPositionFromCenter_i_m(n)), want.p, tp, "body-position-name", n);
      vclose(m, v(info->GetVelocityFromCenter_i_m_s((unsigned)i)), want.w, tv, "body-velocity", n);
      vclose(m, v(info->GetVelocityFromCenter_i_m_s(n)), want.w, tv, "body-velocity-name", n);
      double gm, radii[3];
      SpiceInt dim;
      bodvcd_c(IdOf(n), "GM", 1, &dim, &gm);
      bodvcd_c(IdOf(n), "RADII", 3, &dim, radii);
      m.close(info->GetGravityConstant_m3_s2(n), gm * 1e9, gm * 1e-5, "body-gm", n);
      const V3 rad = v(info->GetRadii_m((unsigned)i));
      vclose(m, rad, {radii[0] * 1000.0L, radii[1] * 1000.0L, radii[2] * 1000.0L}, 1e-6, "body-radii", n);
      vclose(m, v(info->GetRadiiFromName_m(n)), rad, 0, "body-radii", n);
      m.close(info->GetMeanRadiusFromName_m(n), (double)cbrtl(rad.x * rad.y * rad.z), 1e-6, "body-mean-radius", n);
      m.ev("body states");
      const std::string other = r.pick(names), third = r.pick(names);
      auto P = [&](const std::string& a, const std::string& b) { return v(info->GetPositionFromSelectedBody_i_m(a.c_str(), b.c_str())); };
      auto W = [&](const std::string& a, const std::string& b) { return v(info->GetVelocityFromSelectedBody_i_m_s(a.c_str(), b.c_str())); };
      const State6 rel = Spice(names[i], et, other);
      const double scale = 6e12;
      vclose(m, P(n, other), rel.p, 1e-15 * scale, "body-from-body", "position between bodies");
      vclose(m, W(n, other), rel.w, 1e-9, "body-from-body-velocity", "velocity between bodies");
      vclose(m, P(n, other), -P(other, n), 0, "body-antisymmetric", "position between bodies");
      vclose(m, W(n, other), -W(other, n), 0, "body-antisymmetric", "velocity between bodies");
      vclose(m, P(n, other) + P(other, third), P(n, third), 1e-15 * scale, "body-additive", "position between three bodies");
    }
    vclose(m, v(info->GetPositionFromCenter_i_m(center.c_str())), {0, 0, 0}, 0, "body-center", "center body");
    m.check(ref::norm(v(info->GetPositionFromCenter_i_m((unsigned)names.size()))) == 0 && ref::norm(v(info->GetVelocityFromCenter_i_m_s((unsigned)names.size()))) == 0 &&
                ref::norm(v(info->GetRadii_m((unsigned)names.size()))) == 0,
            "body-outside", "a body outside the list has a state");
    {
      int gm_dim;
      double gm;
      bodvcd_c(IdOf(center), "GM", 1, &gm_dim, &gm);
      m.close(info->GetCenterBodyGravityConstant_m3_s2(), gm * 1e9, gm * 1e-5, "center-gm", "gravity constant of the center");
    }
    // rotations follow the clock
    if (has("EARTH")) {
      const M3 e = ref::m(info->GetEarthRotation().GetDcmJ2000ToEcef());
      const double jd = time->GetCurrentTime_jd();
      const M3 want = earth_mode == "FULL" ? Full(jd) : earth_mode == "SIMPLE" ? ref::rz(Gmst(jd)) : ref::eye();
      m.check(ref::rotdist(e, want) < 1e-8, "earth-follows-clock", "%s Earth is %.3Lg rad off at jd %.12g", earth_mode.c_str(), ref::rotdist(e, want), jd);
      m.ev("earth " + earth_mode);
    }
    if (has("MOON")) {
      const M3 e = ref::m(info->GetMoonRotation().GetDcmJ2000ToMcmf());
      M3 want = ref::eye();
      if (moon_mode == "SIMPLE") want = MoonSimple(Spice("MOON", et, "EARTH"));
      if (moon_mode == "IAU_MOON") {
        double x[6][6];
        sxform_c("J2000", "IAU_MOON", et, x);
        for (int a = 0; a < 3; a++)
          for (int b = 0; b < 3; b++) want[a][b] = x[a][b];
      }
      Proper(m, e, "moon-proper");
      // far from the Earth and Moon, differences of positions cost digits
      m.check(ref::rotdist(e, want) < (moon_mode == "SIMPLE" ? 1e-9 : 1e-13), "moon-rotation", "%s Moon is %.3Lg rad off", moon_mode.c_str(), ref::rotdist(e, want));
      m.ev("moon " + moon_mode);
    }
    // log: the same numbers
    const std::vector<double> row = Values(info->GetLogValue());
    if (m.check(row.size() == names.size() * 6, "body-log-size", "%zu values for %zu bodies", row.size(), names.size()))
      for (size_t i = 0; i < names.size(); i++)
        for (int k = 0; k < 3; k++) {
          const double p = info->GetPositionFromCenter_i_m((unsigned)i)[(size_t)k], w = info->GetVelocityFromCenter_i_m_s((unsigned)i)[(size_t)k];
          m.close(row[i * 6 + (size_t)k], p, 1e-5 * std::fabs(p), "body-log", "logged position");
          m.close(row[i * 6 + 3 + (size_t)k], w, 1e-5 * std::fabs(w), "body-log", "logged velocity");
        }
  }
  for (const char* e : {"earth IDLE", "earth SIMPLE", "earth FULL", "moon IDLE", "moon SIMPLE", "moon IAU_MOON", "copies"}) m.require(e, 20);
}

GROUP(moon_frame) {
  for (long c = 0; c < m.n(3000, 40000); c++) {
    auto& r = m.rng;
    const V3 p = (L)r.logu(1e8, 1e9) * gen::dir(r);
    V3 w = (L)r.logu(100, 3000) * gen::dir(r);
    if (ref::norm(ref::cross_(ref::unit(p), ref::unit(w))) < 0.05L) continue;
    m.begin("moon at %s moving %s", S(p).c_str(), S(w).c_str());
    m.distinctv({(double)p.x, (double)w.y});
    const M3 pa = ref::m(s2e::planet_rotation::CalcDcmEciToPrincipalAxis(tov(p), tov(w))), me = ref::m(s2e::planet_rotation::CalcDcmEciToMeanEarth(tov(p), tov(w)));
    Proper(m, pa, "moon-pa-proper");
    Proper(m, me, "moon-me-proper");
    vclose(m, me * ref::unit(p), {-1, 0, 0}, 1e-13, "moon-me-x", "the Earth is in the +x direction of the mean-Earth frame");
    m.check(fabsl((me * ref::unit(ref::cross_(p, w))).z - 1) < 1e-13L, "moon-me-z", "orbit normal is the z axis");
    State6 s{p, w};
    m.check(ref::rotdist(pa, MoonSimple(s)) < 1e-12, "moon-pa", "principal axis frame is %.3Lg rad off", ref::rotdist(pa, MoonSimple(s)));
    m.check(fabsl(ref::rotdist(pa, me) - hypotl(67.573L, 78.580L) * kSec) < 3e-6L * kSec * 1e6L, "moon-me-pa", "principal axes %.6Lg rad from mean Earth", ref::rotdist(pa, me));
  }
}

GROUP(local) {
  for (long c = 0; c < m.n(600, 8000); c++) {
    auto& r = m.rng;
    std::vector<std::string> names = kNames;
    for (size_t i = names.size() - 1; i > 0; i--) std::swap(names[i], names[(size_t)r.i(0, (int64_t)i)]);
    names.resize((size_t)r.i(1, 6));
    const std::string center = r.pick(names);
    int* ids = new int[names.size()];
    for (size_t i = 0; i < names.size(); i++) ids[i] = IdOf(names[i]);
    auto time = MakeTime(r, 1.0);
    CelestialInformation info("J2000", "NONE", center, (unsigned)names.size(), ids, std::vector<std::string>(names.size(), "IDLE"));
    info.UpdateAllObjectsInformation(*time);
    const double et = time->GetCurrentEphemerisTime();
    const V3 p = (L)r.logu(6.4e6, 1e9) * gen::dir(r), w = (L)r.logu(1, 1e4) * gen::dir(r);
    const auto q = gen::quat(r);
    const V3 om = r.b(0.1) ? V3{0, 0, 0} : (L)r.logu(1e-6, 10) * gen::dir(r);
    m.begin("center=%s et=%.9g position %s velocity %s attitude %s rate %s", center.c_str(), et, S(p).c_str(), S(w).c_str(), S4(q).c_str(), S(om).c_str());
    m.distinctv({(double)p.x, (double)w.y, q[0], (double)om.x});
    LocalCelestialInformation local(&info);
    if (r.b()) local.UpdateAllObjectsInformation(tov(w), tov(p), Quat(0, 0, 0, 1), tov(p));  // nothing is kept
    local.UpdateAllObjectsInformation(tov(p), tov(w), toq(q), tov(om));
    const M3 dcm = ref::rotq(q);
    const std::vector<double> row = Values(local.GetLogValue());
    m.check(row.size() == names.size() * 6, "local-log-size", "%zu values for %zu bodies", row.size(), names.size());
    for (size_t i = 0; i < names.size(); i++) {
      const State6 s = Spice(names[i], et, center);
      const V3 d = s.p - p, dv = s.w - w;
      const double tp = 1e-14 * (double)(ref::norm(s.p) + ref::norm(p)) + 1e-6;
      vclose(m, v(local.GetPositionFromSpacecraft_i_m(names[i].c_str())), d, tp, "local-position-i", names[i].c_str());
      vclose(m, v(local.GetPositionFromSpacecraft_b_m(names[i].c_str())), dcm * d, tp + 1e-14 * (double)ref::norm(d), "local-position-b", names[i].c_str());
      // velocity in the rotating body frame, to the digits of the log
      const V3 db = dcm * d, wb = dcm * dv - ref::cross_(om, db);
      const double scale = (double)(ref::norm(dv) + ref::norm(om) * ref::norm(d));
      for (int k = 0; k < 3 && row.size() == names.size() * 6; k++) {
        m.close(row[i * 6 + (size_t)k], (double)db[k], 1e-5 * std::fabs((double)db[k]) + 1e-13 * (double)ref::norm(d), "local-log-position", "logged position");
        m.close(row[i * 6 + 3 + (size_t)k], (double)wb[k], 1e-5 * std::fabs((double)wb[k]) + 1e-10 * scale, "local-log-velocity", "logged velocity in the body frame");
      }
      m.ev("body seen from the spacecraft");
    }
    vclose(m, v(local.GetCenterBodyPositionFromSpacecraft_i_m()), -p, 1e-15 * (double)ref::norm(p), "local-center-i", "center body");
    vclose(m, v(local.GetCenterBodyPositionFromSpacecraft_b_m()), dcm * (-p), 1e-13 * (double)ref::norm(p), "local-center-b", "center body");
  }
}

std::vector<std::string>& verif_spice_kernels();

GROUP(world) {
  for (long c = 0; c < m.n(6, 40); c++) {
    auto& r = m.rng;
    world::Settings st(1);
    const double step = r.pick(std::vector<double>{0.5, 5, 20, 60});
    st.Times(step, 1e6, mon::F("%d/%d/%d %02d:%02d:%06.3f", (int)r.i(1990, 2050), (int)r.i(1, 12), (int)r.i(1, 28), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9)));
    std::vector<std::string> names = kNames;
    for (size_t i = names.size() - 1; i > 0; i--) std::swap(names[i], names[(size_t)r.i(0, (int64_t)i)]);
    // every run has the bodies that the environments need
    const std::string earth_mode = r.pick(std::vector<std::string>{"IDLE", "SIMPLE", "FULL"}), moon_mode = r.pick(std::vector<std::string>{"IDLE", "SIMPLE", "IAU_MOON"});
    for (size_t i = 0; i < names.size(); i++) {
      st.B("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", names[i]);
      st.B("CELESTIAL_INFORMATION", "rotation_mode(" + std::to_string(i) + ")", names[i] == "EARTH" ? earth_mode : names[i] == "MOON" ? moon_mode : "DISABLE");
    }
    st.B("CELESTIAL_INFORMATION", "number_of_selected_body", "11");
    st.NoNoise(0);
    st.NoDisturbance(0);
    const V3 p = (L)r.u(6.8e6, 4e7) * gen::dir(r);
    const V3 tangent = ref::unit(ref::cross_(p, V3{0.3L, 0.5L, -0.8L}));
    st.Orbit(0, p, sqrtl(3.986004418e14L / ref::norm(p)) * tangent);
    const auto q = gen::quat(r);
    st.Attitude(0, q, 0.01L * gen::dir(r));
    m.begin("world step=%g earth=%s moon=%s first=%s", step, earth_mode.c_str(), moon_mode.c_str(), names[0].c_str());
    m.distinct(m.context_ + std::to_string((double)p.x));
    const char* kernels[] = {"tls", "tpc1", "tpc2", "tpc3", "bsp"};
    for (const char* k : kernels) st.B("CSPICE_KERNELS", k, mon::F("kernels/%s_%ld", k, c));
    verif_spice_kernels().clear();
    world::World wd(st);
    for (const char* k : kernels) {
      const auto& l = verif_spice_kernels();
      m.check(std::count(l.begin(), l.end(), mon::F("kernels/%s_%ld", k, c)) == 1, "kernels", "the kernel %s of the settings is loaded %d times", k, (int)std::count(l.begin(), l.end(), mon::F("kernels/%s_%ld", k, c)));
      m.ev("kernels");
    }
    for (int k = 0; k < 6; k++) {
      const V3 sp = v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
      const Quat sq = wd.sc[0]->Dyn().GetAttitude().GetQuaternion_i2b();
      wd.Step();
      const auto& info = wd.global->GetCelestialInformation();
      const double et = wd.Time().GetCurrentEphemerisTime(), jd = wd.Time().GetCurrentTime_jd();
      for (auto& n : names) {
        const State6 s = Spice(n, et, "EARTH");
        vclose(m, v(info.GetPositionFromCenter_i_m(n.c_str())), s.p, 1e-3, "world-body", n.c_str());
        vclose(m, v(wd.sc[0]->Local().GetCelestialInformation().GetPositionFromSpacecraft_i_m(n.c_str())), s.p - sp, 1e-14 * (double)ref::norm(s.p) + 1e-3, "world-local-i", n.c_str());
        vclose(m, v(wd.sc[0]->Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m(n.c_str())), ref::rotq(sq) * (s.p - sp), 1e-12 * (double)ref::norm(s.p) + 1e-3, "world-local-b", n.c_str());
        m.ev("body states in a run");
      }
      const M3 want = earth_mode == "FULL" ? Full(jd) : earth_mode == "SIMPLE" ? ref::rz(Gmst(jd)) : ref::eye();
      m.check(ref::rotdist(ref::m(info.GetEarthRotation().GetDcmJ2000ToEcef()), want) < 1e-8, "world-earth", "Earth is %.3Lg rad off",
              ref::rotdist(ref::m(info.GetEarthRotation().GetDcmJ2000ToEcef()), want));
      if (moon_mode == "SIMPLE") {
        const M3 wm = MoonSimple(Spice("MOON", et, "EARTH"));
        m.check(ref::rotdist(ref::m(info.GetMoonRotation().GetDcmJ2000ToMcmf()), wm) < 1e-9, "world-moon", "Moon is %.3Lg rad off", ref::rotdist(ref::m(info.GetMoonRotation().GetDcmJ2000ToMcmf()), wm));
      }
    }
  }
  m.require("body states in a run", 100);
}
