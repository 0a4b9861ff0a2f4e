// C13: sunlight, eclipses, albedo and infrared of the Earth
#include "world.hpp"
#include "civil.hpp"
//
#include <SpiceUsr.h>
#include <environment/global/celestial_information.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/earth_albedo.hpp>
#include <environment/local/earth_infrared.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <environment/local/local_environment.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>

using namespace s2e::environment;
using ref::v;
static const L kAu = 149597870700.0L, kC = 299792458.0L, kSolar = 1366.0L, kSigma = 5.670374419e-8L;

static std::unique_ptr<SimulationTime> MakeTime(mon::Rng& r, const char* at = nullptr) {
  std::string start = mon::F("%d/%d/%d %02d:%02d:%06.3f", (int)r.i(1960, 2090), (int)r.i(1, 12), (int)r.i(1, 28), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9));
  if (at) start = at;
  return std::make_unique<SimulationTime>(1e6, 1, 1, 1, 1, 1, 1, 1, 1, 1, start.c_str(), 0.0);
}
struct Sky {
  std::vector<std::string> names;
  std::string center;
  std::unique_ptr<SimulationTime> time;
  std::unique_ptr<CelestialInformation> info;
  std::unique_ptr<LocalCelestialInformation> local;
  explicit Sky(mon::Rng& r, const std::string& center_ = "EARTH", const char* at = nullptr) : center(center_) {
    static const std::map<std::string, int> ids = {{"SUN", 10}, {"EARTH", 399}, {"MOON", 301}, {"MERCURY", 199}, {"VENUS", 299}, {"MARS", 499}, {"JUPITER", 599}};
    names = {"EARTH", "SUN", "MOON", "VENUS", "MERCURY", "MARS", "JUPITER"};
    for (size_t i = names.size() - 1; i > 0; i--) std::swap(names[i], names[(size_t)r.i(0, (int64_t)i)]);
    int* id = new int[names.size()];
    for (size_t i = 0; i < names.size(); i++) id[i] = ids.at(names[i]);
    time = MakeTime(r, at);
    info = std::make_unique<CelestialInformation>("J2000", "NONE", center, (unsigned)names.size(), id, std::vector<std::string>(names.size(), "IDLE"));
    info->UpdateAllObjectsInformation(*time);
    local = std::make_unique<LocalCelestialInformation>(info.get());
  }
  V3 Pos(const std::string& n) const { return v(info->GetPositionFromCenter_i_m(n.c_str())); }
  L Radius(const std::string& n) const { return info->GetMeanRadiusFromName_m(n.c_str()); }
  void Place(const V3& p) { local->UpdateAllObjectsInformation(tov(p), vec(0, 0, 0), Quat(0, 0, 0, 1), vec(0, 0, 0)); }
  // Place the spacecraft at a distance from a body so that the centers of the body and the Sun are `c` apart in its sky
  V3 PlaceAt(mon::Rng& r, const std::string& body, L d, L c) {
    V3 side = gen::dir(r), p = Pos(body) - d * ref::unit(Pos("SUN") - Pos(body));
    for (int k = 0; k < 20; k++) {
      V3 s = ref::unit(Pos("SUN") - p);
      V3 e = ref::unit(ref::cross_(s, ref::unit(ref::cross_(side, s))));
      V3 to_body = cosl(c) * s + sinl(c) * e;
      p = Pos(body) - d * to_body;
    }
    Place(p);
    return p;
  }
};
struct Discs {
  L a, b, c;
  bool behind;
};
static Discs Apparent(const Sky& s, const V3& p, const std::string& body) {
  V3 to_sun = s.Pos("SUN") - p, to_body = s.Pos(body) - p;
  return {asinl(s.Radius("SUN") / ref::norm(to_sun)), asinl(std::min(1.0L, s.Radius(body) / ref::norm(to_body))), ref::angle(to_sun, to_body), ref::norm(to_body) > ref::norm(to_sun)};
}
// uncovered share of the solar disc: two circular segments
static L Flat(const Discs& d) {
  if (d.behind || d.c >= d.a + d.b) return 1;
  if (d.c + d.a <= d.b) return 0;
  if (d.c + d.b <= d.a) return 1 - (d.b / d.a) * (d.b / d.a);
  auto half = [](L x, L r) { return r * r * acosl(std::max(-1.0L, std::min(1.0L, x / r))) - x * sqrtl(std::max(0.0L, r * r - x * x)); };  // segment beyond x
  const L x = (d.c * d.c + d.a * d.a - d.b * d.b) / (2 * d.c);
  const L covered = half(x, d.a) + half(d.c - x, d.b);
  return 1 - covered / (ref::kPi * d.a * d.a);
}
// the same on the sphere, by directions of the solar disc: 1 % accurate, independent of any small-angle formula
static L Sphere(const Discs& d) {
  if (d.behind) return 1;
  const int nr = 32, nf = 64;
  L open = 0;
  for (int i = 0; i < nr; i++) {
    const L rho = d.a * sqrtl((i + 0.5L) / nr);
    for (int k = 0; k < nf; k++) {
      const L f = ref::kTau * (k + 0.5L) / nf;
      const L cosine = cosl(d.c) * cosl(rho) + sinl(d.c) * sinl(rho) * cosl(f);
      if (cosine < cosl(d.b)) open += 1;
    }
  }
  return open / (nr * nf);
}
static void CheckAll(mon::Mon& m, const Sky& s, const V3& p, const SolarRadiationPressureEnvironment& env, L fraction, L tolerance) {
  const double f = env.GetShadowCoefficient();
  m.check(f >= 0 && f <= 1, "fraction-range", "illuminated fraction %.17g", f);
  m.close(f, (double)fraction, (double)tolerance, "fraction", "illuminated fraction");
  const L d = ref::norm(s.Pos("SUN") - p), power = kSolar * (kAu / d) * (kAu / d);
  m.close(env.GetPressureWithoutEclipse_Nm2(), (double)(power / kC), (double)(power / kC) * 1e-12, "pressure", "pressure without eclipse");
  m.close(env.GetPressure_N_m2(), (double)(power / kC) * f, (double)(power / kC) * 1e-12, "pressure-eclipse", "pressure");
  m.close(env.GetPowerDensity_W_m2(), (double)power * f, (double)power * 1e-12, "power", "power density");
  m.check(env.GetIsEclipsed() == (f < 1), "is-eclipsed", "eclipsed %d with a fraction of %.17g", env.GetIsEclipsed(), f);
}

GROUP(one_body) {
  for (long c = 0; c < m.n(4000, 80000); c++) {
    auto& r = m.rng;
    Sky s(r, r.b(0.8) ? "EARTH" : "MOON");
    const std::string body = s.center;
    L d = s.Radius(body) * (1 + r.logu(1e-6, 1e3));
    if (r.b(0.15)) d = s.Radius(body) * r.logu(100, 3000);  // annular eclipses
    if (r.b(0.05)) d = s.Radius(body) * r.u(0.997, 1.0);  // above the ellipsoid, below the mean radius
    const L b = asinl(std::min(1.0L, s.Radius(body) / d));
    const L a = asinl(s.Radius("SUN") / ref::norm(s.Pos("SUN") - s.Pos(body)));
    L sep;
    switch (r.i(0, 7)) {
      case 0: sep = r.u(0, 3.14); break;
      case 1: sep = a + b + (r.b() ? 1 : -1) * a * r.logu(1e-9, 0.1); break;       // first contact
      case 2: sep = fabsl(a - b) + (r.b() ? 1 : -1) * a * r.logu(1e-9, 0.1); break;  // second contact
      case 3: sep = 0; break;
      case 4: sep = fabsl(a - b) * r.u(0, 1); break;
      default: sep = fabsl(a - b) + r.u(0, 1) * 2 * std::min(a, b); break;
    }
    if (sep < 0) sep = -sep;
    if (sep > 3.14L) sep = 3.14L;
    const V3 p = s.PlaceAt(r, body, d, sep);
    const Discs k = Apparent(s, p, body);
    m.begin("center=%s distance %.9Lg radii, discs a=%.9Lg b=%.9Lg separation=%.12Lg", body.c_str(), d / s.Radius(body), k.a, k.b, k.c);
    m.distinctv({(double)d, (double)k.c, (double)p.x});
    SolarRadiationPressureEnvironment env(s.local.get());
    if (r.b()) env.AddShadowSource("SUN");  // the Sun does not shadow itself
    if (r.b()) env.UpdateAllStates();
    env.UpdateAllStates();
    // near the limits of the shadow the separation itself is known to 1e-16 of the distances only
    CheckAll(m, s, p, env, Flat(k), 2e-6 + 2e-7L * k.c / k.a);
    m.check(fabsl(env.GetShadowCoefficient() - Sphere(k)) < 0.02L, "fraction-sphere", "fraction %.6g, counted over the solar disc %.6Lg", env.GetShadowCoefficient(), Sphere(k));
    const double f = env.GetShadowCoefficient();
    m.ev(f == 1 ? "full light" : f == 0 ? "umbra" : k.b < k.a && k.c < k.a - k.b ? "annular" : "penumbra");
    if (k.c > k.a + k.b + 1e-9L) m.check(f == 1, "lit", "fraction %.17g although the discs do not touch", f);
    if (k.c < k.b - k.a - 1e-9L) m.check(f == 0, "dark", "fraction %.17g although the solar disc is covered", f);
    // Earth light
    EarthAlbedo albedo(s.local.get(), &env);
    EarthInfrared infrared(s.local.get(), &env);
    const double factor = r.u(0, 1), hot = r.u(0, 400), cold = r.u(0, 400);
    albedo.SetEarthAlbedoFactor(factor);
    infrared.SetEarthTempHotSide_K(hot);
    infrared.SetEarthTempColdSide_K(cold);
    const bool on = r.b(0.8);
    albedo.SetIsCalcEarthAlbedoEnabled(on);
    infrared.SetIsCalcEarthInfraredEnabled(on);
    albedo.UpdateAllStates();
    infrared.UpdateAllStates();
    m.close(albedo.GetEarthAlbedoRadiationPower_W_m2(), on ? env.GetPowerDensity_W_m2() * factor : 0, 1e-9, "albedo", "albedo power");
    const L temp = f < 1 ? cold : hot;
    m.close(infrared.GetEarthInfraredRadiationPower_W_m2(), on ? (double)(kSigma * temp * temp * temp * temp) : 0, 1e-9, "infrared", "infrared power");
    m.check(albedo.GetEarthAlbedoRadiationPower_W_m2() >= 0 && infrared.GetEarthInfraredRadiationPower_W_m2() >= 0, "earth-light-negative", "negative Earth light");
  }
  for (const char* e : {"full light", "umbra", "penumbra", "annular"}) m.require(e, 100);
}

// Brightness changes monotonically and continuously while the Sun sets
GROUP(sunset) {
  for (long c = 0; c < m.n(60, 1000); c++) {
    auto& r = m.rng;
    Sky s(r);
    const L d = s.Radius("EARTH") * (1 + r.logu(0.01, 300));
    const L b = asinl(s.Radius("EARTH") / d), a = asinl(s.Radius("SUN") / ref::norm(s.Pos("SUN")));
    const int n = 300;
    m.begin("sunset at %.6Lg radii", d / s.Radius("EARTH"));
    m.distinctv({(double)d});
    const uint64_t side = r.next();
    double last = -1;
    for (int i = 0; i <= n; i++) {
      mon::Rng same(side);
      s.PlaceAt(same, "EARTH", d, std::max(0.0L, b - 1.3L * a) + 2.6L * a * i / n);
      SolarRadiationPressureEnvironment env(s.local.get());
      env.UpdateAllStates();
      const double f = env.GetShadowCoefficient();
      m.check(f >= last - 6e-5, "sunset-monotonic", "fraction fell from %.12g to %.12g while the Sun rises", last, f);
      if (last >= 0) m.check(f - last < 0.02, "sunset-jump", "fraction jumped from %.12g to %.12g", last, f);
      last = f;
      m.ev("sunset steps");
    }
    m.check(last == 1, "sunset-end", "fraction %.17g with the Sun free", last);
  }
}

// Times at which the Moon is in front of the Sun for the Earth
static std::vector<std::string> Eclipses() {
  std::vector<std::string> list;
  double best = 9, best_et = 0;
  for (double et = -1e9; et < 2.5e9 && list.size() < 40; et += 7200) {
    double sun[6], moon[6], lt;
    spkezr_c("SUN", et, "J2000", "NONE", "EARTH", sun, &lt);
    spkezr_c("MOON", et, "J2000", "NONE", "EARTH", moon, &lt);
    const double a = (double)ref::angle(V3{sun[0], sun[1], sun[2]}, V3{moon[0], moon[1], moon[2]});
    if (a < 0.012) {
      if (a < best) best = a, best_et = et;
    } else if (best < 1) {
      const double s = best_et - 69.184 + 10957.5 * 86400;  // since 1970
      int y, mo, d;
      civil::fromdays((int64_t)floor(s / 86400), y, mo, d);
      const int of = (int)(s - floor(s / 86400) * 86400);
      list.push_back(mon::F("%d/%d/%d %02d:%02d:%02d", y, mo, d, of / 3600, of / 60 % 60, of % 60));
      best = 9;
    }
  }
  return list;
}
GROUP(many_bodies) {
  const std::vector<std::string> eclipses = Eclipses();
  for (long c = 0; c < m.n(4000, 50000); c++) {
    auto& r = m.rng;
    const bool both = c % 8 == 0;
    Sky s(r, "EARTH", both ? r.pick(eclipses).c_str() : nullptr);
    std::vector<std::string> sources = {"MOON", "VENUS", "MERCURY", "MARS", "JUPITER"};
    for (size_t i = sources.size() - 1; i > 0; i--) std::swap(sources[i], sources[(size_t)r.i(0, (int64_t)i)]);
    sources.resize((size_t)r.i(1, 5));
    // near the shadow of one of them
    const std::string body = r.b(0.2) ? "EARTH" : r.pick(sources);
    const L d = s.Radius(body) * (1 + r.logu(1e-3, 1e3)), b = asinl(s.Radius(body) / d), a = asinl(s.Radius("SUN") / ref::norm(s.Pos("SUN") - s.Pos(body)));
    const L sep = std::min(3.0L, r.b(0.2) ? (L)r.u(0, 3) : (L)r.u(0, 1.1) * (a + b));
    V3 p = s.PlaceAt(r, body, d, sep);
    if (r.b(0.15)) {  // a body on the far side of the Sun, in line with it
      p = s.Pos("SUN") + (L)r.u(0.5, 1.5) * ref::norm(s.Pos("SUN") - s.Pos(body)) * ref::unit(s.Pos("SUN") - s.Pos(body)) + (L)r.logu(1, 1e8) * gen::dir(r);
      s.Place(p);
      m.ev("body beyond the Sun");
    }
    if (r.b(0.1)) {  // a spacecraft on the line from the Moon, so that Earth and Moon are both in front of the Sun
      p = s.Pos("EARTH") - (L)r.logu(1e7, 3e9) * ref::unit(s.Pos("SUN") - s.Pos("EARTH")) + (L)r.logu(1, 2e7) * gen::dir(r);
      s.Place(p);
    }
    if (both) {
      if (std::find(sources.begin(), sources.end(), "MOON") == sources.end()) sources[0] = "MOON";
      const L behind = r.logu(4e8, 4e9), spread = 0.0046L * behind + 6.4e6L;
      p = s.Pos("EARTH") - behind * ref::unit(s.Pos("SUN") - s.Pos("EARTH")) + (L)r.u(0, 1) * spread * gen::dir(r);
      s.Place(p);
    }
    // written as settings
    std::string text = "[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nlogging = ENABLE\nnumber_of_third_shadow_source = " + std::to_string(sources.size()) + "\n", list;
    for (size_t i = 0; i < sources.size(); i++) {
      text += "third_shadow_source_name(" + std::to_string(i) + ") = " + sources[i] + "\n";
      list += sources[i] + " ";
    }
    std::ofstream("srp.ini") << text;
    L want = Flat(Apparent(s, p, "EARTH")), least = want;
    int covering = want < 1;
    for (auto& n : sources) {
      const L f = Flat(Apparent(s, p, n));
      want *= f;
      least = std::min(least, f);
      covering += f < 1;
    }
    if (covering > 1 && want > 0) m.ev("partly covered by several bodies");
    m.begin("sources %s, near %s at %.9Lg radii, separation %.9Lg, expected %.9Lg", list.c_str(), body.c_str(), d / s.Radius(body), sep, want);
    m.distinct(m.context_);
    SolarRadiationPressureEnvironment env = InitSolarRadiationPressureEnvironment("srp.ini", s.local.get());
    env.UpdateAllStates();
    // far away the separation of nearly collinear bodies carries the rounding of the positions
    CheckAll(m, s, p, env, want, 6e-5);
    m.check(env.GetShadowCoefficient() <= least + 6e-5, "combined", "fraction %.9g above that of a single body %.9Lg", env.GetShadowCoefficient(), least);
    m.ev(want == 1 ? "full light" : want == 0 ? "umbra" : "partial");
  }
  for (const char* e : {"full light", "umbra", "partial", "body beyond the Sun", "partly covered by several bodies"}) m.require(e, 50);
}

GROUP(world) {
  for (long c = 0; c < m.n(5, 30); c++) {
    auto& r = m.rng;
    world::Settings st(1);
    st.Times(60, 1e6);
    st.NoNoise(0);
    st.NoDisturbance(0);
    st.Local(0, "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "number_of_third_shadow_source", "1");
    const bool on = r.b(0.8);
    st.Local(0, "EARTH_ALBEDO", "calculation", on ? "ENABLE" : "DISABLE");
    const double factor = r.u(0, 1), hot = r.u(200, 300), cold = r.u(100, 200);
    st.Local(0, "EARTH_ALBEDO", "earth_albedo_factor", world::D(factor));
    st.Local(0, "EARTH_INFRARED", "earth_infrared_temperature_hot_side_K", world::D(hot));
    st.Local(0, "EARTH_INFRARED", "earth_infrared_temperature_cold_side_K", world::D(cold));
    const V3 p0 = (L)r.u(6.8e6, 1.2e7) * gen::dir(r);
    const V3 t = ref::unit(ref::cross_(p0, V3{0.3L, 0.5L, -0.8L}));
    st.Orbit(0, p0, sqrtl(3.986004418e14L / ref::norm(p0)) * t);
    m.begin("world from %s albedo=%.6g hot=%.6g cold=%.6g", S(p0).c_str(), factor, hot, cold);
    m.distinct(m.context_);
    world::World wd(st);
    for (int k = 0; k < 150; k++) {
      const V3 p = v(wd.sc[0]->Dyn().GetOrbit().GetPosition_i_m());
      wd.Step();
      const auto& info = wd.global->GetCelestialInformation();
      const auto& env = wd.sc[0]->Local().GetSolarRadiationPressure();
      L want = 1;
      for (const char* n : {"EARTH", "MOON"}) {
        V3 sun = v(info.GetPositionFromCenter_i_m("SUN")) - p, body = v(info.GetPositionFromCenter_i_m(n)) - p;
        want *= Flat({asinl((L)info.GetMeanRadiusFromName_m("SUN") / ref::norm(sun)), asinl((L)info.GetMeanRadiusFromName_m(n) / ref::norm(body)), ref::angle(sun, body), false});
      }
      const double f = env.GetShadowCoefficient();
      m.close(f, (double)want, 6e-5, "world-fraction", "illuminated fraction in a run");
      const L d = ref::norm(v(info.GetPositionFromCenter_i_m("SUN")) - p);
      const double power = (double)(kSolar * kAu / d * kAu / d) * f;
      m.close(env.GetPowerDensity_W_m2(), power, 1e-8, "world-power", "power density in a run");
      m.close(wd.sc[0]->Local().GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2(), on ? power * factor : 0, 1e-8, "world-albedo", "albedo in a run");
      m.close(wd.sc[0]->Local().GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2(), (double)(kSigma * powl(f < 1 ? cold : hot, 4)), 1e-8, "world-infrared", "infrared in a run");
      m.ev(f == 1 ? "lit steps" : "eclipsed steps");
    }
  }
  m.require("lit steps", 100);
}
