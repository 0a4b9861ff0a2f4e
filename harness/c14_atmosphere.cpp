// C14: air density models
#include "world.hpp"
//
#include <nrlmsise-00.h>

#include <environment/local/atmosphere.hpp>
#include <environment/local/local_environment.hpp>
#include <math_physics/atmosphere/harris_priester_model.hpp>
#include <math_physics/atmosphere/simple_air_density_model.hpp>
#include <math_physics/atmosphere/wrapper_nrlmsise00.hpp>
#include <math_physics/geodesy/geodetic_position.hpp>
#include <math_physics/randomization/global_randomization.hpp>

#include "civil.hpp"

extern "C" {
extern struct nrlmsise_input verif_last_nrlmsise_input;
extern int verif_nrlmsise_calls;
}
using namespace s2e::atmosphere;
using s2e::environment::Atmosphere;
using s2e::geodesy::GeodeticPosition;
using ref::v;
static const L kDeg = 3.14159265358979323846264L / 180;

// Exponential atmosphere: base altitude [km], density [kg/m3], scale height [km] (Vallado, after CIRA-72 and US Standard Atmosphere)
struct Layer {
  double h, rho, scale;
};
static const std::vector<Layer> kLayers = {{0, 1.225, 7.249},        {25, 3.899e-2, 6.349},    {30, 1.774e-2, 6.682},    {40, 3.972e-3, 7.554},   {50, 1.057e-3, 8.382},
                                           {60, 3.206e-4, 7.714},    {70, 8.770e-5, 6.549},    {80, 1.905e-5, 5.799},    {90, 3.396e-6, 5.382},   {100, 5.297e-7, 5.877},
                                           {110, 9.661e-8, 7.263},   {120, 2.438e-8, 9.473},   {130, 8.484e-9, 12.636},  {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523},
                                           {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298},
                                           {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667},
                                           {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.00}};
static double Simple(double h_km) {
  if (h_km < 0) return 0;
  size_t i = 0;
  while (i + 1 < kLayers.size() && h_km >= kLayers[i + 1].h) i++;
  return (double)(kLayers[i].rho * expl(-((L)h_km - kLayers[i].h) / kLayers[i].scale));
}

GROUP(simple) {
  for (long c = 0; c < m.n(60000, 1000000); c++) {
    auto& r = m.rng;
    double h;
    switch (r.i(0, 4)) {
      case 0: h = r.pick(kLayers).h; break;
      case 1: h = r.pick(kLayers).h + (r.b() ? 1 : -1) * r.logu(1e-9, 1); break;
      case 2: h = r.logu(1000, 1e6); break;
      default: h = r.u(0, 1100); break;
    }
    m.begin("altitude %.17g km", h);
    m.distinctv({h});
    const double rho = CalcAirDensityWithSimpleModel(h * 1000.0);
    m.check(std::isfinite(rho) && rho >= 0, "simple-range", "density %.9g", rho);
    // the layer on either side is right within rounding of the altitude
    const double want = Simple(h * 1000.0 / 1000.0);
    m.close(rho, want, want * 1e-9 * 1e3, "simple-table", "density");
    if (h >= 0) {
      const double up = CalcAirDensityWithSimpleModel(h * 1000.0 + r.logu(1, 1e6));
      m.check(up <= rho * 1.01, "simple-decreasing", "density grows from %.9g to %.9g above %.9g km", rho, up, h);
      const double near = CalcAirDensityWithSimpleModel(h * 1000.0 + 1e-3);
      m.check(std::fabs(near - rho) <= 0.02 * rho, "simple-continuous", "density jumps from %.9g to %.9g at %.9g km", rho, near, h);
      m.ev("altitudes above ground");
    }
  }
  m.check(CalcAirDensityWithSimpleModel(-1.0) >= 0 && CalcAirDensityWithSimpleModel(-1e6) >= 0, "simple-below", "density below ground");
}

// Harris-Priester: altitude [km], minimum and maximum density [g/km3] for mean solar activity (Montenbruck and Gill, table 3.8)
static const double kHp[][3] = {
    {100, 497400.0, 497400.0}, {120, 24900.0, 24900.0},   {130, 8377.0, 8710.0},     {140, 3899.0, 4059.0},     {150, 2122.0, 2215.0},     {160, 1263.0, 1344.0},
    {170, 800.8, 875.8},       {180, 528.3, 601.0},       {190, 361.7, 429.7},       {200, 255.7, 316.2},       {210, 183.9, 239.6},       {220, 134.1, 185.3},
    {230, 99.49, 145.5},       {240, 74.88, 115.7},       {250, 57.09, 93.08},       {260, 44.03, 75.55},       {270, 34.30, 61.82},       {280, 26.97, 50.95},
    {290, 21.39, 42.26},       {300, 17.08, 35.26},       {320, 10.99, 25.11},       {340, 7.214, 18.19},       {360, 4.824, 13.37},       {380, 3.274, 9.955},
    {400, 2.249, 7.492},       {420, 1.558, 5.684},       {440, 1.091, 4.355},       {460, 0.7701, 3.362},      {480, 0.5474, 2.612},      {500, 0.3916, 2.042},
    {520, 0.2819, 1.605},      {540, 0.2042, 1.267},      {560, 0.1488, 1.005},      {580, 0.1092, 0.7997},     {600, 0.08070, 0.6390},    {620, 0.06012, 0.5123},
    {640, 0.04519, 0.4121},    {660, 0.03430, 0.3325},    {680, 0.02632, 0.2691},    {700, 0.02043, 0.2185},    {720, 0.01607, 0.1779},    {740, 0.01281, 0.1452},
    {760, 0.01036, 0.1190},    {780, 0.008496, 0.09776},  {800, 0.007069, 0.08059},  {840, 0.004680, 0.05741},  {880, 0.003200, 0.04210},  {920, 0.002210, 0.03130},
    {960, 0.001560, 0.02360},  {1000, 0.001150, 0.01810}};
static const int kHpN = sizeof(kHp) / sizeof(kHp[0]);
struct HpResult {
  L low, high, value;
};
static HpResult HarrisPriester(L h, V3 position, V3 sun, L n) {
  int i = 0;
  while (i + 2 < kHpN && h >= kHp[i + 1][0]) i++;
  L rho[2];
  for (int k = 0; k < 2; k++) {
    const L a = kHp[i][k + 1], b = kHp[i + 1][k + 1];
    rho[k] = a * powl(b / a, (h - kHp[i][0]) / ((L)kHp[i + 1][0] - kHp[i][0])) * 1e-12L;
  }
  const L ra = atan2l(sun.y, sun.x) + 30 * kDeg, z = sun.z / ref::norm(sun), xy = sqrtl(std::max(0.0L, 1 - z * z));
  const V3 apex{xy * cosl(ra), xy * sinl(ra), z};
  const L half = ref::angle(position, apex) / 2;
  return {rho[0], rho[1], rho[0] + (rho[1] - rho[0]) * powl(fabsl(cosl(half)), n)};
}

GROUP(harris_priester) {
  for (long c = 0; c < m.n(40000, 600000); c++) {
    auto& r = m.rng;
    const double lat = r.b(0.1) ? (r.b() ? 1 : -1) * M_PI / 2 : r.u(-1.57, 1.57), lon = r.u(-3.14, 3.14);
    double h;
    switch (r.i(0, 4)) {
      case 0: h = kHp[r.i(0, kHpN - 1)][0]; break;
      case 1: h = kHp[r.i(0, kHpN - 1)][0] + (r.b() ? 1 : -1) * r.logu(1e-9, 1); break;
      case 2: h = r.b() ? r.u(0, 100) : r.logu(1000, 3000); break;
      default: h = r.u(100, 1000); break;
    }
    const GeodeticPosition g(lat, lon, h * 1000.0);
    V3 sun = gen::dir(r);
    const double n = r.b() ? 4 : (double)r.i(2, 6);
    if (r.b(0.2)) {  // the bulge straight above, or straight below
      V3 p = ref::unit(v(g.CalcEcefPosition()));
      if (r.b()) p = -p;
      const L ra = atan2l(p.y, p.x) - 30 * kDeg, xy = sqrtl(std::max(0.0L, 1 - p.z * p.z));
      sun = {xy * cosl(ra), xy * sinl(ra), p.z};
      m.ev("bulge in line with the spacecraft");
    }
    m.begin("lat=%.17g lon=%.17g altitude %.17g km sun %s exponent %g", lat, lon, h, S(sun).c_str(), n);
    m.distinctv({lat, lon, h, (double)sun.x});
    const bool whole = n == 4 && r.b();
    const double rho = whole ? CalcAirDensityWithHarrisPriester_kg_m3(g, tov(sun)) : CalcAirDensityWithHarrisPriester_kg_m3(g, tov(sun), r.u(60, 250), n);
    const HpResult want = HarrisPriester(h, v(g.CalcEcefPosition()), sun, n);
    m.check(std::isfinite(rho) && rho >= 0, "hp-range", "density %.9g", rho);
    if (h >= 100 && h <= 1000) {
      m.close(rho, (double)want.value, (double)want.value * 1e-7, "hp-table", "density");
      m.check(rho >= (double)want.low * (1 - 1e-7) && rho <= (double)want.high * (1 + 1e-7), "hp-bounds", "density %.9g outside %.9Lg .. %.9Lg", rho, want.low, want.high);
      m.ev("altitudes inside the table");
    } else {
      m.ev(h < 100 ? "altitudes below the table" : "altitudes above the table");
    }
    const double step = r.logu(1e-3, 1e5);  // m
    const double up = CalcAirDensityWithHarrisPriester_kg_m3(GeodeticPosition(lat, lon, h * 1000.0 + step), tov(sun), 100, n);
    // the direction changes a little with the altitude because the vertical is not central
    m.check(up <= rho * (1 + 1e-6), "hp-decreasing", "density grows from %.9g to %.9g within %.6g m", rho, up, step);
    if (step < 1) m.check(up > rho * 0.999, "hp-continuous", "density falls from %.9g to %.9g within %.6g m", rho, up, step);
  }
  for (const char* e : {"altitudes inside the table", "altitudes below the table", "altitudes above the table", "bulge in line with the spacecraft"}) m.require(e, 100);
}

// ---- NRLMSISE-00: the model itself is a stand-in that records what it was asked
struct Day {
  int y, mo, d;
  double ap, f_adj, c_adj, l_adj, f_obs, c_obs, l_obs;
};
static std::string Row(const Day& d) {
  return mon::F("%4d%3d%3d%5d%3d%3d%3d%3d%3d%3d%3d%3d%3d%4d%4d%4d%4d%4d%4d%4d%4d%4d%4d%4.1f%2d%4d%6.1f%2d%6.1f%6.1f%6.1f%6.1f%6.1f", d.y, d.mo, d.d, 2400, 10, 10, 20, 30, 20, 10, 3, 7, 10, 110, 4, 7, 15,
                7, 4, 2, 3, 4, (int)d.ap, 0.3, 1, 45, d.f_adj, 0, d.c_adj, d.l_adj, d.f_obs, d.c_obs, d.l_obs);
}
static Day RandomDay(mon::Rng& r, int y, int mo, int d) {
  auto f = [&] { return (double)r.i(600, 2999) / 10; };
  return {y, mo, d, (double)(r.b(0.3) ? r.i(100, 280) : r.i(0, 99)), f(), f(), f(), f(), f(), f()};
}
static bool SameNumber(const std::string& name, double a, double b, mon::Mon& m) { return m.close(a, b, 1e-9, "space-weather-row", name.c_str()); }

GROUP(space_weather) {
  for (long c = 0; c < m.n(250, 3000); c++) {
    auto& r = m.rng;
    // a table of daily rows, then (45 days after its date) monthly ones
    const int64_t first = civil::days((int)r.i(2015, 2035), (int)r.i(1, 12), (int)r.i(1, 28));
    const int days = (int)r.i(60, 500);
    const int64_t updated = first + days;
    std::vector<Day> table;
    auto date = [](int64_t d) {
      int y, mo, da;
      civil::fromdays(d, y, mo, da);
      return std::array<int, 3>{y, mo, da};
    };
    for (int64_t d = first; d < updated + 45; d++) {
      auto x = date(d);
      table.push_back(RandomDay(r, x[0], x[1], x[2]));
    }
    auto x = date(updated + 45);
    int y = x[0], mo = x[1];
    const size_t daily = table.size();
    for (int k = 0; k < 24; k++) {
      if (++mo > 12) mo = 1, y++;
      table.push_back(RandomDay(r, y, mo, 1));
    }
    static const char* kMonth[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    auto u = date(updated);
    const bool dated = r.b(0.9);
    {
      std::ofstream o("sw.txt");
      o << "DATATYPE CssiSpaceWeather\nVERSION 1.2\n";
      if (dated) o << mon::F("UPDATED %d %s %02d 12:00:00 UTC\n", u[0], kMonth[u[1] - 1], u[2]);
      o << "#\n# FORMAT(I4,I3,I3,I5,I3,8I3,I4,8I4,I4,F4.1,I2,I4,F6.1,I2,5F6.1)\n\nNUM_OBSERVED_POINTS " << daily << "\nBEGIN OBSERVED\n";
      for (size_t i = 0; i < daily; i++) o << Row(table[i]) << "\n";
      o << "END OBSERVED\nBEGIN MONTHLY_PREDICTED\n";
      for (size_t i = daily; i < table.size(); i++) o << Row(table[i]) << "\n";
      o << "END MONTHLY_PREDICTED\n";
    }
    // a run inside the days
    const int64_t start = first + 35 + r.i(0, days - 40);
    const auto s = date(start);
    const double fraction = r.u(0.001, 0.999), length = r.b() ? r.u(0, 86400) : r.u(0, 20 * 86400.0);
    auto decyear = [&](int64_t day, double f) {
      auto q = date(day);
      return q[0] + ((double)(day - civil::days(q[0], 1, 1)) + f) / (civil::leap(q[0]) ? 366 : 365);
    };
    m.begin("table from %d/%d/%d for %d days, run from %d/%d/%d + %.6g for %.6g s", date(first)[0], date(first)[1], date(first)[2], days, s[0], s[1], s[2], fraction, length);
    m.distinct(m.context_);
    std::vector<nrlmsise_table> got;
    world::Quiet q;
    const size_t n = GetSpaceWeatherTable_(decyear(start, fraction), length, "sw.txt", got);
    m.check(n == got.size() && n > 0, "space-weather-size", "reports %zu rows and gives %zu", n, got.size());
    // every row of the table is a row of the file, in order, and the days of the run are there
    size_t at = 0;
    for (auto& g : got) {
      while (at < table.size() && !(table[at].y == g.year && table[at].mo == g.month && table[at].d == g.day)) at++;
      if (!m.check(at < table.size(), "space-weather-order", "row %d/%d/%d is not in the file (or out of order)", g.year, g.month, g.day)) break;
      const Day& d = table[at];
      SameNumber("Ap", g.Ap_avg, d.ap, m);
      SameNumber("F10.7 adjusted", g.F107_adj, d.f_adj, m);
      SameNumber("centred 81 days adjusted", g.Ctr81_adj, d.c_adj, m);
      SameNumber("last 81 days adjusted", g.Lst81_adj, d.l_adj, m);
      SameNumber("F10.7 observed", g.F107_obs, d.f_obs, m);
      SameNumber("centred 81 days observed", g.Ctr81_obs, d.c_obs, m);
      SameNumber("last 81 days observed", g.Lst81_obs, d.l_obs, m);
      m.ev("table rows");
    }
    // the model is asked with the values of the day
    for (int k = 0; k < 6; k++) {
      const double t = k == 0 ? 0 : k == 1 ? length : r.u(0, length);
      const double when = fraction + t / 86400;
      const int64_t day = start + (int64_t)std::floor(when);
      const double f = when - std::floor(when);
      if (f < 2e-6 || f > 1 - 2e-6 || day >= updated + 40) continue;
      const double lat = r.u(-1.57, 1.57), lon = r.u(-3.14, 3.14), alt = r.u(1e5, 1e6), dy = decyear(day, f);
      m.begin("day %d/%d/%d + %.9g, lat %.6g lon %.6g alt %.6g (table from %d/%d/%d, updated %d/%d/%d)", date(day)[0], date(day)[1], date(day)[2], f, lat, lon, alt, date(first)[0], date(first)[1],
              date(first)[2], u[0], u[1], u[2]);
      const bool manual = r.b(0.2);
      const double mf = r.u(60, 250), mfa = r.u(60, 250), map = r.u(0, 100);
      const int calls = verif_nrlmsise_calls;
      const double rho = CalcNRLMSISE00(dy, lat, lon, alt, got, manual, mf, mfa, map);
      const auto& in = verif_last_nrlmsise_input;
      m.check(verif_nrlmsise_calls == calls + 1 && std::isfinite(rho) && rho >= 0, "nrlmsise-value", "density %.9g", rho);
      const Day& d = table[(size_t)(day - first)];
      if (!manual && dated) {
        m.close(in.f107, d.f_adj, 1e-9, "nrlmsise-f107", "F10.7");
        m.close(in.f107A, d.c_adj, 1e-9, "nrlmsise-f107a", "average F10.7");
        m.close(in.ap, d.ap, 1e-9, "nrlmsise-ap", "Ap");
        m.ev("days looked up");
      } else if (manual) {
        m.check(in.f107 == mf && in.f107A == mfa && in.ap == map, "nrlmsise-manual", "manual values %.9g %.9g %.9g became %.9g %.9g %.9g", mf, mfa, map, in.f107, in.f107A, in.ap);
      }
      auto q2 = date(day);
      m.check(in.doy == (int)(day - civil::days(q2[0], 1, 1)) + 1, "nrlmsise-doy", "day of year %d for %d/%d/%d", in.doy, q2[0], q2[1], q2[2]);
      m.close(in.sec, f * 86400, 1.01, "nrlmsise-sec", "seconds of the day");
      m.close(in.alt, alt / 1000, 1e-9, "nrlmsise-alt", "altitude [km]");
      m.close(in.g_lat, lat * 180 / M_PI, 1e-9, "nrlmsise-lat", "latitude [deg]");
      m.close(in.g_long, lon * 180 / M_PI, 1e-9, "nrlmsise-lon", "longitude [deg]");
      m.close(in.lst, in.sec / 3600 + lon * 12 / M_PI, 1e-9, "nrlmsise-lst", "local time [h]");
    }
  }
  std::vector<nrlmsise_table> none;
  world::Quiet q;
  m.check(GetSpaceWeatherTable_(2020.5, 100, "missing.txt", none) == 0 && none.empty(), "space-weather-missing", "a missing file gives rows");
  m.check(CalcNRLMSISE00(2020.5, 0, 0, 4e5, none, false, 150, 150, 3) == 0, "space-weather-empty", "density without a table");
  m.require("table rows", 1000);
  m.require("days looked up", 500);
}

GROUP(world) {
  const std::vector<std::string> models = {"STANDARD", "HARRIS_PRIESTER", "NRLMSISE00", "NRLMSISE00", "NONE"};
  for (long c = 0; c < m.n(25, 200); c++) {
    auto& r = m.rng;
    const std::string model = models[(size_t)(c % (long)models.size())];
    const bool on = r.b(0.9), manual = r.b();
    world::Settings st(1);
    st.Times(r.pick(std::vector<double>{1, 10, 30}), 1e5, mon::F("2022/%d/%d %02d:%02d:%06.3f", (int)r.i(2, 11), (int)r.i(1, 28), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59)));
    st.NoNoise(0);
    st.NoDisturbance(0);
    std::ofstream sw("sw.txt");
    sw << "UPDATED 2022 Dec 20\n";
    std::map<int64_t, Day> days;
    for (int64_t d = civil::days(2021, 12, 1); d < civil::days(2023, 2, 1); d++) {
      int y, mo, da;
      civil::fromdays(d, y, mo, da);
      Day x = RandomDay(r, y, mo, da);
      days[d] = x;
      sw << Row(x) << "\n";
    }
    sw.close();
    st.Local(0, "ATMOSPHERE", "calculation", on ? "ENABLE" : "DISABLE");
    st.Local(0, "ATMOSPHERE", "model", model);
    st.Local(0, "ATMOSPHERE", "nrlmsise00_table_file", "sw.txt");
    st.Local(0, "ATMOSPHERE", "is_manual_parameter_used", manual ? "ENABLE" : "DISABLE");
    const double f = r.b(0.2) ? r.u(0, 49) : r.u(60, 250), fa = r.b(0.2) ? r.u(0, 49) : r.u(60, 250), ap = r.u(0, 100);
    st.Local(0, "ATMOSPHERE", "manual_daily_f107", world::D(f));
    st.Local(0, "ATMOSPHERE", "manual_average_f107", world::D(fa));
    st.Local(0, "ATMOSPHERE", "manual_ap", world::D(ap));
    const V3 p0 = (L)r.u(6.5e6, 7.3e6) * gen::dir(r);
    const V3 t = ref::unit(ref::cross_(p0, V3{0.3L, 0.5L, -0.8L}));
    st.Orbit(0, p0, sqrtl(3.986004418e14L / ref::norm(p0)) * t);
    m.begin("world model %s on=%d manual=%d start position %s", model.c_str(), on, manual, S(p0).c_str());
    m.distinct(m.context_);
    world::World wd(st);
    const auto& air = wd.sc[0]->Local().GetAtmosphere();
    for (int k = 0; k < 20; k++) {
      const GeodeticPosition g = wd.sc[0]->Dyn().GetOrbit().GetGeodeticPosition();
      wd.Step();
      const double rho = air.GetAirDensity_kg_m3();
      m.check(std::isfinite(rho) && rho >= 0, "world-range", "density %.9g", rho);
      if (!on || model == "NONE") {
        m.check(rho == 0, "world-off", "density %.9g although nothing is calculated", rho);
        continue;
      }
      m.ev("steps with " + model + (model == "NRLMSISE00" && manual ? " manual" : ""));
      if (model == "STANDARD") m.close(rho, CalcAirDensityWithSimpleModel(g.GetAltitude_m()), rho * 1e-12, "world-standard", "density in a run");
      if (model == "HARRIS_PRIESTER") {
        const auto& info = wd.global->GetCelestialInformation();
        const V3 sun = ref::m(info.GetEarthRotation().GetDcmJ2000ToEcef()) * v(info.GetPositionFromCenter_i_m("SUN"));
        const double want = (double)HarrisPriester((L)g.GetAltitude_m() / 1000, v(g.CalcEcefPosition()), sun, 4).value;
        m.close(rho, want, want * 1e-6, "world-harris-priester", "density in a run");
      }
      if (model == "NRLMSISE00") {
        const auto& in = verif_last_nrlmsise_input;
        m.close(in.alt, g.GetAltitude_m() / 1000, 1e-9, "world-nrlmsise-alt", "altitude");
        m.close(in.g_lat, g.GetLatitude_rad() * 180 / M_PI, 1e-9, "world-nrlmsise-lat", "latitude");
        m.close(in.g_long, g.GetLongitude_rad() * 180 / M_PI, 1e-9, "world-nrlmsise-lon", "longitude");
        const double jd = wd.Time().GetCurrentTime_jd() - 2440587.5;
        const int64_t day = (int64_t)std::floor(jd);
        const double sec = (jd - std::floor(jd)) * 86400;
        if (sec > 3 && sec < 86397) {
          m.close(in.sec, sec, 2, "world-nrlmsise-sec", "seconds of the day");
          m.check(in.doy == (int)(day - civil::days(2022, 1, 1)) + 1, "world-nrlmsise-doy", "day of year %d", in.doy);
          if (manual)
            m.check(in.f107 == (f < 50 ? 150 : f) && in.f107A == (fa < 50 ? 150 : fa) && in.ap == ap, "world-nrlmsise-manual", "manual values became %.9g %.9g %.9g", in.f107, in.f107A, in.ap);
          else
            m.check(std::fabs(in.f107 - days[day].f_adj) < 1e-9 && std::fabs(in.f107A - days[day].c_adj) < 1e-9 && in.ap == days[day].ap, "world-nrlmsise-table", "table values became %.9g %.9g %.9g",
                    in.f107, in.f107A, in.ap);
        }
      }
      const double logged = atof(air.GetLogValue().c_str());
      m.close(logged, rho, 1e-5 * rho, "world-log", "logged density");
    }
  }
  for (const char* e : {"steps with STANDARD", "steps with HARRIS_PRIESTER", "steps with NRLMSISE00", "steps with NRLMSISE00 manual"}) m.require(e, 19);
}

// Noise: zero mean, the configured relative deviation, never negative, and it is the density that is used
// There is neither air nor the field of the Earth around another body, whatever the settings say
GROUP(other_centre) {
  for (long c = 0; c < m.n(20, 150); c++) {
    auto& r = m.rng;
    const std::string centre = r.pick(std::vector<std::string>{"MOON", "MOON", "EARTH"});
    const bool earth = centre == "EARTH";
    world::Settings st(1);
    st.Times(r.pick(std::vector<double>{1, 10}), 1e5);
    st.NoNoise(0), st.NoDisturbance(0);
    st.B("CELESTIAL_INFORMATION", "center_object", centre);
    const std::string model = r.pick(std::vector<std::string>{"STANDARD", "HARRIS_PRIESTER"});
    st.Local(0, "ATMOSPHERE", "calculation", "ENABLE"), st.Local(0, "ATMOSPHERE", "model", model);
    st.Local(0, "MAGNETIC_FIELD", "calculation", "ENABLE");
    st.Dist(0, "AIR_DRAG", "calculation", "ENABLE"), st.Dist(0, "MAGNETIC_DISTURBANCE", "calculation", "ENABLE");
    const double radius = earth ? r.u(6.6e6, 7e6) : r.u(1.8e6, 6.9e6);
    const V3 p0 = (L)radius * gen::dir(r), t = ref::unit(ref::cross_(p0, V3{0.3L, 0.5L, -0.8L}));
    st.Orbit(0, p0, sqrtl((earth ? 3.986e14L : 4.9e12L) / ref::norm(p0)) * t);
    m.begin("around %s, %s, start position %s", centre.c_str(), model.c_str(), S(p0).c_str());
    m.distinct(m.context_);
    world::World wd(st);
    for (int k = 0; k < 10; k++) {
      wd.Step();
      const double rho = wd.sc[0]->Local().GetAtmosphere().GetAirDensity_kg_m3();
      const V3 b = v(wd.sc[0]->Local().GetGeomagneticField().GetGeomagneticField_i_nT()), bb = v(wd.sc[0]->Local().GetGeomagneticField().GetGeomagneticField_b_nT());
      const V3 force = v(wd.sc[0]->Dist().GetForce_b_N()), torque = v(wd.sc[0]->Dist().GetTorque_b_Nm());
      if (earth) {
        m.check(rho > 0 && ref::norm(b) > 1e4 && ref::norm(force) > 0, "centre:earth", "around the Earth: density %.6g, field %s", rho, S(b).c_str());
        m.ev("earth centre");
        continue;
      }
      m.check(rho == 0, "centre:density", "air density %.9g around %s", rho, centre.c_str());
      m.check(ref::norm(b) == 0 && ref::norm(bb) == 0, "centre:field", "geomagnetic field %s around %s", S(b).c_str(), centre.c_str());
      m.check(ref::norm(force) == 0 && ref::norm(torque) == 0, "centre:disturbance", "drag %s and torque %s around %s", S(force).c_str(), S(torque).c_str(), centre.c_str());
      m.ev("another centre");
    }
  }
  m.require("another centre", 50), m.require("earth centre", 10);
}

GROUP(noise) {
  for (long c = 0; c < m.n(6, 40); c++) {
    auto& r = m.rng;
    const double rate = c == 0 ? 0 : c == 1 ? 2.0 : r.pick(std::vector<double>{0.01, 0.05, 0.1, 0.15, 0.8, 2.0});
    world::Settings st(1);
    st.Times(1, 1e5);
    st.NoNoise(0);
    st.NoDisturbance(0);
    st.Local(0, "ATMOSPHERE", "air_density_standard_deviation", world::D(rate));
    st.Orbit(0, {6.8e6L, 0, 0}, {0, 7656.0L, 0});
    st.B("RANDOMIZE", "rand_seed", "0x11223344");
    m.begin("noise of %g", rate);
    m.distinctv({rate, (double)c});
    world::World wd(st);
    s2e::randomization::global_randomization.SetSeed((long)r.i(1, 1000000));
    const auto& air = wd.sc[0]->Local().GetAtmosphere();
    const long n = m.n(1500, 8000);
    L sum = 0, sq = 0, serial = 0, last = 0;
    long differs = 0;
    for (long k = 0; k < n; k++) {
      const GeodeticPosition g = wd.sc[0]->Dyn().GetOrbit().GetGeodeticPosition();
      wd.global->Update();
      wd.sc[0]->Local().Update(&wd.sc[0]->Dyn(), &wd.Time());  // the place stays
      const double rho = air.GetAirDensity_kg_m3(), base = CalcAirDensityWithSimpleModel(g.GetAltitude_m());
      m.check(std::isfinite(rho) && rho >= 0, "noise-range", "density %.9g", rho);
      const L e = (L)rho / base - 1;
      sum += e, sq += e * e, serial += e * last, last = e;
      if (rho != base) differs++;
      m.ev("noisy densities");
    }
    if (rate == 0) {
      m.check(differs == 0, "noise-zero", "%ld densities differ from the model without noise", differs);
    } else if (rate < 0.5) {
      const double s = sqrt((double)n);
      m.check(fabsl(sum / n) < 6 * rate / s, "noise-mean", "mean error %.4Lg with a deviation of %g", sum / n, rate);
      m.check(fabsl(sqrtl(sq / n) / rate - 1) < 6 / s / 1.41 + 0.01, "noise-deviation", "deviation %.4Lg, configured %g", sqrtl(sq / n), rate);
      m.check(fabsl(serial / n) < 6 * rate * rate / s, "noise-serial", "serial correlation %.4Lg", serial / n / rate / rate);
    }
  }
}
