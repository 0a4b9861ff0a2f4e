// C31: ground stations, antennas and links
#include "component.hpp"
//
#include <components/real/communication/antenna.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/ground_station/ground_station.hpp>
using namespace s2e::components;
using ref::v;
static const L PI = 3.14159265358979323846L;

// Place of a station in the frame that turns with the Earth, and its vertical
static V3 Vertical(L lat, L lon) { return {cosl(lat) * cosl(lon), cosl(lat) * sinl(lon), sinl(lat)}; }
static V3 Place(L lat, L lon, L h) {
  const L a = 6378136.6L, f = 3.352797e-3L, e2 = f * (2 - f), n = a / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
  return {(n + h) * cosl(lat) * cosl(lon), (n + h) * cosl(lat) * sinl(lon), (n * (1 - e2) + h) * sinl(lat)};
}
static M3 East(L lat, L lon) {  // to east, north, up
  const V3 rows[3] = {{-sinl(lon), cosl(lon), 0}, {-sinl(lat) * cosl(lon), -sinl(lat) * sinl(lon), cosl(lat)}, Vertical(lat, lon)};
  M3 m;
  for (int i = 0; i < 3; i++) m[i][0] = rows[i].x, m[i][1] = rows[i].y, m[i][2] = rows[i].z;
  return m;
}
struct Site {
  L lat, lon, h;
  double limit;
};
// One settings file per station, with all that the simulator documents
struct Stations {
  std::vector<Site> site;
  std::vector<std::string> files;
  std::vector<std::unique_ptr<s2e::ground_station::GroundStation>> gs;
  // The files only
  Stations(mon::Rng& g, int n) {
    for (int k = 0; k < n; k++) {
      Site s{g.b(0.1) ? (g.b() ? 89.5L : -89.5L) : (L)g.u(-85, 85), (L)g.u(-180, 360), (L)g.u(-100, 5000), g.b(0.2) ? 0.0 : g.b(0.3) ? g.u(-10, 0) : g.u(0, 60)};
      const std::string f = "settings/station" + std::to_string(k) + ".ini", sec = "GROUND_STATION_" + std::to_string(k);
      std::ofstream(f) << "[" << sec << "]\nlatitude_deg = " << world::D((double)s.lat) << "\nlongitude_deg = " << world::D((double)s.lon) << "\nheight_m = " << world::D((double)s.h)
                       << "\nelevation_limit_angle_deg = " << world::D(s.limit) << "\n";
      files.push_back(f);
      s.lat *= PI / 180, s.lon *= PI / 180;
      site.push_back(s);
    }
  }
  Stations(mon::Rng& g, world::World& W, int n) : Stations(g, n) {
    W.config.ground_station_file_list_ = files;
    W.config.number_of_simulated_ground_station_ = (unsigned)n;
    Make(W.config);
  }
  void Make(const s2e::simulation::SimulationConfiguration& c) {
    world::Quiet q;
    for (size_t k = 0; k < site.size(); k++) gs.push_back(std::make_unique<s2e::ground_station::GroundStation>(&c, (unsigned)k));
  }
  void Update(world::World& W) {
    for (auto& g : gs)
      for (auto& c : W.sc) g->Update(W.global->GetCelestialInformation().GetEarthRotation(), *c);
  }
};
static world::Settings Fleet(mon::Mon& m, int n, double step) {
  auto& g = m.rng;
  world::Settings s(n);
  s.Times(step, 1e7, Start(g));
  for (int i = 0; i < n; i++) {
    const L a = 6378137.0L + g.logu(4e5, 3e7);
    const V3 e1 = gen::dir(g), e2 = ref::unit(ref::cross_(e1, gen::dir(g) + V3{0.001L, 0.002L, 0.003L}));
    s.Orbit(i, a * e1, sqrtl(3.986e14L / a) * (L)g.u(1.0, 1.1) * e2, "KEPLER");
    s.Attitude(i, gen::quat(g), V3{g.n() * 0.01, g.n() * 0.01, g.n() * 0.01});
    s.NoNoise(i);
    s.NoDisturbance(i);
    s.B("TIME", "attitude_integral_step_s", std::min(1.0, step));
  }
  return s;
}

static void Seen(mon::Mon& m, Stations& st, int k, const M3& e, const std::vector<V3>& sc) {
  const Site& s = st.site[(size_t)k];
  auto& gs = *st.gs[(size_t)k];
  const V3 p = Place(s.lat, s.lon, s.h), up = Vertical(s.lat, s.lon);
  m.check(ref::norm(v(gs.GetPosition_ecef_m()) - p) < 0.01L, "station:place", "station %d is at %s instead of %s", k, S(v(gs.GetPosition_ecef_m())).c_str(), S(p).c_str());
  m.check(ref::norm(v(gs.GetPosition_i_m()) - ref::T(e) * p) < 0.01L, "station:inertial", "station %d is at %s in the inertial frame instead of %s", k, S(v(gs.GetPosition_i_m())).c_str(), S(ref::T(e) * p).c_str());
  m.check(gs.GetElevationLimitAngle_deg() == s.limit, "station:limit", "limit of station %d is %g instead of %g deg", k, gs.GetElevationLimitAngle_deg(), s.limit);
  for (size_t i = 0; i < sc.size(); i++) {
    const V3 d = e * sc[i] - p;
    const L el = asinl(ref::dot_(d, up) / ref::norm(d)) * 180 / PI;
    if (fabsl(el - s.limit) > 1e-4L) {
      m.check(gs.IsVisible((unsigned)i) == (el > s.limit), "station:visible", "spacecraft %d at the elevation %.6Lf deg is%s visible from station %d with the limit %.6f", (int)i, el, gs.IsVisible((unsigned)i) ? "" : " not", k, s.limit);
      m.ev(el > s.limit ? "above" : "below");
      if (fabsl(el - s.limit) < 2) m.ev("near the limit");
      if (s.limit < 0 && fabsl(el) < -s.limit) m.ev("below the horizontal");
    }
    m.distinctv({(double)el, (double)s.lat});
  }
}

GROUP(visibility) {
  const long worlds = m.n(12, 100);
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    const int n = (int)g.i(1, 3), stations = (int)g.i(1, 4);
    world::World W(Fleet(m, n, g.pick(std::vector<double>{10, 30, 60})));
    Stations st(g, W, stations);
    m.begin("%d spacecraft, %d stations", n, stations);
    for (long t = 0; t < m.n(400, 1500); t++) {
      W.Step();
      st.Update(W);
      const M3 e = ref::m(W.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      std::vector<V3> where;
      for (auto& c : W.sc) where.push_back(v(c->Dyn().GetOrbit().GetPosition_i_m()));
      for (int k = 0; k < stations; k++) {
        auto& gs = *st.gs[(size_t)k];
        Seen(m, st, k, e, where);
        if (t % 20 == 0) {
          std::vector<std::string> head, value;
          std::stringstream hs(gs.GetLogHeader()), vs(gs.GetLogValue());
          for (std::string x; std::getline(hs, x, ',');) head.push_back(x);
          for (std::string x; std::getline(vs, x, ',');) value.push_back(x);
          if (m.check(head.size() == (size_t)n + 3 && value.size() == head.size(), "station:columns", "%zu columns, %zu values", head.size(), value.size()))
            for (int i = 0; i < n; i++)
              m.check(head[i] == mon::F("ground_station%d_sc%d_visible_flag", k, i) && atoi(value[i].c_str()) == (gs.IsVisible((unsigned)i) ? 1 : 0), "station:log", "column %s with %s", head[i].c_str(), value[i].c_str());
        }
      }
    }
  }
  m.require("above", 300);
  m.require("below", 3000);
  m.require("near the limit", 100);
  m.require("below the horizontal", 20);
}

// A whole run described by its settings file: the stations are the ones listed there, in that order
struct Run : s2e::simulation::SimulationCase {
  mon::Mon& m;
  Stations& st;
  std::vector<std::unique_ptr<world::Sc>> sc;
  std::unique_ptr<s2e::simulation::RelativeInformation> rel;
  long steps = 0;
  Run(mon::Mon& m_, Stations& s, const std::string& base) : SimulationCase(base), m(m_), st(s) {}
  ~Run() {
    while (!sc.empty()) sc.pop_back();
  }
  void InitializeTargetObjects() override {
    auto& c = simulation_configuration_;
    rel = std::make_unique<s2e::simulation::RelativeInformation>();
    for (unsigned i = 0; i < c.number_of_simulated_spacecraft_; i++) sc.push_back(std::make_unique<world::Sc>(&c, global_environment_, (int)i, rel.get()));
    m.check(c.number_of_simulated_ground_station_ == st.site.size() && c.ground_station_file_list_.size() >= st.site.size(), "run:stations", "%u stations with %zu files instead of %zu", c.number_of_simulated_ground_station_,
            c.ground_station_file_list_.size(), st.site.size());
    st.Make(c);
  }
  void UpdateTargetObjects() override {
    std::vector<V3> where;
    for (auto& s : sc) s->Update(&global_environment_->GetSimulationTime()), where.push_back(v(s->Dyn().GetOrbit().GetPosition_i_m()));
    auto& er = global_environment_->GetCelestialInformation().GetEarthRotation();
    for (size_t k = 0; k < st.gs.size(); k++) {
      for (auto& s : sc) st.gs[k]->Update(er, *s);
      Seen(m, st, (int)k, ref::m(er.GetDcmJ2000ToEcef()), where);
    }
    steps++;
  }
};
GROUP(run) {
  for (long w = 0; w < m.n(4, 40); w++) {
    auto& g = m.rng;
    const int n = (int)g.i(1, 2), stations = (int)g.i(1, 4);
    world::Settings s = Fleet(m, n, 30);
    s.B("TIME", "simulation_duration_s", 6000.0);
    s.B("TIME", "simulation_speed_setting", 0.0);
    Stations st(g, stations);
    s.B("SIMULATION_SETTINGS", "number_of_simulated_ground_station", (double)stations);
    for (int k = 0; k < stations; k++) s.B("SIMULATION_SETTINGS", "ground_station_file(" + std::to_string(k) + ")", "SETTINGS_DIR_FROM_EXE/station" + std::to_string(k) + ".ini");
    m.begin("run with %d spacecraft and %d stations", n, stations);
    world::Quiet q;
    Run r(m, st, s.base);
    r.Initialize();
    r.Main();
    m.check(r.steps >= 199 && r.steps <= 201, "run:steps", "%ld steps instead of 200", r.steps);
    m.ev("runs");
  }
  m.require("above", 50);
  m.require("below", 500);
}

// ---------- antennas ----------
struct Pattern {
  bool table = false;
  double isotropic = 0, base = 0, slope = 0;
  V3 dir;
  size_t nt = 360, np = 181;
  double tmax = 6.283185307179586, pmax = 3.141592653589793;
  bool axial = false;
  std::string file;
  L True(V3 d) const {  // of a unit vector in the frame of the antenna
    return table ? base + slope * (axial ? d.z : ref::dot_(d, dir)) : isotropic;
  }
  L Error() const { return table ? slope * 1.7L * (tmax / (L)nt + (axial ? 0 : pmax / (L)np)) + 1e-9L : 1e-9L; }
};
static Pattern RandomPattern(mon::Rng& g, const std::string& name, bool table) {
  Pattern p;
  p.table = table;
  p.isotropic = g.u(-5, 45), p.base = g.u(-20, 30), p.slope = g.u(5, 20), p.dir = gen::dir(g);
  p.file = name;
  switch (g.i(0, 3)) {
    case 0: break;
    case 1: p.nt = 72, p.np = 37; break;
    case 2: p.nt = 180, p.np = 360, p.tmax = (double)PI, p.pmax = 6.283185307179586; break;
    default: p.nt = 181, p.np = 1, p.tmax = (double)PI, p.axial = true;
  }
  if (table) {
    std::ofstream out(name);
    for (size_t i = 0; i < p.nt; i++) {
      std::string line;
      for (size_t j = 0; j < p.np; j++) {
        // both ends are in the table when the number of angles is odd
        const L th = p.tmax * (L)i / (L)(p.nt % 2 ? p.nt - 1 : p.nt), ph = p.np == 1 ? 0 : p.pmax * (L)j / (L)(p.np % 2 ? p.np - 1 : p.np);
        line += (j ? "," : "") + mon::F("%.9f", (double)p.True({sinl(th) * cosl(ph), sinl(th) * sinl(ph), cosl(th)}));
      }
      out << line << "\n";
    }
  }
  return p;
}
struct Ant {
  Quat q;
  bool tx, rx;
  double mhz, bitrate, watt, noise;
  Pattern p[2];
  double feeder[2], pointing[2];
  L TxEirp(V3 d) const { return 10 * log10l(watt) + feeder[0] + pointing[0] + p[0].True(d); }
  L RxGt(V3 d) const { return feeder[1] + pointing[1] - 10 * log10l(noise) + p[1].True(d); }
  Antenna Make(int id, const std::string& file) const {
    std::string t = "[ANTENNA_" + std::to_string(id) + "]\n";
    auto put = [&](const std::string& k, double x) { t += k + " = " + world::D(x) + "\n"; };
    for (int k = 0; k < 4; k++) put("quaternion_b2c(" + std::to_string(k) + ")", q[(size_t)k]);
    t += std::string("is_transmitter = ") + (tx ? "1" : "0") + "\nis_receiver = " + (rx ? "1" : "0") + "\n";
    put("frequency_MHz", mhz), put("tx_bitrate_bps", bitrate), put("tx_output_W", watt), put("rx_system_noise_temperature_K", noise);
    for (int k = 0; k < 2; k++) {
      const std::string n = k ? "rx_" : "tx_";
      put(n + "loss_feeder_dB", feeder[k]), put(n + "loss_pointing_dB", pointing[k]), put(n + "gain_dBi", p[k].isotropic);
      t += n + "antenna_gain_model = " + (p[k].table ? "RADIATION_PATTERN_CSV" : "ISOTROPIC") + "\n" + n + "antenna_radiation_pattern_file = " + p[k].file + "\n";
      t += n + "length_theta = " + std::to_string(p[k].nt) + "\n" + n + "length_phi = " + std::to_string(p[k].np) + "\n";
      put(n + "theta_max_rad", p[k].tmax), put(n + "phi_max_rad", p[k].pmax);
    }
    std::ofstream(file) << t;
    world::Quiet quiet;
    return InitAntenna(id, file);
  }
};
static Ant RandomAnt(mon::Rng& g, const std::string& name, bool table) {
  Ant a;
  a.q = toq(gen::quat(g));
  a.tx = a.rx = true;
  a.mhz = g.logu(100, 30000), a.bitrate = g.logu(1e2, 1e9), a.watt = g.logu(0.01, 100), a.noise = g.u(50, 1000);
  for (int k = 0; k < 2; k++) a.p[k] = RandomPattern(g, name + (k ? "_rx.csv" : "_tx.csv"), table), a.feeder[k] = -g.u(0, 3), a.pointing[k] = -g.u(0, 3);
  return a;
}

GROUP(antennas) {
  const long n = m.n(60, 400);
  for (long w = 0; w < n; w++) {
    auto& g = m.rng;
    const Ant a = RandomAnt(g, "pattern", w % 3 != 0);
    Antenna x = a.Make((int)g.i(0, 9), "antenna.ini");
    m.begin("antenna with %s", w % 3 ? mon::F("a table of %zu x %zu up to %.3f and %.3f", a.p[0].nt, a.p[0].np, a.p[0].tmax, a.p[0].pmax).c_str() : "constant gain");
    m.check(x.IsTransmitter() && x.IsReceiver() && x.GetFrequency_MHz() == a.mhz && x.GetBitrate_bps() == a.bitrate, "antenna:settings", "settings differ");
    for (int k = 0; k < 300; k++) {
      V3 d = gen::dir(g);
      if (g.b(0.05)) d = g.b() ? V3{0, 0, 1} : V3{0, 0, -1};
      const double th = (double)acosl(d.z), ph = (double)atan2l(d.y, d.x);
      const double e = x.CalcTxEirp_dBW(th, ph), r = x.CalcRxGt_dB_K(th, ph);
      m.check(fabsl(e - a.TxEirp(d)) <= a.p[0].Error(), "antenna:eirp", "%.6f dBW instead of %.6Lf towards theta %.6f phi %.6f", e, a.TxEirp(d), th, ph);
      m.check(fabsl(r - a.RxGt(d)) <= a.p[1].Error(), "antenna:gt", "%.6f dB/K instead of %.6Lf towards theta %.6f phi %.6f", r, a.RxGt(d), th, ph);
      m.ev(a.p[0].table ? "table directions" : "directions");
      m.distinctv({th, ph});
    }
    // the constructor with vectors is the isotropic antenna
    s2e::math::Vector<5> tp;
    s2e::math::Vector<4> rp;
    tp[0] = a.watt, tp[1] = a.p[0].isotropic, tp[2] = a.feeder[0], tp[3] = a.pointing[0], tp[4] = a.bitrate;
    rp[0] = a.p[1].isotropic, rp[1] = a.feeder[1], rp[2] = a.pointing[1], rp[3] = a.noise;
    mon::InUsedMemory<Antenna> old(1, a.q, true, true, a.mhz, tp, rp);
    Antenna& y = *old;
    const double e = y.CalcTxEirp_dBW(0.3, 0.1), r = y.CalcRxGt_dB_K(0.3, 0.1);
    m.check(fabs(e - (10 * log10(a.watt) + a.feeder[0] + a.pointing[0] + a.p[0].isotropic)) < 1e-9 && fabs(r - (a.feeder[1] + a.pointing[1] - 10 * log10(a.noise) + a.p[1].isotropic)) < 1e-9, "antenna:vectors", "%.9f dBW %.9f dB/K", e, r);
    m.check(y.GetFrequency_MHz() == a.mhz && y.GetBitrate_bps() == a.bitrate, "antenna:vector settings", "settings differ");
  }
  m.require("table directions", 5000);
}

GROUP(links) {
  const long worlds = m.n(24, 200);
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    world::World W(Fleet(m, 1, 30));
    Stations st(g, W, 1);
    const Site& s = st.site[0];
    const bool table = w % 2;
    Ant sa = RandomAnt(g, "sc", table), ga = RandomAnt(g, "gs", table);
    const int wrong = (int)(w % 6 == 0 ? g.i(1, 2) : 0);
    if (wrong == 1) sa.tx = false;
    if (wrong == 2) ga.rx = false;
    Antenna sx = sa.Make(1, "sc.ini"), gx = ga.Make(1, "gs.ini");
    const double pol = -g.u(0, 3), atm = -g.u(0, 3), rain = -g.u(0, 3), other = -g.u(0, 3), ebn0 = g.u(3, 15), hard = g.u(0, 3), code = -g.u(0, 9), req = g.u(-4, 6);
    std::ofstream("calc.ini") << "[GROUND_STATION_CALCULATOR]\nloss_polarization_dB = " << world::D(pol) << "\nloss_atmosphere_dB = " << world::D(atm) << "\nloss_rainfall_dB = " << world::D(rain)
                              << "\nloss_others_dB = " << world::D(other) << "\nebn0_dB = " << world::D(ebn0) << "\nhardware_deterioration_dB = " << world::D(hard) << "\ncoding_gain_dB = " << world::D(code)
                              << "\nmargin_requirement_dB = " << world::D(req) << "\ndownlink_bitrate_bps = " << world::D(sa.bitrate) << "\n";
    GroundStationCalculator calc = InitGsCalculator("calc.ini");
    m.check(calc.GetMaxBitrate_Mbps() == 0 && calc.GetReceiveMargin_dB() <= -1000, "link:initial", "bitrate %g, margin %g", calc.GetMaxBitrate_Mbps(), calc.GetReceiveMargin_dB());
    m.begin("link at %.1f MHz with %s%s", sa.mhz, table ? "tables" : "constant gains", wrong ? " and an antenna that does not fit" : "");
    for (long t = 0; t < 300; t++) {
      W.Step();
      auto& dyn = W.sc[0]->Dyn();
      const M3 e = ref::m(W.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      // most of the time the station has the spacecraft in view: it is put below it
      const V3 r = v(dyn.GetOrbit().GetPosition_i_m());
      const M3 a = ref::rotq(sa.q);
      for (int trial = 0; trial < 3; trial++) {
        st.Update(W);
        Quat q = toq(gen::quat(g));
        bool aimed = false;
        if (trial == 2) {  // the antenna looks exactly at the station, up to rounding
          const V3 to = ref::unit(v(st.gs[0]->GetPosition_i_m()) - r), x = ref::unit(ref::cross_(to, gen::dir(g))), y = ref::cross_(to, x);
          // rows of inertial to component are x, y, to; the body is behind the component
          M3 c;
          const V3 rows[3] = {x, y, to};
          for (int i = 0; i < 3; i++) c[i][0] = rows[i].x, c[i][1] = rows[i].y, c[i][2] = rows[i].z;
          const M3 b = ref::T(a) * c;
          s2e::math::Matrix<3, 3> d;
          for (size_t i = 0; i < 3; i++)
            for (size_t j = 0; j < 3; j++) d[i][j] = (double)b[(int)i][(int)j];
          q = Quat::ConvertFromDcm(d);
          aimed = true;
        }
        dyn.SetAttitude().SetQuaternion_i2b(q);
        calc.Update(*W.sc[0], sx, *st.gs[0], gx);
        const double rate = calc.GetMaxBitrate_Mbps(), margin = calc.GetReceiveMargin_dB();
        if (!st.gs[0]->IsVisible(0)) {
          m.check(rate == 0 && margin <= -1000, "link:hidden", "bitrate %g and margin %g without visibility", rate, margin);
          m.ev("hidden");
          continue;
        }
        if (wrong) {
          m.check(rate == 0 && margin < 0, "link:incompatible", "bitrate %g and margin %g with an antenna that does not fit", rate, margin);
          m.ev("incompatible");
          continue;
        }
        const V3 pe = Place(s.lat, s.lon, s.h), gi = ref::T(e) * pe, d = r - gi;
        const V3 ds = a * (ref::rotq(q) * ref::unit(-d)), dg = ref::rotq(ga.q) * (East(s.lat, s.lon) * ref::unit(e * d));
        const L space = -20 * log10l(4 * PI * ref::norm(d) / (299792458.0L / (sa.mhz * 1e6L)));
        const L cn0 = sa.TxEirp(ds) + space + pol + atm + rain + other + ga.RxGt(dg) - 10 * log10l(1.380649e-23L);
        const L tol = 0.02L + sa.p[0].Error() + ga.p[1].Error();
        const L wm = cn0 - (ebn0 + hard + code + 10 * log10l(sa.bitrate)), wb = cn0 - (ebn0 + hard + code) - req;
        m.check(fabsl(margin - wm) <= tol, aimed ? "link:margin on the axis" : "link:margin", "margin %.4f dB instead of %.4Lf (tolerance %.4Lf)", margin, wm, tol);
        if (wb > tol) m.check(rate > 0 && fabsl(10 * log10l(rate * 1e6L) - wb) <= tol, "link:bitrate", "bitrate %.6g Mbps instead of %.6Lg", rate, powl(10, wb / 10) / 1e6L);
        if (wb < -tol) m.check(rate == 0, "link:no bitrate", "bitrate %.6g Mbps with a margin below the requirement", rate);
        std::vector<std::string> value;
        std::stringstream vs(calc.GetLogValue());
        for (std::string x; std::getline(vs, x, ',');) value.push_back(x);
        m.check(value.size() == 2 && fabs(atof(value[0].c_str()) - rate) <= 1e-5 * fabs(rate) && fabs(atof(value[1].c_str()) - margin) <= 1e-5 * fabs(margin), "link:log", "logged %s", calc.GetLogValue().c_str());
        m.ev(aimed ? "aimed links" : "links");
        m.distinctv({margin, rate});
      }
      // another station place now and then, near the point below the spacecraft
      if (t % 10 == 9) {
        const V3 f = ref::unit(e * r);
        Site z{asinl(f.z) * 180 / PI + (L)g.u(-6, 6), atan2l(f.y, f.x) * 180 / PI + (L)g.u(-6, 6), (L)g.u(0, 1000), g.u(0, 10)};
        z.lat = std::min(89.0L, std::max(-89.0L, z.lat));
        std::ofstream("settings/station0.ini") << "[GROUND_STATION_0]\nlatitude_deg = " << world::D((double)z.lat) << "\nlongitude_deg = " << world::D((double)z.lon) << "\nheight_m = " << world::D((double)z.h)
                                               << "\nelevation_limit_angle_deg = " << world::D(z.limit) << "\n";
        world::Quiet quiet;
        st.gs[0] = std::make_unique<s2e::ground_station::GroundStation>(&W.config, 0u);
        z.lat *= PI / 180, z.lon *= PI / 180;
        st.site[0] = z;
      }
    }
  }
  m.require("links", 2000);
  m.require("aimed links", 1000);
  m.require("hidden", 300);
  m.require("incompatible", 200);
}
