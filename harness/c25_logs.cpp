// C25: log files
#include "component.hpp"
//
#include <iomanip>
#include <logger/initialize_log.hpp>
#include <logger/log_utility.hpp>
#include <math_physics/randomization/global_randomization.hpp>
#include <simulation/case/sample_case.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <thread>
namespace lg = s2e::logger;
namespace fs = std::filesystem;

// ---------- reading a log back ----------
static std::vector<std::string> Cells(const std::string& line) {
  std::vector<std::string> c;
  std::string now;
  for (char ch : line) {
    if (ch == ',') {
      c.push_back(now);
      now.clear();
    } else {
      now += ch;
    }
  }
  if (!now.empty()) c.push_back(now);  // a text behind the last separator is a cell too
  return c;
}
struct Csv {
  std::vector<std::string> head;
  std::vector<std::vector<std::string>> row;
  bool ends = false;
  explicit Csv(const std::string& file = "") {
    if (file.empty()) return;
    std::ifstream in(file, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string t = ss.str(), line;
    ends = !t.empty() && t.back() == '\n';
    std::stringstream ls(t);
    bool first = true;
    while (std::getline(ls, line)) {
      if (first) head = Cells(line);
      else row.push_back(Cells(line));
      first = false;
    }
  }
  long Col(const std::string& n) const {
    for (size_t i = 0; i < head.size(); i++)
      if (head[i] == n) return (long)i;
    return -1;
  }
};
static std::string Find(const std::string& dir, const std::string& end) {
  std::string found;
  for (auto& e : fs::recursive_directory_iterator(dir)) {
    std::string p = e.path().string();
    if (p.size() >= end.size() && p.compare(p.size() - end.size(), end.size(), end) == 0) found = p;
  }
  return found;
}
// |text - v| within the precision of the text
static bool Reads(const std::string& t, double v, int digits) {
  char* end = nullptr;
  const double r = strtod(t.c_str(), &end);
  if (t.empty() || end != t.c_str() + t.size()) return false;
  if (std::isnan(v)) return std::isnan(r);
  if (std::isinf(v)) return r == v;
  return std::fabs(r - v) <= 0.5001 * std::pow(10.0, 1 - digits) * std::fabs(v) + 4e-16 * std::fabs(v) + 1e-320;
}

// ---------- the writers of values and headers ----------
template <size_t N>
static void VectorCase(mon::Mon& m, int p) {
  auto& r = m.rng;
  m.begin("vector of %zu, precision %d", N, p);
  s2e::math::Vector<N> v(0.0);
  for (size_t i = 0; i < N; i++) v[i] = r.b(0.1) ? 0 : (r.b() ? -1 : 1) * (r.b(0.3) ? r.logu(1e-300, 1e300) : r.logu(1e-12, 1e15));
  const std::string name = mon::F("n%d", (int)r.i(0, 99)), frame = r.b() ? "b" : "i", unit = r.b() ? "m/s2" : "Nm";
  const std::string text = lg::WriteVector(v, p), head = lg::WriteVector(name, frame, unit, N);
  auto c = Cells(text), h = Cells(head);
  m.check(text.back() == ',' && head.back() == ',' && c.size() == N && h.size() == N, "log/format", "%zu values and %zu names for %zu elements", c.size(), h.size(), N);
  if (c.size() != N || h.size() != N) return;
  std::set<std::string> names(h.begin(), h.end());
  m.check(names.size() == N, "log/format", "names of the elements repeat: %s", head.c_str());
  for (size_t i = 0; i < N; i++) {
    m.check(Reads(c[i], v[i], p), "log/format", "%.17g written as %s with precision %d", v[i], c[i].c_str(), p);
    const std::string e = N == 3 ? name + "_" + frame + "_" + "xyz"[i] + "[" + unit + "]" : name + "_" + frame + "(" + std::to_string(i) + ")[" + unit + "]";
    m.check(h[i] == e, "log/format", "name %s instead of %s", h[i].c_str(), e.c_str());
    m.distinctv({v[i], (double)p});
  }
  m.ev("cells", N);
}
template <size_t A, size_t B>
static void MatrixCase(mon::Mon& m, int p) {
  auto& r = m.rng;
  m.begin("matrix %zux%zu, precision %d", A, B, p);
  s2e::math::Matrix<A, B> v(0.0);
  for (size_t i = 0; i < A; i++)
    for (size_t j = 0; j < B; j++) v[i][j] = (r.b() ? -1 : 1) * (r.b(0.3) ? r.logu(1e-300, 1e300) : r.logu(1e-12, 1e15));
  auto c = Cells(lg::WriteMatrix(v, p)), h = Cells(lg::WriteMatrix("M", "c", "m", A, B));
  if (!m.check(c.size() == A * B && h.size() == A * B, "log/format", "%zu values and %zu names for %zu elements", c.size(), h.size(), A * B)) return;
  for (size_t i = 0; i < A; i++)
    for (size_t j = 0; j < B; j++) {
      m.check(Reads(c[i * B + j], v[i][j], p), "log/format", "element (%zu,%zu) %.17g written as %s", i, j, v[i][j], c[i * B + j].c_str());
      m.check(h[i * B + j] == mon::F("M_c(%zu%zu)[m]", i, j), "log/format", "element (%zu,%zu) named %s", i, j, h[i * B + j].c_str());
    }
  m.distinctv({v[0][0], (double)p});
  m.ev("cells", A * B);
}
GROUP(format) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(300, 20000); t++) {
    const int p = (int)r.i(1, 17);
    VectorCase<1>(m, p);
    VectorCase<2>(m, p);
    VectorCase<3>(m, p);
    VectorCase<4>(m, p);
    VectorCase<7>(m, p);
    MatrixCase<2, 5>(m, p);
    MatrixCase<3, 3>(m, p);
    MatrixCase<6, 1>(m, p);
    MatrixCase<10, 10>(m, p);
    m.begin("scalars and a quaternion, precision %d", p);
    const double d = (r.b() ? -1 : 1) * r.logu(1e-300, 1e300);
    auto c = Cells(lg::WriteScalar(d, p));
    m.check(c.size() == 1 && Reads(c[0], d, p), "log/format", "%.17g written as %s", d, c.empty() ? "" : c[0].c_str());
    c = Cells(lg::WriteScalar(d));
    m.check(c.size() == 1 && Reads(c[0], d, 6), "log/format", "%.17g written as %s without a precision", d, c.empty() ? "" : c[0].c_str());
    const long long n = (long long)r.next() >> r.i(0, 40);
    c = Cells(lg::WriteScalar(n));
    m.check(c.size() == 1 && c[0] == std::to_string(n), "log/format", "integer %lld written as %s", n, c.empty() ? "" : c[0].c_str());
    c = Cells(lg::WriteScalar((int)n, p));
    m.check(c.size() == 1 && c[0] == std::to_string((int)n), "log/format", "integer %d written as %s", (int)n, c.empty() ? "" : c[0].c_str());
    c = Cells(lg::WriteScalar(true) + lg::WriteScalar(false) + lg::WriteScalar((size_t)n));
    m.check(c.size() == 3 && c[0] == "1" && c[1] == "0" && c[2] == std::to_string((size_t)n), "log/format", "switches and sizes written wrongly");
    m.check(lg::WriteScalar("abc", "V") == "abc[V],", "log/format", "header %s", lg::WriteScalar("abc", "V").c_str());
    auto q = gen::quat(r);
    c = Cells(lg::WriteQuaternion(toq(q), p));
    auto h = Cells(lg::WriteQuaternion("q", "i2b"));
    if (m.check(c.size() == 4 && h.size() == 4, "log/format", "a quaternion has %zu values and %zu names", c.size(), h.size()))
      for (int i = 0; i < 4; i++) {
        const double e = toq(q)[i];
        m.check(Reads(c[i], e, p) && h[i] == mon::F("q_i2b_%c", "xyzw"[i]), "log/format", "element %d of a quaternion: %s=%s, value %.17g", i, h[i].c_str(), c[i].c_str(), e);
      }
    m.ev("cells", 12);
  }
}

// ---------- the logger ----------
struct Item : lg::ILoggable {
  int id = 0, width = 1, headers = 0;
  mutable long values = 0;
  std::string GetLogHeader() const override {
    std::string s;
    for (int i = 0; i < width; i++) s += mon::F("item%d(%d)[-],", id, i);
    return s;
  }
  std::string GetLogValue() const override {
    std::string s;
    for (int i = 0; i < width; i++) s += mon::F("%d.%ld.%d,", id, values, i);
    return s;
  }
};
static long Files(const std::string& dir) {
  long n = 0;
  for (auto& e : fs::recursive_directory_iterator(dir)) n += e.is_regular_file();
  return n;
}
GROUP(logger) {
  auto& r = m.rng;
  world::Settings st(1);
  world::Quiet quiet;
  for (long t = 0; t < m.n(400, 8000); t++) {
    const std::string dir = "log_t";
    fs::remove_all(dir);
    fs::create_directories(dir);
    const bool save = r.b(), enabled = r.b(0.8);
    m.begin("logger %s, settings %s", enabled ? "enabled" : "disabled", save ? "saved" : "not saved");
    const long before = Files(".");
    std::string expect;
    bool wrote = false;
    {
      lg::Logger log("default.csv", dir, st.base, save, enabled), other("other.csv", dir, st.base, false, r.b());
      if (save && r.b()) {
        log.CopyFileToLogDirectory("settings/sample_satellite/disturbance.ini");
        if (enabled) {
          std::string f = Find(dir, "disturbance.ini");
          m.check(!f.empty(), "log/save", "a settings file was not saved");
          m.ev("copies");
          // another file of the same name, as two spacecraft with settings of their own have
          fs::create_directories("same_name");
          std::ofstream("same_name/disturbance.ini") << std::string((size_t)r.i(0, 40), ';') << "\n";
          std::string threw;
          try {
            log.CopyFileToLogDirectory("same_name/disturbance.ini");
          } catch (const std::exception& e) {
            threw = e.what();
          }
          m.check(threw.empty(), "log/save", "a second settings file of the same name: %s", threw.c_str());
          auto text = [](const std::string& n) {
            std::ifstream in(n);
            std::stringstream ss;
            ss << in.rdbuf();
            return ss.str();
          };
          m.check(text(f) == text("settings/sample_satellite/disturbance.ini"), "log/save", "the saved settings were replaced by those of another file");
          fs::remove_all("same_name");
        }
      }
      std::vector<std::unique_ptr<Item>> items;
      std::vector<Item*> list;
      for (int i = 0; i < 6; i++) {
        items.push_back(std::make_unique<Item>());
        items.back()->id = i;
        items.back()->width = (int)r.i(0, 5);
      }
      bool on = enabled;
      const int ops = (int)r.i(5, 60);
      for (int o = 0; o < ops; o++) {
        const int k = (int)r.i(0, 9);
        Item* it = items[(size_t)r.i(0, 5)].get();
        if (k <= 1) {
          log.AddLogList(it);
          list.push_back(it);
        } else if (k == 2) {
          it->is_log_enabled_ = !it->is_log_enabled_;
        } else if (k == 3 && r.b(0.2)) {
          log.ClearLogList();
          list.clear();
        } else if (k == 4 && r.b(0.3)) {
          on = enabled && r.b();  // a logger that was constructed disabled has no file
          log.Enable(on);
          m.check(log.IsEnabled() == on, "log/enable", "IsEnabled() disagrees");
        } else if (k == 5 && r.b(0.3)) {
          other.AddLogList(it);
          other.WriteHeaders();
          other.WriteValues();
        } else {
          it->values++;
          const bool nl = r.b(0.9), head = r.b(0.2);
          for (auto* x : list)
            if (on && x->is_log_enabled_) expect += head ? x->GetLogHeader() : x->GetLogValue();
          if (on && nl) expect += "\n";
          if (head) log.WriteHeaders(nl);
          else log.WriteValues(nl);
          wrote = wrote || on;
          m.ev("rows");
        }
      }
      m.check(log.GetLogPath().string().rfind(dir, 0) == 0 || !enabled, "log/directory", "the log is kept in %s", log.GetLogPath().c_str());
    }
    const std::string f = Find(dir, "default.csv");
    m.check(f.empty() == !enabled, "log/enable", "%s logger, file \"%s\"", enabled ? "enabled" : "disabled", f.c_str());
    if (!f.empty()) {
      std::ifstream in(f, std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      m.check(ss.str() == expect, "log/content", "the file has %zu characters, expected %zu", ss.str().size(), expect.size());
      m.distinct(expect);
      m.check(f.find("logs_") != std::string::npos, "log/directory", "the log is kept in %s", f.c_str());
    }
    const std::string ini = Find(dir, "sample_simulation_base.ini");
    m.check(ini.empty() == !(save && enabled), "log/save", "settings %s, logger %s, copy \"%s\"", save ? "saved" : "not saved", enabled ? "enabled" : "disabled", ini.c_str());
    if (!ini.empty()) {
      std::ifstream a(ini), b(st.base);
      std::stringstream sa, sb;
      sa << a.rdbuf();
      sb << b.rdbuf();
      m.check(sa.str() == sb.str(), "log/save", "the saved settings differ from the settings");
      m.ev("copies");
    }
    fs::remove_all(dir);
    m.check(Files(".") == before, "log/directory", "%ld files were left outside the log directory", Files(".") - before);
  }
}

// ---------- whole simulations ----------
struct RecCase;
struct Recorder : lg::ILoggable {
  RecCase* c = nullptr;
  std::string GetLogHeader() const override { return "recorder[-],"; }
  std::string GetLogValue() const override;
};
struct Truth {
  double t = 0, sidereal = 0;
  s2e::environment::UTC utc{};
  std::map<std::string, std::pair<double, int>> v;  // column -> value, digits
};
static std::string Low(std::string s) {
  for (auto& ch : s) ch = (char)tolower(ch);
  return s;
}
struct RecCase : s2e::simulation::SimulationCase {
  std::vector<std::unique_ptr<world::Sc>> sc;
  std::unique_ptr<s2e::simulation::RelativeInformation> rel;
  std::unique_ptr<s2e::ground_station::GroundStation> gs;
  mutable Recorder rec;
  mutable std::vector<Truth> truth;
  std::vector<std::string> thermal;  // names of the nodes that are logged
  long updates = 0;
  bool only_first = true;
  RecCase(const std::string& base) : SimulationCase(base) { rec.c = this; }
  ~RecCase() {
    while (!sc.empty()) sc.pop_back();
  }
  void InitializeTargetObjects() override {
    auto& log = *simulation_configuration_.main_logger_;
    rel = std::make_unique<s2e::simulation::RelativeInformation>();
    for (unsigned i = 0; i < simulation_configuration_.number_of_simulated_spacecraft_; i++)
      sc.push_back(std::make_unique<world::Sc>(&simulation_configuration_, global_environment_, (int)i, rel.get()));
    gs = std::make_unique<s2e::ground_station::GroundStation>(&simulation_configuration_, 0);
    log.AddLogList(&rec);
    sc[0]->LogSetup(log);
    rel->LogSetup(log);
    gs->LogSetup(log);
  }
  void UpdateTargetObjects() override {
    updates++;
    for (auto& s : sc) s->Update(&global_environment_->GetSimulationTime());
    rel->Update();
    for (auto& s : sc) gs->Update(global_environment_->GetCelestialInformation().GetEarthRotation(), *s);
  }
  void Capture() const {
    Truth T;
    auto& g = *global_environment_;
    T.t = g.GetSimulationTime().GetElapsedTime_s();
    T.utc = g.GetSimulationTime().GetCurrentUtc();
    auto S = [&](const std::string& n, double x, int d = 6) { T.v[n] = {x, d}; };
    auto V = [&](const std::string& n, const std::string& unit, const s2e::math::Vector<3>& x, int d = 6) {
      for (int k = 0; k < 3; k++) S(n + "_" + "xyz"[k] + "[" + unit + "]", x[(size_t)k], d);
    };
    S("elapsed_time[s]", T.t);
    auto& ci = g.GetCelestialInformation();
    auto& d = sc[0]->Dyn();
    auto& l = sc[0]->Local();
    const char* names[] = {"EARTH", "SUN", "MOON", "MERCURY", "VENUS", "MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE", "PLUTO"};
    for (int i = 0; i < ci.GetNumberOfSelectedBodies() && i < 11; i++) {
      const std::string n = Low(names[i]);
      V(n + "_position_i", "m", ci.GetPositionFromCenter_i_m(names[i]));
      V(n + "_velocity_i", "m/s", ci.GetVelocityFromCenter_i_m_s(names[i]));
      V(n + "_position_from_spacecraft_b", "m", l.GetCelestialInformation().GetPositionFromSpacecraft_b_m(names[i]));
    }
    auto& o = d.GetOrbit();
    V("spacecraft_position_i", "m", o.GetPosition_i_m(), 15);
    V("spacecraft_position_ecef", "m", o.GetPosition_ecef_m(), 15);
    V("spacecraft_velocity_i", "m/s", o.GetVelocity_i_m_s(), 10);
    V("spacecraft_velocity_b", "m/s", o.GetVelocity_b_m_s(), 10);
    S("spacecraft_latitude[rad]", o.GetLatitude_rad());
    S("spacecraft_longitude[rad]", o.GetLongitude_rad());
    S("spacecraft_altitude[m]", o.GetAltitude_m());
    auto& a = d.GetAttitude();
    V("spacecraft_angular_velocity_b", "rad/s", a.GetAngularVelocity_b_rad_s());
    const auto q = a.GetQuaternion_i2b();
    for (int k = 0; k < 4; k++) S(std::string("spacecraft_quaternion_i2b_") + "xyzw"[k], q[(size_t)k]);
    S("spacecraft_total_angular_momentum[Nms]", a.GetTotalAngularMomentNorm_Nms());
    S("spacecraft_kinematic_energy[J]", a.GetKineticEnergy_J());
    auto nodes = d.GetTemperature();  // a copy, as the nodes cannot be read from a constant object
    for (auto& n : nodes.GetNodes())
      if (n.GetNodeType() != s2e::dynamics::thermal::NodeType::kBoundary) S(mon::F("temp_%d (%s)[deg]", (int)n.GetNodeId(), n.GetNodeName().c_str()), n.GetTemperature_degC());
    V("geomagnetic_field_at_spacecraft_position_i", "nT", l.GetGeomagneticField().GetGeomagneticField_i_nT());
    V("geomagnetic_field_at_spacecraft_position_b", "nT", l.GetGeomagneticField().GetGeomagneticField_b_nT());
    S("solar_radiation_pressure_at_spacecraft_position[N/m2]", l.GetSolarRadiationPressure().GetPressure_N_m2());
    S("shadow_coefficient_at_spacecraft_position", l.GetSolarRadiationPressure().GetShadowCoefficient());
    S("earth_albedo_factor", l.GetEarthAlbedo().GetEarthAlbedoFactor());
    S("earth_albedo_W_m2", l.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2());
    S("earth_infrared_W_m2", l.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2());
    S("air_density_at_spacecraft_position[kg/m3]", l.GetAtmosphere().GetAirDensity_kg_m3());
    V("ground_station_position_eci", "m", gs->GetPosition_i_m());
    for (size_t i = 0; i < sc.size(); i++) {
      S(mon::F("ground_station0_sc%zu_visible_flag", i), gs->IsVisible((unsigned)i));
      for (size_t j = 0; j < i; j++) {
        V(mon::F("satellite%zu_position_from_satellite%zu_i", i, j), "m", rel->GetRelativePosition_i_m(i, j));
        V(mon::F("satellite%zu_velocity_from_satellite%zu_i", i, j), "m/s", rel->GetRelativeVelocity_i_m_s(i, j));
        V(mon::F("satellite%zu_position_from_satellite%zu_rtn", i, j), "m", rel->GetRelativePosition_rtn_m(i, j));
        V(mon::F("satellite%zu_velocity_from_satellite%zu_rtn", i, j), "m/s", rel->GetRelativeVelocity_rtn_m_s(i, j));
      }
    }
    truth.push_back(T);
  }
};
std::string Recorder::GetLogValue() const {
  c->Capture();
  return std::to_string(c->truth.size() - 1) + ",";
}

struct Section {
  std::string file, section;
};
static std::vector<Section> Sections(const world::Settings& s) {
  std::vector<Section> v = {{s.base, "CELESTIAL_INFORMATION"}, {s.sats[0], "ORBIT"}, {s.gnss, "GNSS_SATELLITES"}};
  for (const char* x : {"MAGNETIC_FIELD_ENVIRONMENT", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "ATMOSPHERE", "LOCAL_CELESTIAL_INFORMATION"})
    v.push_back({s.Dir(0) + "/local_environment.ini", x});
  for (const char* x : {"GEOPOTENTIAL", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"})
    v.push_back({s.Dir(0) + "/disturbance.ini", x});
  return v;
}
static bool Volatile(const std::string& name) { return name.find("calculation_time") != std::string::npos; }  // measured with the clock of the computer

// header and rows that every log has to have
static void Shape(mon::Mon& m, const Csv& log, bool unique) {
  m.check(log.ends, "log/rectangular", "the last row is not terminated");
  for (size_t i = 0; i < log.row.size(); i++)
    if (!m.check(log.row[i].size() == log.head.size(), "log/rectangular", "row %zu has %zu values, the header has %zu names", i, log.row[i].size(), log.head.size())) break;
  std::set<std::string> names;
  for (auto& n : log.head) {
    m.check(!n.empty(), "log/names", "a column has no name");
    if (unique) m.check(names.insert(n).second, "log/names", "column %s appears twice", n.c_str());
  }
  m.ev("rows", (long)log.row.size());
  m.ev("cells", (long)(log.row.size() * log.head.size()));
}
static void Numbers(mon::Mon& m, const Csv& log) {
  for (auto& row : log.row)
    for (size_t c = 0; c < row.size() && c < log.head.size(); c++) {
      if (log.head[c] == "time[UTC]") continue;
      char* e = nullptr;
      const double v = strtod(row[c].c_str(), &e);
      if (!m.check(!row[c].empty() && *e == 0 && std::isfinite(v), "log/finite", "column %s has the value \"%s\"", log.head[c].c_str(), row[c].c_str())) return;
    }
}

static world::Settings Random(mon::Rng& r, int n, double& step, double& period, int& steps) {
  step = r.pick(std::vector<double>{0.05, 0.1, 0.25, 1, 5});
  const int k = (int)r.i(1, 7);
  period = step * k;
  steps = (int)r.i(5, 60);
  world::Settings s = Plain(r, step, 3e5, 2e6);
  if (n > 1) {
    s = world::Settings(n);
    for (int i = 0; i < n; i++) {
      const L a = 6378137.0L + r.logu(3e5, 2e6);
      const V3 e1 = gen::dir(r), e2 = ref::unit(ref::cross_(e1, gen::dir(r) + V3{0.001L, 0.002L, 0.003L}));
      s.Orbit(i, a * e1, sqrtl(3.986e14L / a) * (L)r.u(1.0, 1.05) * e2);
      s.Attitude(i, gen::quat(r), V3{r.n() * 0.01, r.n() * 0.01, r.n() * 0.01});
    }
  }
  s.Times(step, step * steps, Start(r));
  s.B("TIME", "log_output_period_s", period);
  for (const char* u : {"attitude", "orbit", "thermal", "component"}) s.B("TIME", std::string(u) + "_update_period_s", step * (int)r.i(1, 3));
  s.B("TIME", "simulation_speed_setting", 0.0);
  s.B("RANDOMIZE", "rand_seed", (double)r.i(1, 1 << 30));
  s.B("CELESTIAL_INFORMATION", "number_of_selected_body", (double)r.i(3, 11));
  for (const char* x : {"GEOPOTENTIAL", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"})
    if (std::string(x) != "GEOPOTENTIAL") s.Dist(0, x, "calculation", r.b(0.7) ? "ENABLE" : "DISABLE");
  for (const char* x : {"MAGNETIC_FIELD_ENVIRONMENT", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "EARTH_ALBEDO", "EARTH_INFRARED", "ATMOSPHERE"}) s.Local(0, x, "calculation", r.b(0.8) ? "ENABLE" : "DISABLE");
  s.Sat(0, "THERMAL", "calculation", r.b(0.6) ? "ENABLE" : "DISABLE");
  s.Sat(0, "ATTITUDE", "propagate_mode", r.b(0.8) ? "RK4" : "CONTROLLED");
  s.B("SIMULATION_SETTINGS", "log_file_save_directory", "logs/");
  return s;
}

GROUP(simulation) {
  auto& r = m.rng;
  std::set<std::string> seen, known;
  for (long t = 0; t < m.n(40, 600); t++) {
    double step, period;
    int steps;
    const int n = r.b(0.6) ? 1 : (int)r.i(2, 4);
    world::Settings s = Random(r, n, step, period, steps);
    fs::remove_all("logs");
    fs::create_directories("logs");
    std::string off;
    for (auto& x : Sections(s)) {
      const bool on = r.b(0.85);
      world::Set(x.file, x.section, "logging", on ? "ENABLE" : "DISABLE");
      if (!on) off += " " + x.section;
    }
    m.begin("%d spacecraft, step %.4g s, log every %.4g s, %d steps, not logged:%s", n, step, period, steps, off.c_str());
    std::vector<Truth> truth;
    long updates = 0;
    {
      world::Quiet q;
      RecCase c(s.base);
      c.Initialize();
      c.Main();
      truth = c.truth;
      updates = c.updates;
    }
    const Csv log(Find("logs", "_default.csv"));
    Shape(m, log, true);
    Numbers(m, log);
    // one row per period, the first at the start
    const long k = std::lround(period / step);
    m.check(log.row.size() == truth.size(), "log/period", "%zu rows, but %zu values were taken", log.row.size(), truth.size());
    for (size_t i = 0; i < truth.size(); i++)
      m.check(std::fabs(truth[i].t - period * (double)i) <= 1e-6 * step, "log/period", "row %zu is of %.9g s, the log period is %.9g s", i, truth[i].t, period);
    m.check((long)truth.size() == (steps / k) + 1, "log/period", "%zu rows in %d steps with a row every %ld", truth.size(), steps, k);
    // the values
    const long col = log.Col("recorder[-]");
    if (!m.check(col >= 0, "log/registered", "a registered object is not in the log")) continue;
    std::map<std::string, long> index;
    for (size_t c = 0; c < log.head.size(); c++) index[log.head[c]] = (long)c;
    for (size_t i = 0; i < log.row.size() && i < truth.size(); i++) {
      auto& row = log.row[i];
      if (row.size() != log.head.size()) break;
      m.check(row[(size_t)col] == std::to_string(i), "log/registered", "row %zu has the value number %s", i, row[(size_t)col].c_str());
      for (auto& [name, v] : truth[i].v) {
        auto it = index.find(name);
        if (it == index.end()) continue;
        seen.insert(name);
        m.check(Reads(row[(size_t)it->second], v.first, v.second), "log/faithful", "row %zu, %s: %s in the log, %.12g in the simulation", i, name.c_str(), row[(size_t)it->second].c_str(), v.first);
        m.ev("values_compared");
      }
      for (auto& [name, v] : truth[i].v) known.insert(name);
      auto it = index.find("time[UTC]");
      if (m.check(it != index.end(), "log/names", "no UTC in the log")) {
        int Y, M, D, h, mi;
        double se;
        const std::string& x = row[(size_t)it->second];
        auto& u = truth[i].utc;
        const bool ok = sscanf(x.c_str(), "%d/%d/%d %d:%d:%lf", &Y, &M, &D, &h, &mi, &se) == 6;
        m.check(ok && Y == (int)u.year && M == (int)u.month && D == (int)u.day && h == (int)u.hour && mi == (int)u.minute && std::fabs(se - u.second) < 1.001e-3, "log/faithful", "UTC %s in the log", x.c_str());
      }
      m.distinctv({truth[i].t, truth[i].v.at("spacecraft_position_i_x[m]").first});
    }
    // which columns there are: the switches of the sections decide
    for (auto& x : Sections(s)) {
      const bool on = off.find(" " + x.section) == std::string::npos;
      const std::map<std::string, std::string> mark = {{"CELESTIAL_INFORMATION", "sun_position_i_x[m]"},
                                                       {"ORBIT", "spacecraft_altitude[m]"},
                                                       {"MAGNETIC_FIELD_ENVIRONMENT", "geomagnetic_field_at_spacecraft_position_i_x[nT]"},
                                                       {"SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "shadow_coefficient_at_spacecraft_position"},
                                                       {"ATMOSPHERE", "air_density_at_spacecraft_position[kg/m3]"},
                                                       {"LOCAL_CELESTIAL_INFORMATION", "sun_position_from_spacecraft_b_x[m]"},
                                                       {"GRAVITY_GRADIENT", "gravity_gradient_torque_b_x[Nm]"},
                                                       {"SOLAR_RADIATION_PRESSURE_DISTURBANCE", "srp_force_b_x[N]"},
                                                       {"MAGNETIC_DISTURBANCE", "magnetic_disturbance_torque_b_x[Nm]"},
                                                       {"AIR_DRAG", "air_drag_force_b_x[N]"}};
      auto it = mark.find(x.section);
      if (it == mark.end()) continue;
      const bool tail = x.section.size() > 5 && off.find(" " + x.section + "_") != std::string::npos && off.find(" " + x.section + " ") == std::string::npos &&
                        !(off.size() >= x.section.size() && off.compare(off.size() - x.section.size(), x.section.size(), x.section) == 0);
      if (tail) continue;  // the name is only the beginning of another one
      m.check((index.count(it->second) > 0) == on, "log/switch", "section %s: logging %s, columns %s", x.section.c_str(), on ? "enabled" : "disabled", on ? "missing" : "present");
      m.ev("switches");
    }
    m.ev("updates", updates);
  }
  for (auto& n : known) m.check(seen.count(n) > 0, "log/names", "no log had a column %s", n.c_str());
}

// the switches of the log do not change anything but their own columns
GROUP(toggle) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(15, 200); t++) {
    double step, period;
    int steps;
    world::Settings s = Random(r, 1, step, period, steps);
    const bool sample = r.b(0.7);
    const long seed = (long)r.i(1, 1 << 30);
    auto run = [&]() {
      fs::remove_all("logs");
      fs::create_directories("logs");
      world::Quiet q;
      s2e::randomization::global_randomization.SetSeed(seed);
      if (sample) {
        s2e::sample::SampleCase c(s.base);
        c.Initialize();
        c.Main();
      } else {
        RecCase c(s.base);
        c.Initialize();
        c.Main();
      }
      return Csv(Find("logs", "_default.csv"));
    };
    m.begin("%s, step %.4g s, log every %.4g s, %d steps", sample ? "sample" : "plain", step, period, steps);
    for (auto& x : Sections(s)) world::Set(x.file, x.section, "logging", "ENABLE");
    const Csv all = run();
    Shape(m, all, true);
    Numbers(m, all);
    if (!sample) continue;
    for (int v = 0; v < 2; v++) {
      std::string off;
      for (auto& x : Sections(s)) {
        const bool on = r.b();
        world::Set(x.file, x.section, "logging", on ? "ENABLE" : "DISABLE");
        if (!on) off += " " + x.section;
      }
      m.begin("sample, step %.4g s, log every %.4g s, %d steps, not logged:%s", step, period, steps, off.c_str());
      const Csv some = run();
      Shape(m, some, true);
      m.check(some.row.size() == all.row.size(), "log/switch", "%zu rows instead of %zu", some.row.size(), all.row.size());
      std::map<std::string, size_t> index;
      for (size_t c = 0; c < all.head.size(); c++) index[all.head[c]] = c;
      size_t last = 0;
      for (size_t c = 0; c < some.head.size(); c++) {
        auto it = index.find(some.head[c]);
        if (!m.check(it != index.end(), "log/switch", "column %s exists only when others are not logged", some.head[c].c_str())) continue;
        m.check(c == 0 || it->second > last, "log/switch", "column %s moved before another one", some.head[c].c_str());
        last = it->second;
        if (Volatile(some.head[c])) continue;
        for (size_t i = 0; i < some.row.size() && i < all.row.size(); i++) {
          if (some.row[i].size() != some.head.size() || all.row[i].size() != all.head.size()) break;
          if (!m.check(some.row[i][c] == all.row[i][it->second], "log/switch", "column %s, row %zu: %s, with all columns %s", some.head[c].c_str(), i, some.row[i][c].c_str(), all.row[i][it->second].c_str())) break;
          m.ev("cells_compared");
        }
      }
      m.check(off.empty() || some.head.size() < all.head.size(), "log/switch", "disabling did not remove a column");
      m.distinct(off);
    }
  }
}

// ---------- components: the logged values are the ones that are offered ----------
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
GROUP(components) {
  using namespace s2e::components;
  auto& r = m.rng;
  for (long t = 0; t < m.n(20, 200); t++) {
    const double step = r.pick(std::vector<double>{0.1, 0.5, 1});
    world::Settings s = Plain(r, step, 3e5, 2e6);
    world::World W(s);
    auto& sc = *W.sc[0];
    auto* clk = &sc.Clock();
    const std::string d = "settings/sample_satellite/components/";
    PowerPort port(0, 10);
    port.SetMinimumVoltage_V(0);
    port.SetVoltage_V(5);
    const int id = 1;  // the number of the components in the sample settings
    GyroSensor gyro = InitGyroSensor(clk, &port, id, d + "gyro_sensor.ini", step, &sc.Dyn());
    Magnetometer mag = InitMagnetometer(clk, &port, id, d + "magnetometer.ini", step, &sc.Local().GetGeomagneticField());
    StarSensor stt = InitStarSensor(clk, &port, id, d + "star_sensor.ini", step, &sc.Dyn(), &sc.Local());
    SunSensor sun = InitSunSensor(clk, &port, id, d + "sun_sensor.ini", &sc.Local().GetSolarRadiationPressure(), &sc.Local().GetCelestialInformation());
    GnssReceiver gnss = InitGnssReceiver(clk, &port, id, d + "gnss_receiver.ini", &sc.Dyn(), &W.global->GetGnssSatellites(), &W.Time());
    Magnetorquer mtq = InitMagnetorquer(clk, &port, id, d + "magnetorquer.ini", step, &sc.Local().GetGeomagneticField());
    ReactionWheel rw = InitReactionWheel(clk, &port, id, d + "reaction_wheel.ini", step);
    SimpleThruster thr = InitSimpleThruster(clk, &port, id, d + "thruster.ini", &sc.Structure(), &sc.Dyn());
    ForceGenerator fg = InitializeForceGenerator(clk, d + "force_generator.ini", &sc.Dyn());
    TorqueGenerator tg = InitializeTorqueGenerator(clk, d + "torque_generator.ini", &sc.Dyn());
    AngularVelocityObserver avo = InitializeAngularVelocityObserver(clk, d + "angular_velocity_observer.ini", step, sc.Dyn().GetAttitude());
    AttitudeObserver ao = InitializeAttitudeObserver(clk, d + "attitude_observer.ini", sc.Dyn().GetAttitude());
    OrbitObserver oo = InitializeOrbitObserver(clk, d + "orbit_observer.ini", sc.Dyn().GetOrbit());
    const std::vector<lg::ILoggable*> all = {&gyro, &mag, &stt, &sun, &gnss, &mtq, &rw, &thr, &fg, &tg, &avo, &ao, &oo};
    m.begin("components, step %.3g s", step);
    for (int n = 0; n < 25; n++) {
      if (n) {
        mtq.SetOutputMagneticMoment_c_Am2(tov(V3{r.n() * 0.1, r.n() * 0.1, r.n() * 0.1}));
        rw.SetDriveFlag(r.b(0.9));
        rw.SetTargetTorque_rw_Nm(r.n() * 1e-3);
        thr.SetDuty(r.u01());
        fg.SetForce_b_N(tov(V3{r.n(), r.n(), r.n()}));
        tg.SetTorque_b_Nm(tov(V3{r.n(), r.n(), r.n()}));
        if (r.b(0.1)) port.SetVoltage_V(r.b() ? 0.0 : 5.0);
        W.Step();
      }
      std::map<std::string, std::pair<double, int>> T;
      auto S = [&](const std::string& k, double x, int dg = 6) { T[k] = {x, dg}; };
      auto V = [&](const std::string& k, const std::string& u, const s2e::math::Vector<3>& x, int dg = 6) {
        for (int i = 0; i < 3; i++) S(k + "_" + "xyz"[i] + "[" + u + "]", x[(size_t)i], dg);
      };
      auto Q = [&](const std::string& k, const s2e::math::Quaternion& x) {
        for (int i = 0; i < 4; i++) S(k + "_" + "xyzw"[i], x[(size_t)i]);
      };
      V("gyro_sensor1_measured_angular_velocity_c", "rad/s", gyro.GetMeasuredAngularVelocity_c_rad_s());
      V("magnetometer1_measured_magnetic_field_c", "nT", mag.GetMeasuredMagneticField_c_nT());
      Q("stt1_measured_quaternion_i2c", stt.GetMeasuredQuaternion_i2c());
      S("stt1_error_flag", stt.GetErrorFlag());
      V("sun_sensor1_measured_sun_direction_c", "-", sun.GetMeasuredSunDirection_c());
      S("sun_sensor1_sun_detected_flag[-]", sun.GetSunDetectedFlag());
      V("gnss_receiver1_measured_position_ecef", "m", gnss.GetMeasuredPosition_ecef_m(), 10);
      V("gnss_receiver1_measured_velocity_ecef", "m/s", gnss.GetMeasuredVelocity_ecef_m_s(), 10);
      S("gnss_receiver1_measured_latitude[rad]", gnss.GetMeasuredGeodeticPosition().GetLatitude_rad(), 10);
      S("gnss_receiver1_measured_longitude[rad]", gnss.GetMeasuredGeodeticPosition().GetLongitude_rad(), 10);
      S("gnss_receiver1_measured_altitude[m]", gnss.GetMeasuredGeodeticPosition().GetAltitude_m(), 10);
      V("magnetorquer1_output_magnetic_moment_b", "Am2", mtq.SetOutputMagneticMoment_b_Am2());
      V("magnetorquer1_output_torque_b", "Nm", mtq.GetOutputTorque_b_Nm());
      S("rw1_angular_velocity[rad/s]", rw.GetAngularVelocity_rad_s());
      S("rw1_angular_velocity[rpm]", rw.GetAngularVelocity_rpm());
      V("simple_thruster1_output_thrust_b", "N", thr.GetOutputThrust_b_N());
      V("simple_thruster1_output_torque_b", "Nm", thr.GetOutputTorque_b_Nm());
      S("simple_thruster1_output_thrust_norm[N]", thr.GetOutputThrust_b_N().CalcNorm());
      V("ideal_force_generator_generated_force_b", "N", fg.GetGeneratedForce_b_N());
      V("ideal_force_generator_generated_force_i", "N", fg.GetGeneratedForce_i_N());
      V("ideal_force_generator_generated_force_rtn", "N", fg.GetGeneratedForce_rtn_N());
      V("ideal_torque_generator_generated_torque_b", "Nm", tg.GetGeneratedTorque_b_Nm());
      V("angular_velocity_observer_measured_value_b", "rad/s", avo.GetAngularVelocity_b_rad_s());
      Q("attitude_observer_quaternion_i2b", ao.GetQuaternion_i2b());
      V("orbit_observer_position_i", "m", oo.GetPosition_i_m(), 15);
      V("orbit_observer_velocity_i", "m/s", oo.GetVelocity_i_m_s(), 15);
      size_t found = 0;
      std::set<std::string> names;
      for (auto* x : all) {
        const auto h = Cells(x->GetLogHeader()), v = Cells(x->GetLogValue());
        if (!m.check(h.size() == v.size() && !h.empty(), "log/rectangular", "%s: %zu names and %zu values", h.empty() ? "?" : h[0].c_str(), h.size(), v.size())) continue;
        for (size_t i = 0; i < h.size(); i++) {
          m.check(names.insert(h[i]).second, "log/names", "column %s appears twice", h[i].c_str());
          char* e = nullptr;
          const double y = strtod(v[i].c_str(), &e);
          m.check(*e == 0 && !v[i].empty() && std::isfinite(y), "log/finite", "step %d, %s has the value %s", n, h[i].c_str(), v[i].c_str());
          auto it = T.find(h[i]);
          if (it == T.end()) continue;
          found++;
          m.check(Reads(v[i], it->second.first, it->second.second), "log/faithful", "step %d, %s: %s in the log, %.12g offered", n, h[i].c_str(), v[i].c_str(), it->second.first);
          m.ev("values_compared");
        }
      }
      m.check(found == T.size(), "log/names", "%zu of %zu offered values are in the log", found, T.size());
      m.distinctv({gyro.GetMeasuredAngularVelocity_c_rad_s()[0], rw.GetAngularVelocity_rpm()});
    }
  }
}
