// C28: complete simulations
#include "full.hpp"
#include "mon.hpp"
#include "ref.hpp"
#include "s2e.hpp"
#include "world.hpp"
//
#include "component.hpp"
#include <alloca.h>
#include <cstring>
#include <map>
#include <set>
#include <sys/wait.h>
namespace fs = std::filesystem;

static std::string Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
static std::vector<std::string> Lines(const std::string& t) {
  std::vector<std::string> v;
  std::stringstream ss(t);
  std::string l;
  while (std::getline(ss, l)) v.push_back(l);
  return v;
}
static std::vector<std::string> Cells(const std::string& line) {
  std::vector<std::string> v;
  std::stringstream ss(line);
  std::string c;
  while (std::getline(ss, c, ',')) v.push_back(c);
  return v;
}
static std::string FindLog(const std::string& dir) {
  for (auto& e : fs::recursive_directory_iterator(dir))
    if (e.path().extension() == ".csv" && e.path().string().find("_default.csv") != std::string::npos) return e.path().string();
  return "";
}
// Leaves a pattern where the next calls will have their stack frames and heap blocks
__attribute__((noinline)) static void Pollute(int byte, int kilobytes) {
  volatile char* p = (volatile char*)alloca((size_t)kilobytes * 1024);
  for (int i = 0; i < kilobytes * 1024; i++) p[i] = (char)byte;
  std::vector<char*> blocks;
  for (int i = 0; i < 3000; i++) {
    const size_t n = (size_t)(8 + (i * 37) % 2000);
    blocks.push_back(new char[n]);
    memset(blocks.back(), byte, n);
  }
  for (auto b : blocks) delete[] b;
}
// One simulation; gives its log
static std::string Simulate(const std::string& base, uint64_t commands, const std::string& logdir) {
  fs::remove_all(logdir);
  fs::create_directories(logdir);
  {
    world::Quiet q;
    world::Set(base, "SIMULATION_SETTINGS", "log_file_save_directory", logdir + "/");
    full::Case c(base, commands);
    c.Initialize();
    c.Main();
  }
  const std::string t = Slurp(FindLog(logdir));
  fs::remove_all(logdir);
  return t;
}
struct Job {
  std::string base, out, prior = "-";
  uint64_t commands = 0;
  int fill = 255, stack = 0;
};
// a simulation in a process of its own
static std::string Run(const Job& j) {
  {
    std::ofstream o(j.out + ".job");
    o << j.base << "\n" << j.out << "\n" << j.prior << "\n" << j.commands << "\n" << j.stack << "\n";
  }
  std::error_code ec;
  fs::remove(j.out, ec);
  const std::string asan = getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "";
  const std::string cmd = "C28_JOB='" + j.out + ".job' ASAN_OPTIONS='" + asan + mon::F(":detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=%d", j.fill) +
                          "' '" + fs::read_symlink("/proc/self/exe").string() + "' --run child --out '" + j.out + ".json' --scratch . > '" + j.out + ".txt' 2>&1";
  const int rc = system(cmd.c_str());
  if (rc != 0) {
    const std::string t = Slurp(j.out + ".txt");
    fprintf(stderr, "%s\n", t.c_str());
    fflush(stderr);
    if (t.find("Sanitizer") != std::string::npos || t.find("runtime error") != std::string::npos) _exit(97);
    if (WIFEXITED(rc)) return mon::F("exit %d", WEXITSTATUS(rc));
    return "killed";
  }
  return Slurp(j.out);
}
GROUP(child) {
  const char* f = getenv("C28_JOB");
  if (!f) {  // on its own this group does nothing
    m.begin("no job");
    m.check(true, "sim/none", "-");
    return;
  }
  std::ifstream in(f);
  Job j;
  std::getline(in, j.base);
  std::getline(in, j.out);
  std::getline(in, j.prior);
  in >> j.commands >> j.stack;
  m.begin("child");
  Pollute(j.stack, 512);
  if (j.prior != "-") Simulate(j.prior, 77, "prior_logs_" + fs::path(j.out).filename().string());
  Pollute(j.stack, 512);
  const std::string t = Simulate(j.base, j.commands, "logs_" + fs::path(j.out).filename().string());
  std::ofstream(j.out, std::ios::binary) << t;
}

struct Config {
  world::Settings s;
  double step = 0.1;
  int steps = 20, log = 1;
  std::string what;
  uint64_t commands = 0;
  std::vector<std::string> orbit;
};
static const char* kOnOff[] = {"DISABLE", "ENABLE"};
static Config Random(mon::Rng& r, int max_steps) {
  const int n = r.b(0.6) ? 1 : (int)r.i(2, 3);
  Config c{world::Settings(n)};
  auto& s = c.s;
  c.step = r.pick(std::vector<double>{0.05, 0.1, 0.25, 1, 5, 20});
  c.steps = (int)r.i(4, max_steps);
  c.log = (int)r.i(1, 4);
  std::string start = Start(r);
  const int special = (int)r.i(0, 9);
  if (special == 0) start = mon::F("2020/03/%02d %02d:%02d:%06.3f", (int)r.i(14, 18), (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9));
  if (special == 1) start = mon::F("2022/09/05 %02d:%02d:%06.3f", (int)r.i(0, 23), (int)r.i(0, 59), r.u(0, 59.9));
  for (int i = 0; i < n; i++) {
    const L a = 6378137.0L + r.logu(3e5, r.b(0.7) ? 2e6 : 4e7);
    const V3 e1 = gen::dir(r), e2 = ref::unit(ref::cross_(e1, gen::dir(r) + V3{0.001L, 0.002L, 0.003L}));
    std::string mode = r.pick(std::vector<std::string>{"RK4", "RK4", "RK4", "KEPLER", "ENCKE"});
    if (special == 0) mode = "SGP4";
    if (special == 1) mode = "TIME_SERIES_FILE";
    if (i > 0 && r.b(0.4)) mode = "RELATIVE";
    s.Orbit(i, a * e1, sqrtl(3.986e14L / a) * (L)r.u(1.0, 1.1) * e2, mode);
    c.orbit.push_back(mode);
    s.Attitude(i, gen::quat(r), V3{r.n() * 0.01, r.n() * 0.01, r.n() * 0.01});
    const std::string am = r.pick(std::vector<std::string>{"RK4", "RK4", "CONTROLLED", "CANTILEVER_VIBRATION"});
    s.Sat(i, "ATTITUDE", "propagate_mode", am);
    if (r.b(0.3)) s.Sat(i, "ATTITUDE", "initialize_mode", "CONTROLLED");
    const std::vector<std::string> modes = {"INERTIAL_STABILIZE", "SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING"};
    s.Sat(i, "CONTROLLED_ATTITUDE", "main_mode", r.pick(modes));
    s.Sat(i, "CONTROLLED_ATTITUDE", "sub_mode", r.pick(modes));
    if (mode == "RELATIVE") {
      s.Sat(i, "ORBIT", "reference_satellite_id", (double)r.i(0, i - 1));
      s.Sat(i, "ORBIT", "relative_orbit_update_method", (double)r.i(0, 1));
      for (int k = 0; k < 3; k++) {
        s.Sat(i, "ORBIT", mon::F("initial_relative_position_lvlh_m(%d)", k), r.n() * 100);
        s.Sat(i, "ORBIT", mon::F("initial_relative_velocity_lvlh_m_s(%d)", k), r.n() * 0.1);
      }
    }
    s.Sat(i, "THERMAL", "calculation", kOnOff[r.b(0.7)]);
    s.Sat(i, "THERMAL", "solar_calc_setting", kOnOff[r.b()]);
    for (const char* x : {"GEOPOTENTIAL", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"})
      s.Dist(i, x, "calculation", kOnOff[std::string(x) != "GEOPOTENTIAL" && r.b(0.7)]);
    s.Dist(i, "LUNAR_GRAVITY_FIELD", "calculation", "DISABLE");
    for (const char* x : {"MAGNETIC_FIELD_ENVIRONMENT", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "EARTH_ALBEDO", "EARTH_INFRARED", "ATMOSPHERE"}) s.Local(i, x, "calculation", kOnOff[r.b(0.8)]);
    s.Local(i, "ATMOSPHERE", "model", r.pick(std::vector<std::string>{"STANDARD", "NRLMSISE00", "HARRIS_PRIESTER"}));
    s.Local(i, "ATMOSPHERE", "air_density_standard_deviation", world::D(r.b() ? 0 : 0.1));
    // prescalers of the components
    for (auto& e : fs::directory_iterator(s.Dir(i) + "/components"))
      if (e.path().extension() == ".ini" && Slurp(e.path().string()).find("[COMPONENT_BASE]") != std::string::npos) world::Set(e.path().string(), "COMPONENT_BASE", "prescaler", (double)r.i(1, 3));
  }
  s.Times(c.step, c.step * c.steps, start);
  s.B("TIME", "log_output_period_s", c.step * c.log);
  for (const char* u : {"attitude", "orbit", "thermal", "component"}) s.B("TIME", std::string(u) + "_update_period_s", c.step * (int)r.i(1, 3));
  s.B("TIME", "attitude_integral_step_s", 0.025);  // the flexible structure has 36 rad/s
  s.B("TIME", "simulation_speed_setting", 0.0);
  s.B("RANDOMIZE", "rand_seed", (double)r.i(1, 1 << 30));
  s.B("CELESTIAL_INFORMATION", "number_of_selected_body", (double)r.i(3, 11));
  s.B("CELESTIAL_INFORMATION", "rotation_mode(0)", r.pick(std::vector<std::string>{"FULL", "SIMPLE"}));
  c.commands = r.b(0.8) ? (uint64_t)r.i(1, 1 << 30) : 0;
  c.what = mon::F("%d spacecraft (orbit %s), start %s, %d steps of %g s, log every %d", n, c.orbit[0].c_str(), start.c_str(), c.steps, c.step, c.log);
  return c;
}
static bool Volatile(const std::string& name) { return name.find("calculation_time") != std::string::npos; }

// compares two logs; rows of b at the indices stride*i, and at most as many rows as b has
static void Same(mon::Mon& m, const std::string& a, const std::string& b, size_t stride, size_t skip, const char* key, const char* what) {
  const auto la = Lines(a), lb = Lines(b);
  if (!m.check(la.size() > 1 && lb.size() > 1, key, "%s: no log (%.60s / %.60s)", what, a.c_str(), b.c_str())) return;
  if (!m.check(la[0] == lb[0], key, "%s: the names differ", what)) return;
  const auto head = Cells(la[0]);
  for (size_t i = 1, k = 1; i < la.size() && k < lb.size(); i++, k += stride) {
    if (la[i] == lb[k]) {
      m.ev("rows_compared");
      continue;
    }
    const auto ca = Cells(la[i]), cb = Cells(lb[k]);
    bool same = ca.size() == cb.size();
    for (size_t c = 0; same && c < ca.size() && c < head.size(); c++)
      if (ca[c] != cb[c] && !Volatile(head[c])) {
        m.check(false, key, "%s: row %zu, %s: %s and %s", what, i - 1, head[c].c_str(), ca[c].c_str(), cb[c].c_str());
        return;
      }
    if (!m.check(same, key, "%s: row %zu has another size", what, i - 1)) return;
    m.ev("rows_compared");
  }
  const size_t na = la.size() - 1, nb = lb.size() - 1;
  if (stride == 1 && skip == 0) m.check(na == nb, key, "%s: %zu and %zu rows", what, na, nb);
}

static void Admissible(mon::Mon& m, const std::string& log, const Config& c) {
  const auto lines = Lines(log);
  if (!m.check(lines.size() >= 2, "sim/log", "no log: %.100s", log.c_str())) return;
  const auto head = Cells(lines[0]);
  m.check((long)lines.size() - 1 == c.steps / c.log + 1, "sim/log", "%zu rows, %d steps, a row every %d", lines.size() - 1, c.steps, c.log);
  std::map<std::string, std::vector<size_t>> col;  // several spacecraft have the same names
  for (size_t k = 0; k < head.size(); k++) col[head[k]].push_back(k);
  double t_before = -1;
  for (size_t i = 1; i < lines.size(); i++) {
    const auto cell = Cells(lines[i]);
    if (!m.check(cell.size() == head.size(), "sim/log", "row %zu has %zu values, the header %zu names", i - 1, cell.size(), head.size())) return;
    std::vector<double> v(cell.size());
    for (size_t k = 0; k < cell.size(); k++) {
      if (head[k] == "time[UTC]") continue;
      char* e = nullptr;
      v[k] = strtod(cell[k].c_str(), &e);
      if (!m.check(!cell[k].empty() && *e == 0 && std::isfinite(v[k]), "sim/finite", "row %zu, %s is \"%s\"", i - 1, head[k].c_str(), cell[k].c_str())) return;
      if (!m.check(std::fabs(v[k]) < 1e30, "sim/finite", "row %zu, %s is %s", i - 1, head[k].c_str(), cell[k].c_str())) return;
    }
    m.ev("values", (long)v.size());
    auto has = [&](const std::string& n, size_t k) { return col.count(n) && col[n].size() > k; };
    auto S = [&](const std::string& n, size_t k) { return v[col[n][k]]; };
    auto Norm = [&](const std::string& n, const std::string& u, size_t k) {
      double q = 0;
      for (char a : {'x', 'y', 'z'}) q += std::pow(S(n + "_" + a + u, k), 2);
      return std::sqrt(q);
    };
    const double t = S("elapsed_time[s]", 0);
    m.check(std::fabs(t - (double)(i - 1) * c.step * c.log) < 1e-6 * c.step + 1e-5 * t, "sim/time", "row %zu is of %.9g s", i - 1, t);
    m.check(t > t_before, "sim/time", "the time does not advance");
    t_before = t;
    for (size_t k = 0; k < c.orbit.size(); k++) {
      if (!m.check(has("spacecraft_position_i_x[m]", k), "sim/log", "no position of spacecraft %zu", k)) return;
      const double ri = Norm("spacecraft_position_i", "[m]", k), re = Norm("spacecraft_position_ecef", "[m]", k), h = S("spacecraft_altitude[m]", k);
      const double lat = S("spacecraft_latitude[rad]", k), lon = S("spacecraft_longitude[rad]", k);
      m.check(std::fabs(ri - re) < 1e-9 * ri + 1e-6, "sim/radius", "row %zu: distance %.15g in the inertial frame, %.15g in the fixed frame", i - 1, ri, re);
      m.check(h > ri - 6378138 - 1e-5 * std::fabs(h) && h < ri - 6356751 + 1e-5 * std::fabs(h), "sim/altitude", "row %zu: altitude %.9g at the distance %.9g", i - 1, h, ri);
      m.check(std::fabs(lat) <= 1.5707964 * 1.00001 && lon >= -3.14160 && lon <= 6.28320, "sim/latitude", "row %zu: latitude %.9g, longitude %.9g", i - 1, lat, lon);
      // geodetic latitude and longitude against the position
      const double x = S("spacecraft_position_ecef_x[m]", k), y = S("spacecraft_position_ecef_y[m]", k), z = S("spacecraft_position_ecef_z[m]", k), p = std::hypot(x, y);
      m.check(std::fabs(std::remainder(std::atan2(y, x) - lon, 6.283185307179586)) < 1e-4 + 1e-3 * ri / (p + 1), "sim/latitude", "row %zu: longitude %.9g, direction %.9g", i - 1, lon, std::atan2(y, x));
      m.check(std::fabs(std::atan2(z, p) - lat) < 0.0035, "sim/latitude", "row %zu: latitude %.9g, direction %.9g", i - 1, lat, std::atan2(z, p));
      double qq = 0;
      for (char a : {'x', 'y', 'z', 'w'}) qq += std::pow(S(std::string("spacecraft_quaternion_i2b_") + a, k), 2);
      m.check(std::fabs(qq - 1) < 2e-5, "sim/quaternion", "row %zu: squared norm of the quaternion %.9g", i - 1, qq);
      m.check(S("spacecraft_kinematic_energy[J]", k) >= 0 && S("spacecraft_total_angular_momentum[Nms]", k) >= 0, "sim/energy", "row %zu: negative kinetic energy or momentum", i - 1);
      if (i > 1) {  // the first row is written before the first update of the attitude
        const double vi = Norm("spacecraft_velocity_i", "[m/s]", k);
        m.check(vi < 2.5e4 && ri > 6.4e6 && ri < 1e10, "sim/orbit", "row %zu: distance %.9g m, speed %.9g m/s", i - 1, ri, vi);
      }
      if (has("geomagnetic_field_at_spacecraft_position_i_x[nT]", k)) {
        const double b1 = Norm("geomagnetic_field_at_spacecraft_position_i", "[nT]", k);
        m.check(b1 < 1e5, "sim/field", "row %zu: magnetic field %.9g nT", i - 1, b1);
      }
      if (has("shadow_coefficient_at_spacecraft_position", k)) {
        const double sh = S("shadow_coefficient_at_spacecraft_position", k), pr = S("solar_radiation_pressure_at_spacecraft_position[N/m2]", k);
        m.check(sh >= 0 && sh <= 1 && pr >= 0 && pr < 1e-5, "sim/sunlight", "row %zu: shadow coefficient %.9g, pressure %.9g", i - 1, sh, pr);
      }
      if (has("air_density_at_spacecraft_position[kg/m3]", k)) {
        const double d = S("air_density_at_spacecraft_position[kg/m3]", k);
        m.check(d >= 0 && d < 1e-6, "sim/air", "row %zu: density %.9g at the altitude %.9g", i - 1, d, h);
      }
    }
    for (auto& [n, k] : col)
      if (n.find("visible_flag") != std::string::npos || n.rfind("is_sun_in", 0) == 0)
        for (size_t x : k) m.check(v[x] == 0 || v[x] == 1, "sim/flag", "row %zu: %s is %.9g", i - 1, n.c_str(), v[x]);
    m.distinctv({v[col["spacecraft_position_i_x[m]"][0]], S("spacecraft_quaternion_i2b_x", 0)});
  }
}

static void Memory(mon::Mon& m, int part) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(14, 250); t++) {
    Config c = Random(r, 40);
    m.begin("%s", c.what.c_str());
    Job j;
    j.base = c.s.base;
    j.commands = c.commands;
    const std::string p = mon::F("r%d_%ld_", part, t);
    // another simulation that may have run before in the same process
    fs::remove_all("other");
    fs::copy("settings", "other", fs::copy_options::recursive);
    const std::string prior = "other/sample_simulation_base.ini";
    world::Set(prior, "RANDOMIZE", "rand_seed", (double)r.i(1, 1 << 30));
    world::Set(prior, "TIME", "simulation_duration_s", c.step * 3);
    world::Set(prior, "TIME", "simulation_start_time_utc", c.orbit[0] == "SGP4" ? std::string("2020/03/15 01:02:03.4") : c.orbit[0] == "TIME_SERIES_FILE" ? std::string("2022/09/05 03:02:01.0") : Start(r));
    struct Variant {
      int fill, stack;
      bool prior;
      const char* what;
    };
    std::string first;
    for (auto& v : std::vector<Variant>{{255, 0, false, "first"}, {255, 0, false, "repeated"}, {0, 255, false, "other contents of the memory"}, {0x3f, 0x3f, false, "other contents of the memory"}, {0x40, 0xbf, true, "another simulation before"}}) {
      j.fill = v.fill;
      j.stack = v.stack;
      j.prior = v.prior ? prior : "-";
      j.out = p + std::to_string(v.fill) + "_" + std::to_string(v.stack) + (v.prior ? "p" : "");
      const std::string log = Run(j);
      m.ev("simulations");
      if (first.empty()) {
        first = log;
        Admissible(m, log, c);
      } else {
        Same(m, first, log, 1, 0, v.prior ? "sim/history" : v.fill == 255 ? "sim/repeat" : "sim/memory", v.what);
      }
      for (const char* e : {"", ".job", ".json", ".txt", ".json.ctx"}) fs::remove(j.out + e);
    }
  }
}
GROUP(memory1) { Memory(m, 1); }
GROUP(memory2) { Memory(m, 2); }

// shorter durations are prefixes, rarer logs are subsets, another seed changes the noise only
static void Vary(mon::Mon& m) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(30, 500); t++) {
    Config c = Random(r, 40);
    c.log = 1;
    c.s.B("TIME", "log_output_period_s", c.step);
    m.begin("%s", c.what.c_str());
    const std::string full_log = Simulate(c.s.base, c.commands, "logs");
    Admissible(m, full_log, c);
    const int shorter = (int)r.i(1, c.steps - 1);
    c.s.B("TIME", "simulation_duration_s", c.step * shorter);
    Same(m, Simulate(c.s.base, c.commands, "logs"), full_log, 1, 1, "sim/prefix", "a shorter duration");
    c.s.B("TIME", "simulation_duration_s", c.step * c.steps);
    const int every = (int)r.i(2, 5);
    c.s.B("TIME", "log_output_period_s", c.step * every);
    Same(m, Simulate(c.s.base, c.commands, "logs"), full_log, (size_t)every, 1, "sim/period", "another log period");
    c.s.B("TIME", "log_output_period_s", c.step);
    // the seed of the settings
    c.s.B("RANDOMIZE", "rand_seed", (double)r.i(1, 1 << 30));
    const auto a = Lines(full_log), b = Lines(Simulate(c.s.base, c.commands, "logs"));
    bool differs = false;
    for (size_t i = 1; i < a.size() && i < b.size(); i++) differs |= a[i] != b[i];
    m.check(differs || c.steps < 8, "sim/seed", "another seed gives the same noise");
    m.ev("simulations", 4);
  }
}
GROUP(vary1) { Vary(m); }
GROUP(vary2) { Vary(m); }
GROUP(vary3) { Vary(m); }
