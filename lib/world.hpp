// A world for the harnesses: settings copied into the scratch directory, edited there, and the real objects built from them.
#pragma once
#include "s2e.hpp"
//
#include <environment/global/global_environment.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <logger/logger.hpp>
#include <memory>
#include <simulation/multiple_spacecraft/relative_information.hpp>
#include <simulation/simulation_configuration.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <sstream>

namespace world {
namespace fs = std::filesystem;

inline std::string Trim(const std::string& s) {
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::string D(double v) { return mon::F("%.17g", v); }

// Sets key = value in a section of a settings file (adds the key or the section when missing)
inline void Set(const std::string& file, const std::string& section, const std::string& key, const std::string& value) {
  std::ifstream in(file);
  std::vector<std::string> lines;
  std::string line, now;
  bool done = false;
  long end = -1;
  while (std::getline(in, line)) {
    std::string t = Trim(line);
    if (!t.empty() && t[0] == '[') now = t.substr(1, t.find(']') - 1);
    if (now == section) {
      size_t e = t.find('=');
      if (!done && e != std::string::npos && Trim(t.substr(0, e)) == key) {
        line = key + " = " + value;
        done = true;
      }
      end = (long)lines.size() + 1;
    }
    lines.push_back(line);
  }
  in.close();
  if (!done) {
    if (end < 0) {
      lines.push_back("[" + section + "]");
      end = (long)lines.size();
    }
    lines.insert(lines.begin() + end, key + " = " + value);
  }
  std::ofstream out(file);
  for (auto& l : lines) out << l << "\n";
}
inline void Set(const std::string& file, const std::string& section, const std::string& key, double v) { Set(file, section, key, D(v)); }
template <class V>
void SetV(const std::string& file, const std::string& section, const std::string& key, const V& v, int n) {
  for (int i = 0; i < n; i++) Set(file, section, key + "(" + std::to_string(i) + ")", D((double)v[i]));
}

// Keeps the chatter of the code under test out of the log
struct Quiet {
  std::ostringstream sink;
  std::streambuf *out, *err;
  Quiet() : out(std::cout.rdbuf(sink.rdbuf())), err(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(out);
    std::cerr.rdbuf(err);
  }
};

// Directory "settings" below the current (scratch) directory
struct Settings {
  std::string base = "settings/sample_simulation_base.ini";
  std::string gnss = "settings/environment/sample_gnss.ini";
  std::vector<std::string> sats;
  int n_sat = 1;
  explicit Settings(int number_of_spacecraft = 1) : n_sat(number_of_spacecraft) {
    fs::remove_all("settings");
    fs::copy(std::string(VERIF_REPO) + "/example/settings", "settings", fs::copy_options::recursive);
    fs::create_directories("logs");
    B("SIMULATION_SETTINGS", "log_file_save_directory", "logs/");
    B("SIMULATION_SETTINGS", "save_initialize_files", "DISABLE");
    B("SIMULATION_SETTINGS", "number_of_simulated_spacecraft", (double)n_sat);
    sats.push_back("settings/sample_satellite/satellite.ini");
    for (int i = 1; i < n_sat; i++) {
      std::string d = "settings/satellite" + std::to_string(i);
      fs::copy("settings/sample_satellite", d, fs::copy_options::recursive);
      std::string f = d + "/satellite.ini";
      std::ifstream in(f);
      std::stringstream ss;
      ss << in.rdbuf();
      in.close();
      std::string t = ss.str(), from = "SETTINGS_DIR_FROM_EXE/sample_satellite", to = "SETTINGS_DIR_FROM_EXE/satellite" + std::to_string(i);
      for (size_t p = 0; (p = t.find(from, p)) != std::string::npos; p += to.size()) t.replace(p, from.size(), to);
      std::ofstream(f) << t;
      sats.push_back(f);
      B("SIMULATION_SETTINGS", "spacecraft_file(" + std::to_string(i) + ")", "SETTINGS_DIR_FROM_EXE/satellite" + std::to_string(i) + "/satellite.ini");
    }
  }
  std::string Dir(int i) const { return i == 0 ? "settings/sample_satellite" : "settings/satellite" + std::to_string(i); }
  void B(const std::string& s, const std::string& k, const std::string& v) { Set(base, s, k, v); }
  void B(const std::string& s, const std::string& k, const char* v) { Set(base, s, k, std::string(v)); }
  void B(const std::string& s, const std::string& k, double v) { Set(base, s, k, D(v)); }
  void Sat(int i, const std::string& s, const std::string& k, const std::string& v) { Set(sats[i], s, k, v); }
  void Sat(int i, const std::string& s, const std::string& k, const char* v) { Set(sats[i], s, k, std::string(v)); }
  void Sat(int i, const std::string& s, const std::string& k, double v) { Set(sats[i], s, k, D(v)); }
  void Local(int i, const std::string& s, const std::string& k, const std::string& v) { Set(Dir(i) + "/local_environment.ini", s, k, v); }
  void Dist(int i, const std::string& s, const std::string& k, const std::string& v) { Set(Dir(i) + "/disturbance.ini", s, k, v); }
  void Struct(int i, const std::string& s, const std::string& k, const std::string& v) { Set(Dir(i) + "/structure.ini", s, k, v); }
  // one step for everything
  void Times(double step, double duration, const std::string& start = "2020/04/01 12:00:00.0") {
    B("TIME", "simulation_start_time_utc", start);
    B("TIME", "simulation_duration_s", duration);
    for (const char* k : {"simulation_step_s", "attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s",
                          "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"})
      B("TIME", k, step);
  }
  void Orbit(int i, const V3& r, const V3& v, const std::string& mode = "RK4") {
    Sat(i, "ORBIT", "calculation", "ENABLE");
    Sat(i, "ORBIT", "propagate_mode", mode);
    Sat(i, "ORBIT", "initialize_mode", "POSITION_VELOCITY_I");
    SetV(sats[i], "ORBIT", "initial_position_i_m", r, 3);
    SetV(sats[i], "ORBIT", "initial_velocity_i_m_s", v, 3);
  }
  void Attitude(int i, const std::array<double, 4>& q, const V3& w) {
    Sat(i, "ATTITUDE", "propagate_mode", "RK4");
    Sat(i, "ATTITUDE", "initialize_mode", "MANUAL");
    SetV(sats[i], "ATTITUDE", "initial_quaternion_i2b", q, 4);
    SetV(sats[i], "ATTITUDE", "initial_angular_velocity_b_rad_s", w, 3);
    for (int k = 0; k < 3; k++) Sat(i, "ATTITUDE", "initial_torque_b_Nm(" + std::to_string(k) + ")", 0.0);
  }
  // every stochastic or optional environment off
  void NoNoise(int i) {
    Local(i, "MAGNETIC_FIELD_ENVIRONMENT", "magnetic_field_random_walk_standard_deviation_nT", "0");
    Local(i, "MAGNETIC_FIELD_ENVIRONMENT", "magnetic_field_random_walk_limit_nT", "0");
    Local(i, "MAGNETIC_FIELD_ENVIRONMENT", "magnetic_field_white_noise_standard_deviation_nT", "0");
    Local(i, "ATMOSPHERE", "air_density_standard_deviation", "0");
  }
  void NoDisturbance(int i) {
    for (const char* s : {"GEOPOTENTIAL", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY", "LUNAR_GRAVITY_FIELD"})
      Dist(i, s, "calculation", "DISABLE");
  }
};

// A spacecraft without components, whose parts are accessible
class Sc : public s2e::spacecraft::Spacecraft {
 public:
  Sc(const s2e::simulation::SimulationConfiguration* c, const s2e::environment::GlobalEnvironment* g, int id, s2e::simulation::RelativeInformation* r = nullptr)
      : Spacecraft(c, g, id, r) {
    components_ = new s2e::spacecraft::InstalledComponents();
  }
  s2e::dynamics::Dynamics& Dyn() { return *dynamics_; }
  s2e::environment::LocalEnvironment& Local() { return *local_environment_; }
  s2e::disturbances::Disturbances& Dist() { return *disturbances_; }
  s2e::spacecraft::Structure& Structure() { return *structure_; }
  s2e::environment::ClockGenerator& Clock() { return clock_generator_; }
  void Install(s2e::spacecraft::InstalledComponents* c) { delete components_, components_ = c; }
};

struct World {
  s2e::simulation::SimulationConfiguration config;
  std::unique_ptr<s2e::environment::GlobalEnvironment> global;
  s2e::simulation::RelativeInformation relative;
  std::vector<std::unique_ptr<Sc>> sc;
  explicit World(const Settings& s, bool spacecraft = true) {
    Quiet q;
    config.main_logger_ = new s2e::logger::Logger("none.csv", "logs", s.base, false, false);
    config.initialize_base_file_name_ = s.base;
    config.number_of_simulated_spacecraft_ = (unsigned)s.n_sat;
    config.spacecraft_file_list_ = s.sats;
    config.number_of_simulated_ground_station_ = 1;
    config.ground_station_file_list_ = {"settings/sample_ground_station/ground_station.ini"};
    config.gnss_file_ = s.gnss;
    global = std::make_unique<s2e::environment::GlobalEnvironment>(&config);
    if (spacecraft)
      for (int i = 0; i < s.n_sat; i++) sc.push_back(std::make_unique<Sc>(&config, global.get(), i, &relative));
  }
  ~World() {
    Quiet q;
    while (!sc.empty()) sc.pop_back();  // last first: the relative information requires contiguous ids
    global.reset();
  }
  const s2e::environment::SimulationTime& Time() { return global->GetSimulationTime(); }
  void Step() {
    global->Update();
    for (auto& c : sc) c->Update(&Time());
  }
};
}  // namespace world
