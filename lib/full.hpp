// A complete simulation: spacecraft with every component, commanded actuators, relative information, a ground station
#pragma once
#include "world.hpp"
//
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/mission/telescope.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/spacecraft/installed_components.hpp>

namespace full {
using namespace s2e::components;
namespace env = s2e::environment;
template <class T>
using Up = std::unique_ptr<T>;

struct Components : s2e::spacecraft::InstalledComponents {
  mon::Rng rng;
  bool commands;
  Up<PowerControlUnit> pcu;
  Up<OnBoardComputer> obc;
  Up<GyroSensor> gyro;
  Up<Magnetometer> mag;
  Up<StarSensor> stt;
  Up<SunSensor> sun;
  Up<GnssReceiver> gnss;
  Up<Magnetorquer> mtq;
  Up<ReactionWheel> rw;
  Up<SimpleThruster> thruster;
  Up<ForceGenerator> force;
  Up<TorqueGenerator> torque;
  Up<AngularVelocityObserver> omega;
  Up<AttitudeObserver> att;
  Up<OrbitObserver> orb;
  Up<Telescope> tele;
  Up<MtqMagnetometerInterference> interference;
  std::vector<Up<SolarArrayPanel>> sap;
  Up<Battery> bat;
  Up<PcuInitialStudy> pcu2;
  Components(const s2e::dynamics::Dynamics* dyn, s2e::spacecraft::Structure* st, const env::LocalEnvironment* local, const env::GlobalEnvironment* glob, env::ClockGenerator* clock,
             const std::string& dir, uint64_t seed)
      : rng(seed), commands(seed != 0) {
    const std::string d = dir + "/components/";
    const double dt = glob->GetSimulationTime().GetComponentStepTime_s();
    pcu = std::make_unique<PowerControlUnit>(clock);
    pcu->ConnectPort(0, 0.5, 3.3, 1.0);
    pcu->ConnectPort(1, 1.0);
    pcu->ConnectPort(2, 1.0);
    obc = std::make_unique<OnBoardComputer>(1, clock, pcu->GetPowerPort(0));
    gyro.reset(new GyroSensor(InitGyroSensor(clock, pcu->GetPowerPort(1), 1, d + "gyro_sensor.ini", dt, dyn)));
    mag.reset(new Magnetometer(InitMagnetometer(clock, pcu->GetPowerPort(2), 1, d + "magnetometer.ini", dt, &local->GetGeomagneticField())));
    stt.reset(new StarSensor(InitStarSensor(clock, pcu->GetPowerPort(2), 1, d + "star_sensor.ini", dt, dyn, local)));
    sun.reset(new SunSensor(InitSunSensor(clock, pcu->GetPowerPort(2), 1, d + "sun_sensor.ini", &local->GetSolarRadiationPressure(), &local->GetCelestialInformation())));
    gnss.reset(new GnssReceiver(InitGnssReceiver(clock, pcu->GetPowerPort(2), 1, d + "gnss_receiver.ini", dyn, &glob->GetGnssSatellites(), &glob->GetSimulationTime())));
    mtq.reset(new Magnetorquer(InitMagnetorquer(clock, pcu->GetPowerPort(2), 1, d + "magnetorquer.ini", dt, &local->GetGeomagneticField())));
    rw.reset(new ReactionWheel(InitReactionWheel(clock, pcu->GetPowerPort(2), 1, d + "reaction_wheel.ini", dt)));
    torque.reset(new TorqueGenerator(InitializeTorqueGenerator(clock, d + "torque_generator.ini", dyn)));
    thruster.reset(new SimpleThruster(InitSimpleThruster(clock, pcu->GetPowerPort(2), 1, d + "thruster.ini", st, dyn)));
    tele.reset(new Telescope(InitTelescope(clock, 1, d + "telescope.ini", &dyn->GetAttitude(), &glob->GetHipparcosCatalog(), &local->GetCelestialInformation(), &dyn->GetOrbit())));
    force.reset(new ForceGenerator(InitializeForceGenerator(clock, d + "force_generator.ini", dyn)));
    omega.reset(new AngularVelocityObserver(InitializeAngularVelocityObserver(clock, d + "angular_velocity_observer.ini", dt, dyn->GetAttitude())));
    att.reset(new AttitudeObserver(InitializeAttitudeObserver(clock, d + "attitude_observer.ini", dyn->GetAttitude())));
    orb.reset(new OrbitObserver(InitializeOrbitObserver(clock, d + "orbit_observer.ini", dyn->GetOrbit())));
    interference = std::make_unique<MtqMagnetometerInterference>(d + "component_interference.ini", *mag, *mtq);
    std::vector<SolarArrayPanel*> raw;
    for (int i = 1; i <= 3; i++) {
      sap.emplace_back(new SolarArrayPanel(InitSAP(clock, i, d + "solar_array_panel.ini", &local->GetSolarRadiationPressure(), &local->GetCelestialInformation(), dt)));
      raw.push_back(sap.back().get());
    }
    bat.reset(new Battery(InitBAT(clock, 1, d + "battery.ini", dt)));
    pcu2.reset(new PcuInitialStudy(InitPCU_InitialStudy(clock, 1, d + "pcu_initial_study.ini", raw, bat.get(), dt)));
    for (int i = 0; i < 3; i++) pcu->GetPowerPort(i)->SetVoltage_V(3.3);
  }
  ~Components() {
    pcu2.reset();
    interference.reset();
  }
  void Command() {
    if (!commands) return;
    auto v3 = [&](double s) { return tov((L)s * V3{rng.n(), rng.n(), rng.n()}); };
    switch (rng.i(0, 11)) {
      case 0: rw->SetDriveFlag(rng.b(0.8)); break;
      case 1: rw->SetTargetTorque_rw_Nm(rng.n() * 0.01); break;
      case 2: mtq->SetOutputMagneticMoment_c_Am2(v3(0.1)); break;
      case 3: thruster->SetDuty(rng.u(0, 1)); break;
      case 4: force->SetForce_b_N(v3(0.1)); break;
      case 5: force->SetForce_rtn_N(v3(0.1)); break;
      case 6: torque->SetTorque_b_Nm(v3(1e-4)); break;
      case 7: pcu->GetPowerPort((int)rng.i(0, 2))->SetVoltage_V(rng.b(0.7) ? 3.3 : 0.0); break;
      case 8: thruster->SetDuty(0); break;
      default: break;
    }
  }
  s2e::math::Vector<3> GenerateForce_b_N() override { return thruster->GetOutputThrust_b_N() + force->GetGeneratedForce_b_N(); }
  s2e::math::Vector<3> GenerateTorque_b_Nm() override {
    return mtq->GetOutputTorque_b_Nm() + rw->GetOutputTorque_b_Nm() + thruster->GetOutputTorque_b_Nm() + torque->GetGeneratedTorque_b_Nm();
  }
  void ComponentInterference() override { interference->UpdateInterference(); }
  void LogSetup(s2e::logger::Logger& l) override {
    for (s2e::logger::ILoggable* x : std::vector<s2e::logger::ILoggable*>{gyro.get(), mag.get(), stt.get(), sun.get(), gnss.get(), mtq.get(), rw.get(), thruster.get(), tele.get(), force.get(),
                                                                          torque.get(), omega.get(), att.get(), orb.get(), bat.get(), pcu2.get()})
      l.AddLogList(x);
    for (auto& s : sap) l.AddLogList(s.get());
  }
};

class Sc : public s2e::spacecraft::Spacecraft {
 public:
  Components* comp = nullptr;
  Sc(const s2e::simulation::SimulationConfiguration* c, const env::GlobalEnvironment* g, int id, s2e::simulation::RelativeInformation* r, const std::string& dir, uint64_t seed)
      : Spacecraft(c, g, (unsigned)id, r) {
    components_ = comp = new Components(dynamics_, structure_, local_environment_, g, &clock_generator_, dir, seed);
  }
  s2e::dynamics::Dynamics& Dyn() { return *dynamics_; }
};

struct Case : s2e::simulation::SimulationCase {
  std::vector<Up<Sc>> sc;
  Up<s2e::simulation::RelativeInformation> rel;
  Up<s2e::ground_station::GroundStation> gs;
  uint64_t seed;
  Case(const std::string& base, uint64_t command_seed) : SimulationCase(base), seed(command_seed) {}
  ~Case() {
    while (!sc.empty()) sc.pop_back();
  }
  void InitializeTargetObjects() override {
    auto& c = simulation_configuration_;
    rel = std::make_unique<s2e::simulation::RelativeInformation>();
    for (unsigned i = 0; i < c.number_of_simulated_spacecraft_; i++) {
      const std::string f = c.spacecraft_file_list_[i];
      sc.push_back(std::make_unique<Sc>(&c, global_environment_, (int)i, rel.get(), f.substr(0, f.find_last_of('/')), seed ? seed + i : 0));
    }
    gs = std::make_unique<s2e::ground_station::GroundStation>(&c, 0);
    for (auto& s : sc) s->LogSetup(*c.main_logger_);
    rel->LogSetup(*c.main_logger_);
    gs->LogSetup(*c.main_logger_);
  }
  void UpdateTargetObjects() override {
    for (auto& s : sc) {
      s->comp->Command();
      s->Update(&global_environment_->GetSimulationTime());
    }
    rel->Update();
    for (auto& s : sc) gs->Update(global_environment_->GetCelestialInformation().GetEarthRotation(), *s);
  }
};
}  // namespace full
