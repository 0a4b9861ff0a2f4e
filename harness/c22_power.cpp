// C22: electrical power is conserved and protected at every port, panel, battery and bus
#include "component.hpp"
//
#include <components/ports/power_port.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <environment/local/local_environment.hpp>
#include <fstream>

using namespace s2e::components;
using ref::v;

// What a port should show; `edge` while a limit is too close to decide
struct PortModel {
  L limit, vmin = 3.3L, power = 0, volt = 0, current = 0;
  bool on = false, edge = false;
  void update() {
    edge = fabsl(volt - vmin) < 1e-12L * (1 + fabsl(vmin));
    on = volt >= vmin;
    current = on ? (power > 0 ? power / volt : 0) : 0;
    if (on && fabsl(current - limit) < 1e-12L * (1 + limit)) edge = true;
    if (current >= limit) current = 0, volt = 0, on = false;
  }
};
static void Compare(mon::Mon& m, const PowerPort& p, const PortModel& w) {
  if (w.edge) return;
  m.check(p.GetIsOn() == w.on, "port:on", "port is %s at %.17g V (minimum %.17Lg V) with %.9g W (limit %.9Lg A)", p.GetIsOn() ? "on" : "off", p.GetVoltage_V(), w.vmin, p.GetAssumedPowerConsumption_W(), w.limit);
  m.check(fabsl(p.GetCurrentConsumption_A() - w.current) <= 1e-13L * w.current, "port:current", "current %.15g A instead of %.15Lg A", p.GetCurrentConsumption_A(), w.current);
  m.check(fabsl(p.GetVoltage_V() - w.volt) <= 1e-15L * fabsl(w.volt), "port:voltage", "voltage %.15g V instead of %.15Lg V", p.GetVoltage_V(), w.volt);
  m.check(fabsl(p.GetAssumedPowerConsumption_W() - w.power) <= 1e-12L * (1 + w.power), "port:power", "assumed power %.15g W instead of %.15Lg W", p.GetAssumedPowerConsumption_W(), w.power);
}

// Random sequences of settings and updates of ports held by power control units
GROUP(ports) {
  world::World W(Plain(m.rng, 1.0));
  const long n = m.n(300, 4000), ops = 400;
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    PowerControlUnit pcu(1, &clock);
    std::map<int, PortModel> model;
    m.begin("power control unit %ld", k);
    for (long o = 0; o < ops; o++) {
      const int id = (int)m.rng.i(0, 5);
      const bool exists = model.count(id) > 0;
      if (m.rng.b(0.08)) {
        const double limit = m.rng.logu(0.01, 10), vmin = m.rng.b(0.1) ? 0 : m.rng.u(0, 12), power = m.rng.b(0.2) ? 0 : m.rng.logu(0.01, 30);
        const bool full = m.rng.b();
        const bool file = full && m.rng.b(0.3);  // the same from a file
        const int r = full && !file ? pcu.ConnectPort(id, limit, vmin, power) : pcu.ConnectPort(id, limit);
        if (file && !exists) {
          std::ofstream("port.ini") << "[POWER_PORT]\nminimum_voltage_V = " << world::D(vmin) << "\nassumed_power_consumption_W = " << world::D(power) << "\n";
          pcu.GetPowerPort(id)->InitializeWithInitializeFile("port.ini");
          m.ev("ports from a file");
        }
        m.check(r == (exists ? -1 : 0), "pcu:connect", "connecting %s port gave %d", exists ? "a used" : "a free", r);
        if (!exists) {
          PortModel w;
          w.limit = limit;
          if (full) w.vmin = vmin, w.power = power;
          model[id] = w;
          m.check(!pcu.GetPowerPort(id)->GetIsOn(), "port:initial", "a new port is on before any voltage was given");
          m.ev("connected");
        }
        continue;
      }
      if (m.rng.b(0.03)) {
        const int r = pcu.ClosePort(id);
        m.check(r == (exists ? 0 : -1), "pcu:close", "closing %s port gave %d", exists ? "a used" : "a free", r);
        model.erase(id);
        m.ev("closed");
        continue;
      }
      if (!exists) continue;
      PowerPort& p = *pcu.GetPowerPort(id);
      PortModel& w = model[id];
      bool updated = false;
      switch (m.rng.i(0, 7)) {
        case 0: case 1: {
          const double volt = m.rng.pick(std::vector<double>{0, 3.3, 5, m.rng.u(0, 15), (double)w.vmin, (double)w.vmin * (1 + 1e-9), (double)w.vmin * (1 - 1e-9), w.power > 0 ? (double)(w.power / w.limit) * m.rng.pick(std::vector<double>{1 + 1e-9, 1 - 1e-9, 0.5, 2}) : 1.0});
          w.volt = volt;
          const bool r = p.SetVoltage_V(volt);
          w.update();
          if (!w.edge) m.check(r == w.on, "port:on", "setting the voltage returned %d", r);
          updated = true;
          break;
        }
        case 2: {
          const bool r = p.Update();
          w.update();
          if (!w.edge) m.check(r == w.on, "port:on", "the update returned %d", r);
          updated = true;
          break;
        }
        case 3: p.SetAssumedPowerConsumption_W((double)(w.power = m.rng.b(0.2) ? 0 : (L)m.rng.logu(0.01, 30))); break;
        case 4: {
          const double a = m.rng.logu(0.01, 5);
          p.AddAssumedPowerConsumption_W(a), w.power = w.power + a;
          break;
        }
        case 5: {
          const double a = m.rng.logu(0.01, 5);
          p.SubtractAssumedPowerConsumption_W(a), w.power = std::max((L)0, w.power - a);
          if (w.power < 1e-9L) {
            m.check(fabs(p.GetAssumedPowerConsumption_W()) <= 1e-9, "port:negative_power", "%.9g W are left after more was taken away than was there", p.GetAssumedPowerConsumption_W());
            p.SetAssumedPowerConsumption_W(0), w.power = 0;
          }
          break;
        }
        case 6: p.SetMinimumVoltage_V((double)(w.vmin = m.rng.b(0.1) ? 0 : m.rng.u(0, 12))); break;
        default: p.SetCurrentLimit_A((double)(w.limit = m.rng.logu(0.01, 10))); break;
      }
      if (updated) {
        if (w.edge) {  // follow the port
          w.on = p.GetIsOn(), w.volt = p.GetVoltage_V(), w.current = p.GetCurrentConsumption_A(), w.edge = false;
        } else {
          Compare(m, p, w);
        }
        m.ev(w.on ? w.power > 0 ? "on" : "on_without_load" : w.volt == 0 ? "off_or_tripped" : "under_voltage");
        m.distinctv({p.GetVoltage_V(), p.GetAssumedPowerConsumption_W(), (double)p.GetIsOn()});
      }
      // the other ports are not touched
      for (auto& x : model)
        if (x.first != id) m.check(pcu.GetPowerPort(x.first)->GetIsOn() == x.second.on || x.second.edge, "pcu:isolation", "port %d changed with port %d", x.first, id);
    }
  }
  {
    PowerPort p;
    m.check(p.GetIsOn(), "port:default", "the default port does not work its component");
  }
  for (const char* e : {"connected", "closed", "on", "on_without_load", "off_or_tripped", "under_voltage"}) m.require(e, 50);
}

struct PanelSpec {
  int pre, ns, np;
  double area, ec, et;
  V3 n;
};
static PanelSpec MakePanel(mon::Rng& r) {
  PanelSpec s;
  s.pre = (int)r.i(1, 4), s.ns = (int)r.i(1, 20), s.np = (int)r.i(1, 20);
  s.area = r.logu(1e-4, 0.1), s.ec = r.u(0.05, 0.5), s.et = r.u(0.3, 1), s.n = (L)r.logu(0.1, 10) * gen::dir(r);
  return s;
}
template <class F>
static std::unique_ptr<SolarArrayPanel> BuildPanel(const PanelSpec& s, int id, F make) {
  File f = Fresh("solar_array_panel.ini");
  const std::string x = mon::F("SOLAR_ARRAY_PANEL_%d", id);
  world::Set(f.path, x, "prescaler", (double)s.pre);
  world::Set(f.path, x, "number_of_series", (double)s.ns);
  world::Set(f.path, x, "number_of_parallel", (double)s.np);
  world::Set(f.path, x, "cell_area_m2", s.area);
  world::SetV(f.path, x, "normal_vector_b", s.n, 3);
  world::Set(f.path, x, "cell_efficiency", s.ec);
  world::Set(f.path, x, "transmission_efficiency", s.et);
  world::Quiet quiet;
  return make(f.path);
}
static L PanelPower(const PanelSpec& s, L density, const V3& sun) {
  return s.ec * (L)s.et * density * s.area * s.ns * s.np * std::max((L)0, ref::dot_(ref::unit(s.n), ref::unit(sun)));
}
struct BatterySpec {
  int pre, ns, np;
  double cap, dod, rate, cv, res;
  std::vector<double> curve;
  L voltage(L dod_percent) const {
    L x = dod_percent / 100 * cap, p = 1, s = 0;
    for (double c : curve) s += c * p, p *= x;
    return s * ns;
  }
};
static BatterySpec MakeBattery(mon::Rng& r) {
  BatterySpec s;
  s.pre = (int)r.i(1, 4), s.ns = (int)r.i(1, 8), s.np = (int)r.i(1, 6), s.cap = r.logu(0.1, 10), s.dod = r.b(0.2) ? 0 : r.u(0, 90);
  s.rate = r.logu(0.05, 2), s.res = r.logu(0.01, 2);
  const double full = r.u(3.6, 4.3);
  if (r.b()) {  // a curve falling over the whole range
    s.curve = {full, -r.u(0.2, 1) / s.cap};
    if (r.b()) s.curve.push_back(-r.u(0, 0.3) / s.cap / s.cap), s.curve.push_back(-r.u(0, 0.3) / s.cap / s.cap / s.cap);
  } else {
    const double y[8] = {4.2, -1.11372443, 3.255553766, -5.717011044, 5.031000929, -2.315028915, 0.5338229034, -0.04872142307};
    for (int i = 0; i < 8; i++) s.curve.push_back(y[i] * std::pow(3.2 / s.cap, i));
  }
  s.cv = s.ns * (s.curve[0] + r.u(-0.3, 0.15));
  return s;
}
static std::unique_ptr<Battery> BuildBattery(mon::Rng& r, const BatterySpec& s, int id, s2e::environment::ClockGenerator* clock, double step) {
  const long kind = r.i(0, 2);
  if (kind == 0) return std::make_unique<Battery>(s.pre, clock, s.ns, s.np, s.cap, s.curve, s.dod, s.rate, s.cv, s.res, step);
  File f = Fresh("battery.ini");
  const std::string x = mon::F("BATTERY_%d", id);
  world::Set(f.path, x, "prescaler", (double)s.pre);
  world::Set(f.path, x, "number_of_series", (double)s.ns);
  world::Set(f.path, x, "number_of_parallel", (double)s.np);
  world::Set(f.path, x, "cell_capacity_Ah", s.cap);
  world::Set(f.path, x, "approximation_order", (double)s.curve.size() - 1);
  for (size_t i = 0; i < s.curve.size(); i++) world::Set(f.path, x, mon::F("cell_discharge_curve_coefficients(%zu)", i), s.curve[i]);
  world::Set(f.path, x, "initial_dod", s.dod);
  world::Set(f.path, x, "constant_charge_current_rate_C", s.rate);
  world::Set(f.path, x, "constant_voltage_charge_voltage_V", s.cv);
  world::Set(f.path, x, "battery_resistance_Ohm", s.res);
  world::Quiet quiet;
  if (kind == 1) return std::make_unique<Battery>(InitBAT(clock, id, f.path, step));
  const Battery b = InitBAT(clock, id, f.path, step);
  return std::make_unique<Battery>(b);
}
static double Dod(const Battery& b) {  // second column of its log
  const std::string s = b.GetLogValue();
  return atof(s.substr(s.find(',') + 1).c_str());
}

GROUP(panel) {
  const long worlds = m.n(10, 80);
  for (long w = 0; w < worlds; w++) {
    world::World W(Plain(m.rng, 60, 3e5, 2e7));
    auto& sc = *W.sc[0];
    auto& srp = sc.Local().GetSolarRadiationPressure();
    s2e::environment::ClockGenerator clock;
    std::vector<PanelSpec> spec;
    std::vector<std::unique_ptr<SolarArrayPanel>> panel;
    for (int i = 0; i < 6; i++) {
      spec.push_back(MakePanel(m.rng));
      PanelSpec& s = spec.back();
      if (i % 3 == 0) {
        panel.push_back(std::make_unique<SolarArrayPanel>(s.pre, &clock, i, s.ns, s.np, s.area, tov(s.n), s.ec, s.et, &srp, &sc.Local().GetCelestialInformation(), 0.1));
      } else {
        panel.push_back(BuildPanel(s, i, [&](const std::string& path) { return std::make_unique<SolarArrayPanel>(InitSAP(&clock, i, path, &srp, &sc.Local().GetCelestialInformation(), 0.1)); }));
        if (i % 3 == 2) panel.back() = std::make_unique<SolarArrayPanel>(*panel.back());
      }
      m.check(panel.back()->GetPowerGeneration_W() == 0, "panel:initial", "generates %.9g W before it ran", panel.back()->GetPowerGeneration_W());
    }
    m.begin("world %ld of solar array panels", w);
    std::vector<L> held(6, 0);
    for (unsigned t = 0; t < 500; t++) {
      if (t % 4 == 0) W.Step();
      Turn(m, W);
      const V3 sun = v(sc.Local().GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN"));
      for (size_t i = 0; i < 6; i++) {
        panel[i]->Tick(t);
        if (t % (unsigned)spec[i].pre == 0) {
          const V3 n = ref::unit(spec[i].n);
          held[i] = PanelPower(spec[i], srp.GetPowerDensity_W_m2(), sun);
          const L full = PanelPower(spec[i], srp.GetPowerDensity_W_m2(), spec[i].n);
          m.check(fabsl(panel[i]->GetPowerGeneration_W() - held[i]) <= 1e-12L * full, "panel:power", "%.12g W instead of %.12Lg W with %.9g W/m2 at cosine %.9Lf", panel[i]->GetPowerGeneration_W(), held[i], srp.GetPowerDensity_W_m2(),
                  ref::dot_(n, ref::unit(sun)));
          m.ev(ref::dot_(n, sun) < 0 ? "dark_side" : srp.GetPowerDensity_W_m2() == 0 ? "eclipse" : "lit");
        } else {
          m.check(fabsl(panel[i]->GetPowerGeneration_W() - held[i]) <= 1e-12L * held[i], "panel:held", "changed between its runs");
        }
      }
      m.distinctv({(double)sun.x, (double)sun.y, srp.GetPowerDensity_W_m2()});
    }
  }
  for (const char* e : {"lit", "dark_side", "eclipse"}) m.require(e, 50);
}

// A battery under any current
GROUP(battery) {
  world::World W(Plain(m.rng, 1.0));
  const long n = m.n(300, 4000);
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    const BatterySpec s = MakeBattery(m.rng);
    const double step = m.rng.pick(std::vector<double>{0.1, 0.5, 1, 10});
    auto b = BuildBattery(m.rng, s, (int)m.rng.i(0, 3), &clock, step);
    m.begin("battery of %dx%d cells of %g Ah, prescaler %d, step %g s, %zu coefficients, initial depth %g %%", s.ns, s.np, s.cap, s.pre, step, s.curve.size(), s.dod);
    L dod = s.dod, current = 0;
    const L vscale = fabsl(s.voltage(0)) * 100;
    m.check(fabsl(b->GetVoltage_V() - s.voltage(dod)) <= 1e-12L * vscale, "battery:initial", "starts at %.12g V instead of %.12Lg V", b->GetVoltage_V(), s.voltage(dod));
    m.check(fabsl(b->GetCcChargeCurrent_C() - (L)s.rate * s.cap * s.np) <= 1e-13L * fabsl(b->GetCcChargeCurrent_C()) && fabs(b->GetCvChargeVoltage_V() - s.cv) <= 1e-12 * s.cv && fabs(b->GetResistance_Ohm() - s.res) <= 1e-12 * s.res, "battery:settings",
            "charges with %.9g A up to %.9g V over %.9g Ohm", b->GetCcChargeCurrent_C(), b->GetCvChargeVoltage_V(), b->GetResistance_Ohm());
    for (unsigned t = 0; t < 400; t++) {
      if (m.rng.b(0.1) && t) {
        L want = m.rng.u(-1, 1) * s.cap * s.np * 360 / (step * s.pre) * 0.3;
        if (dod + want < 0) want = fabsl(want);
        if (dod > 60) want = fabsl(want);
        current = (double)(m.rng.b(0.2) ? 0 : want * m.rng.u01());
        b->SetChargeCurrent((double)current);
      }
      if (t % (unsigned)s.pre == 0 && (dod < 0.5L && current > 0)) current = 0, b->SetChargeCurrent(0);
      if (t % (unsigned)s.pre == 0 && (dod > 95 && current < 0)) current = 0, b->SetChargeCurrent(0);
      b->Tick(t);
      if (t % (unsigned)s.pre == 0) {
        dod -= current * step * s.pre / 3600 / ((L)s.cap * s.np) * 100;
        m.ev(current > 0 ? "charge" : current < 0 ? "discharge" : "rest");
      }
      if (dod < -20 || dod > 130) break;
      m.check(fabsl(b->GetVoltage_V() - s.voltage(dod)) <= 1e-11L * vscale, "battery:voltage", "%.12g V instead of %.12Lg V at %.9Lg %% discharged", b->GetVoltage_V(), s.voltage(dod), dod);
      m.check(fabsl(Dod(*b) - dod) <= 2e-5L * (1 + fabsl(dod)), "battery:charge", "%.9g %% discharged instead of %.9Lg %%", Dod(*b), dod);
      m.distinctv({(double)dod, (double)current});
    }
  }
  for (const char* e : {"charge", "discharge", "rest"}) m.require(e, 50);
}

static const char* kScenario = "scenario.csv";
struct Row {
  double t;
  V3 dir;
  double sun, load;
};
static std::vector<Row> Scenario(mon::Rng& r, double first, double span, double load) {
  std::vector<Row> rows;
  double t = first;
  const long n = r.i(1, 30);
  for (long i = 0; i < n; i++) {
    rows.push_back({t, (L)r.logu(0.1, 10) * gen::dir(r), (double)r.i(0, 1), r.b(0.2) ? 0 : r.logu(0.1, 1) * load});
    t += r.u(0.1, 2) * span / (double)n;
  }
  return rows;
}
static void Load(std::vector<Row>& rows, bool enabled) {
  {
    std::ofstream f(kScenario);
    f.precision(17);
    f << "time,x,y,z,flag,power\n";
    for (Row& w : rows) f << w.t << "," << (double)w.dir.x << "," << (double)w.dir.y << "," << (double)w.dir.z << "," << w.sun << "," << w.load << "\n";
  }
  std::ofstream("scenario.ini") << "[SCENARIO]\nis_csv_scenario_enabled = " << (enabled ? "true" : "false") << "\ncsv_path = " << kScenario << "\n";
  world::Quiet quiet;
  CsvScenarioInterface::Initialize("scenario.ini");
}
static const Row* At(const std::vector<Row>& rows, double t) {
  const Row* x = nullptr;
  for (const Row& r : rows)
    if (r.t <= t) x = &r;
  return x;
}

// The scenario is a step function of time, and it drives the panels. The table of one process is never cleared, so there is one scenario here.
GROUP(scenario) {
  world::World W(Plain(m.rng, 1.0));
  auto& sc = *W.sc[0];
  auto& srp = sc.Local().GetSolarRadiationPressure();
  s2e::environment::ClockGenerator clock;
  m.begin("csv scenario");
  m.check(!CsvScenarioInterface::IsCsvScenarioEnabled(), "scenario:default", "enabled by default");
  auto rows = Scenario(m.rng, m.rng.pick(std::vector<double>{0, 5, 100}), 1000, 20);
  while (rows.size() < 10) rows = Scenario(m.rng, 5, 1000, 20);
  Load(rows, true);
  m.check(CsvScenarioInterface::IsCsvScenarioEnabled(), "scenario:enabled", "not enabled");
  std::vector<double> times{-1, 0, rows.front().t, rows.back().t, rows.back().t + 1e6};
  for (auto& r : rows) times.push_back(r.t), times.push_back(std::nextafter(r.t, 1e9)), times.push_back(std::nextafter(r.t, -1e9));
  for (long i = 0; i < m.n(4000, 100000); i++) times.push_back(m.rng.u(-50, 2500));
  for (double t : times) {
    const Row* x = At(rows, t);
    const V3 d = v(CsvScenarioInterface::GetSunDirectionBody(t));
    const V3 want = x ? x->dir : V3{0, 0, 0};
    m.check(ref::norm(d - want) <= 1e-14L * (1 + ref::norm(want)), "scenario:direction", "direction (%.9Lg %.9Lg %.9Lg) at %.17g s instead of (%.9Lg %.9Lg %.9Lg)", d.x, d.y, d.z, t, want.x, want.y, want.z);
    m.check(CsvScenarioInterface::GetSunFlag(t) == (x && x->sun != 0), "scenario:flag", "sun flag %d at %.17g s", CsvScenarioInterface::GetSunFlag(t), t);
    m.check(fabs(CsvScenarioInterface::GetPowerConsumption(t) - (x ? x->load : 0)) <= 1e-14, "scenario:load", "load %.12g W at %.17g s instead of %.12g W", CsvScenarioInterface::GetPowerConsumption(t), t, x ? x->load : 0);
    m.ev(!x ? "before_scenario" : x == &rows.back() ? "after_last" : "inside");
    m.distinctv({t});
  }
  for (long k = 0; k < 20; k++) {
    const PanelSpec s = MakePanel(m.rng);
    const double step = m.rng.pick(std::vector<double>{0.1, 0.25, 1});
    auto p = BuildPanel(s, 3, [&](const std::string& path) {
      return k % 2 ? std::make_unique<SolarArrayPanel>(InitSAP(&clock, 3, path, &srp, step)) : std::make_unique<SolarArrayPanel>(InitSAP(&clock, 3, path, &srp, &sc.Local().GetCelestialInformation(), step));
    });
    for (long i = 0; i < 300; i++) {
      const unsigned t = (unsigned)m.rng.i(0, (long)(2000 / step)) / (unsigned)s.pre * (unsigned)s.pre;
      const double at = step * t;
      bool edge = false;
      for (auto& r : rows)
        if (fabs(r.t - at) < 1e-9) edge = true;
      const Row* x = At(rows, at);
      if (edge || !x) continue;
      p->Tick(t);
      const L want = x->sun != 0 ? PanelPower(s, srp.GetSolarConstant_W_m2(), x->dir) : 0;
      m.check(fabsl(p->GetPowerGeneration_W() - want) <= 1e-12L * PanelPower(s, srp.GetSolarConstant_W_m2(), s.n), "scenario:panel", "panel gives %.12g W instead of %.12Lg W at %.9g s", p->GetPowerGeneration_W(), want, at);
      m.ev("panel");
    }
  }
  m.require("before_scenario", 1), m.require("after_last", 10), m.require("inside", 100), m.require("panel", 500);
}

// Panels, battery, load and the unit that joins them, over charge and discharge
GROUP(bus) {
  world::World W(Plain(m.rng, 1.0));
  auto& sc = *W.sc[0];
  auto& srp = sc.Local().GetSolarRadiationPressure();
  W.Step();
  for (int i = 0; i < 20000 && srp.GetPowerDensity_W_m2() == 0; i++) W.Step();  // out of the shadow
  const long n = m.n(250, 3000);
  for (long k = 0; k < n; k++) {
    s2e::environment::ClockGenerator clock;
    BatterySpec s = MakeBattery(m.rng);
    const double step = m.rng.pick(std::vector<double>{0.1, 0.5, 1, 5});
    auto b = BuildBattery(m.rng, s, 1, &clock, step);
    std::vector<std::unique_ptr<SolarArrayPanel>> panel;
    std::vector<SolarArrayPanel*> raw;
    const int panels = (int)m.rng.i(0, 4);
    const L one = 1367.0L * 0.3L;
    for (int i = 0; i < panels; i++) {
      PanelSpec p = MakePanel(m.rng);
      p.pre = 1, p.ns = p.np = 1, p.ec = 0.3, p.et = 1, p.area = m.rng.logu(0.1, 60) / (double)one;
      panel.push_back(std::make_unique<SolarArrayPanel>(1, &clock, i, p.ns, p.np, p.area, tov(p.n), p.ec, p.et, &srp, &sc.Local().GetCelestialInformation(), step));
      raw.push_back(panel.back().get());
    }
    const int pre = (int)m.rng.i(1, 3);
    std::unique_ptr<PcuInitialStudy> pcu;
    if (m.rng.b()) {
      std::ofstream("pcu.ini") << "[PCU_INITIAL_STUDY_2]\nprescaler = " << pre << "\n";
      world::Quiet quiet;
      pcu = std::make_unique<PcuInitialStudy>(InitPCU_InitialStudy(&clock, 2, "pcu.ini", raw, b.get(), step));
    } else {
      pcu = std::make_unique<PcuInitialStudy>(pre, &clock, raw, b.get(), step);
    }
    m.begin("bus with %d panels and %dx%d cells of %g Ah at %g %%, %g Ohm, charged with %g C up to %g V (full %.4Lg V)", panels, s.ns, s.np, s.cap, s.dod, s.res, s.rate, s.cv, s.voltage(0));
    L dod = s.dod, current = 0;
    const L cc = (L)s.rate * s.cap * s.np, vscale = fabsl(s.voltage(0)) * 100;
    for (unsigned t = 0; t < 300; t++) {
      if (t % 10 == 0) Turn(m, W);
      for (auto& p : panel) p->Tick(t);
      const L vb = s.voltage(dod);
      if (vb < 0.3L * s.voltage(0) || dod > 110 || dod < -10) break;
      if (fabsl(b->GetVoltage_V() - vb) > 1e-8L * vscale) {
        m.check(false, "bus:battery", "battery at %.12g V instead of %.12Lg V after %u ticks", b->GetVoltage_V(), vb, t);
        break;
      }
      pcu->Tick(t);
      if (t % (unsigned)pre == 0) {
        L gen_w = 0;
        for (auto& p : panel) gen_w += p->GetPowerGeneration_W();
        const std::string log = pcu->GetLogValue();
        const double load = atof(log.c_str()), bus = atof(log.substr(log.find(',') + 1).c_str());
        m.check(load == 5.0, "bus:load", "load %.9g W", load);
        const L x = vb * vb + 4 * (L)s.res * (gen_w - 5), natural = x >= 0 ? (-vb + sqrtl(x)) / (2 * (L)s.res) : -vb / (2 * (L)s.res);
        const L cv_current = std::max((L)0, (s.cv - vb) / s.res);
        current = std::min(natural, std::min(cc, cv_current));
        const L want_bus = vb + current * s.res;
        m.check(fabsl(bus - want_bus) <= 2e-5L * (1 + fabsl(want_bus)), "bus:voltage", "bus at %.9g V instead of %.9Lg V (battery %.9Lg V, generation %.6Lg W, load %.6g W)", bus, want_bus, vb, gen_w, load);
        m.check(bus <= std::max((L)s.cv, vb) * (1 + 1e-5L), "bus:over_voltage", "bus at %.9g V above the charge voltage of %.9g V", bus, s.cv);
        m.ev(x < 0 ? "overload" : current == cc ? "constant_current" : current == natural ? natural > 0 ? "charge" : "discharge" : current == 0 ? "full" : "constant_voltage");
      }
      // the charge that the battery takes up shows what current it received
      b->Tick(t);
      if (t % (unsigned)s.pre == 0) dod -= current * step * s.pre / 3600 / ((L)s.cap * s.np) * 100;
      m.check(fabsl(Dod(*b) - dod) <= 3e-5L * (1 + fabsl(dod)), "bus:charge", "%.9g %% discharged instead of %.9Lg %% (current %.6Lg A of at most %.6Lg A)", Dod(*b), dod, current, cc);
      m.distinctv({(double)current, (double)vb});
    }
  }
  for (const char* e : {"overload", "constant_current", "charge", "discharge", "full", "constant_voltage"}) m.require(e, 20);
}

// The load of the scenario reaches the bus
GROUP(scenario_bus) {
  world::World W(Plain(m.rng, 1.0));
  s2e::environment::ClockGenerator clock;
  auto rows = Scenario(m.rng, 0, 1000, 20);
  while (rows.size() < 10) rows = Scenario(m.rng, 0, 1000, 20);
  Load(rows, true);
  for (long k = 0; k < m.n(40, 400); k++) {
    const double step = m.rng.pick(std::vector<double>{0.1, 0.25, 1});
    BatterySpec s = MakeBattery(m.rng);
    auto b = BuildBattery(m.rng, s, 1, &clock, step);
    const int pre = (int)m.rng.i(1, 3);
    PcuInitialStudy pcu(pre, &clock, {}, b.get(), step);
    m.begin("bus driven by a scenario, step %g s, prescaler %d", step, pre);
    for (long i = 0; i < 200; i++) {
      const unsigned t = (unsigned)m.rng.i(0, (long)(1500 / step)) / (unsigned)pre * (unsigned)pre;
      bool edge = false;
      for (auto& r : rows)
        if (fabs(r.t - step * t) < 1e-9 && t) edge = true;
      const Row* x = At(rows, step * t);
      if (edge || !x) continue;
      pcu.Tick(t);
      const double load = atof(pcu.GetLogValue().c_str());
      m.check(fabs(load - x->load) <= 2e-5 * (1 + x->load), "scenario:bus_load", "load %.9g W at %.9g s instead of %.9g W", load, step * t, x->load);
      m.ev("load");
      m.distinctv({step * t});
    }
  }
  m.require("load", 500);
}
