// C06: simulation clock
#include "civil.hpp"
#include "mon.hpp"
//
#include <environment/global/simulation_time.hpp>
#include <chrono>
#include <cmath>
#include <fstream>
#include <memory>

using s2e::environment::SimulationTime;
struct Setting {
  int64_t step_us, att, orb, the, com, log, steps;  // periods in steps
  int y, mo, d, h, mi;
  double s;
  double cut[5] = {0, 0, 0, 0, 0};  // how much of its last step each period does not need
};
static Setting Random(mon::Mon& m) {
  Setting t;
  static const std::vector<int64_t> kSteps = {1000,   2000,   3000,   7000,    10000,   13000,   15000,   20000,   30000,   50000,   60000,  70000,
                                              100000, 125000, 150000, 200000,  250000,  300000,  600000,  700000,  1000000, 1100000, 1700000, 3000000};
  t.step_us = m.rng.b(0.7) ? m.rng.pick(kSteps) : m.rng.i(1, 30000) * 100;
  auto per = [&]() { return m.rng.b(0.3) ? 1 : m.rng.i(1, m.rng.b() ? 10 : 200); };
  t.att = per();
  t.orb = per();
  t.the = per();
  t.com = per();
  t.log = per();
  t.steps = m.rng.i(1, 1200);
  t.y = (int)m.rng.i(1990, 2050);
  t.mo = (int)m.rng.i(1, 12);
  t.d = (int)m.rng.i(1, civil::mdays(t.y, t.mo));
  t.h = (int)m.rng.i(0, 23);
  t.mi = (int)m.rng.i(0, 59);
  t.s = m.rng.b() ? (double)m.rng.i(0, 59) : m.rng.i(0, 59999) / 1000.0;
  int c = (int)m.rng.i(0, 5);
  if (c == 0) t.mo = 12, t.d = 31, t.h = 23, t.mi = 59, t.s = 50;
  if (c == 1) t.mo = 2, t.d = 28, t.h = 23, t.mi = 58, t.s = 0;
  if (c == 2) t.h = t.mi = 0, t.s = 0;
  return t;
}
static double Sec(int64_t us) { return (double)us / 1e6; }
static std::string Start(const Setting& t) { return mon::F("%d/%d/%d %d:%d:%g", t.y, t.mo, t.d, t.h, t.mi, t.s); }
static std::string Show(const Setting& t) {
  return mon::F("start %s step %g s, periods in steps: attitude %lld orbit %lld thermal %lld component %lld log %lld, duration %lld steps", Start(t).c_str(), Sec(t.step_us),
                (long long)t.att, (long long)t.orb, (long long)t.the, (long long)t.com, (long long)t.log, (long long)t.steps);
}
static std::unique_ptr<SimulationTime> Make(const Setting& t) {
  auto p = [&](int64_t k, int i) { return Sec(t.step_us * k) - (k > 1 ? t.cut[i] * Sec(t.step_us) : 0); };
  return std::make_unique<SimulationTime>(Sec(t.step_us * t.steps), Sec(t.step_us), p(t.att, 0), Sec(t.step_us), p(t.orb, 1), Sec(t.step_us), p(t.the, 2), Sec(t.step_us), p(t.com, 3), p(t.log, 4),
                                          Start(t).c_str(), 0.0);
}
static double Gmst(double jd) {  // IAU 1982, from the seconds of sidereal time
  long double T = ((long double)jd - 2451545.0L) / 36525.0L;
  long double s = 67310.54841L + (876600.0L * 3600 + 8640184.812866L) * T + 0.093104L * T * T - 6.2e-6L * T * T * T;
  s = fmodl(s, 86400.0L);
  if (s < 0) s += 86400;
  return (double)(s * 2 * 3.14159265358979323846L / 86400);
}

struct Periodic {
  const char* name;
  int64_t k;
  long last = -1, count = 0;
  void Step(mon::Mon& m, int64_t n, bool flag) {
    if (flag) {
      if (last < 0) {
        m.check(n <= k, "first_trigger", "%s: first trigger after %lld steps, period %lld steps", name, (long long)n, (long long)k);
      } else {
        m.check(n - last == k, "period", "%s: triggered %lld steps after the previous trigger, period %lld steps", name, (long long)(n - last), (long long)k);
      }
      last = n;
      count++;
      m.ev(mon::F("triggers_%s", name));
    } else {
      m.check(n - std::max(last, 0l) < k || (last < 0 && n < k), "skipped", "%s: no trigger for %lld steps, period %lld steps", name, (long long)(n - std::max(last, 0l)), (long long)k);
    }
  }
};

static void RunClock(mon::Mon& m, SimulationTime& t, const Setting& c, int64_t updates) {
  double jd0 = civil::jd0(c.y, c.mo, c.d) + (c.h * 3600.0 + c.mi * 60.0 + c.s) / 86400.0;
  Periodic att{"attitude", c.att}, orb{"orbit", c.orb}, the{"thermal", c.the}, com{"component", c.com}, log{"log", c.log};
  m.check(t.GetElapsedTime_s() == 0 && !t.GetState().finish && t.GetState().log_output, "initial", "initial state of the clock");
  int64_t finish_at = -1, shown = 0;
  const int64_t percent = (int64_t)ceil(c.steps / 100.0 + 1e-6);  // the progress is displayed each percent, or each step of a short run
  log.last = 0;
  for (int64_t n = 0; n <= updates; n++) {
    if (n > 0) {
      t.UpdateTime();
      att.Step(m, n, t.GetAttitudePropagateFlag());
      orb.Step(m, n, t.GetOrbitPropagateFlag());
      the.Step(m, n, t.GetThermalPropagateFlag());
      com.Step(m, n, t.GetCompoUpdateFlag());
      log.Step(m, n, t.GetState().log_output);
      m.check(t.GetState().running, "running", "not running");
      if (t.GetState().disp_output) {
        m.check(n - shown >= c.steps / 100 - 1, "display", "progress displayed after %lld of %lld steps again", (long long)(n - shown), (long long)c.steps);
        shown = n, m.ev("progress displays");
      }
      m.check(n - shown <= percent, "display", "no display of the progress for %lld of %lld steps", (long long)(n - shown), (long long)c.steps);
    }
    if (t.GetState().finish && finish_at < 0) finish_at = n;
    double el = (double)((long double)c.step_us * n / 1e6L);
    m.close(t.GetElapsedTime_s(), el, 1e-9 + 1e-10 * el, "elapsed", "elapsed time");
    const long double done = 100.0L * n / c.steps;
    m.check(t.GetProgressionRate() >= (int)floorl(done - 1e-6L) && t.GetProgressionRate() <= (int)floorl(done + 1e-6L), "progress", "%d %% after %lld of %lld steps", t.GetProgressionRate(), (long long)n, (long long)c.steps);
    double jd = jd0 + el / 86400;
    m.close(t.GetCurrentTime_jd(), jd, 2e-9, "julian_day", "Julian day");
    double g = t.GetCurrentSiderealTime(), gd = fabs(g - Gmst(jd));
    if (gd > M_PI) gd = fabs(gd - 2 * M_PI);
    m.check(gd < 1e-6 && g >= 0 && g < 2 * M_PI + 1e-12, "sidereal", "sidereal time %.12g, expected %.12g", g, Gmst(jd));
    m.close(t.GetCurrentEphemerisTime(), (jd0 - 2451545.0) * 86400.0 + 69.184 + el, 1e-3, "ephemeris_time", "ephemeris time");
    auto u = t.GetCurrentUtc();
    long double day = civil::days(u.year, (int)u.month, (int)u.day);
    double du = (double)((day + 2440587.5L - jd0) * 86400 + u.hour * 3600.0L + u.minute * 60.0L + u.second - el);
    m.check(fabs(du) < 2e-4 && u.second >= 0 && u.second < 60 && u.minute < 60 && u.hour < 24 && u.month >= 1 && u.month <= 12 && u.day >= 1 && (int)u.day <= civil::mdays(u.year, (int)u.month),
            "utc", "UTC %u/%u/%u %u:%u:%.6f is %.3g s off", u.year, u.month, u.day, u.hour, u.minute, u.second, du);
    int64_t dn = (int64_t)floor(jd - 2440587.5 + 1e-9);
    int yy = 1970 + (int)(dn / 365.2425);
    while (civil::days(yy + 1, 1, 1) <= dn) yy++;
    while (civil::days(yy, 1, 1) > dn) yy--;
    double dy = yy + (jd - civil::jd0(yy, 1, 1)) / (civil::leap(yy) ? 366 : 365);
    m.close(t.GetCurrentDecimalYear(), dy, 1e-7, "decimal_year", "decimal year");
    if (n % 7 == 0) {  // logged text
      std::string v = t.GetLogValue();
      double e2 = -1, sec = -1;
      int y, mo, d, h, mi;
      int got = sscanf(v.c_str(), "%lf,%d/%d/%d %d:%d:%lf,", &e2, &y, &mo, &d, &h, &mi, &sec);
      m.check(got == 7 && sec >= 0 && sec < 60 && fabs(e2 - el) < 1e-3 + 1e-5 * el, "log_text", "log value '%s' at elapsed %.9g", v.c_str(), el);
      if (got == 7) {
        double dt = (double)((civil::days(y, mo, d) + 2440587.5L - jd0) * 86400 + h * 3600.0L + mi * 60.0L + sec - el);
        m.check(fabs(dt) < 1.5e-3, "log_text", "log value '%s' is %.3g s off", v.c_str(), dt);
      }
      m.ev("log_texts");
    }
    m.ev("steps");
  }
  // The run ends after the configured duration: the instant at the end is still simulated, the next one is not
  if (updates > c.steps) m.check(finish_at == c.steps + 1, "finish", "finished at step %lld, expected %lld", (long long)finish_at, (long long)(c.steps + 1));
}

GROUP(clock) {
  long n = m.n(250, 12000);
  for (long k = 0; k < n; k++) {
    Setting c = Random(m);
    if (m.rng.b())
      for (double& x : c.cut) x = m.rng.b() ? m.rng.u(0.01, 0.98) : 0;  // periods that are not multiples of the step
    m.begin("%s%s", Show(c).c_str(), c.cut[0] + c.cut[1] + c.cut[2] + c.cut[3] + c.cut[4] > 0 ? ", some a part of a step shorter" : "");
    auto t = Make(c);
    m.check(t->GetStartYear() == c.y && t->GetStartMonth() == c.mo && t->GetStartDay() == c.d && t->GetStartHour() == c.h && t->GetStartMinute() == c.mi && fabs(t->GetStartSecond() - c.s) < 1e-9,
            "start", "start date");
    RunClock(m, *t, c, c.steps + 3);
    // restart, as between Monte Carlo cases
    if (m.rng.b(0.3)) {
      t->SetParameters();
      m.check(t->GetElapsedTime_s() == 0, "reset", "elapsed time after the reset");
      Periodic att{"attitude", c.att}, orb{"orbit", c.orb};
      for (int64_t i = 1; i < std::min<int64_t>(c.steps, 50); i++) {
        t->UpdateTime();
        att.Step(m, i, t->GetAttitudePropagateFlag());
        orb.Step(m, i, t->GetOrbitPropagateFlag());
      }
      m.ev("restarts");
    }
    m.distinctv({(double)c.step_us, (double)c.att, (double)c.orb, (double)c.steps});
  }
  m.require("restarts", 10);
}

// Every period that is an exact multiple of a decimal step
GROUP(all_periods) {
  std::vector<int64_t> steps = {1000, 3000, 7000, 10000, 50000, 70000, 100000, 300000, 700000, 1100000, 2300000};
  for (int64_t st : steps)
    for (int64_t k = 1; k <= m.n(60, 600); k++) {
      Setting c = Random(m);
      c.step_us = st;
      c.att = c.orb = c.the = c.com = c.log = k;
      c.steps = 3 * k;
      m.begin("%s", Show(c).c_str());
      auto t = Make(c);
      Periodic p[5] = {{"attitude", k}, {"orbit", k}, {"thermal", k}, {"component", k}, {"log", k}};
      p[4].last = 0;
      for (int64_t n = 1; n <= c.steps; n++) {
        t->UpdateTime();
        p[0].Step(m, n, t->GetAttitudePropagateFlag());
        p[1].Step(m, n, t->GetOrbitPropagateFlag());
        p[2].Step(m, n, t->GetThermalPropagateFlag());
        p[3].Step(m, n, t->GetCompoUpdateFlag());
        p[4].Step(m, n, t->GetState().log_output);
        m.check(!t->GetState().finish, "finish", "finished at step %lld of %lld", (long long)n, (long long)c.steps);
      }
      t->UpdateTime();
      m.check(t->GetState().finish, "finish", "not finished after the duration");
      m.distinctv({(double)st, (double)k});
    }
}

GROUP(long_run) {
  Setting c = Random(m);
  c.y = 2023, c.mo = 12, c.d = 31, c.h = 12, c.mi = 0, c.s = 0;
  c.step_us = 100000;
  c.att = 1, c.orb = 3, c.the = 10, c.com = 2, c.log = 7;
  c.steps = m.n(200000, 3000000);
  m.begin("%s", Show(c).c_str());
  auto t = Make(c);
  RunClock(m, *t, c, c.steps + 1);
}

GROUP(from_settings) {
  for (int k = 0; k < 30; k++) {
    Setting c = Random(m);
    c.step_us = 100000;
    m.begin("%s", Show(c).c_str());
    std::string file = m.scratch + "/time.ini";
    std::ofstream f(file);
    auto p = [&](int64_t x) { return mon::F("%.6f", Sec(c.step_us * x)); };
    f << "[TIME]\nsimulation_start_time_utc = " << Start(c) << "\nsimulation_duration_s = " << p(c.steps) << "\nsimulation_step_s = 0.1\n"
      << "attitude_update_period_s = " << p(c.att) << "\nattitude_integral_step_s = 0.1\norbit_update_period_s = " << p(c.orb) << "\norbit_integral_step_s = 0.1\n"
      << "thermal_update_period_s = " << p(c.the) << "\nthermal_integral_step_s = 0.1\ncomponent_update_period_s = " << p(c.com) << "\nlog_output_period_s = " << p(c.log)
      << "\nsimulation_speed_setting = 0\n";
    f.close();
    std::unique_ptr<SimulationTime> t(s2e::environment::InitSimulationTime(file));
    m.close(t->GetEndTime_s(), Sec(c.step_us * c.steps), 1e-9, "setting", "duration");
    m.close(t->GetSimulationStep_s(), 0.1, 0, "setting", "step");
    m.close(t->GetAttitudeUpdateInterval_s(), Sec(c.step_us * c.att), 1e-9, "setting", "attitude period");
    m.close(t->GetOrbitUpdateInterval_s(), Sec(c.step_us * c.orb), 1e-9, "setting", "orbit period");
    m.close(t->GetThermalUpdateInterval_s(), Sec(c.step_us * c.the), 1e-9, "setting", "thermal period");
    m.close(t->GetComponentStepTime_s(), Sec(c.step_us * c.com), 1e-9, "setting", "component period");
    m.check(t->GetAttitudeRkStepTime_s() == 0.1 && t->GetOrbitRkStepTime_s() == 0.1 && t->GetThermalRkStepTime_s() == 0.1, "setting", "integration steps");
    RunClock(m, *t, c, std::min<int64_t>(c.steps, 100));
    m.ev("settings_files");
  }
}

GROUP(real_time) {
  // With a speed setting the clock does not run ahead of the wall clock
  SimulationTime t(10, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, "2020/1/1 00:00:00", 2.0);
  m.begin("speed 2, 50 steps of 0.02 s");
  t.ResetClock();
  auto begin = std::chrono::system_clock::now();
  for (int i = 1; i <= 50; i++) {
    t.UpdateTime();
    double wall = std::chrono::duration<double>(std::chrono::system_clock::now() - begin).count();
    m.check(wall * 2 > t.GetElapsedTime_s() - 0.02, "real_time", "elapsed %.3f s after %.3f s at speed 2", t.GetElapsedTime_s(), wall);
    m.ev("paced_steps");
  }
}
