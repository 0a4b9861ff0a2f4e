// C29: GNSS products
#include "civil.hpp"
#include "component.hpp"
//
#include <components/real/aocs/gnss_receiver.hpp>
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/gnss_satellite_number.hpp>
#include <math_physics/gnss/sp3_file_reader.hpp>
namespace gn = s2e::gnss;
namespace ts = s2e::time_system;
using namespace s2e::components;
using mon::F;
using ref::v;

// ---------- writing products ----------
struct Utc {  // civil time of t seconds after day0 (days since 1970), at a resolution of 1e-8 s
  int y, mo, d, h, mi;
  double s;
};
static Utc At(int64_t day0, long double t) {
  const int64_t k = (int64_t)floorl(t / 86400);
  int64_t e8 = llroundl((t - (long double)k * 86400) * 1e8L);
  Utc u;
  civil::fromdays(day0 + k, u.y, u.mo, u.d);
  u.h = (int)(e8 / 360000000000LL), e8 %= 360000000000LL;
  u.mi = (int)(e8 / 6000000000LL), e8 %= 6000000000LL;
  u.s = (double)e8 * 1e-8;
  return u;
}
static std::string Fields(const Utc& u) { return F("%4d %2d %2d %2d %2d %11.8f", u.y, u.mo, u.d, u.h, u.mi, u.s); }
static std::string Trim(std::string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
struct Rec {  // of one satellite at one epoch
  double p[3] = {0, 0, 0}, clk = 999999.999999, v[3] = {0, 0, 0}, rate = 999999.999999;
  int sp[3] = {-1, -1, -1}, sc = -1;  // standard deviations, -1: blank
  bool e = false, cp = false, man = false, op = false;
};
struct Sp3 {
  int64_t day0 = 0;
  long double start = 0;  // s
  double interval = 900;
  char mode = 'P', version = 'd';
  std::vector<std::string> sats;
  std::vector<int> accuracy;
  std::vector<std::vector<Rec>> rec;  // [epoch][satellite]
  std::string used = "ORBIT", frame = "WGS84", type = "FIT", agency = "MGEX", filetype = "M ", system = "GPS";
  double basep = 1.25, basec = 1.025;
  int comments = 4;
  bool ep = false, ev = false, trim = true, eof = true, finalnewline = true, blanklines = true;

  void Write(const std::string& file) const {
    std::string t;
    auto put = [&](const std::string& l) { t += (trim ? Trim(l) : l) + "\n"; };
    const int week = (int)((day0 - civil::days(1980, 1, 6)) / 7);
    const double sow = (double)(day0 - civil::days(1980, 1, 6) - 7 * week) * 86400.0 + (double)start;
    put(F("#%c%c%s %7zu %5s %5s %3s %4s", version, mode, Fields(At(day0, start)).c_str(), rec.size(), used.c_str(), frame.c_str(), type.c_str(), agency.c_str()));
    put(F("## %4d %15.8f %14.8f %5d %15.13f", week, sow, interval, (int)(day0 + 40587), (double)(start / 86400)));
    size_t lines = (sats.size() + 16) / 17;
    if (blanklines && lines < 5) lines = 5;
    for (int pass = 0; pass < 2; pass++)
      for (size_t l = 0; l < lines; l++) {
        std::string s = pass == 0 ? (l == 0 ? F("+ %4zu   ", sats.size()) : "+        ") : "++       ";
        for (size_t k = l * 17; k < l * 17 + 17; k++) s += pass == 0 ? (k < sats.size() ? sats[k] : "  0") : F("%3d", k < sats.size() ? accuracy[k] : 0);
        put(s);
      }
    put(F("%%c %2s cc %3s ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", filetype.c_str(), system.c_str()));
    put("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
    put(F("%%f %10.7f %12.9f  0.00000000000  0.000000000000000", basep, basec));
    put("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
    put("%i    0    0    0    0      0      0      0      0         0");
    put("%i    0    0    0    0      0      0      0      0         0");
    for (int k = 0; k < comments; k++) put(F("/* comment %d * P  EOF", k));
    for (size_t e = 0; e < rec.size(); e++) {
      put("*  " + Fields(At(day0, start + (long double)interval * e)));
      for (size_t k = 0; k < sats.size(); k++) {
        const Rec& r = rec[e][k];
        auto sd = [](int x, int w) { return x < 0 ? std::string((size_t)w, ' ') : F("%*d", w, x); };
        std::string tail = " " + sd(r.sp[0], 2) + " " + sd(r.sp[1], 2) + " " + sd(r.sp[2], 2) + " " + sd(r.sc, 3);
        put(F("P%s%14.6f%14.6f%14.6f%14.6f%s %c%c  %c%c", sats[k].c_str(), r.p[0], r.p[1], r.p[2], r.clk, tail.c_str(), r.e ? 'E' : ' ', r.cp ? 'P' : ' ', r.man ? 'M' : ' ', r.op ? 'P' : ' '));
        if (ep) put("EP    55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000");
        if (mode == 'V') {
          put(F("V%s%14.6f%14.6f%14.6f%14.6f%s", sats[k].c_str(), r.v[0], r.v[1], r.v[2], r.rate, tail.c_str()));
          if (ev) put("EV    22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567");
        }
      }
    }
    if (eof) t += "EOF\n";
    if (!finalnewline && !t.empty()) t.pop_back();
    std::ofstream(file, std::ios::binary) << t;
  }
};
static double R6(double x) { return atof(F("%.6f", x).c_str()); }  // as written
static std::vector<std::string> RandomSats(mon::Rng& g, size_t n) {
  std::vector<std::string> v;
  const std::vector<std::pair<char, int>> s = {{'G', 32}, {'R', 26}, {'E', 28}, {'C', 62}, {'J', 5}, {'I', 7}};
  for (auto& a : s)
    for (int k = 1; k <= a.second; k++) v.push_back(F("%c%02d", a.first, k));
  while (v.size() > n) v.erase(v.begin() + g.i(0, (int64_t)v.size() - 1));
  return v;
}
static bool Same(const ts::DateTime& a, const Utc& b) {
  return (int)a.GetYear() == b.y && (int)a.GetMonth() == b.mo && (int)a.GetDay() == b.d && (int)a.GetHour() == b.h && (int)a.GetMinute() == b.mi && fabs(a.GetSecond() - b.s) < 1e-9;
}

GROUP(sp3) {
  world::Quiet quiet;
  const long files = m.n(150, 1500);
  for (long w = 0; w < files; w++) {
    auto& g = m.rng;
    Sp3 f;
    f.day0 = civil::days(g.i(1981, 2060), (int)g.i(1, 12), (int)g.i(1, 28));
    f.start = g.b() ? 0 : g.b() ? (long double)g.i(0, 86399) : (long double)g.i(0, 8639999999999LL) * 1e-8L;
    f.interval = g.pick(std::vector<double>{30, 60, 300, 900, 900, 1800, 0.5, 86400});
    f.mode = g.b(0.35) ? 'V' : 'P';
    f.version = g.b(0.8) ? 'd' : 'c';
    f.sats = RandomSats(g, (size_t)(g.b(0.15) ? 1 : g.b(0.2) ? 17 * g.i(1, 5) : g.i(1, 119)));
    for (size_t k = 0; k < f.sats.size(); k++) f.accuracy.push_back((int)g.i(0, 120));
    f.used = g.pick(std::vector<std::string>{"ORBIT", "d+D  ", "  u+U", "U    "});
    f.frame = g.pick(std::vector<std::string>{"WGS84", "IGS20", "ITR97"});
    f.type = g.pick(std::vector<std::string>{"FIT", "EXT", "BCT", "HLM"});
    f.agency = g.pick(std::vector<std::string>{"MGEX", " IGS", "AIUB"});
    f.filetype = g.pick(std::vector<std::string>{"M ", "G ", "R "});
    f.system = g.pick(std::vector<std::string>{"GPS", "UTC", "GAL"});
    f.basep = g.b() ? 1.25 : 0.0, f.basec = g.b() ? 1.025 : 0.0;
    f.comments = (int)(g.b(0.2) ? 0 : g.i(0, 12));
    f.ep = g.b(0.3), f.ev = g.b(0.3), f.trim = g.b(0.7), f.eof = g.b(0.8), f.finalnewline = g.b(0.8), f.blanklines = g.b();
    const size_t n = (size_t)(g.b(0.15) ? 1 : g.i(1, f.sats.size() > 40 ? 12 : 60));
    for (size_t e = 0; e < n; e++) {
      f.rec.emplace_back();
      for (size_t k = 0; k < f.sats.size(); k++) {
        Rec r;
        if (!g.b(0.05))
          for (int a = 0; a < 3; a++) r.p[a] = R6(g.u(-43000, 43000)), r.v[a] = R6(g.u(-40000, 40000));
        if (!g.b(0.1)) r.clk = R6(g.u(-9e5, 9e5)), r.rate = R6(g.u(-9e3, 9e3));
        if (g.b(0.5)) {
          for (int& x : r.sp) x = g.b(0.8) ? (int)g.i(0, 99) : -1;
          r.sc = g.b(0.7) ? (int)g.i(0, 999) : -1;
        }
        r.e = g.b(0.1), r.cp = g.b(0.1), r.man = g.b(0.1), r.op = g.b(0.1);
        f.rec.back().push_back(r);
      }
    }
    f.Write("x.sp3");
    m.begin("SP3 file of mode %c, %zu satellites, %zu epochs, first at %s, interval %g s", f.mode, f.sats.size(), n, Fields(At(f.day0, f.start)).c_str(), f.interval);
    gn::Sp3FileReader r("x.sp3");
    const gn::Sp3Header h = r.GetHeader();
    m.check(r.GetNumberOfEpoch() == n && r.GetNumberOfSatellites() == f.sats.size(), "sp3:size", "%zu epochs and %zu satellites", r.GetNumberOfEpoch(), r.GetNumberOfSatellites());
    m.check(h.mode_ == (f.mode == 'P' ? gn::Sp3Mode::kPosition : gn::Sp3Mode::kVelocity), "sp3:mode", "mode %d", (int)h.mode_);
    m.check(h.satellite_ids_ == f.sats, "sp3:ids", "satellite names differ");
    bool acc = h.satellite_accuracy_.size() == f.sats.size();
    for (size_t k = 0; acc && k < f.sats.size(); k++) acc = h.satellite_accuracy_[k] == f.accuracy[k];
    m.check(acc, "sp3:accuracy", "accuracies differ");
    m.check(Same(r.GetStartEpochDateTime(), At(f.day0, f.start)), "sp3:start", "start epoch differs");
    const int64_t since = f.day0 - civil::days(1980, 1, 6);
    m.check((int64_t)r.GetStartEpochGpsTime().GetWeek() == since / 7 && fabs(r.GetStartEpochGpsTime().GetElapsedTimeFromWeek_s() - ((double)(since % 7) * 86400 + (double)f.start)) < 2e-8, "sp3:gpstime", "GPS time of the start differs");
    m.check(h.epoch_interval_s_ == f.interval && (int64_t)h.start_time_mjday_ == f.day0 + 40587 && fabs(h.start_time_mjday_fractional_day_ - (double)(f.start / 86400)) < 1e-12, "sp3:second line", "interval %g, day %zu + %.13f", h.epoch_interval_s_, h.start_time_mjday_, h.start_time_mjday_fractional_day_);
    const char* types[] = {"FIT", "EXT", "BCT", "HLM"};
    m.check((int)h.orbit_type_ < 4 && f.type == types[(int)h.orbit_type_], "sp3:type", "orbit type %d for %s", (int)h.orbit_type_, f.type.c_str());
    m.check(h.used_data_ == f.used && h.coordinate_system_ == f.frame && h.agency_name_ == f.agency && h.file_type_ == f.filetype && h.time_system_ == f.system, "sp3:text", "used data '%s', frame '%s', agency '%s', file '%s', time '%s'",
            h.used_data_.c_str(), h.coordinate_system_.c_str(), h.agency_name_.c_str(), h.file_type_.c_str(), h.time_system_.c_str());
    m.check(h.base_number_position_ == f.basep && h.base_number_clock_ == f.basec, "sp3:base", "bases %g %g", h.base_number_position_, h.base_number_clock_);
    for (size_t e = 0; e < n; e++) {
      m.check(Same(r.GetEpochData(e), At(f.day0, f.start + (long double)f.interval * e)), "sp3:epoch", "epoch %zu differs", e);
      for (size_t k = 0; k < f.sats.size(); k++) {
        const Rec& x = f.rec[e][k];
        const auto y = r.GetPositionClock(e, k);
        const auto p = r.GetSatellitePosition_km(e, k);
        bool same = y.satellite_id_ == f.sats[k] && y.clock_us_ == x.clk && r.GetSatelliteClockOffset(e, k) == x.clk;
        for (size_t a = 0; a < 3; a++) same = same && y.position_km_[a] == x.p[a] && p[a] == x.p[a];
        m.check(same, "sp3:record", "epoch %zu, satellite %s: %s at (%.6f %.6f %.6f) km with %.6f us instead of (%.6f %.6f %.6f) and %.6f", e, f.sats[k].c_str(), y.satellite_id_.c_str(), p[0], p[1], p[2], y.clock_us_, x.p[0], x.p[1],
                x.p[2], x.clk);
        bool sd = y.clock_standard_deviation_ == std::max(x.sc, 0);
        for (size_t a = 0; a < 3; a++) sd = sd && y.position_standard_deviation_[a] == std::max(x.sp[a], 0);
        m.check(sd, "sp3:deviation", "standard deviations %g %g %g %g of %d %d %d %d", y.position_standard_deviation_[0], y.position_standard_deviation_[1], y.position_standard_deviation_[2], y.clock_standard_deviation_, x.sp[0], x.sp[1],
                x.sp[2], x.sc);
        m.check(y.clock_event_flag_ == x.e && y.clock_prediction_flag_ == x.cp && y.maneuver_flag_ == x.man && y.orbit_prediction_flag_ == x.op, "sp3:flags", "flags %d%d%d%d of %d%d%d%d", y.clock_event_flag_,
                y.clock_prediction_flag_, y.maneuver_flag_, y.orbit_prediction_flag_, x.e, x.cp, x.man, x.op);
        m.ev("records");
      }
    }
    // outside of the file
    for (auto [e, k] : std::vector<std::pair<size_t, size_t>>{{n, 0}, {0, f.sats.size()}, {n + 3, f.sats.size() + 1}, {(size_t)-1, 0}}) {
      const auto y = r.GetPositionClock(e, k);
      m.check(y.clock_us_ == 999999.999999 && y.position_km_[0] == 0 && y.position_km_[2] == 0, "sp3:outside", "record of epoch %zu and satellite %zu in a file of %zu and %zu", e, k, n, f.sats.size());
      if (e >= n) m.check(r.GetEpochData(e).GetYear() == 0, "sp3:outside epoch", "year %zu of the epoch %zu of %zu", r.GetEpochData(e).GetYear(), e, n);
      m.ev("outside");
    }
    // nearest epoch
    for (int k = 0; k < 30; k++) {
      const double rel = g.u(-2.0, (double)n + 1);
      const long double t = f.start + (long double)f.interval * rel;
      const Utc u = At(f.day0, t);
      const size_t id = r.SearchNearestEpochId(ts::EpochTime(ts::DateTime((size_t)u.y, (size_t)u.mo, (size_t)u.d, (size_t)u.h, (size_t)u.mi, u.s)));
      const double want = std::min(std::max(rel, 0.0), (double)(n - 1));
      m.check(id < n && fabs((double)id - want) < 0.5 + 1e-6, "sp3:nearest", "epoch %zu of %zu is the nearest to %.6f intervals", id, n, rel);
      m.ev("searches");
    }
    m.distinctv({(double)f.sats.size(), (double)n, (double)f.start, (double)f.day0});
  }
  m.require("records", 50000);
  m.require("searches", 2000);
}

// ---------- satellites ----------
// Circular or slightly eccentric 12 h orbits, in the frame that turns with the Earth
struct Sat {
  long double a, e, i, raan, w, m0, c0, c1, c2;
  long double we = 7.292115e-5L;
  V3 pos(long double t) const {
    const long double mu = 3.986004418e14L, n = sqrtl(mu / (a * a * a)), M = m0 + n * t;
    long double E = M;
    for (int k = 0; k < 30; k++) E = M + e * sinl(E);
    const long double x = a * (cosl(E) - e), y = a * sqrtl(1 - e * e) * sinl(E), o = raan - we * t;
    const long double px = x * cosl(w) - y * sinl(w), py = x * sinl(w) + y * cosl(w);
    return {px * cosl(o) - py * cosl(i) * sinl(o), px * sinl(o) + py * cosl(i) * cosl(o), py * sinl(i)};
  }
  long double clk(long double t) const { return c0 + c1 * t + c2 * t * t; }  // us
  // Entries of the files: each a little beside the smooth orbit, so that each has to be used to be reproduced
  long double rough = 0;
  V3 table(long double t) const {
    mon::Rng g((uint64_t)llround((double)t) * 1000003u + (uint64_t)llround((double)a));
    const V3 r{(L)g.u(-1, 1), (L)g.u(-1, 1), (L)g.u(-1, 1)};
    return pos(t) + rough * r;
  }
};
struct Products {
  int64_t day0;
  int days;
  double interval;
  std::string period;
  std::vector<Sat> sat;
  bool next;  // every file ends with the first epoch of the next day
  std::string head = "IGS0OPSFIN";
  size_t Doy(int k) const {
    int y, mo, d;
    civil::fromdays(day0 + k, y, mo, d);
    return (size_t)y * 1000 + (size_t)(day0 + k - civil::days(y, 1, 1)) + 1;
  }
  void Write(mon::Rng& g, const std::string& dir) {
    const auto names = RandomSats(g, sat.size());
    for (int k = 0; k < days; k++) {
      Sp3 f;
      f.day0 = day0 + k, f.interval = interval, f.sats = names, f.accuracy.assign(sat.size(), 0);
      const size_t n = (size_t)llround(86400 / interval) + (next ? 1 : 0);
      for (size_t e = 0; e < n; e++) {
        f.rec.emplace_back();
        for (auto& s : sat) {
          const long double t = (long double)k * 86400 + (long double)interval * e;
          Rec r;
          const V3 p = s.table(t);
          r.p[0] = R6((double)p.x / 1000), r.p[1] = R6((double)p.y / 1000), r.p[2] = R6((double)p.z / 1000), r.clk = R6((double)s.clk(t));
          f.rec.back().push_back(r);
        }
      }
      f.Write(dir + F("%s_%zu0000_01D_%s_ORB.SP3", head.c_str(), Doy(k), period.c_str()));
    }
  }
};
static Products RandomProducts(mon::Rng& g, int days, size_t n) {
  Products p;
  const std::vector<std::pair<int, int>> special = {{2023, 365}, {2024, 366}, {2024, 365}, {2024, 59}, {2023, 59}, {2020, 365}, {2021, 364}};
  if (g.b()) {
    auto s = g.pick(special);
    p.day0 = civil::days(s.first, 1, 1) + s.second - 1 - g.i(0, 1);
  } else {
    p.day0 = civil::days(g.i(2001, 2040), (int)g.i(1, 12), (int)g.i(1, 28));
  }
  p.days = days;
  auto i = g.pick(std::vector<std::pair<double, std::string>>{{900, "15M"}, {900, "15M"}, {300, "05M"}});
  p.interval = i.first, p.period = i.second;
  p.next = g.b(0.3);
  for (size_t k = 0; k < n; k++) {
    Sat s;
    s.a = g.u(2.55e7, 2.97e7), s.e = g.u(0, 0.01), s.i = g.u(0.9, 1.15), s.raan = g.u(0, 6.28), s.w = g.u(0, 6.28), s.m0 = g.u(0, 6.28);
    s.c0 = g.u(-700, 700), s.c1 = g.u(-1e-4, 1e-4), s.c2 = g.u(-1e-10, 1e-10);
    p.sat.push_back(s);
  }
  return p;
}
static void UseProducts(world::Settings& s, const Products& p) {
  world::Set(s.gnss, "GNSS_SATELLITES", "calculation", "ENABLE");
  world::Set(s.gnss, "GNSS_SATELLITES", "logging", "ENABLE");
  world::Set(s.gnss, "GNSS_SATELLITES", "directory_path", "sp3/");
  world::Set(s.gnss, "GNSS_SATELLITES", "file_name_header", p.head);
  world::Set(s.gnss, "GNSS_SATELLITES", "orbit_data_period", p.period);
  world::Set(s.gnss, "GNSS_SATELLITES", "clock_file_name_footer", p.period + "_ORB.SP3");
  world::Set(s.gnss, "GNSS_SATELLITES", "start_date", F("%zu", p.Doy(0)));
  world::Set(s.gnss, "GNSS_SATELLITES", "end_date", F("%zu", p.Doy(p.days - 1)));
}
static std::string Start(const Utc& u) { return F("%04d/%02d/%02d %02d:%02d:%.6f", u.y, u.mo, u.d, u.h, u.mi, u.s); }
// seconds since the beginning of the products, as the simulation tells its time
static double Now(const world::World& W, const Products& p) {
  const auto& u = const_cast<world::World&>(W).Time().GetCurrentUtc();
  return (double)(civil::days((int)u.year, (int)u.month, (int)u.day) - p.day0) * 86400 + u.hour * 3600 + u.minute * 60 + u.second;
}
static ts::EpochTime Epoch(const Products& p, long double t) {
  const Utc u = At(p.day0, t);
  return ts::EpochTime(ts::DateTime((size_t)u.y, (size_t)u.mo, (size_t)u.d, (size_t)u.h, (size_t)u.mi, u.s));
}

GROUP(satellites) {
  const long runs = m.n(14, 80);
  for (long w = 0; w < runs; w++) {
    auto& g = m.rng;
    Products p = RandomProducts(g, (int)g.i(1, 4), (size_t)(g.b(0.2) ? g.i(1, 3) : g.i(4, 40)));
    for (Sat& s : p.sat) s.rough = 0.02L;
    std::filesystem::remove_all("sp3");
    std::filesystem::create_directories("sp3");
    p.Write(g, "sp3/");
    const double span = p.days * 86400.0;
    // the beginning is anywhere in the products, often close to the ends of a file
    double start = g.b(0.4) ? std::max(0.0, std::min(span - 600, 86400.0 * g.i(0, p.days) + g.u(-4, 4) * p.interval)) : g.b(0.2) ? 0.0 : g.u(0, span - 2000);
    start = floor(start);
    const double step = g.pick(std::vector<double>{10, 60, 60, 300, 600, 1800, 3600});
    const double end = std::min(span, start + std::min(m.n(1000, 6000) * step, g.pick(std::vector<double>{7200, 40000, 90000, 200000})));
    world::Settings s(1);
    UseProducts(s, p);
    s.Times(step, std::max(end - start, 10 * step), Start(At(p.day0, start)));
    m.begin("%d days of %s products from %zu (%s next midnight), %zu satellites, simulation from %.0f s to %.0f s with %g s", p.days, p.period.c_str(), p.Doy(0), p.next ? "with" : "without", p.sat.size(), start, end, step);
    world::World W(s, false);
    auto& gs = W.global->GetGnssSatellites();
    if (!m.check(gs.GetNumberOfCalculatedSatellite() == p.sat.size(), "satellites:number", "%zu satellites", gs.GetNumberOfCalculatedSatellite())) continue;
    const double last = span - (p.next ? 0 : p.interval);  // last epoch of the products
    double now = Now(W, p);
    for (size_t i = 0; i < p.sat.size() && start < last; i++) {
      const V3 x = v(gs.GetPosition_ecef_m(i)), y = p.sat[i].pos(start);
      m.check(ref::norm(x - y) < 1, "satellites:at the beginning", "satellite %zu is at %s instead of %s", i, S(x).c_str(), S(y).c_str());
    }
    for (long k = 0; now < end; k++) {
      {
        world::Quiet q;
        W.global->Update();
      }
      now = Now(W, p);
      if (now > last) break;  // behind the products
      // The window is centred except near the ends of the products, and in the first day before its middle
      const bool centred = now - start > 5 * p.interval && last - now > 5 * p.interval;
      for (size_t i = 0; i < p.sat.size(); i++) {
        const V3 x = v(gs.GetPosition_ecef_m(i)), y = p.sat[i].pos(now);
        const double e = (double)ref::norm(x - y);
        const double c = gs.GetClock_s(i), ce = fabs(c - (double)p.sat[i].clk(now) * 1e-6);
        m.check(e < (centred ? 0.1 : 1), centred ? "satellites:position" : "satellites:position at an end", "satellite %zu is %.3f m off at %.3f s", i, e, now);
        m.check(ce < 1e-11, "satellites:clock", "clock of satellite %zu is %.3e s off at %.3f s", i, ce, now);
        m.ev("positions");
        static double worst[2];
        if (e > worst[centred] && getenv("DBG")) worst[centred] = e, fprintf(stderr, "%g edge %g %g centred %d interval %g step %g ce %g\n", e, (now-start)/p.interval, (last-now)/p.interval, centred, p.interval, step, ce);
      }
      m.distinctv({now, (double)p.day0});
      if (k % 5 == 0 && centred) {  // another time inside of the window
        const size_t i = (size_t)g.i(0, (int64_t)p.sat.size() - 1);
        const double t = now + g.u(-1, 1) * p.interval * 2;
        const V3 x = v(gs.GetPosition_ecef_m(i, Epoch(p, t))), y = p.sat[i].pos(t);
        m.check(ref::norm(x - y) < 1, "satellites:asked position", "satellite %zu is %.3f m off at %.3f s, asked at %.3f s", i, (double)ref::norm(x - y), t, now);
        const double ce = fabs(gs.GetClock_s(i, Epoch(p, t)) - (double)p.sat[i].clk(t) * 1e-6);
        m.check(ce < 1e-11, "satellites:asked clock", "clock of satellite %zu is %.3e s off at %.3f s, asked at %.3f s", i, ce, t, now);
        m.ev("asked epochs");
        // the epochs of the products around now are reproduced as they stand in the files (to the millimetre, the
        // resolution of the files), those of the next file included
        for (double e = ceil((now - 2 * p.interval) / p.interval) * p.interval; e < now + 2 * p.interval; e += p.interval) {
          const double off = (double)ref::norm(v(gs.GetPosition_ecef_m(i, Epoch(p, e))) - p.sat[i].table(e));
          m.check(off < 2e-3, "satellites:sample", "satellite %zu is %.4f m off at the epoch %.0f s of the files, asked at %.3f s", i, off, e, now);
          const double coff = fabs(gs.GetClock_s(i, Epoch(p, e)) - (double)p.sat[i].clk(e) * 1e-6);
          m.check(coff < 5e-12, "satellites:sample clock", "clock of satellite %zu is %.3e s off at the epoch %.0f s of the files, asked at %.3f s", i, coff, e, now);
          m.ev("samples");
        }
      }
      if (k % 7 == 0) {
        for (size_t i : {p.sat.size(), p.sat.size() + 1, (size_t)100000}) {
          const V3 x = v(gs.GetPosition_ecef_m(i));
          m.check(ref::norm(x) == 0 && gs.GetClock_s(i) == 0, "satellites:outside", "satellite %zu of %zu has the position %s", i, p.sat.size(), S(x).c_str());
        }
        const std::string log = gs.GetLogValue(), head = gs.GetLogHeader();
        m.check(std::count(log.begin(), log.end(), ',') == std::count(head.begin(), head.end(), ','), "satellites:log", "columns");
      }
    }
  }
  m.require("positions", 5000);
  m.require("asked epochs", 200);
  m.require("samples", 500);
}

// A simulation that begins outside of the products
GROUP(not_covered) {
  const long runs = m.n(6, 30);
  for (long w = 0; w < runs; w++) {
    auto& g = m.rng;
    Products p = RandomProducts(g, (int)g.i(1, 2), (size_t)g.i(1, 6));
    std::filesystem::remove_all("sp3");
    std::filesystem::create_directories("sp3");
    p.Write(g, "sp3/");
    world::Settings s(1);
    UseProducts(s, p);
    const double start = w % 2 ? -floor(g.u(3600, 1e5)) : p.days * 86400 + floor(g.u(1e3, 1e5));
    s.Times(60, 36000, Start(At(p.day0, start)));
    m.begin("%d days of %s products from %zu, simulation from %.0f s", p.days, p.period.c_str(), p.Doy(0), start);
    world::World W(s, false);
    auto& gs = W.global->GetGnssSatellites();
    for (int k = 0; k < 100; k++) {
      {
        world::Quiet q;
        W.global->Update();
      }
      for (size_t i = 0; i < 8; i++) m.check(ref::norm(v(gs.GetPosition_ecef_m(i))) == 0 && gs.GetClock_s(i) == 0, "satellites:not covered", "satellite %zu has a position", i), m.ev("zeros");
      gs.GetLogValue();
    }
    m.distinctv({start});
  }
  m.require("zeros", 1000);
}

// ---------- the receiver with satellites ----------
struct Gnss : GnssReceiver {
  using GnssReceiver::GnssReceiver;
  explicit Gnss(const GnssReceiver& g) : GnssReceiver(g) {}
  bool Visible() const { return is_gnss_visible_; }
  long double GpsTime() const { return (long double)gps_time_week_ * 604800 + gps_time_s_; }
  double GpsSecond() const { return gps_time_s_; }
  s2e::environment::UTC Utc() const { return utc_; }
};
GROUP(receiver) {
  const long runs = m.n(8, 50);
  for (long w = 0; w < runs; w++) {
    auto& g = m.rng;
    Products p = RandomProducts(g, 1, (size_t)g.i(20, 40));
    std::filesystem::remove_all("sp3");
    std::filesystem::create_directories("sp3");
    p.Write(g, "sp3/");
    world::Settings s = Plain(g, 30, 4e5, 2e7);
    UseProducts(s, p);
    s.Times(30, 80000, Start(At(p.day0, floor(g.u(6000, 50000)))));
    s.B("TIME", "attitude_integral_step_s", 1.0);
    world::World W(s);
    s2e::environment::ClockGenerator clock;
    auto& sc = *W.sc[0];
    const Quat q = toq(gen::quat(g));
    const double half = g.u(20, 85);
    const V3 at{g.u(-3, 3), g.u(-3, 3), g.u(-3, 3)};
    File f = Fresh("gnss_receiver.ini");
    world::Set(f.path, "GNSS_RECEIVER_1", "prescaler", "1");
    world::SetV(f.path, "GNSS_RECEIVER_1", "quaternion_b2c", q, 4);
    world::SetV(f.path, "GNSS_RECEIVER_1", "antenna_position_b_m", at, 3);
    world::Set(f.path, "GNSS_RECEIVER_1", "antenna_model", "CONE");
    world::Set(f.path, "GNSS_RECEIVER_1", "antenna_half_width_deg", world::D(half));
    for (const char* k : {"position_ecef_m", "velocity_ecef_m_s"}) world::SetV(f.path, "GNSS_RECEIVER_1", std::string("white_noise_standard_deviation_") + k, V3{0, 0, 0}, 3);
    const bool port = m.rng.b();
    s2e::components::PowerPort power(0, 1.0);
    std::unique_ptr<Gnss> r;
    {
      world::Quiet quiet;
      r = std::make_unique<Gnss>(port ? InitGnssReceiver(&clock, &power, 1, f.path, &sc.Dyn(), &W.global->GetGnssSatellites(), &W.Time())
                                      : InitGnssReceiver(&clock, 1, f.path, &sc.Dyn(), &W.global->GetGnssSatellites(), &W.Time()));
    }
    power.SetVoltage_V(5), power.Update();
    m.begin("receiver with %zu satellites and a cone of %.3f deg", p.sat.size(), half);
    V3 held, heldv;
    for (long t = 0; t < 400; t++) {
      {
        world::Quiet quiet;
        W.Step();
      }
      Turn(m, W);
      r->Tick((unsigned)t);
      auto& o = sc.Dyn().GetOrbit();
      const double now = Now(W, p);
      const M3 b = ref::rotq(sc.Dyn().GetAttitude().GetQuaternion_i2b()), c = ref::rotq(q), e = ref::m(W.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      const V3 me = v(o.GetPosition_i_m()) + ref::T(b) * at, axis = ref::T(b) * (ref::T(c) * V3{0, 0, 1});
      long sure = 0, perhaps = 0;
      for (auto& sat : p.sat) {
        const V3 x = ref::T(e) * sat.pos(now), d = x - me;
        const long double off = ref::angle(d, axis) - (long double)half * 3.14159265358979323846L / 180;
        // the Earth is in between when the line passes below its surface on the way
        const long double along = -ref::dot_(me, d) / ref::dot_(d, d);
        const long double miss = ref::norm(me + std::min(1.0L, std::max(0.0L, along)) * d) - 6378137.0L;
        if (off < -1e-6 && miss > 10) sure++;
        else if (off < 1e-6 && miss > -10) perhaps++;
      }
      std::vector<std::string> log;
      std::stringstream ss(r->GetLogValue());
      for (std::string x; std::getline(ss, x, ',');) log.push_back(x);
      const long seen = log.size() >= 2 ? atol(log[log.size() - 1].c_str()) : -1;
      m.check(seen >= sure && seen <= sure + perhaps, "receiver:number", "%ld satellites seen, %ld are in the cone and not behind the Earth", seen, sure);
      m.check(r->Visible() == (seen >= 4), "receiver:flag", "flag %d with %ld satellites", r->Visible(), seen);
      for (size_t k = 0; k < (size_t)std::max(0L, seen); k++) {
        const auto i = r->GetGnssInfo(k);
        m.check(i.gnss_id < p.sat.size(), "receiver:id", "satellite %zu of %zu", (size_t)i.gnss_id, p.sat.size());
        if (i.gnss_id >= p.sat.size()) continue;
        const V3 d = c * (b * (ref::T(e) * p.sat[i.gnss_id].pos(now) - me));
        const long double dist = ref::norm(d), lon = atan2l(d.y, d.x), lat = asinl(d.z / dist);
        long double dl = fabsl(lon - i.longitude_rad);
        dl = std::min(dl, fabsl(dl - 2 * 3.14159265358979323846L));
        m.check(fabsl(dist - i.distance_m) < 1 && fabsl(lat - i.latitude_rad) < 1e-6 && dl * cosl(lat) < 1e-6, "receiver:direction", "satellite %zu in the direction %.9f %.9f at %.3f m instead of %.9Lf %.9Lf at %.3Lf", (size_t)i.gnss_id,
                i.latitude_rad, i.longitude_rad, i.distance_m, lat, lon, dist);
        m.ev("satellites");
      }
      // the clock of the receiver: the time of the simulation, also as weeks and seconds since 1980-01-06 (the library does not count leap seconds)
      const long double gps = (long double)(p.day0 - civil::days(1980, 1, 6)) * 86400 + now;
      const auto u = r->Utc();
      const double clock_utc = (double)(civil::days((int)u.year, (int)u.month, (int)u.day) - p.day0) * 86400 + u.hour * 3600 + u.minute * 60 + u.second;
      m.check(clock_utc == now, "receiver:utc", "clock %.6f s, time %.6f s", clock_utc, now);
      m.check(fabsl(r->GpsTime() - gps) < 2e-4L && r->GpsSecond() > -1e-4 && r->GpsSecond() < 604800, "receiver:gps_time", "GPS time %.6Lf s instead of %.6Lf s, %.6f s of the week", r->GpsTime(), gps, r->GpsSecond());
      const V3 pos = v(r->GetMeasuredPosition_ecef_m()), vel = v(r->GetMeasuredVelocity_ecef_m_s());
      if (r->Visible()) {
        m.check(ref::norm(pos - v(o.GetPosition_ecef_m())) == 0 && ref::norm(vel - v(o.GetVelocity_ecef_m_s())) == 0, "receiver:exact", "measured position is off");
        held = pos, heldv = vel;
        m.ev("fixes");
      } else {
        m.check(ref::norm(pos - held) == 0 && ref::norm(vel - heldv) == 0, "receiver:held", "output changed without enough satellites");
        m.ev("no fix");
      }
      m.distinctv({(double)axis.x, (double)axis.y, now});
    }
  }
  m.require("satellites", 3000);
  m.require("fixes", 300);
  m.require("no fix", 300);
}

// ---------- antennas ----------
static std::string Label(std::string s, const std::string& l) {
  s.resize(60, ' ');
  return s + l + "\n";
}
GROUP(antex) {
  world::Quiet quiet;
  const long files = m.n(150, 1500);
  for (long w = 0; w < files; w++) {
    auto& g = m.rng;
    struct Freq {
      std::string name;
      double off[3];
      std::vector<double> pcv;
      bool noazi;
    };
    struct Ant {
      std::string type, serial;
      size_t index;
      bool receiver, from, until;
      Utc a, b;
      double z1, z2, dz;
      std::vector<Freq> f;
    };
    std::vector<Ant> ants;
    std::string t = Label("     1.4            M", "ANTEX VERSION / SYST") + Label("A", "PCV TYPE / REFANT");
    for (int k = (int)g.i(0, 4); k-- > 0;) t += Label("START OF ANTENNA in a comment", "COMMENT");
    t += Label("", "END OF HEADER");
    const auto names = RandomSats(g, (size_t)g.i(1, 12));
    const long n = g.i(1, 20);
    for (long k = 0; k < n; k++) {
      Ant a;
      a.receiver = g.b(0.2);
      a.type = a.receiver ? "AERAT2775_43    SPKE" : g.pick(std::vector<std::string>{"BLOCK IIA           ", "GLONASS-M           ", "GALILEO-2           "});
      const std::string sv = g.pick(names);
      a.serial = (a.receiver ? std::string("") : sv);
      a.serial.resize(20, ' ');
      a.index = gn::ConvertGnssSatelliteNumberToIndex(sv);
      a.dz = g.pick(std::vector<double>{0.5, 1, 2, 2.5, 5});
      a.z1 = g.b(0.8) ? 0 : a.dz * 2, a.z2 = a.z1 + a.dz * g.i(0, 34);
      a.from = g.b(0.9), a.until = g.b(0.6);
      a.a = At(civil::days(1995, 1, 1), (long double)g.i(0, 900000000)), a.b = At(civil::days(2024, 1, 1), (long double)g.i(0, 900000000) + 59.9999999L);
      auto date = [](const Utc& u) { return F("%6d%6d%6d%6d%6d%13.7f", u.y, u.mo, u.d, u.h, u.mi, u.s); };
      t += Label("", "START OF ANTENNA");
      t += Label(a.type + a.serial + F("%-10s%-10s", "G0xx", "1990-000A"), "TYPE / SERIAL NO");
      t += Label("                                             0    29-JAN-17", "METH / BY / # / DATE");
      t += Label("     0.0", "DAZI");
      t += Label(F("  %6.1f%6.1f%6.1f", a.z1, a.z2, a.dz), "ZEN1 / ZEN2 / DZEN");
      const int nf = g.b(0.2) ? (int)g.i(6, 12) : (int)g.i(1, 5);
      t += Label(F("%6d", nf), "# OF FREQUENCIES");
      if (a.from) t += Label(date(a.a), "VALID FROM");
      if (a.until) t += Label(date(a.b), "VALID UNTIL");
      t += Label("IGS14_2163", "SINEX CODE");
      if (g.b(0.3)) t += Label("a comment", "COMMENT");
      for (int j = 0; j < nf; j++) {
        Freq f;
        f.name = F("%c%02d", "GRECJ"[g.i(0, 4)], (int)g.i(1, 9));
        f.noazi = true;
        for (double& x : f.off) x = atof(F("%.2f", g.u(-3000, 3000)).c_str());
        t += Label("   " + f.name, "START OF FREQUENCY");
        t += Label(F("%10.2f%10.2f%10.2f", f.off[0], f.off[1], f.off[2]), "NORTH / EAST / UP");
        std::string l = "   NOAZI";
        for (int z = 0; z <= (int)llround((a.z2 - a.z1) / a.dz); z++) {
          f.pcv.push_back(atof(F("%.2f", g.u(-99, 99)).c_str()));
          l += F("%8.2f", f.pcv.back());
        }
        t += l + "\n";
        t += Label("   " + f.name, "END OF FREQUENCY");
        a.f.push_back(f);
      }
      if (g.b(0.3)) {
        t += Label("   G01", "START OF FREQ RMS") + Label("      0.1       0.1       0.1", "NORTH / EAST / UP") + Label("   G01", "END OF FREQ RMS");
      }
      t += Label("", "END OF ANTENNA");
      ants.push_back(a);
    }
    std::ofstream("x.atx", std::ios::binary) << t;
    m.begin("ANTEX file of %ld antennas", n);
    gn::AntexFileReader r("x.atx");
    m.check(r.GetFileReadSuccessFlag(), "antex:flag", "not read");
    std::map<size_t, std::vector<const Ant*>> want;
    for (auto& a : ants)
      if (!a.receiver) want[a.index].push_back(&a);
    m.check(r.GetNumberOfSatelliteData() == want.size(), "antex:satellites", "%zu satellites of %zu", r.GetNumberOfSatelliteData(), want.size());
    for (auto& [index, list] : want) {
      std::vector<gn::AntexSatelliteData> got;
      try {
        got = r.GetAntexSatelliteData(index);
      } catch (const std::exception&) {
      }
      if (!m.check(got.size() == list.size(), "antex:blocks", "%zu blocks of the satellite %s instead of %zu", got.size(), list[0]->serial.c_str(), list.size())) continue;
      for (size_t k = 0; k < list.size(); k++) {
        const Ant& a = *list[k];
        const auto& x = got[k];
        m.check(x.GetAntennaType() == a.type && x.GetSerialNumber() == a.serial, "antex:name", "'%s' '%s'", x.GetAntennaType().c_str(), x.GetSerialNumber().c_str());
        if (a.from) m.check(Same(x.GetValidStartTime(), a.a), "antex:from", "valid from differs");
        if (a.until) m.check(Same(x.GetValidEndTime(), a.b), "antex:until", "valid until differs");
        m.check(x.GetNumberOfFrequency() == a.f.size(), "antex:frequencies", "%zu frequencies of %zu", x.GetNumberOfFrequency(), a.f.size());
        if (x.GetNumberOfFrequency() != a.f.size()) continue;
        for (size_t j = 0; j < a.f.size(); j++) {
          const auto y = x.GetPhaseCenterData(j);
          const Freq& f = a.f[j];
          const auto off = y.GetPhaseCenterOffset_mm();
          m.check(y.GetFrequencyName() == f.name && off[0] == f.off[0] && off[1] == f.off[1] && off[2] == f.off[2], "antex:offset", "frequency %s with the offset %g %g %g", y.GetFrequencyName().c_str(), off[0], off[1], off[2]);
          const auto mat = y.GetPhaseCenterVariationMatrix_mm();
          m.check(mat.size() == 1 && mat[0] == f.pcv, "antex:variation", "variations differ");
          auto grid = y.GetGridInformation();
          m.check(grid.GetZenithStartAngle_deg() == a.z1 && grid.GetZenithEndAngle_deg() == a.z2 && grid.GetZenithStepAngle_deg() == a.dz && grid.GetNumberOfZenithGrid() == f.pcv.size(), "antex:grid", "grid %g %g %g, %zu points instead of %zu",
                  grid.GetZenithStartAngle_deg(), grid.GetZenithEndAngle_deg(), grid.GetZenithStepAngle_deg(), grid.GetNumberOfZenithGrid(), f.pcv.size());
          for (int c = 0; c < 4; c++) {
            const double z = g.u(a.z1 - 2, a.z2 + 2);
            const size_t i = grid.CalcClosestZenithIndex(z);
            const double best = std::min(std::max((z - a.z1) / a.dz, 0.0), (double)(f.pcv.size() - 1));
            m.check(i < f.pcv.size() && fabs((double)i - best) <= 0.5 + 1e-9, "antex:closest", "point %zu of %zu is the closest to %g deg", i, f.pcv.size(), z);
          }
          m.ev("frequencies");
        }
      }
    }
    m.distinctv({(double)n, ants[0].f[0].off[0]});
  }
  // grids over both angles
  for (long w = 0; w < m.n(3000, 30000); w++) {
    auto& g = m.rng;
    const double dz = g.pick(std::vector<double>{0.5, 1, 2, 5, 10}), da = g.pick(std::vector<double>{0.5, 1, 5, 10, 30, 45});
    gn::AntexGridDefinition grid(0, 90, dz, da);
    const double z = g.u(-5, 95), a = g.u(-10, 370);
    if (w % 100 == 0) m.begin("grid of %g and %g deg", dz, da);
    m.check(grid.GetNumberOfZenithGrid() == (size_t)(90 / dz) + 1 && grid.GetNumberOfAzimuthGrid() == (size_t)(360 / da) + 1, "antex:grid size", "%zu %zu", grid.GetNumberOfZenithGrid(), grid.GetNumberOfAzimuthGrid());
    const double bz = std::min(std::max(z / dz, 0.0), 90 / dz), ba = std::min(std::max(a / da, 0.0), 360 / da);
    m.check(fabs((double)grid.CalcClosestZenithIndex(z) - bz) <= 0.5 + 1e-9 && fabs((double)grid.CalcClosestAzimuthIndex(a) - ba) <= 0.5 + 1e-9, "antex:closest point", "%zu %zu for %g %g", grid.CalcClosestZenithIndex(z),
            grid.CalcClosestAzimuthIndex(a), z, a);
    m.ev("grid points");
  }
  m.require("frequencies", 1000);
}

// ---------- biases ----------
GROUP(biases) {
  world::Quiet quiet;
  const long files = m.n(300, 3000);
  for (long w = 0; w < files; w++) {
    auto& g = m.rng;
    struct Bias {
      int id, unit, signal;
      std::string svn, prn, station;
      double value, sd;
    };
    const char *ids[] = {"DSB ", "ISB ", "OSB ", "XSB "}, *units[] = {"ns  ", "cyc ", "m   "};
    const std::vector<std::pair<const char*, int>> signals = {{"C1W  C2W ", 0}, {"C1P  C2P ", 0}, {"C1P  C1C ", 1}, {"C2P  C2C ", 2}, {"C1X  C5X ", 3}, {"C1C      ", 3}};
    std::vector<Bias> list;
    std::string t = "%=BIA 1.00 GFZ 2023:092:50740 IGS 2023:091:00000 2023:091:86399 R 00003234\n*---\n";
    for (const char* b : {"FILE/REFERENCE", "FILE/COMMENT", "INPUT/ACKNOWLEDGMENTS", "BIAS/DESCRIPTION", "BIAS/RECEIVER_INFORMATION"})
      if (g.b(0.7)) {
        t += std::string("+") + b + "\n";
        for (int k = (int)g.i(0, 5); k-- > 0;) t += " DESCRIPTION        +BIAS/SOLUTION of nothing\n";
        t += std::string("-") + b + "\n*----\n";
      }
    const auto names = RandomSats(g, 30);
    for (int part = (int)g.i(1, 2); part-- > 0;) {
      t += "+BIAS/SOLUTION\n*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ UNIT __ESTIMATED_VALUE____ _STD_DEV___\n";
      for (long k = g.i(0, 40); k-- > 0;) {
        Bias b;
        b.id = (int)g.i(0, 3), b.unit = (int)g.i(0, 2);
        const auto s = g.pick(signals);
        b.signal = s.second;
        b.prn = g.b(0.9) ? g.pick(names) : "   ";
        b.svn = F("%c%03d", b.prn[0] == ' ' ? 'G' : b.prn[0], (int)g.i(1, 999));
        b.station = g.b(0.3) ? F("STA%06d", (int)g.i(0, 999999)) : "         ";
        const std::string value = g.b() ? F("%21.15E", g.u(-99, 99)).substr(0, 21) : F("%21.15f", g.u(-999, 999)), sd = g.b() ? F("%11.6f ", g.u(0, 99)) : F("%12.6E", g.u(0, 99));
        b.value = atof(value.c_str()), b.sd = atof(sd.c_str());
        t += F(" %s %s %s %s %s %s %s %s ", ids[b.id], b.svn.c_str(), b.prn.c_str(), b.station.c_str(), s.first, "2023:091:00000", "2023:091:86399", units[b.unit]) + value + " " + (g.b() ? sd : Trim(sd)) + "\n";
        if (g.b(0.1)) t += "* a comment\n";
        list.push_back(b);
      }
      t += "-BIAS/SOLUTION\n";
    }
    if (g.b(0.9)) t += "%=ENDBIA\n";
    std::ofstream("x.bsx", std::ios::binary) << t;
    m.begin("bias file of %zu values", list.size());
    gn::BiasSinexFileReader r("x.bsx");
    m.check(r.GetFileReadSuccessFlag() && r.GetNumberOfBiasData() == list.size(), "biases:number", "%zu values of %zu", r.GetNumberOfBiasData(), list.size());
    if (r.GetNumberOfBiasData() != list.size()) continue;
    for (size_t k = 0; k < list.size(); k++) {
      auto x = r.GetBiasData(k);
      const Bias& b = list[k];
      m.check((int)x.GetIdentifier() == b.id && (int)x.GetUnit() == b.unit && (int)x.GetTargetSignal() == b.signal, "biases:kind", "identifier %d unit %d signal %d instead of %d %d %d", (int)x.GetIdentifier(), (int)x.GetUnit(),
              (int)x.GetTargetSignal(), b.id, b.unit, b.signal);
      m.check(x.GetSatelliteSvnCode() == b.svn && x.GetStationName() == b.station, "biases:names", "'%s' '%s'", x.GetSatelliteSvnCode().c_str(), x.GetStationName().c_str());
      m.check(x.GetBias() == b.value && x.GetBiasStandardDeviation() == b.sd && x.GetSlope() == 0 && x.GetSlopeStandardDeviation() == 0, "biases:value", "%.17g +- %.17g instead of %.17g +- %.17g", x.GetBias(), x.GetBiasStandardDeviation(),
              b.value, b.sd);
      m.ev("biases");
    }
    m.distinctv({(double)list.size(), list.empty() ? 0 : list[0].value});
  }
  m.require("biases", 2000);
}

// ---------- names ----------
GROUP(numbers) {
  m.begin("every satellite");
  const std::vector<std::pair<char, int>> s = {{'G', 32}, {'R', 26}, {'E', 28}, {'C', 62}, {'J', 5}, {'I', 7}};
  size_t k = 0;
  for (auto& a : s)
    for (int n = 1; n <= a.second; n++, k++) {
      const std::string name = F("%c%02d", a.first, n);
      m.check(gn::ConvertGnssSatelliteNumberToIndex(name) == k, "numbers:index", "%s has the index %zu instead of %zu", name.c_str(), gn::ConvertGnssSatelliteNumberToIndex(name), k);
      m.check(gn::ConvertIndexToGnssSatelliteNumber(k) == name, "numbers:name", "%zu has the name %s instead of %s", k, gn::ConvertIndexToGnssSatelliteNumber(k).c_str(), name.c_str());
      m.ev("names");
      m.distinct(name);
    }
  m.check(k == gn::kTotalNumberOfGnssSatellite, "numbers:total", "%zu satellites", (size_t)gn::kTotalNumberOfGnssSatellite);
  for (size_t x : {k, k + 1, k * 100}) m.check(gn::ConvertIndexToGnssSatelliteNumber(x) == "err", "numbers:outside", "%zu has the name %s", x, gn::ConvertIndexToGnssSatelliteNumber(x).c_str());
  for (const char* x : {"S20", "X01", "   ", "err", "", "G", "G ", " G1", "G0001", "G12345678901234567890", "G-1", "GG1", "G1a", "G1 2", "12", "G 1", "g01"}) m.check(gn::ConvertGnssSatelliteNumberToIndex(x) >= k, "numbers:unknown", "'%s' has the index %zu", x, gn::ConvertGnssSatelliteNumberToIndex(x));
  m.require("names", 100);
}
