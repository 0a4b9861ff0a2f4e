// C33: damaged data files. Every reader is given valid files and copies with damage of all kinds; the sanitizers watch its
// memory, an alarm its end, and what it returns is compared with what the undamaged file gives and with a second reading
#include "component.hpp"
//
#include <components/real/communication/antenna_radiation_pattern.hpp>
#include <components/real/communication/wings_command_sender_to_c2a.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <csetjmp>
#include <disturbances/geopotential.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <dynamics/orbit/time_series_file_orbit_propagation.hpp>
#include <dynamics/thermal/temperature.hpp>
#include <environment/global/hipparcos_catalogue.hpp>
#include <math_physics/atmosphere/wrapper_nrlmsise00.hpp>
#include <math_physics/geomagnetic/igrf.h>
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/sp3_file_reader.hpp>
#include <setting_file_reader/c2a_command_database.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
#include <setting_file_reader/wings_operation_file.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using ref::v;
typedef std::vector<std::string> Lines;
static const double PI = 3.14159265358979323846;

// An assert() of the code under test is a refusal of the file
static sigjmp_buf refuse;
static bool refusable = false;
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (refusable) siglongjmp(refuse, 1);
  fprintf(stderr, "%s:%u: %s: Assertion '%s' failed.\n", f, l, fn, e);
  abort();
}
// ... and so is the end of the program with a status
extern "C" __attribute__((noreturn)) void exit(int status) {
  if (refusable) siglongjmp(refuse, 2);
  fflush(nullptr);
  _exit(status);
}
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0"; }

// Leaves a pattern where the next calls have their variables
__attribute__((noinline)) static void Paint(int byte) {
  volatile char room[40000];
  memset((void*)room, byte, sizeof room);
}
struct Result {
  bool refused = false;
  std::string why;
  Lines records;
};
// One reading with the queries that follow it
__attribute__((noinline)) static Result Read(const std::function<void(Lines&)>& read, int paint) {
  Result r;
  world::Quiet q;
  Paint(paint);
  alarm(30);
  refusable = true;
  if (sigsetjmp(refuse, 1)) {
    r.refused = true, r.why = "assertion";
  } else {
    try {
      read(r.records);
    } catch (const std::exception& e) {
      r.refused = true, r.why = e.what();
    }
  }
  refusable = false;
  alarm(0);
  return r;
}

struct Text {
  std::string text;
  std::vector<size_t> end;  // where the records end
};
static void Put(const std::string& file, const std::string& text) { std::ofstream(file, std::ios::binary) << text; }

static std::string Damage(mon::Rng& g, const std::string& s, std::string& kind) {
  std::string t = s;
  auto line = [&](size_t& a, size_t& b) {
    a = t.empty() ? 0 : (size_t)g.i(0, (int64_t)t.size() - 1);
    a = t.rfind('\n', a);
    a = a == std::string::npos ? 0 : a + 1;
    b = t.find('\n', a);
    b = b == std::string::npos ? t.size() : b + 1;
    if (a > b) a = b;
  };
  const int rounds = g.b(0.7) ? 1 : (int)g.i(2, 5);
  for (int k = 0; k < rounds; k++) {
    size_t a, b;
    const size_t at = t.empty() ? 0 : (size_t)g.i(0, (int64_t)t.size() - 1);
    switch (g.i(0, 15)) {
      case 0: t.resize(at), kind = "cut"; break;
      case 1: line(a, b), t.resize(a), kind = "cut at a line"; break;
      case 2: line(a, b), t.erase(a, b - a), kind = "line removed"; break;
      case 3: line(a, b), t.insert(b, t.substr(a, b - a)), kind = "line repeated"; break;
      case 4: line(a, b), t = t.substr(0, a + (b > a ? (size_t)g.i(0, (int64_t)(b - a - 1)) : 0)) + "\n" + t.substr(b), kind = "line cut"; break;
      case 5: t.erase(at, (size_t)g.i(1, 20)), kind = "characters removed"; break;
      case 6: t.insert(at, std::string((size_t)g.i(1, 30), g.pick(std::vector<char>{' ', '9', 'x', ',', '-', '\n', '\0', '\t'}))), kind = "characters added"; break;
      case 7: t.insert(at, std::string((size_t)g.i(200, 5000), g.pick(std::vector<char>{'7', 'A', ' ', ','}))), kind = "very long field"; break;
      case 8:
        for (int i = 0; i < 5 && !t.empty(); i++) t[(size_t)g.i(0, (int64_t)t.size() - 1)] = (char)g.i(0, 255);
        kind = "other bytes";
        break;
      case 9: t.clear(), kind = "empty"; break;
      case 10: {
        std::string u;
        for (char c : t) u += c == '\n' ? "\r\n" : std::string(1, c);
        t = u, kind = "other line ends";
        break;
      }
      case 11: line(a, b), t.insert(a, g.b() ? "\n" : "      \n"), kind = "blank line"; break;
      case 12:
      case 13: {  // a number becomes another one
        a = t.find_first_of("0123456789", at);
        if (a == std::string::npos) break;
        b = t.find_first_not_of("0123456789.eE", a);
        if (b == std::string::npos) b = t.size();
        std::string n = g.pick(std::vector<std::string>{"-1", "0", "99999999", "1e300", "nan", "inf", "-7.5", "4294967296", "18446744073709551615", "99999999999999999999", "1e-300", "", "x"});
        if (g.b(0.7)) n.resize(b - a, ' ');  // the columns stay
        t = t.substr(0, a) + n + t.substr(b), kind = "other number";
        break;
      }
      case 14: {  // one digit
        a = t.find_first_of("0123456789", at);
        if (a != std::string::npos) t[a] = (char)('0' + g.i(0, 9));
        kind = "other digit";
        break;
      }
      default: {
        size_t c, d;
        line(a, b), line(c, d);
        if (b <= c) t = t.substr(0, a) + t.substr(c, d - c) + t.substr(b, c - b) + t.substr(a, b - a) + t.substr(d);
        kind = "lines exchanged";
      }
    }
  }
  return t;
}

// complete: the records of the undamaged file are the lines of `read`; else only safety and determinism are judged
static void Try(mon::Mon& m, const std::string& name, const std::string& file, const std::function<Text(mon::Rng&)>& make, const std::function<void(Lines&)>& read, long files, long copies) {
  for (long f = 0; f < files; f++) {
    auto& g = m.rng;
    const Text t = make(g);
    m.begin("%s: undamaged file of %zu bytes", name.c_str(), t.text.size());
    Put(file, t.text);
    const Result full = Read(read, 0);
    if (!m.check(!full.refused, mon::F("undamaged:%s", name.c_str()).c_str(), "refused: %s", full.why.c_str())) {
      continue;
    }
    m.check(full.records.size() >= t.end.size(), mon::F("undamaged:%s", name.c_str()).c_str(), "%zu records instead of %zu", full.records.size(), t.end.size());
    for (long c = 0; c < copies; c++) {
      // cut after a record
      if (c % 4 == 0 && !t.end.empty()) {
        const size_t keep = (size_t)g.i(0, (int64_t)t.end.size() - 1);
        m.begin("%s: cut after %zu of %zu records", name.c_str(), keep + 1, t.end.size());
        Put(file, t.text.substr(0, t.end[keep] + (size_t)(g.b() && keep + 1 < t.end.size() ? g.i(0, (int64_t)(t.end[keep + 1] - t.end[keep]) - 1) : 0)));
        const Result r = Read(read, 0);
        m.ev(r.refused ? "cut:refused" : "cut:read");
        if (!r.refused) {
          m.check(r.records.size() > keep, mon::F("lost:%s", name.c_str()).c_str(), "only %zu of the %zu records that are left are returned", r.records.size(), keep + 1);
          for (size_t i = 0; i <= keep && i < r.records.size(); i++) m.check(r.records[i] == full.records[i], mon::F("changed:%s", name.c_str()).c_str(), "record %zu is '%s' instead of '%s'", i, r.records[i].substr(0, 150).c_str(), full.records[i].substr(0, 150).c_str());
        }
        continue;
      }
      std::string kind;
      const std::string d = Damage(g, t.text, kind);
      m.begin("%s: %s (copy %ld of file %ld, %zu bytes)", name.c_str(), kind.c_str(), c, f, d.size());
      Put(file, d);
      const Result r = Read(read, 0), s = Read(read, 0xa5);
      m.check(r.refused == s.refused, mon::F("unstable:%s", name.c_str()).c_str(), "read once, refused once: %s%s", r.why.c_str(), s.why.c_str());
      if (!r.refused && !s.refused && m.check(r.records.size() == s.records.size(), mon::F("unstable:%s", name.c_str()).c_str(), "%zu and %zu records from the same file", r.records.size(), s.records.size()))
        for (size_t i = 0; i < r.records.size(); i++)
          if (!m.check(r.records[i] == s.records[i], mon::F("unstable:%s", name.c_str()).c_str(), "record %zu is '%s' and '%s' from the same file", i, r.records[i].substr(0, 150).c_str(), s.records[i].substr(0, 150).c_str())) break;
      m.ev(r.refused ? "refused" : "read");
      m.ev(kind.empty() ? "unchanged" : kind);
      m.distinct(name + d);
    }
    unlink(file.c_str());
    if (f == 0) {
      m.begin("%s: no file", name.c_str());
      Read(read, 0);
    }
  }
}
static std::string N(double x) { return mon::F("%.17g ", x); }
static std::string Date(const s2e::time_system::DateTime& d) { return mon::F("%zu/%zu/%zu %zu:%zu:%.9g ", d.GetYear(), d.GetMonth(), d.GetDay(), d.GetHour(), d.GetMinute(), d.GetSecond()); }

// ---------- GNSS products ----------
static Text Sp3(mon::Rng& g) {
  Text t;
  const int ns = g.b(0.2) ? (int)g.i(18, 40) : (int)g.i(1, 17), ne = (int)g.i(1, 12), interval = 300 * (int)g.i(1, 3);
  const bool vel = g.b(0.3), corr = g.b(0.3);
  auto& s = t.text;
  s += mon::F("#d%c2020  4  3  0  0  0.00000000 %7d ORBIT IGS14 FIT MGEX\n", vel ? 'V' : 'P', ne);
  s += mon::F("## 2099 432000.00000000 %14.8f 58942 0.0000000000000\n", (double)interval);
  for (int k = 0; k < ns || k < 17 * 5; k += 17) {
    s += k ? "+        " : mon::F("+  %3d   ", ns);
    for (int i = k; i < k + 17; i++) s += i < ns ? mon::F("%c%02d", i < 32 ? 'G' : 'R', i % 32 + 1) : "  0";
    s += "\n";
  }
  for (int k = 0; k < ns || k < 17 * 5; k += 17) {
    s += "++       ";
    for (int i = k; i < k + 17; i++) s += mon::F("%3d", i < ns ? i % 30 : 0);
    s += "\n";
  }
  s += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
  s += "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n";
  s += "%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n";
  for (int k = 0; k < (int)g.i(0, 4); k++) s += "/* a comment\n";
  for (int e = 0; e < ne; e++) {
    const int sec = e * interval;
    s += mon::F("*  2020  4  3 %2d %2d  0.00000000\n", sec / 3600, sec / 60 % 60);
    for (int k = 0; k < ns; k++) {
      s += mon::F("P%c%02d%14.6f%14.6f%14.6f%14.6f", k < 32 ? 'G' : 'R', k % 32 + 1, g.u(-30000, 30000), g.u(-30000, 30000), g.u(-30000, 30000), g.u(-900, 900));
      s += corr ? mon::F(" %2d %2d %2d %3d       \n", (int)g.i(0, 99), (int)g.i(0, 99), (int)g.i(0, 99), (int)g.i(0, 999)) : "\n";
      if (corr) s += mon::F("EP  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d\n", 55, 55, 55, 222, 1234567, -1234567, 5999999, -30, 21, -1230000);
      if (vel) s += mon::F("V%c%02d%14.6f%14.6f%14.6f%14.6f\n", k < 32 ? 'G' : 'R', k % 32 + 1, g.u(-30000, 30000), g.u(-30000, 30000), g.u(-30000, 30000), g.u(-900, 900));
    }
    t.end.push_back(s.size());
  }
  return t;
}
GROUP(sp3) {
  Try(m, "sp3", "data.sp3", Sp3, [](Lines& out) {
    s2e::gnss::Sp3FileReader r("data.sp3");
    const auto h = r.GetHeader();
    const size_t ns = r.GetNumberOfSatellites();
    for (size_t e = 0; e < std::min<size_t>(r.GetNumberOfEpoch(), 40) + 2; e++) {
      std::string x = Date(r.GetEpochData(e));
      for (size_t k = 0; k < std::min<size_t>(ns, 50) + (e % 2); k++) {
        const auto p = r.GetPositionClock(e, k);
        const auto q = r.GetSatellitePosition_km(e, k);
        x += p.satellite_id_ + " " + N(p.position_km_[0]) + N(p.position_km_[1]) + N(p.position_km_[2]) + N(p.clock_us_) + N(r.GetSatelliteClockOffset(e, k)) + N(q[0]) + N(p.clock_standard_deviation_) + mon::F("%d%d%d%d ", p.clock_event_flag_, p.clock_prediction_flag_, p.maneuver_flag_, p.orbit_prediction_flag_);
      }
      out.push_back(x);
    }
    for (size_t e : {(size_t)100000, (size_t)-1})
      for (size_t k : {(size_t)0, (size_t)100000, (size_t)-1}) out.push_back(Date(r.GetEpochData(e)) + N(r.GetPositionClock(e, k).clock_us_) + N(r.GetPositionClock(0, k).clock_us_));
    for (double dt : {-1e9, -1.0, 0.0, 449.0, 3600.0, 1e5, 1e9}) {
      const size_t id = r.SearchNearestEpochId(s2e::time_system::EpochTime((uint64_t)(1585872000.0 + dt), 0.0));
      out.push_back(mon::F("%zu ", id) + Date(r.GetEpochData(id)) + N(r.GetPositionClock(id, 0).clock_us_));
    }
    out.push_back(Date(r.GetStartEpochDateTime()) + N(h.epoch_interval_s_) + h.agency_name_);
  }, m.n(25, 200), 60);
  m.require("read", 200);
  m.require("refused", 50);
  m.require("cut:read", 50);
}
static Text Antex(mon::Rng& g) {
  Text t;
  auto& s = t.text;
  auto line = [&](const std::string& a, const char* b) { s += a + std::string(a.size() < 60 ? 60 - a.size() : 0, ' ') + b + "\n"; };
  line("     1.4            M", "ANTEX VERSION / SYST");
  line("A", "PCV TYPE / REFANT");
  line("some remark", "COMMENT");
  line("", "END OF HEADER");
  const int n = (int)g.i(1, 12);
  for (int k = 0; k < n; k++) {
    line("", "START OF ANTENNA");
    if (g.b(0.2))
      line(g.b() ? "AOAD/M_B        NONE" : "GEO_RECEIVER    NONEGX12345", "TYPE / SERIAL NO");
    else
      line(mon::F("BLOCK IIA           %c%02d                 G0%02d      1992-079A", g.pick(std::vector<char>{'G', 'R', 'E'}), k + 1, k + 13), "TYPE / SERIAL NO");
    line("                                             0    29-JAN-17", "METH / BY / # / DATE");
    line("     0.0", "DAZI");
    const int nz = (int)g.i(1, 18);
    line(mon::F("     0.0  %4.1f   1.0", (double)nz), "ZEN1 / ZEN2 / DZEN");
    const int nf = (int)g.i(1, 3);
    line(mon::F("%6d", nf), "# OF FREQUENCIES");
    line("  1992    11    22     0     0    0.0000000", "VALID FROM");
    if (g.b()) line("  2008    10    16    23    59   59.9999999", "VALID UNTIL");
    line("IGS14_1935", "SINEX CODE");
    for (int f = 0; f < nf; f++) {
      line(mon::F("   G%02d", f + 1), "START OF FREQUENCY");
      line(mon::F("%10.2f%10.2f%10.2f", g.u(-300, 300), g.u(-300, 300), g.u(-300, 3000)), "NORTH / EAST / UP");
      s += "   NOAZI";
      for (int i = 0; i <= nz; i++) s += mon::F("%8.2f", g.u(-20, 20));
      s += "\n";
      line(mon::F("   G%02d", f + 1), "END OF FREQUENCY");
    }
    line("", "END OF ANTENNA");
  }
  return t;
}
GROUP(antex) {
  Try(m, "antex", "data.atx", Antex, [](Lines& out) {
    s2e::gnss::AntexFileReader r("data.atx");
    out.push_back(mon::F("%d %zu", (int)r.GetFileReadSuccessFlag(), r.GetNumberOfSatelliteData()));
    for (size_t k = 0; k < 150; k++) {
      std::string x;
      try {
        auto list = r.GetAntexSatelliteData(k);
        for (auto& a : list) {
          x += a.GetAntennaType() + a.GetSerialNumber() + Date(a.GetValidStartTime()) + Date(a.GetValidEndTime()) + mon::F("%zu ", a.GetNumberOfFrequency());
          for (size_t f = 0; f < std::min<size_t>(a.GetNumberOfFrequency(), 50) + 1; f++) {
            auto p = a.GetPhaseCenterData(f);
            auto grid = p.GetGridInformation();
            x += p.GetFrequencyName() + N(p.GetPhaseCenterOffset_mm()[2]) + mon::F("%zu %zu ", grid.GetNumberOfZenithGrid(), grid.GetNumberOfAzimuthGrid());
            for (auto& row : p.GetPhaseCenterVariationMatrix_mm())
              for (double y : row) x += N(y);
            if (grid.GetNumberOfZenithGrid() > 0)
              for (double z : {-10.0, 0.0, 3.3, 45.0, 90.0, 1e9})
                if (grid.CalcClosestZenithIndex(z) >= grid.GetNumberOfZenithGrid()) throw std::range_error("index beyond the grid");
          }
        }
      } catch (const std::range_error& e) {
        throw;
      } catch (const std::exception& e) {
        x += "none";
      }
      out.push_back(x);
    }
  }, m.n(25, 200), 60);
  m.require("read", 200);
}
static Text Sinex(mon::Rng& g) {
  Text t;
  auto& s = t.text;
  s += "%=BIA 1.00 COD 2023:102:02483 IGS 2023:091:00000 2023:092:00000 R 00003207\n";
  s += "+FILE/REFERENCE\n DESCRIPTION        CODE\n-FILE/REFERENCE\n*----\n+FILE/COMMENT\n a comment\n-FILE/COMMENT\n";
  if (g.b()) s += "+INPUT/ACKNOWLEDGMENTS\n COD\n-INPUT/ACKNOWLEDGMENTS\n";
  s += "+BIAS/DESCRIPTION\n*KEYWORD\n OBSERVATION_SAMPLING                             30\n-BIAS/DESCRIPTION\n";
  if (g.b()) s += "+BIAS/RECEIVER_INFORMATION\n*SVN\n-BIAS/RECEIVER_INFORMATION\n";
  s += "+BIAS/SOLUTION\n*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ UNIT __ESTIMATED_VALUE____ _STD_DEV___\n";
  const int n = (int)g.i(1, 60);
  for (int k = 0; k < n; k++) {
    s += mon::F(" %s  G%03d G%02d           %s  %s  2023:091:00000 2023:091:86399 %s  %21.14E %12.6E\n", g.pick(std::vector<std::string>{"DSB", "ISB", "OSB"}).c_str(), 40 + k, k % 32 + 1, g.b() ? "C1W" : "C1P", g.b() ? "C2W" : "C1C", g.b() ? "ns " : "cyc", g.u(-20, 20), g.u(0, 1));
    t.end.push_back(s.size());
  }
  s += "-BIAS/SOLUTION\n%=ENDBIA\n";
  return t;
}
GROUP(sinex) {
  Try(m, "sinex", "data.BSX", Sinex, [](Lines& out) {
    s2e::gnss::BiasSinexFileReader r("data.BSX");
    const size_t n = r.GetNumberOfBiasData();
    for (size_t k = 0; k < n; k++) {
      auto d = r.GetBiasData(k);
      out.push_back(mon::F("%d %d %d ", (int)d.GetIdentifier(), (int)d.GetTargetSignal(), (int)d.GetUnit()) + d.GetSatelliteSvnCode() + d.GetStationName() + N(d.GetBias()) + N(d.GetBiasStandardDeviation()) + N(d.GetSlope()) + N(d.GetSlopeStandardDeviation()));
    }
    for (size_t k : {n, n + 1, n + 100000, (size_t)-1}) {
      try {
        auto d = r.GetBiasData(k);
        out.push_back(d.GetSatelliteSvnCode() + N(d.GetBias()));
      } catch (const std::exception&) {
        out.push_back("none");
      }
    }
  }, m.n(25, 200), 60);
  m.require("read", 100);
}

// ---------- tables ----------
GROUP(stars) {
  Try(m, "stars", "stars.csv", [](mon::Rng& g) {
    Text t;
    t.text = "HIP_ID[],VMAG[],RA[deg],DE[deg]\n";
    for (int k = 0; k < (int)g.i(1, 100); k++) t.text += mon::F("%d,%.2f,%.8f,%.8f\n", (int)g.i(1, 118322), -1.4 + k * 0.1, g.u(0, 360), g.u(-90, 90)), t.end.push_back(t.text.size());
    return t;
  }, [](Lines& out) {
    s2e::environment::HipparcosCatalogue h(20.0, "stars.csv");
    h.ReadContents("stars.csv", ',');
    const size_t n = h.GetCatalogueSize();
    for (size_t k = 0; k < n; k++) out.push_back(mon::F("%d ", h.GetHipparcosId(k)) + N(h.GetVisibleMagnitude(k)) + N(h.GetRightAscension_deg(k)) + N(h.GetDeclination_deg(k)) + N(h.GetStarDirection_i(k)[2]));
    for (size_t k : {n, n + 1, (size_t)-1}) {
      try {
        out.push_back(mon::F("%d ", h.GetHipparcosId(k)) + N(h.GetVisibleMagnitude(k)) + N(h.GetStarDirection_i(k)[0]));
      } catch (const std::exception&) {
        out.push_back("none");
      }
    }
  }, m.n(25, 200), 60);
  m.require("read", 100);
}
GROUP(commands) {
  Try(m, "commands", "commands.csv", [](mon::Rng& g) {
    Text t;
    t.text = "Component,Name,Target,Code,Params,,,,,,,,,,,,,Danger Flag,Is Restricted,Description,Note\nMOBC,,,,Num Params,Param1,,Param2,,Param3,,\n* C2A_CORE,,,,,\n";
    for (int k = 0; k < (int)g.i(1, 40); k++) {
      const int n = (int)g.i(0, 6);
      t.text += mon::F(",Cmd_%d,OBC,0x%04x,%d", k, k * 3, n);
      for (int a = 0; a < 6; a++) t.text += a < n ? "," + g.pick(Lines{"uint8_t", "uint16_t", "int32_t", "float", "double", "raw"}) + ",text" : ",,";
      t.text += ",,,description,\n";
      t.end.push_back(t.text.size());
    }
    return t;
  }, [](Lines& out) {
    s2e::setting_file_reader::C2aCommandDatabase d("commands.csv");
    for (int k = 0; k < 45; k++) {
      auto c = d.GetCommandInformation("Cmd_" + std::to_string(k));
      std::string x = c.GetCommandName() + mon::F(" %zu %zu", c.GetCommandId(), c.GetNumberOfArgument());
      for (size_t a = 0; a < 9; a++) x += mon::F(" %d", (int)c.GetArgumentType(a));
      out.push_back(x + mon::F(" %d", (int)c.GetArgumentType((size_t)-1)));
    }
  }, m.n(25, 200), 60);
  m.require("read", 100);
}
GROUP(scripts) {
  Put("empty.csv", "\n");
  Put("sender.ini", "[WINGS_COMMAND_SENDER_TO_C2A]\ncommand_send_enable = ENABLE\nprescaler = 1\nc2a_command_database_file = empty.csv\nwings_operation_file = script.ops\n");
  Try(m, "scripts", "script.ops", [](mon::Rng& g) {
    Text t;
    for (int k = 0; k < (int)g.i(1, 60); k++) {
      t.text += g.pick(Lines{".MOBC_RT.NOP", " wait_sec 0.5", " MOBC_TL.MM_START 33 2 # text", " let x = 2", " AOBC_RT.AM {x}"}) + "\n";
      t.end.push_back(t.text.size());
    }
    return t;
  }, [](Lines& out) {
    s2e::setting_file_reader::WingsOperationFile f("script.ops");
    for (int k = 0; k < 3000; k++) {
      out.push_back(f.GetLatestLine());
      if (out.back() == "EOL") break;
    }
    s2e::environment::ClockGenerator clock;
    auto s = s2e::components::InitWingsCommandSenderToC2a(&clock, 0.1, "sender.ini");
    for (int t = 1; t < 500; t++) s.Tick(t);
  }, m.n(15, 100), 60);
  m.require("read", 100);
}
GROUP(pattern) {
  static int nt, np;
  Try(m, "pattern", "pattern.csv", [](mon::Rng& g) {
    Text t;
    nt = (int)g.i(1, 30), np = (int)g.i(1, 30);
    for (int i = 0; i < nt; i++) {
      for (int j = 0; j < np; j++) t.text += mon::F(j ? ",%.3f" : "%.3f", g.u(-40, 10));
      t.text += "\n";
    }
    return t;
  }, [](Lines& out) {
    s2e::components::AntennaRadiationPattern p("pattern.csv", (size_t)nt, (size_t)np, 2 * PI, PI);
    for (double th : {-1.0, 0.0, 0.3, 1.0, 3.0, 6.0, 6.3, 1e9})
      for (double ph : {-7.0, -3.0, 0.0, 0.2, 1.5, 3.1, 4.0, 1e9}) out.push_back(N(p.GetGain_dBi(th, ph)));
  }, m.n(25, 200), 60);
  m.require("refused", 50);
  m.require("read", 50);
}
GROUP(ephemeris) {
  world::World W(Plain(m.rng, 10));
  W.Step();
  static const s2e::environment::CelestialInformation* cel = &W.global->GetCelestialInformation();
  Try(m, "ephemeris", "orbit.csv", [](mon::Rng& g) {
    Text t;
    t.text = "time,x,y,z,vx,vy,vz\n";
    const int n = (int)g.i(1, 60);
    for (int k = 0; k < n; k++) t.text += mon::F("%.3f,%.6f,%.6f,%.6f,%.6f,%.6f,%.6f\n", 6.4e8 + 60.0 * k, 7e6 * cos(k * 0.06), 7e6 * sin(k * 0.06), 1e5, -7.5e3 * sin(k * 0.06), 7.5e3 * cos(k * 0.06), 0.0);
    return t;
  }, [](Lines& out) {
    for (int method : {0, 1}) {
      s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation o(cel, "orbit.csv", 9, method, 5700.0, 2451545.0 + (6.4e8 + 100.0) / 86400.0);
      o.SetIsCalcEnabled(true);
      for (double t : {100.0, 130.0, 500.0, 3000.0, 4000.0, 1e6}) {
        o.Propagate(t, 2451545.0 + (6.4e8 + t) / 86400.0);
        out.push_back(N(o.GetPosition_i_m()[0]) + N(o.GetVelocity_i_m_s()[1]));
      }
    }
  }, m.n(20, 150), 60);
  m.require("refused", 50);
  m.require("read", 50);
}
GROUP(thermal) {
  static int n;
  static std::string which;
  mkdir("thermal", 0777);
  Put("thermal.ini", "[THERMAL]\ncalculation = ENABLE\nsolar_calc_setting = DISABLE\ndebug = DISABLE\nthermal_file_directory = thermal/\n");
  for (const char* w : {"node", "heatload", "heaters", "cij", "rij"}) {
    which = w;
    Try(m, "thermal " + which, "thermal/" + which + ".csv", [](mon::Rng& g) {
      n = (int)g.i(1, 8);
      std::map<std::string, std::string> f;
      f["node"] = "id,label,type,heater,capacity,alpha,epsilon,area,nx,ny,nz,T\n", f["heatload"] = "time,0,100,200\n", f["heaters"] = "id,power,low,high\n1,5,10,20\n2,6,0,5\n";
      f["cij"] = f["rij"] = "head";
      for (int j = 0; j < n; j++) f["cij"] += "," + std::to_string(j), f["rij"] += "," + std::to_string(j);
      f["cij"] += "\n", f["rij"] += "\n";
      for (int i = 0; i < n; i++) {
        f["node"] += mon::F("%d,N%d,%d,%d,%.1f,0.5,0.5,0.1,1,0,0,%.1f\n", i, i, g.b(0.2) ? 1 : 0, i == 0 ? 1 : 0, g.u(100, 1000), g.u(250, 320));
        f["heatload"] += mon::F("%d,%.1f,%.1f,%.1f\n", i, g.u(0, 5), g.u(0, 5), g.u(0, 5));
        f["cij"] += std::to_string(i), f["rij"] += std::to_string(i);
        for (int j = 0; j < n; j++) f["cij"] += i == j ? ",0" : ",0.1", f["rij"] += i == j ? ",0" : ",0.001";
        f["cij"] += "\n", f["rij"] += "\n";
      }
      for (auto& x : f) Put("thermal/" + x.first + ".csv", x.second);
      Text t;
      t.text = f[which];
      return t;
    }, [](Lines& out) {
      std::unique_ptr<s2e::dynamics::thermal::Temperature> t(s2e::dynamics::thermal::InitTemperature("thermal.ini", 1.0, nullptr, nullptr, nullptr));
      for (auto& x : t->GetNodes()) out.push_back(N(x.GetTemperature_K()));
    }, m.n(8, 60), 60);
  }
  m.require("refused", 50);
  m.require("read", 50);
}
GROUP(scenario) {
  Put("scenario.ini", "[SCENARIO]\nis_csv_scenario_enabled = 1\ncsv_path = scenario.csv\n");
  Try(m, "scenario", "scenario.csv", [](mon::Rng& g) {
    Text t;
    t.text = "time,x,y,z,flag,power\n";
    for (int k = 0; k < (int)g.i(1, 40); k++) t.text += mon::F("%d,%.3f,%.3f,%.3f,%d,%.2f\n", 1000 + k * 10, g.u(-1, 1), g.u(-1, 1), g.u(-1, 1), (int)g.i(0, 1), g.u(0, 20));
    return t;
  }, [](Lines& out) {
    typedef s2e::components::CsvScenarioInterface C;
    C::Initialize("scenario.ini");
    for (double t : {-1e9, 0.0, 999.9, 1000.0, 1014.0, 1e6, 1e30}) {
      const auto d = C::GetSunDirectionBody(t);
      (void)d, (void)C::GetSunFlag(t), (void)C::GetPowerConsumption(t);  // (it keeps the entries of earlier files)
    }
    out.push_back("end");
  }, m.n(20, 150), 60);
  m.require("read", 50);
}
GROUP(gravity) {
  static int degree;
  Try(m, "geopotential", "egm.txt", [](mon::Rng& g) {
    Text t;
    degree = (int)g.i(2, 14);
    for (int n = 2; n <= degree; n++)
      for (int k = 0; k <= n; k++) t.text += mon::F("%4d%4d%20.12e%20.12e%18.8e%18.8e\n", n, k, g.n() * 1e-6, g.n() * 1e-6, 1e-11, 1e-11);
    return t;
  }, [](Lines& out) {
    s2e::disturbances::Geopotential p(degree, "egm.txt", true);
    out.push_back(p.GetLogHeader());
  }, m.n(15, 100), 60);
  Try(m, "lunar", "moon.txt", [](mon::Rng& g) {
    Text t;
    degree = (int)g.i(2, 14);
    t.text = "1738.0000000000000, 4902.8001224453001, 0.0, 660, 660, 1, 0.0, 0.0\n";
    for (int n = 1; n <= degree; n++)
      for (int k = 0; k <= n; k++) t.text += mon::F("%5d,%5d,%20.12e,%20.12e,%18.8e,%18.8e\n", n, k, g.n() * 1e-6, g.n() * 1e-6, 1e-11, 1e-11);
    return t;
  }, [](Lines& out) {
    s2e::disturbances::LunarGravityField p(degree, "moon.txt", true);
    out.push_back(p.GetLogHeader());
  }, m.n(15, 100), 60);
  m.require("read", 100);
}
GROUP(weather) {
  Try(m, "weather", "weather.txt", [](mon::Rng& g) {
    Text t;
    t.text = "DATATYPE CssiSpaceWeather\nVERSION 1.2\nUPDATED 2020 Apr 10 03:00:03 UTC\nBEGIN OBSERVED\n";
    for (int k = 0; k < (int)g.i(5, 60); k++) {
      char b[200];
      snprintf(b, sizeof b, "2020 %02d %02d 2548 19 10 10 10 10 10 10 10 10  80   4   4   4   4   4   4   4   4 %3d 0.1 2  12 %5.1f 0 %5.1f %5.1f %5.1f %5.1f %5.1f", 3 + k / 28, k % 28 + 1, (int)g.i(0, 99), g.u(60, 250), g.u(60, 250), g.u(60, 250), g.u(60, 250), g.u(60, 250), g.u(60, 250));
      std::string l = b;
      if (l.size() < 135) l.resize(135, '1');
      t.text += l + "\n";
    }
    t.text += "END OBSERVED\n";
    return t;
  }, [](Lines& out) {
    using namespace s2e::atmosphere;
    std::vector<nrlmsise_table> table;
    const size_t n = GetSpaceWeatherTable_(2020.27, 86400.0 * 3, "weather.txt", table);
    out.push_back(mon::F("%zu", n));
    for (auto& t : table) out.push_back(mon::F("%d %d %d ", t.year, t.month, t.day) + N(t.Ap_avg) + N(t.F107_adj) + N(t.Ctr81_adj));
    out.push_back(N(CalcNRLMSISE00(2020.27, 0.1, 0.2, 400e3, table, table.empty(), 150, 150, 3)));
  }, m.n(15, 100), 60);
  m.require("read", 100);
}
GROUP(igrf) {
  std::ifstream in(VERIF_REPO "/example/settings/environment/magnetic_field/igrf13.coef", std::ios::binary);
  std::stringstream all;
  all << in.rdbuf();
  const std::string text = all.str();
  m.begin("igrf: undamaged file");
  m.check(text.size() > 1000, "undamaged:igrf", "igrf13.coef not found");
  for (long k = 0; k < m.n(250, 3000); k++) {
    auto& g = m.rng;
    std::string kind = "undamaged", d = text;
    if (k > 0) {
      // mostly in the first lines
      const size_t head = g.b(0.6) ? 2000 : text.size();
      d = Damage(g, text.substr(0, head), kind) + text.substr(std::min(head, text.size()));
    }
    m.begin("igrf: %s (copy %ld)", kind.c_str(), k);
    Put("igrf13.coef", d);
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      alarm(30);
      const int null = open("/dev/null", O_WRONLY);
      dup2(null, 1);
      set_file_path("igrf13.coef");
      Paint(k % 2 ? 0x7f : 0xa5);
      gigrf(13, g.u(1890, 2030));
      double f = 0;
      igrfc(35.0, 139.0, 0.0, &f);
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    const bool end = WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 1);
    m.check(end, "crash:igrf", "the reader ends with status 0x%x", status);
    if (k == 0) m.check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "undamaged:igrf", "status 0x%x", status);
    m.ev(status ? "refused" : "read");
    m.distinct(d);
  }
  m.require("refused", 20);
  m.require("read", 20);
}
GROUP(ini) {
  Try(m, "ini", "file.ini", [](mon::Rng& g) {
    Text t;
    for (int s = 0; s < (int)g.i(1, 6); s++) {
      t.text += "[SECTION_" + std::to_string(s) + "]\n";
      for (int k = 0; k < (int)g.i(0, 10); k++) {
        t.text += g.pick(Lines{"number", "flag", "vector(0)", "vector(1)", "vector(2)", "text", "list(0)", "list(1)", "q_(0)", "q(3)"}) + " = " + g.pick(Lines{"1", "ENABLE", "3.5e3", "some text // remark", "-7", "true"}) + (g.b(0.2) ? " // remark" : "") + "\n";
      }
    }
    return t;
  }, [](Lines& out) {
    s2e::setting_file_reader::IniAccess a("file.ini");
    for (const char* s : {"SECTION_0", "SECTION_1", "SECTION_2", "SECTION_3", "", "NOTHING"}) {
      std::string x = N(a.ReadDouble(s, "number")) + mon::F("%d %d %d ", a.ReadInt(s, "number"), a.ReadBoolean(s, "flag"), a.ReadEnable(s, "flag")) + a.ReadString(s, "text");
      s2e::math::Vector<3> v3(0.0);
      a.ReadVector(s, "vector", v3);
      s2e::math::Quaternion q(0, 0, 0, 1);
      a.ReadQuaternion(s, "q", q);
      char c[12];
      a.ReadChar(s, "text", (int)sizeof c, c);
      x += N(v3[0]) + N(v3[1]) + N(v3[2]) + N(q[0]) + N(q[3]) + c;
      for (auto& y : a.ReadStrVector(s, "list")) x += y + ";";
      for (double y : a.ReadVectorDouble(s, "vector", 4)) x += N(y);
      for (int y : a.ReadVectorInt(s, "vector", 4)) x += N(y);
      out.push_back(x);
    }
  }, m.n(20, 150), 60);
  m.require("read", 200);
}
GROUP(csv) {
  Try(m, "csv", "table.csv", [](mon::Rng& g) {
    Text t;
    const int c = (int)g.i(1, 10);
    for (int i = 0; i < (int)g.i(1, 30); i++) {
      for (int j = 0; j < c; j++) t.text += mon::F(j ? ",%.6g" : "%.6g", g.n());
      t.text += "\n";
      t.end.push_back(t.text.size());
    }
    return t;
  }, [](Lines& out) {
    s2e::setting_file_reader::IniAccess a("table.csv");
    std::vector<std::vector<double>> d;
    a.ReadCsvDouble(d, 10);
    for (auto& r : d) {
      std::string x;
      for (double y : r) x += N(y);
      out.push_back(x);
    }
    std::vector<std::vector<double>> h;
    a.ReadCsvDoubleWithHeader(h, 10, 2, 3);
    std::vector<std::vector<std::string>> s;
    a.ReadCsvString(s, 10);
    out.push_back(mon::F("%zu %zu", h.size(), s.size()));
  }, m.n(25, 200), 60);
  m.require("read", 100);
}
