// C32: command databases, operation scripts, star catalogues, telescopes
#include "component.hpp"
//
#include <components/real/mission/telescope.hpp>
#include <environment/global/hipparcos_catalogue.hpp>
#include <regex>
#include <setting_file_reader/c2a_command_database.hpp>
#include <setting_file_reader/wings_operation_file.hpp>
// The command sender once more, with the commands that it gives to C2A recorded
#define USE_C2A
#define WingsCommandSenderToC2a RecordedCommandSender
#define InitWingsCommandSenderToC2a InitRecordedCommandSender
#include <components/real/communication/wings_command_sender_to_c2a.cpp>
using namespace s2e::setting_file_reader;
using ref::v;
static const L PI = 3.14159265358979323846L;
typedef std::vector<uint8_t> Bytes;
typedef C2aArgumentType A;
typedef std::array<double, 4> Q4;

struct Sent {
  bool timeline;
  uint32_t ti;
  int id;
  Bytes param;
  bool operator==(const Sent& o) const { return timeline == o.timeline && ti == o.ti && id == o.id && param == o.param; }
};
static std::vector<Sent> sent;
void CCP_register_rtc(CMD_CODE id, const uint8_t* param, uint16_t len) { sent.push_back({false, 0, (int)id, Bytes(param, param + len)}); }
void CCP_register_tlc(uint32_t ti, int, CMD_CODE id, const uint8_t* param, uint16_t len) { sent.push_back({true, ti, (int)id, Bytes(param, param + len)}); }

static const struct Type {
  const char* name;
  A type;
  int size;
  bool is_signed;
} types[] = {{"uint8_t", A::kUint8t, 1, false}, {"uint16_t", A::kUint16t, 2, false}, {"uint32_t", A::kUint32t, 4, false}, {"uint64_t", A::kUint64t, 8, false}, {"int8_t", A::kInt8t, 1, true}, {"int16_t", A::kInt16t, 2, true}, {"int32_t", A::kInt32t, 4, true}, {"int64_t", A::kInt64t, 8, true}, {"float", A::kFloat, 4, true}, {"double", A::kDouble, 8, true}};

// A value of the type as text, and the bytes that it must become, most significant first
static std::string Value(mon::Rng& g, const Type& t, Bytes& bytes) {
  char text[64];
  uint64_t bits;
  if (t.type == A::kFloat) {
    snprintf(text, sizeof text, g.b() ? "%.9g" : "%.5f", g.b(0.1) ? 0.0 : g.n() * g.logu(1e-2, 1e6));
    const float x = strtof(text, nullptr);
    uint32_t b;
    memcpy(&b, &x, 4), bits = b;
  } else if (t.type == A::kDouble) {
    snprintf(text, sizeof text, g.b() ? "%.17g" : "%.5f", g.b(0.1) ? 0.0 : g.n() * g.logu(1e-2, 1e12));
    const double x = strtod(text, nullptr);
    memcpy(&bits, &x, 8);
  } else {
    const int w = t.size * 8;
    const uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
    switch (g.i(0, 5)) {
      case 0: bits = 0; break;
      case 1: bits = mask; break;
      case 2: bits = 1ull << (w - 1); break;
      case 3: bits = (1ull << (w - 1)) - 1; break;
      case 4: bits = g.next() & mask & 0xff; break;
      default: bits = g.next() & mask;
    }
    if (t.is_signed)
      snprintf(text, sizeof text, "%lld", w == 64 ? (long long)bits : (long long)((bits ^ (1ull << (w - 1))) - (1ull << (w - 1))));
    else
      snprintf(text, sizeof text, "%llu", (unsigned long long)bits);
  }
  for (int k = t.size - 1; k >= 0; k--) bytes.push_back((uint8_t)(bits >> (8 * k)));
  return text;
}
static std::string Hex(const Bytes& b) {
  std::string s;
  for (uint8_t x : b) s += mon::F("%02x ", x);
  return s;
}

GROUP(arguments) {
  for (long k = 0; k < m.n(40000, 400000); k++) {
    auto& g = m.rng;
    const Type& t = types[g.i(0, 9)];
    Bytes want;
    const std::string text = Value(g, t, want);
    m.begin("%s %s", t.name, text.c_str());
    const size_t before = (size_t)g.i(0, 8), after = 8;
    Bytes buffer(before + 8 + after);
    for (auto& x : buffer) x = (uint8_t)g.i(0, 255);
    const Bytes old = buffer;
    size_t size = 99;
    DecodeC2aCommandArgument(t.type, text, buffer.data() + before, size);
    m.check(size == want.size(), "argument:size", "%s has %zu bytes", t.name, size);
    const Bytes got(buffer.begin() + (long)before, buffer.begin() + (long)(before + want.size()));
    m.check(got == want, "argument:bytes", "%s %s becomes %sinstead of %s", t.name, text.c_str(), Hex(got).c_str(), Hex(want).c_str());
    for (size_t i = 0; i < buffer.size(); i++)
      if (i < before || i >= before + want.size()) m.check(buffer[i] == old[i], "argument:other", "byte %zd beside the argument is changed", (ssize_t)i - (ssize_t)before);
    m.ev(t.name);
    m.distinct((Hex(want)));
  }
  for (auto& t : types) m.require(t.name, 1000);
}

struct Command {
  std::string name;
  int id;
  std::vector<const Type*> arg;
};
struct Database {
  std::vector<Command> command;
  std::string file;
  Database(mon::Rng& g, const std::string& f) : file(f) {
    std::ofstream out(f);
    out << "Component,Name,Target,Code,Params,,,,,,,,,,,,,Danger Flag,Is Restricted,Description,Note\n"
           "MOBC,,,,Num Params,Param1,,Param2,,Param3,,Param4,,Param5,,Param6,,,,,\n"
           "Comment,,,,,Type,Description,Type,Description,Type,Description,Type,Description,Type,Description,Type,Description,,,,\n"
           "*,EXAMPLE,OBC,,2,uint32_t,address,int32_t,time [ms],,,,,,,,,,,text,more\n";
    const int n = (int)g.i(1, 60);
    for (int i = 0; i < n; i++) {
      if (g.b(0.15)) out << "* C2A_CORE,part " << i << ",,,,,,,,,,,,,,,,,,,\n";
      if (g.b(0.1)) out << ",,,,,,,,,,,,,,,,,,,,\n";
      Command c;
      c.name = (g.b() ? "Cmd_" : "") + std::string(g.pick(std::vector<std::string>{"NOP", "MM_START", "TLCD", "BCT_SET", "AM"})) + "_" + std::to_string(i);
      c.id = g.b(0.1) ? (int)g.i(0, 0xffff) : i * 7 + (int)g.i(0, 6);
      out << "," << c.name << ",OBC," << (g.b() ? mon::F("0x%04x", c.id) : g.b() ? mon::F("0x%X", c.id) : std::to_string(c.id));
      const int na = (int)g.i(0, 6);
      for (int a = 0; a < na; a++) c.arg.push_back(&types[g.i(0, 9)]);
      out << "," << na;
      const bool cut = g.b(0.15);  // without the empty cells at the end
      for (int a = 0; a < (cut ? na : 6); a++) {
        out << "," << (a < na ? c.arg[(size_t)a]->name : g.b(0.1) ? "uint8_t" : "");
        if (!cut || a + 1 < na) out << "," << (g.b() ? "value [ms] * 2" : g.b() ? "value [ms]" : "");
      }
      out << (cut ? "\n" : g.b(0.2) ? ",,,what it does (* with care),a*b\n" : ",,,what it does,\n");
      command.push_back(c);
    }
  }
};
GROUP(database) {
  for (long k = 0; k < m.n(300, 3000); k++) {
    auto& g = m.rng;
    Database d(g, "commands.csv");
    m.begin("%zu commands", d.command.size());
    C2aCommandDatabase db("commands.csv");
    for (auto& c : d.command) {
      C2aCommandInformation i = db.GetCommandInformation(c.name);
      m.check(i.GetCommandName() == c.name && i.GetCommandId() == (size_t)c.id, "database:id", "command %s has the name %s and the code %zu instead of %d", c.name.c_str(), i.GetCommandName().c_str(), i.GetCommandId(), c.id);
      m.check(i.GetNumberOfArgument() == c.arg.size(), "database:number", "command %s has %zu arguments instead of %zu", c.name.c_str(), i.GetNumberOfArgument(), c.arg.size());
      for (size_t a = 0; a < 9; a++)
        m.check(i.GetArgumentType(a) == (a < c.arg.size() ? c.arg[a]->type : A::kError), "database:type", "argument %zu of %s has the type %d", a, c.name.c_str(), (int)i.GetArgumentType(a));
      m.ev("commands");
      m.distinct((c.name + std::to_string(c.id)));
    }
    for (const char* x : {"EXAMPLE", "Nothing", "part 0", "Cmd_"}) {
      C2aCommandInformation i = db.GetCommandInformation(x);
      m.check(i.GetCommandName() == "Error" && i.GetNumberOfArgument() == 0, "database:unknown", "'%s' gives the command %s", x, i.GetCommandName().c_str());
    }
  }
  m.require("commands", 1000);
}

GROUP(script) {
  for (long k = 0; k < m.n(400, 3000); k++) {
    auto& g = m.rng;
    Database d(g, "commands.csv");
    struct Line {
      std::string text, blank;
      double wait = 0;
      std::vector<Sent> command;
    };
    std::vector<Line> lines;
    std::ofstream out("script.ops");
    const int n = (int)g.i(0, 80);
    const bool blanks = g.b(0.3);
    for (int i = 0; i < n; i++) {
      if (g.b(0.2)) out << g.pick(std::vector<std::string>{"", ".", " ", ".# ", "# MOBC_RT.NOP", ".# wait_sec 5", " # remark", ".#"}) << "\n";
      Line l;
      if (blanks) {
        l.blank = g.pick(std::vector<std::string>{"", "", "", "     ", ".     # remark", "  \t\t  ", "     \r"});
        if (!l.blank.empty()) out << l.blank << "\n", m.ev("blank lines");
      }
      switch (g.i(0, 10)) {
        case 9: l.text = "MOBC_RT." + g.pick(std::vector<std::string>{"Cmd_UNKNOWN", "EXAMPLE", "X 3 4"}); break;  // not in the database
        case 10: l.text = g.pick(std::vector<std::string>{"wait_sec", "MOBC_RT", "MOBC", "MOBC.NOP", "MOBC_TL." + d.command[0].name}); break;  // incomplete
        case 0:
          l.wait = g.b(0.2) ? 0 : (double)g.i(0, 40) * (g.b() ? 1 : 0.25);
          l.text = "wait_sec " + mon::F("%g", l.wait);
          break;
        case 1: l.text = g.b() ? "check_value MOBC.HK.OBCT == 3" : "check_value"; break;
        case 2: l.text = "let mode_id = " + std::to_string(g.i(0, 9)); break;
        case 3: {
          const Command& c = g.pick(d.command);
          l.text = "AOBC_RT." + c.name + " {mode_id}";  // variables are not supported: nothing is sent
          break;
        }
        default: {
          const Command& c = g.pick(d.command);
          Sent s{g.b(0.3), (uint32_t)g.i(0, 2000000000), c.id, {}};
          l.text = std::string(g.b() ? "MOBC" : "AOBC") + (s.timeline ? "_TL." : "_RT.") + c.name;
          if (s.timeline)
            l.text += " " + std::to_string(s.ti);
          else
            s.ti = 0;
          for (auto t : c.arg) l.text += std::string((size_t)g.i(1, 3), ' ') + Value(g, *t, s.param);
          l.command.push_back(s);
          m.ev(s.timeline ? "timeline commands" : "commands");
        }
      }
      out << (g.b() ? "." : " ") << l.text << (g.b(0.3) ? g.b() ? " # remark with wait_sec 3" : " # remark # 2" : "") << (i + 1 < n || g.b() ? "\n" : "");
      lines.push_back(l);
    }
    out.close();
    {
      WingsOperationFile f("script.ops");
      for (auto& l : lines) {
        std::string x = f.GetLatestLine();
        auto trim = [&] { while (!x.empty() && strchr(" \t\r", x.back())) x.pop_back(); };
        trim();
        if (x.empty() && !l.blank.empty()) x = f.GetLatestLine(), trim();
        m.check(x == l.text, "script:line", "line '%s' instead of '%s'", x.c_str(), l.text.c_str());
      }
      for (int i = 0; i < 3; i++) m.check(f.GetLatestLine() == "EOL", "script:end", "the script goes on after its end");
    }
    const bool on = !g.b(0.1);
    const int prescaler = g.b() ? 1 : (int)g.i(2, 10);
    const double step = g.pick(std::vector<double>{0.1, 1.0, 0.05});
    std::ofstream("sender.ini") << "[WINGS_COMMAND_SENDER_TO_C2A]\ncommand_send_enable = " << (on ? "ENABLE" : "DISABLE") << "\nprescaler = " << prescaler << "\nc2a_command_database_file = commands.csv\nwings_operation_file = script.ops\n";
    s2e::environment::ClockGenerator clock;
    auto sender = s2e::components::InitRecordedCommandSender(&clock, step, "sender.ini");
    m.begin("%zu lines, step %g s, prescaler %d", lines.size(), step, prescaler);
    // every line takes one execution; a wait lasts at least its time and at most two executions more
    size_t at = 0, limit = 0;
    for (auto& l : lines) limit += 2 + (size_t)(l.wait / step / prescaler + 3);
    size_t tick = 0;
    std::vector<double> from, to;
    double lo = 0, hi = 0;
    for (auto& l : lines) {
      lo += 1, hi += l.blank.empty() ? 1 : 2;
      from.push_back(lo), to.push_back(hi);
      if (l.wait > 0) {
        const double w = l.wait / (step * prescaler);
        lo += ceil(w - 1e-6) - 1, hi += ceil(w + 1e-6) + 1;
      }
    }
    auto skip = [&] { while (at < lines.size() && lines[at].command.empty()) at++; };
    for (size_t t = 1; t <= (limit + 5) * (size_t)prescaler; t++) {
      sent.clear();
      sender.Tick((int)t);
      if (t % (size_t)prescaler == 0) tick++;
      skip();
      m.check(sent.size() <= 1, "script:one", "%zu commands at once", sent.size());
      if (!on) {
        m.check(sent.empty(), "script:off", "a command is sent although the sender is off");
        continue;
      }
      if (!sent.empty()) {
        if (!m.check(at < lines.size(), "script:more", "a command is sent after the last one of the script")) break;
        const Sent &w = lines[at].command[0], &s = sent[0];
        m.check(s == w, "script:command", "'%s' sends %s of code %d, time %u with %sinstead of code %d, time %u with %s", lines[at].text.c_str(), s.timeline ? "TL" : "RT", s.id, s.ti, Hex(s.param).c_str(), w.id, w.ti, Hex(w.param).c_str());
        m.check((double)tick >= from[at] && (double)tick <= to[at], "script:time", "'%s' is executed in execution %zu instead of %g to %g", lines[at].text.c_str(), tick, from[at], to[at]);
        // later lines are counted from here
        const double early = (double)tick - from[at], late = (double)tick - to[at];
        for (size_t i = at; i < lines.size(); i++) from[i] += early, to[i] += late;
        at++;
        m.ev("sent");
      }
    }
    skip();
    if (on) m.check(at == lines.size(), "script:all", "only %zu of %zu lines are executed", at, lines.size());
    m.distinct(m.rng.next());
  }
  m.require("commands", 1000);
  m.require("timeline commands", 500);
  m.require("blank lines", 200);
  m.require("sent", 1000);
}

// ---------- stars ----------
struct Sky {
  struct Star {
    int id;
    std::string mag, ra, de;
    V3 d;
  };
  std::vector<Star> star;  // within the limit, in the order of the catalogue
  double limit;
  std::unique_ptr<s2e::environment::HipparcosCatalogue> h;
  Sky(mon::Rng& g, int n, const std::vector<V3>& centres, bool on = true) {
    std::vector<Star> all;
    std::vector<int> mag;
    for (int i = 0; i < n; i++) mag.push_back((int)(g.b(0.1) ? 300 : g.i(-144, 1400)));
    std::sort(mag.begin(), mag.end());
    for (int i = 0; i < n; i++) {
      Star s;
      s.id = (int)g.i(1, 118322);
      s.mag = mon::F("%.2f", mag[(size_t)i] / 100.0);
      V3 d = centres.empty() || g.b(0.2) ? gen::dir(g) : ref::unit(g.pick(centres) + (L)g.logu(1e-3, 1) * V3{g.n(), g.n(), g.n()});
      s.ra = mon::F("%.8f", (double)(ref::wrap(atan2l(d.y, d.x)) * 180 / PI)), s.de = mon::F("%.8f", (double)(asinl(std::max(-1.0L, std::min(1.0L, d.z))) * 180 / PI));
      const L a = strtold(s.ra.c_str(), nullptr) * PI / 180, e = strtold(s.de.c_str(), nullptr) * PI / 180;
      s.d = {cosl(a) * cosl(e), sinl(a) * cosl(e), sinl(e)};
      all.push_back(s);
    }
    switch (g.i(0, 4)) {
      case 0: limit = -2; break;
      case 1: limit = 20; break;
      case 2: limit = 3; break;
      default: limit = g.u(-1, 14);
    }
    std::string t = "HIP_ID[],VMAG[],RA[deg],DE[deg]\n";
    const bool gaps = g.b(0.2);  // stars without a position
    for (auto& s : all) {
      if (gaps && g.b(0.1)) t += std::to_string(s.id) + "," + s.mag + ",,\n";
      t += std::to_string(s.id) + "," + s.mag + "," + s.ra + "," + s.de + "\n";
    }
    if (g.b(0.3)) t.pop_back();
    std::ofstream("stars.csv") << t;
    std::ofstream("stars.ini") << "[HIPPARCOS_CATALOGUE]\ncatalogue_file_path = stars.csv\nmax_magnitude = " << world::D(limit) << "\ncalculation = " << (on ? "ENABLE" : "DISABLE") << "\nlogging = DISABLE\n";
    h.reset(s2e::environment::InitHipparcosCatalogue("stars.ini"));
    for (auto& s : all)
      if (on && strtod(s.mag.c_str(), nullptr) <= limit) star.push_back(s);
  }
};
GROUP(stars) {
  for (long k = 0; k < m.n(200, 2000); k++) {
    auto& g = m.rng;
    Sky sky(g, g.b(0.1) ? 0 : (int)g.i(1, 400), {}, !g.b(0.1));
    auto& h = *sky.h;
    m.begin("%zu stars up to %g", sky.star.size(), sky.limit);
    if (!m.check(h.GetCatalogueSize() == sky.star.size(), "stars:number", "%zu stars instead of %zu up to the magnitude %g", (size_t)h.GetCatalogueSize(), sky.star.size(), sky.limit)) continue;
    const Q4 q = gen::quat(g);
    for (size_t i = 0; i < sky.star.size(); i++) {
      auto& s = sky.star[i];
      m.check(h.GetHipparcosId(i) == s.id && h.GetVisibleMagnitude(i) == strtod(s.mag.c_str(), nullptr) && h.GetRightAscension_deg(i) == strtod(s.ra.c_str(), nullptr) && h.GetDeclination_deg(i) == strtod(s.de.c_str(), nullptr), "stars:data", "star %zu is %d, %g, %.8f, %.8f instead of %d, %s, %s, %s", i, h.GetHipparcosId(i), h.GetVisibleMagnitude(i), h.GetRightAscension_deg(i), h.GetDeclination_deg(i), s.id, s.mag.c_str(), s.ra.c_str(), s.de.c_str());
      m.check(ref::norm(v(h.GetStarDirection_i(i)) - s.d) < 1e-14L, "stars:direction", "direction %s instead of %s", S(v(h.GetStarDirection_i(i))).c_str(), S(s.d).c_str());
      m.check(ref::norm(v(h.GetStarDirection_b(i, toq(q))) - ref::rotq(q) * s.d) < 1e-13L, "stars:body", "direction %s in the body instead of %s", S(v(h.GetStarDirection_b(i, toq(q)))).c_str(), S(ref::rotq(q) * s.d).c_str());
      m.ev("stars");
    }
    m.distinct(m.rng.next());
  }
  m.require("stars", 5000);
}

static Q4 Product(const Q4& p, const Q4& q) {
  const V3 pv{p[0], p[1], p[2]}, qv{q[0], q[1], q[2]};
  const V3 w = (L)p[3] * qv + (L)q[3] * pv + ref::cross_(pv, qv);
  return {(double)w.x, (double)w.y, (double)w.z, (double)(p[3] * (L)q[3] - ref::dot_(pv, qv))};
}
// Attitude in which the direction d is seen in the direction w, with any rotation about it
static Q4 Look(mon::Rng& g, V3 d, V3 w) {
  V3 axis = ref::cross_(d, w);
  const L c = ref::dot_(d, w), s = ref::norm(axis);
  if (s < 1e-12L) axis = ref::unit(ref::cross_(d, V3{0.3L, 0.5L, 0.8L}));
  axis = ref::unit(axis);
  const L h = atan2l(s, c) / 2, r = g.u(-3, 3) / 2;
  const L a[4] = {axis.x * sinl(h), axis.y * sinl(h), axis.z * sinl(h), cosl(h)}, b[4] = {w.x * sinl(r), w.y * sinl(r), w.z * sinl(r), cosl(r)};
  // b after a as turns of the vector; the conjugate turns the frame
  const V3 av{a[0], a[1], a[2]}, bv{b[0], b[1], b[2]};
  const V3 pv = b[3] * av + a[3] * bv + ref::cross_(bv, av);
  const L p0 = a[3] * b[3] - ref::dot_(av, bv);
  return {(double)-pv.x, (double)-pv.y, (double)-pv.z, (double)p0};
}
GROUP(telescope) {
  const long worlds = m.n(25, 150);
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    world::World W(Plain(g, 10, 3e5, 4e7));
    W.Step();
    auto& sc = *W.sc[0];
    const Q4 q_b2c = g.b(0.2) ? Q4{0, 0, 0, 1} : Q4(gen::quat(g));
    const int nx = (int)(g.b(0.3) ? 2048 : g.i(1, 1500)), ny = (int)(g.b(0.3) ? 1024 : g.i(1, 1500));
    const double fx = g.logu(0.5, 89) / nx, fy = g.logu(0.5, 89) / ny, sun = g.u(0, 90), earth = g.u(0, 90), moon = g.u(0, 90);
    const int logged = (int)g.i(0, 6);
    const L hx = nx * (L)fx / 2 * PI / 180, hy = ny * (L)fy / 2 * PI / 180;
    auto& lc = sc.Local().GetCelestialInformation();
    const bool stars = !g.b(0.2), ground = g.b(0.7);
    V3 body[3];
    const char* name[3] = {"SUN", "EARTH", "MOON"};
    for (int k = 0; k < 3; k++) body[k] = v(lc.GetPositionFromSpacecraft_i_m(name[k]));
    Sky sky(g, (int)g.i(0, 300), {ref::unit(body[0]), ref::unit(body[1]), V3{1, 0, 0}}, stars);
    const std::string sec = "TELESCOPE_" + std::to_string(w % 7 + 1);
    {
      std::ofstream o("telescope.ini");
      o << "[" << sec << "]\n";
      for (int k = 0; k < 4; k++) o << "quaternion_b2c(" << k << ") = " << world::D(q_b2c[(size_t)k]) << "\n";
      o << "sun_exclusion_angle_deg = " << world::D(sun) << "\nearth_exclusion_angle_deg = " << world::D(earth) << "\nmoon_exclusion_angle_deg = " << world::D(moon) << "\nx_number_of_pixel = " << nx << "\ny_number_of_pixel = " << ny << "\nx_fov_deg_per_pixel = " << world::D(fx) << "\ny_fov_deg_per_pixel = " << world::D(fy) << "\nnumber_of_stars_for_log = " << logged << "\n";
    }
    s2e::environment::ClockGenerator clock;
    auto& orbit = sc.Dyn().GetOrbit();
    auto tel = s2e::components::InitTelescope(&clock, (int)(w % 7 + 1), "telescope.ini", &sc.Dyn().GetAttitude(), sky.h.get(), &lc, ground ? &orbit : nullptr);
    const V3 p0 = v(orbit.GetPosition_ecef_m());
    const V3 g0 = (6378136.6L / ((L)orbit.GetGeodeticPosition().GetAltitude_m() + 6378136.6L)) * p0;
    s2e::logger::ILoggable& log = tel;
    m.begin("%d x %d pixels, field %.3Lf x %.3Lf deg, %zu stars, %d logged", nx, ny, 2 * hx * 180 / PI, 2 * hy * 180 / PI, sky.star.size(), logged);
    for (long t = 0; t < m.n(300, 1000); t++) {
      if (t % 50 == 0) W.Step();
      const M3 i2e = ref::m(W.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef());
      const V3 to_ground = ref::T(i2e) * (g0 - v(orbit.GetPosition_ecef_m()));
      // look around one of the targets
      V3 d = gen::dir(g);
      const int target = (int)g.i(0, 5);
      if (target < 3) d = ref::unit(body[target]);
      if (target == 3 && !sky.star.empty()) d = g.pick(sky.star).d;
      if (target == 4) d = ref::unit(to_ground);
      const V3 at = ref::unit(V3{1, (L)g.u(-1.5, 1.5) * tanl(hy), (L)g.u(-1.5, 1.5) * tanl(hx)});
      const Q4 q_i2c = Look(g, d, at);
      const Q4 q_i2b = Product(q_i2c, {-q_b2c[0], -q_b2c[1], -q_b2c[2], q_b2c[3]});
      sc.Dyn().SetAttitude().SetQuaternion_i2b(toq(q_i2b));
      sc.Local().Update(&sc.Dyn(), &W.Time());
      tel.Tick((int)t + 1);
      for (int k = 0; k < 3; k++) body[k] = v(lc.GetPositionFromSpacecraft_i_m(name[k]));
      const M3 c = ref::rotq(q_b2c) * ref::rotq(q_i2b);
      std::vector<std::string> head, value;
      std::stringstream hs(log.GetLogHeader()), vs(log.GetLogValue());
      for (std::string x; std::getline(hs, x, ',');) head.push_back(x);
      for (std::string x; std::getline(vs, x, ',');) value.push_back(x);
      if (!m.check(head.size() == value.size() && head.size() == 11 + (stars ? 4 * (size_t)logged : 0), "telescope:columns", "%zu columns, %zu values", head.size(), value.size())) break;
      const bool flag[3] = {tel.GetIsSunInForbiddenAngle(), tel.GetIsEarthInForbiddenAngle(), tel.GetIsMoonInForbiddenAngle()};
      const double angle[3] = {sun, earth, moon};
      auto project = [&](V3 dir, L& x, L& y, bool& unclear) {
        const V3 p = c * dir;
        const L ax = atan2l(p.z, p.x), ay = atan2l(p.y, p.x);
        unclear = fabsl(fabsl(ax) - hx) < 1e-9L || fabsl(fabsl(ay) - hy) < 1e-9L;
        x = nx / 2.0L * (1 + tanl(ax) / tanl(hx)), y = ny / 2.0L * (1 + tanl(ay) / tanl(hy));
        return fabsl(ax) < hx && fabsl(ay) < hy;
      };
      auto same = [&](const std::string& s, L x) { return fabsl(strtold(s.c_str(), nullptr) - x) <= 6e-6L * fabsl(x) + 1e-6L * std::max(nx, ny); };
      L x, y;
      bool unclear;
      for (int k = 0; k < 3; k++) {
        const L a = ref::angle(c * body[k], {1, 0, 0}) * 180 / PI;
        if (fabsl(a - angle[k]) > 1e-6L) {
          m.check(flag[k] == (a < angle[k]), "telescope:exclusion", "%s at %.6Lf deg with the exclusion angle %.6f is%s reported", name[k], a, angle[k], flag[k] ? "" : " not");
          m.check(value[(size_t)k] == (flag[k] ? "1" : "0"), "telescope:flag", "column %s with %s", head[(size_t)k].c_str(), value[(size_t)k].c_str());
        }
        const bool in = project(body[k], x, y, unclear);
        if (unclear) continue;
        if (!in) x = y = -1;
        m.check(same(value[(size_t)(3 + 2 * k)], x) && same(value[(size_t)(4 + 2 * k)], y), "telescope:body", "%s at (%s, %s) instead of (%.6Lg, %.6Lg) of %d x %d", name[k], value[(size_t)(3 + 2 * k)].c_str(), value[(size_t)(4 + 2 * k)].c_str(), x, y, nx, ny);
        m.ev(in ? "body in the image" : "body outside");
      }
      if (ground) {
        const V3 p = c * to_ground;
        const L ax = atan2l(p.z, p.x), ay = atan2l(p.y, p.x);
        L gx = ax / (fx * PI / 180), gy = ay / (fy * PI / 180);
        const bool in = fabsl(gx) < nx / 2.0L && fabsl(gy) < ny / 2.0L;
        const bool near = fabsl(fabsl(gx) * 2 / nx - 1) < 1e-4L || fabsl(fabsl(gy) * 2 / ny - 1) < 1e-4L;
        if (!in) gx = gy = -1;
        // (the nearest digits of the place of the ground)
        if (!near) m.check(same(value[9], gx) && same(value[10], gy), "telescope:ground", "ground at (%s, %s) instead of (%.6Lg, %.6Lg)", value[9].c_str(), value[10].c_str(), gx, gy);
        m.ev(in ? "ground in the image" : "ground outside");
      }
      if (stars) {
        size_t n = 0;
        bool any = false;
        std::vector<std::pair<L, L>> at_pixel;
        std::vector<const Sky::Star*> seen;
        for (auto& s : sky.star) {
          const bool in = project(s.d, x, y, unclear);
          any |= unclear;
          if (in && n < (size_t)logged) seen.push_back(&s), at_pixel.push_back({x, y}), n++;
        }
        if (any) continue;
        m.ev("stars in the image", (long)n);
        for (size_t i = 0; i < (size_t)logged; i++) {
          const std::string* f = &value[11 + 4 * i];
          if (i < n) {
            m.check(atoi(f[0].c_str()) == seen[i]->id && same(f[1], strtold(seen[i]->mag.c_str(), nullptr)), "telescope:star", "star %s of magnitude %s instead of %d of %s", f[0].c_str(), f[1].c_str(), seen[i]->id, seen[i]->mag.c_str());
            m.check(same(f[2], at_pixel[i].first) && same(f[3], at_pixel[i].second), "telescope:place", "star %d at (%s, %s) instead of (%.6Lg, %.6Lg)", seen[i]->id, f[2].c_str(), f[3].c_str(), at_pixel[i].first, at_pixel[i].second);
          } else {
            m.check(f[0] == "-1" && f[1] == "-1" && f[2] == "-1" && f[3] == "-1", "telescope:rest", "entry %zu without a star is %s, %s, %s, %s", i, f[0].c_str(), f[1].c_str(), f[2].c_str(), f[3].c_str());
          }
        }
      }
      m.distinctv({(double)d.x, (double)at.y, (double)at.z});
    }
  }
  m.require("body in the image", 200);
  m.require("body outside", 1000);
  m.require("ground in the image", 50);
  m.require("ground outside", 200);
  m.require("stars in the image", 500);
}
