// C26: reading of settings
#include "component.hpp"
//
#include <components/real/communication/antenna.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
#include <simulation/case/simulation_case.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/spacecraft/structure/initialize_structure.hpp>
using s2e::setting_file_reader::IniAccess;
namespace fs = std::filesystem;

// ---------- files with every kind of value, in every way of writing them ----------
struct Key {
  std::string section, key, text;  // text as written, without comment
  bool exists = true;
};
struct Writer {
  mon::Rng& r;
  bool crlf;
  explicit Writer(mon::Rng& g) : r(g), crlf(g.b(0.2)) {}
  std::string Sp(int most = 3) { return std::string((size_t)r.i(0, most), r.b(0.2) ? '\t' : ' '); }
  std::string Comment() {
    static const char* c[] = {"// comment", "//", "// a = 5", "// [SECTION]", "//key=1", "// unit [m/s]", "// mode: ENABLE or DISABLE"};
    return c[r.i(0, 6)];
  }
  std::string Line(const Key& k) {
    std::string l = Sp() + k.key + Sp() + "=" + Sp() + k.text;
    const int end = (int)r.i(0, 3);
    if (end == 1) l += Sp();
    if (end == 2) l += std::string((size_t)r.i(1, 4), r.b(0.3) ? '\t' : ' ') + Comment();
    return l;
  }
};
static std::string RealText(mon::Rng& r, double& v) {
  const char* f[] = {"%.17g", "%.17e", "%.6f", "%+.12g", "%.3E", "%.0f"};
  v = r.b(0.1) ? 0 : (r.b() ? -1 : 1) * r.logu(1e-30, 1e30);
  if (r.b(0.5)) v = (double)r.i(-1000, 1000) / (double)r.i(1, 16);
  char b[400];
  const char* how = f[r.i(0, 5)];
  if ((how[2] == '6' || how[2] == '0') && std::fabs(v) > 1e15) how = f[0];
  snprintf(b, sizeof b, how, v);
  v = strtod(b, nullptr);
  return b;
}
static std::string IntText(mon::Rng& r, int& v) {
  v = (int)(r.next() >> r.i(32, 62));
  if (r.b(0.3)) v = -v;
  if (v >= 0 && r.b(0.2)) return mon::F(r.b() ? "0x%x" : "0x%X", (unsigned)v);
  return std::to_string(v);
}
static std::string Word(mon::Rng& r, int most = 20) {
  static const std::string abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.+@,;#'!?()[]{}<>%&*^~|";
  std::string s;
  const int n = (int)r.i(1, most);
  for (int i = 0; i < n; i++) s += abc[(size_t)r.i(0, (int64_t)abc.size() - 1)];
  if (n > 3 && r.b(0.2)) s[(size_t)n / 2] = ' ';
  if (n > 3 && r.b(0.2)) s[(size_t)n / 2] = '/';
  if (n > 5 && r.b(0.1)) s[2] = '=';
  if (n > 5 && r.b(0.1)) s[3] = ':';
  if (s == "NULL") s = "N";
  return s;
}
static std::string Name(mon::Rng& r, int most) {
  static const std::string abc = "abcdefghijklmnopqrstuvwxyz0123456789_";
  std::string s;
  const int n = (int)r.i(1, most);
  for (int i = 0; i < n; i++) s += abc[(size_t)r.i(0, (int64_t)abc.size() - 1)];
  return s;
}

GROUP(keys) {
  auto& r = m.rng;
  fs::create_directories("f");
  for (long t = 0; t < m.n(250, 6000); t++) {
    const std::string file = mon::F("f/x%ld.ini", t % 7);
    std::vector<std::string> sections, names;
    std::set<std::string> used;
    while (sections.size() < 4) {
      std::string s = (r.b(0.5) && !sections.empty()) ? sections[0] + "_" + std::to_string(sections.size()) : Name(r, 40);
      for (auto& ch : s)
        if (sections.size() % 2) ch = (char)toupper(ch);
      std::string low = s;
      for (auto& ch : low) ch = (char)tolower(ch);
      if (used.insert(low).second) sections.push_back(s);
    }
    used.clear();
    while (names.size() < 12) {
      std::string s = names.size() > 3 && r.b(0.4) ? names[(size_t)r.i(0, 2)] + Name(r, 2) : Name(r, 45);
      if (used.insert(s).second) names.push_back(s);
    }
    // what to write: kind of each name is the same in every section, the values differ
    std::vector<Key> keys;
    std::vector<std::function<void(IniAccess&)>> reads;
    for (auto& sec : sections)
      for (size_t i = 0; i < names.size(); i++) {
        const std::string n = names[i], s = sec;
        const bool exists = r.b(0.85);
        auto put = [&](const std::string& k, const std::string& text) {
          if (exists) keys.push_back({s, k, text});
        };
        switch (i) {
          case 0: {
            double v;
            put(n, RealText(r, v));
            if (!exists) v = 0;
            reads.push_back([&m, s, n, v](IniAccess& a) {
              const double g = a.ReadDouble(s.c_str(), n.c_str());
              m.check(g == v, "settings/real", "[%s] %s: %.17g instead of %.17g", s.c_str(), n.c_str(), g, v);
            });
            break;
          }
          case 1: {
            int v;
            put(n, IntText(r, v));
            if (!exists) v = 0;
            reads.push_back([&m, s, n, v](IniAccess& a) {
              const int g = a.ReadInt(s.c_str(), n.c_str());
              m.check(g == v, "settings/integer", "[%s] %s: %d instead of %d", s.c_str(), n.c_str(), g, v);
            });
            break;
          }
          case 2: {
            const std::string v = Word(r);
            put(n, r.b(0.15) ? v + "//comment without a space" : v);
            const std::string e = exists ? v : "NULL";
            reads.push_back([&m, s, n, e](IniAccess& a) {
              const std::string g = a.ReadString(s.c_str(), n.c_str());
              m.check(g == e, "settings/string", "[%s] %s: \"%s\" instead of \"%s\"", s.c_str(), n.c_str(), g.c_str(), e.c_str());
              char buf[64];
              memset(buf, 'x', sizeof buf);
              const int size = (int)(e.size() + 1);
              if (size + 8 < (int)sizeof buf) {
                a.ReadChar(s.c_str(), n.c_str(), size, buf);
                m.check(std::string(buf) == e && buf[size] == 'x', "settings/string", "[%s] %s: \"%s\" in a buffer of %d", s.c_str(), n.c_str(), buf, size);
              }
            });
            break;
          }
          case 3: {
            static const char* words[] = {"true", "TRUE", "yes", "on", "1", "True", "false", "no", "off", "0", "FALSE", "OFF"};
            const int k = (int)r.i(0, 11);
            put(n, words[k]);
            const bool v = exists && k < 6;
            reads.push_back([&m, s, n, v](IniAccess& a) { m.check(a.ReadBoolean(s.c_str(), n.c_str()) == v, "settings/boolean", "[%s] %s: not %d", s.c_str(), n.c_str(), (int)v); });
            break;
          }
          case 4: {
            static const char* words[] = {"ENABLE", "1", "DISABLE", "0", "enable", "Enable", "ENABLED", "ENABL", "TRUE", "true", "11", "2", "ON", "DISENABLE", "ENABLE DISABLE"};
            const int k = r.b() ? (int)r.i(0, 1) : (int)r.i(2, 14);
            put(n, words[k]);
            const bool v = exists && k < 2;
            const std::string w = words[k];
            reads.push_back([&m, s, n, v, w](IniAccess& a) { m.check(a.ReadEnable(s.c_str(), n.c_str()) == v, "settings/enable", "[%s] %s = %s is not read as %d", s.c_str(), n.c_str(), w.c_str(), (int)v); });
            break;
          }
          case 5: {
            std::vector<double> v(13, 0.0);
            for (size_t e = 0; e < v.size(); e++) {
              double x;
              const std::string tx = RealText(r, x);
              if (r.b(0.9)) put(n + "(" + std::to_string(e) + ")", tx), v[e] = exists ? x : 0;
            }
            reads.push_back([&m, s, n, v](IniAccess& a) {
              s2e::math::Vector<13> g(7.0);
              a.ReadVector(s.c_str(), n.c_str(), g);
              s2e::math::Vector<3> h(7.0);
              a.ReadVector(s.c_str(), n.c_str(), h);
              auto l = a.ReadVectorDouble(s.c_str(), n.c_str(), v.size());
              m.check(l.size() == v.size(), "settings/vector", "[%s] %s has %zu elements", s.c_str(), n.c_str(), l.size());
              for (size_t e = 0; e < v.size() && e < l.size(); e++)
                m.check(g[e] == v[e] && l[e] == v[e] && (e >= 3 || h[e] == v[e]), "settings/vector", "[%s] %s(%zu): %.17g instead of %.17g", s.c_str(), n.c_str(), e, g[e], v[e]);
            });
            break;
          }
          case 6: {
            double v[4];
            const bool modern = r.b();
            const int kind = (int)r.i(0, 3);  // small ones (3), any four numbers, numbers that add up to zero, or one number and zeros
            const double part = (double)r.i(1, 7) / 8;
            const int which = (int)r.i(0, 3);
            for (int e = 0; e < 4; e++) {
              double x;
              std::string tx = RealText(r, x);
              if (kind == 1) x = (e + which) % 2 ? part : -part, tx = std::to_string(x);
              if (kind == 2) x = e == which ? part : 0, tx = std::to_string(x);
              if (kind == 3) x = part * (e - which) * 1e-5, tx = mon::F("%.17g", x);
              put(n + (modern ? "_(" : "(") + std::to_string(e) + ")", tx);
              v[e] = exists ? x : 0;
            }
            const double a0 = v[0], a1 = v[1], a2 = v[2], a3 = v[3];
            reads.push_back([&m, s, n, a0, a1, a2, a3, modern](IniAccess& a) {
              s2e::math::Quaternion q(9, 9, 9, 9);
              a.ReadQuaternion(s.c_str(), n.c_str(), q);
              m.check(q[0] == a0 && q[1] == a1 && q[2] == a2 && q[3] == a3, "settings/quaternion", "[%s] %s (%s): (%g %g %g %g) instead of (%g %g %g %g)", s.c_str(), n.c_str(), modern ? "new" : "old", q[0], q[1], q[2], q[3],
                      a0, a1, a2, a3);
            });
            break;
          }
          case 7: {
            const int count = (int)(r.b(0.05) ? r.i(90, 260) : r.i(0, 14));
            std::vector<std::string> v;
            for (int e = 0; e < count; e++) {
              const std::string w = Word(r);
              put(n + "(" + std::to_string(e) + ")", w);
              if (exists) v.push_back(w);
            }
            const bool gap = r.b(0.3);
            if (gap) put(n + "(" + std::to_string(count + 1) + ")", "behind_the_gap");
            reads.push_back([&m, s, n, v](IniAccess& a) {
              auto g = a.ReadStrVector(s.c_str(), n.c_str());
              m.check(g == v, "settings/list", "[%s] %s has %zu entries instead of %zu, or other ones", s.c_str(), n.c_str(), g.size(), v.size());
              auto h = a.ReadVectorString(s.c_str(), n.c_str(), v.size());
              m.check(h == v, "settings/list", "[%s] %s: other entries", s.c_str(), n.c_str());
            });
            break;
          }
          case 8: {
            std::vector<int> v;
            const int count = (int)r.i(1, 12);
            for (int e = 0; e < count; e++) {
              int x;
              const std::string tx = IntText(r, x);
              put(n + "(" + std::to_string(e) + ")", tx);
              v.push_back(exists ? x : 0);
            }
            reads.push_back([&m, s, n, v](IniAccess& a) { m.check(a.ReadVectorInt(s.c_str(), n.c_str(), v.size()) == v, "settings/vector", "[%s] %s: other integers", s.c_str(), n.c_str()); });
            break;
          }
          case 9: {
            std::vector<unsigned char> v;
            const int count = (int)r.i(1, 12);
            for (int e = 0; e < count; e++) {
              const int x = (int)r.i(0, 255);
              put(n + "(" + std::to_string(e) + ")", std::to_string(x));
              v.push_back(exists ? (unsigned char)x : 0);
            }
            reads.push_back([&m, s, n, v](IniAccess& a) { m.check(a.ReadVectorUnsignedChar(s.c_str(), n.c_str(), v.size()) == v, "settings/vector", "[%s] %s: other bytes", s.c_str(), n.c_str()); });
            break;
          }
          case 10: {
            for (int id = 0; id < 3; id++) {
              std::vector<double> v(4, 0.0);
              for (int e = 0; e < 4; e++) {
                double x;
                put(n + "_d" + std::to_string(id) + "(" + std::to_string(e) + ")", RealText(r, x));
                v[(size_t)e] = exists ? x : 0;
              }
              reads.push_back([&m, s, n, v, id](IniAccess& a) {
                double g[6] = {5, 5, 5, 5, 5, 5};
                a.ReadDoubleArray(s.c_str(), (n + "_d").c_str(), id, 4, g + 1);
                m.check(g[0] == 5 && g[5] == 5 && std::equal(v.begin(), v.end(), g + 1), "settings/vector", "[%s] %s_d%d: other values", s.c_str(), n.c_str(), id);
              });
            }
            break;
          }
          default: {
            static const std::pair<const char*, const char*> ph[] = {{"SETTINGS_DIR_FROM_EXE", "settings"}, {"EXT_LIB_DIR_FROM_EXE", VERIF_REPO "/ExtLibraries"}, {"CORE_DIR_FROM_EXE", VERIF_REPO}};
            auto p = ph[r.i(0, 2)];
            const std::string tail = "/" + Name(r, 20) + ".ini";
            const bool twice = r.b(0.2);
            put(n, p.first + tail + (twice ? std::string(p.first) : ""));
            const std::string e = exists ? p.second + tail + (twice ? std::string(p.second) : "") : "NULL";
            reads.push_back([&m, s, n, e](IniAccess& a) {
              const std::string g = a.ReadString(s.c_str(), n.c_str());
              m.check(g == e, "settings/path", "[%s] %s: %s instead of %s", s.c_str(), n.c_str(), g.c_str(), e.c_str());
            });
          }
        }
      }
    // write: the sections in a random order, possibly in two pieces, the keys shuffled
    Writer w(r);
    std::ofstream out(file, std::ios::binary);
    const std::string nl = w.crlf ? "\r\n" : "\n";
    if (r.b(0.1)) out << "\xEF\xBB\xBF";
    std::vector<std::string> order;
    for (auto& s : sections) {
      order.push_back(s);
      if (r.b(0.3)) order.push_back(s);
    }
    for (size_t i = order.size(); i-- > 1;) std::swap(order[i], order[(size_t)r.i(0, (int64_t)i)]);
    std::set<std::string> last;
    for (size_t o = 0; o < order.size(); o++) {
      bool again = false;
      for (size_t p = o + 1; p < order.size(); p++) again = again || order[p] == order[o];
      out << w.Sp() << "[" << order[o] << "]" << w.Sp() << nl;
      std::vector<Key> mine, rest;
      for (auto& k : keys) (k.section == order[o] && (!again || r.b()) ? mine : rest).push_back(k);
      keys = rest;
      for (size_t i = mine.size(); i-- > 1;) std::swap(mine[i], mine[(size_t)r.i(0, (int64_t)i)]);
      for (auto& k : mine) {
        if (r.b(0.1)) out << w.Sp() << w.Comment() << nl;
        if (r.b(0.1)) out << w.Sp() << nl;
        out << w.Line(k) << nl;
        m.ev("keys");
      }
    }
    out.close();
    m.begin("%zu reads of a random file%s", reads.size(), w.crlf ? " with CRLF" : "");
    IniAccess a(file);
    for (size_t i = reads.size(); i-- > 1;) std::swap(reads[i], reads[(size_t)r.i(0, (int64_t)i)]);
    for (auto& f : reads) f(a), m.ev("reads");
    // a second reading gives the same, and other objects do not matter
    IniAccess b(file);
    for (int i = 0; i < 10; i++) reads[(size_t)r.i(0, (int64_t)reads.size() - 1)](r.b() ? a : b);
    m.distinct((uint64_t)r.next());
    m.check(a.ReadInt("no_such_section", "k") == 0 && a.ReadDouble("no_such_section", "k") == 0 && a.ReadString("no_such_section", "k") == "NULL" && !a.ReadEnable("no_such_section", "k") &&
                !a.ReadBoolean("no_such_section", "k"),
            "settings/missing", "a missing section does not give the defaults");
  }
}

// ---------- long lines, small buffers, missing files ----------
GROUP(lengths) {
  auto& r = m.rng;
  fs::create_directories("f");
  for (long t = 0; t < m.n(300, 5000); t++) {
    // a value of any length is read as written or refused, never cut, and the lines around it keep their values
    const int len = r.b(0.3) ? (int)r.i(150, 260) : (int)r.logu(1, 5000);
    std::string v;
    for (int i = 0; i < len; i++) v += (char)('a' + r.i(0, 25));
    if (len > 100 && r.b(0.5))
      for (int k = 0; k < 5; k++) v[(size_t)r.i(1, len - 2)] = r.b() ? '=' : '/';
    for (int i = 0; i + 1 < len; i++)
      if (v[(size_t)i] == '/' && v[(size_t)i + 1] == '/') v[(size_t)i] = 'a';
    m.begin("value of %d characters", len);
    {
      std::ofstream out("f/l.ini");
      out << "[S]\nbefore = 1.5\nlong = " << v << "\nafter = 2.5\nafter(0) = 3\n[T]\nlong = x\n";
    }
    bool refused = false;
    try {
      world::Quiet q;
      IniAccess a("f/l.ini");
      m.check(a.ReadString("S", "long") == v, "settings/long", "a value of %d characters is read with %zu characters", len, a.ReadString("S", "long").size());
      m.check(a.ReadDouble("S", "before") == 1.5 && a.ReadDouble("S", "after") == 2.5 && a.ReadDouble("S", "after(0)") == 3 && a.ReadString("T", "long") == "x", "settings/long", "other keys changed");
      // buffers
      const int size = (int)r.i(1, 100);
      std::vector<char> heap((size_t)size);
      a.ReadChar("S", "long", size, heap.data());
      bool ends = false;
      for (char c : heap) ends = ends || c == 0;
      m.check(ends, "settings/buffer", "a value of %d characters in a buffer of %d is not terminated", len, size);
      if (ends) m.check(std::string(heap.data()) == v.substr(0, (size_t)size - 1), "settings/buffer", "a value of %d characters in a buffer of %d has other contents", len, size);
      m.ev("buffers");
    } catch (const std::runtime_error&) {
      refused = true;
      m.ev("refused");
    }
    m.check(!refused || len > 150, "settings/long", "a value of %d characters is refused", len);
    // a comment of any length does not change anything
    std::string c;
    const int clen = r.b(0.3) ? (int)r.i(150, 450) : (int)r.logu(1, 5000);
    for (int i = 0; i < clen; i++) c += r.b(0.1) ? ' ' : (char)('a' + r.i(0, 25));
    if (clen > 20)
      for (int k = 0; k < clen / 20; k++) c.replace((size_t)r.i(0, clen - 10), 5, k % 3 ? " k = " : "[T] =");
    m.begin("comment of %d characters", clen);
    {
      std::ofstream out("f/c.ini");
      out << "[S]\nbefore = 1.5\n//" << c << "\nafter = 2.5\nmiddle = 4 // " << c << "\nlast = 7\n[T]\nlong = x\n";
    }
    try {
      world::Quiet q;
      IniAccess a("f/c.ini");
      m.check(a.ReadDouble("S", "before") == 1.5 && a.ReadDouble("S", "after") == 2.5 && a.ReadDouble("S", "middle") == 4 && a.ReadDouble("S", "last") == 7 && a.ReadString("T", "long") == "x", "settings/comment",
              "a comment of %d characters changes the values", clen);
      m.check(a.ReadString("S", "k") == "NULL" && a.ReadString("T", "k") == "NULL" && a.ReadString("S", "middle") == "4", "settings/comment", "a comment of %d characters is read as a setting", clen);
      m.ev("comments");
    } catch (const std::runtime_error&) {
      m.check(false, "settings/comment", "a file with a comment of %d characters is refused", clen);
    }
    m.distinct((uint64_t)len * 10000 + (uint64_t)clen);
  }
  // paths of any length
  for (int t = 0; t < 20; t++) {
    std::string dir = "p";
    const int target = (int)r.i(50, 2500);
    while ((int)dir.size() < target) dir += "/" + std::string((size_t)r.i(50, 200), (char)('a' + r.i(0, 25)));
    m.begin("path of %zu characters", dir.size());
    fs::create_directories(dir);
    {
      std::ofstream(dir + "/v.ini") << "[S]\nk = 5\n";
      std::ofstream(dir + "/v.csv") << "1,2\n3,4\n";
    }
    IniAccess a(dir + "/v.ini");
    m.check(a.ReadInt("S", "k") == 5, "settings/path", "a path of %zu characters", dir.size());
    std::vector<std::vector<double>> d;
    world::Quiet q;
    IniAccess(dir + "/v.csv").ReadCsvDouble(d, 2);
    m.check(d.size() == 2 && d[1].size() == 2 && d[1][1] == 4, "settings/path", "a table with a path of %zu characters is not read", dir.size());
    m.ev("paths");
    m.distinct(dir);
    fs::remove_all("p");
  }
  m.begin("missing file");
  bool thrown = false;
  try {
    world::Quiet q;
    IniAccess a("f/does_not_exist.ini");
  } catch (const std::exception&) {
    thrown = true;
  }
  m.check(thrown, "settings/missing", "a missing settings file is not reported");
}

// ---------- tables ----------
GROUP(tables) {
  auto& r = m.rng;
  fs::create_directories("f");
  for (long t = 0; t < m.n(400, 10000); t++) {
    const int rows = (int)r.i(0, 30), cols = (int)r.i(1, 20), hr = (int)r.i(0, 2), hc = (int)r.i(0, 2);
    const bool crlf = r.b(0.2), last = r.b(0.8);
    m.begin("table of %dx%d with %d header lines and %d header columns%s", rows, cols, hr, hc, crlf ? ", CRLF" : "");
    std::vector<std::vector<double>> v((size_t)rows);
    std::vector<std::vector<std::string>> s((size_t)rows);
    std::string plain, head, text;
    auto end = [&](std::string& x, int i) {
      if (i + 1 < rows || last) x += crlf ? "\r\n" : "\n";
    };
    for (int i = 0; i < hr; i++) head += "title " + std::to_string(i) + ",a,b,c" + (crlf ? "\r\n" : "\n");
    for (int i = 0; i < rows; i++) {
      for (int j = 0; j < hc; j++) head += (j ? ",name" : "name") + std::to_string(i);
      for (int j = 0; j < cols; j++) {
        double x;
        const std::string tx = RealText(r, x), sp = r.b(0.2) ? " " : "", w = Name(r, 10);
        v[(size_t)i].push_back(x);
        s[(size_t)i].push_back(w);
        plain += (j ? "," : "") + sp + tx + sp;
        head += (j || hc ? "," : "") + sp + tx + sp;
        text += (j ? "," : "") + w;
        m.ev("cells");
      }
      end(plain, i);
      end(head, i);
      end(text, i);
    }
    std::ofstream("f/p.csv", std::ios::binary) << plain;
    std::ofstream("f/h.csv", std::ios::binary) << head;
    std::ofstream("f/t.csv", std::ios::binary) << text;
    const size_t guess = (size_t)r.i(0, 40);
    std::vector<std::vector<double>> g, h;
    std::vector<std::vector<std::string>> w;
    IniAccess("f/p.csv").ReadCsvDouble(g, guess);
    IniAccess("f/h.csv").ReadCsvDoubleWithHeader(h, guess, (size_t)hr, (size_t)hc);
    IniAccess("f/t.csv").ReadCsvString(w, guess);
    m.check(g == v, "settings/table", "numbers differ from the file (%zu rows instead of %d)", g.size(), rows);
    m.check(h == v, "settings/table", "numbers behind headers differ from the file (%zu rows instead of %d)", h.size(), rows);
    m.check(w == s, "settings/table", "words differ from the file (%zu rows instead of %d)", w.size(), rows);
    m.distinct(plain);
  }
}

// ---------- settings that become objects ----------
GROUP(objects) {
  auto& r = m.rng;
  for (long t = 0; t < m.n(40, 600); t++) {
    world::Settings st(1);
    const std::string f = st.Dir(0) + "/structure.ini";
    m.begin("structure, ground station and antenna of random settings");
    const V3 cog{r.n(), r.n(), r.n()};
    M3 I{};
    for (int i = 0; i < 9; i++) I[i / 3][i % 3] = r.n(), world::Set(f, "KINEMATIC_PARAMETERS", mon::F("inertia_tensor_kgm2(%d)", i), (double)I[i / 3][i % 3]);
    const double mass = r.logu(0.1, 1e4);
    world::SetV(f, "KINEMATIC_PARAMETERS", "center_of_gravity_b_m", cog, 3);
    world::Set(f, "KINEMATIC_PARAMETERS", "mass_kg", mass);
    const int n = (int)r.i(0, 25);
    world::Set(f, "SURFACES", "number_of_surfaces", (double)n);
    std::vector<std::array<double, 4>> par;
    std::vector<V3> pos, nor;
    for (int i = 0; i < n; i++) {
      par.push_back({r.b(0.1) ? 0.0 : r.logu(1e-3, 100), r.b(0.1) ? 0.0 : r.u01(), r.b(0.1) ? 1.0 : r.u01(), r.u01()});
      pos.push_back(V3{r.n(), r.n(), r.n()});
      nor.push_back((r.b(0.2) ? (L)r.logu(0.1, 10) : 1.0L) * gen::dir(r));
      const char* k[] = {"area_%d_m2", "reflectivity_%d", "specularity_%d", "air_specularity_%d"};
      for (int j = 0; j < 4; j++) {
        char b[64];
        snprintf(b, sizeof b, k[j], i);
        world::Set(f, "SURFACES", b, par.back()[(size_t)j]);
      }
      world::SetV(f, "SURFACES", mon::F("position_%d_b_m", i), pos.back(), 3);
      world::SetV(f, "SURFACES", mon::F("normal_vector_%d_b", i), nor.back(), 3);
    }
    const V3 rmm{r.n(), r.n(), r.n()};
    const double walk = r.u01(), limit = r.u01(), noise = r.u01();
    world::SetV(f, "RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", rmm, 3);
    world::Set(f, "RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_speed_Am2", walk);
    world::Set(f, "RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_limit_Am2", limit);
    world::Set(f, "RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", noise);
    world::Quiet q;
    auto k = s2e::spacecraft::InitKinematicsParameters(f);
    auto su = s2e::spacecraft::InitSurfaces(f);
    auto mm = s2e::spacecraft::InitResidualMagneticMoment(f);
    m.check(k.GetMass_kg() == mass, "settings/structure", "mass %.17g instead of %.17g", k.GetMass_kg(), mass);
    for (size_t i = 0; i < 3; i++) {
      m.check(k.GetCenterOfGravity_b_m()[i] == (double)cog[(int)i], "settings/structure", "center of gravity");
      m.check(mm.GetConstantValue_b_Am2()[i] == (double)rmm[(int)i], "settings/structure", "magnetic moment");
      for (size_t j = 0; j < 3; j++) m.check(k.GetInertiaTensor_b_kgm2()[i][j] == (double)I[(int)i][(int)j], "settings/structure", "inertia (%zu,%zu)", i, j);
    }
    m.check(mm.GetRandomWalkStandardDeviation_Am2() == walk && mm.GetRandomWalkLimit_Am2() == limit && mm.GetRandomNoiseStandardDeviation_Am2() == noise, "settings/structure", "noise of the magnetic moment");
    if (m.check((int)su.size() == n, "settings/structure", "%zu surfaces instead of %d", su.size(), n))
      for (size_t i = 0; i < su.size(); i++) {
        m.check(su[i].GetArea_m2() == par[i][0] && su[i].GetReflectivity() == par[i][1] && su[i].GetSpecularity() == par[i][2] && su[i].GetAirSpecularity() == par[i][3], "settings/structure", "surface %zu: area or optical parameters", i);
        const V3 u = ref::unit(nor[i]);
        for (int j = 0; j < 3; j++)
          m.check(su[i].GetPosition_b_m()[(size_t)j] == (double)pos[i][j] && std::fabs(su[i].GetNormal_b()[(size_t)j] - (double)u[j]) < 1e-12, "settings/structure", "surface %zu: position or direction", i);
        m.ev("surfaces");
      }
    // ground station
    const std::string g = "settings/sample_ground_station/ground_station.ini";
    const double lat = r.u(-90, 90), lon = r.u(-180, 180), h = r.u(-100, 4000), lim = r.u(0, 30);
    const int gid = 0;
    const std::string gs = mon::F("GROUND_STATION_%d", gid);
    std::ifstream has(g);
    std::stringstream hs;
    hs << has.rdbuf();
    m.check(hs.str().find("[" + gs + "]") != std::string::npos, "harness", "no section of the ground station");
    world::Set(g, gs, "latitude_deg", lat);
    world::Set(g, gs, "longitude_deg", lon);
    world::Set(g, gs, "height_m", h);
    world::Set(g, gs, "elevation_limit_angle_deg", lim);
    s2e::simulation::SimulationConfiguration c;
    c.ground_station_file_list_ = {g};
    c.number_of_simulated_ground_station_ = 1;
    c.number_of_simulated_spacecraft_ = 1;
    c.main_logger_ = new s2e::logger::Logger("none.csv", "logs", g, false, false);
    s2e::ground_station::GroundStation station(&c, gid);
    auto p = station.GetGeodeticPosition();
    L dlon = fmodl((L)p.GetLongitude_rad() - (L)lon * acosl(-1) / 180, 2 * acosl(-1));
    if (dlon > 3) dlon -= 2 * acosl(-1);
    if (dlon < -3) dlon += 2 * acosl(-1);
    m.check(std::fabs(p.GetLatitude_rad() - lat * M_PI / 180) < 1e-12 && fabsl(dlon) < 1e-12L && p.GetAltitude_m() == h && station.GetElevationLimitAngle_deg() == lim, "settings/ground_station", "position or limit of the ground station");
    // antenna
    std::string af = "settings/sample_satellite/components/spacecraft_antenna.ini", as = "ANTENNA_1";
    const double freq = r.u(1, 1e4), rate = r.logu(1, 1e9);
    world::Set(af, as, "frequency_MHz", freq);
    world::Set(af, as, "tx_bitrate_bps", rate);
    const auto aq = gen::quat(r);
    world::SetV(af, as, "quaternion_b2c", aq, 4);
    auto an = s2e::components::InitAntenna(1, af);
    m.check(an.GetFrequency_MHz() == freq, "settings/antenna", "frequency %g instead of %g", an.GetFrequency_MHz(), freq);
    m.check(an.GetBitrate_bps() == rate, "settings/antenna", "bit rate %g instead of %g", an.GetBitrate_bps(), rate);
    auto q2 = an.GetQuaternion_b2c();
    for (int i = 0; i < 4; i++) m.check(std::fabs(q2[(size_t)i] - (double)aq[(size_t)i]) < 1e-12, "settings/antenna", "attitude of the antenna");
    m.distinctv({mass, lat, freq});
    m.ev("objects");
  }
}

// What a run is made of: the files listed in the base file, in that order
struct Configured : s2e::simulation::SimulationCase {
  Configured(const std::string& base) : SimulationCase(base) {}
  void InitializeTargetObjects() override {}
  void UpdateTargetObjects() override {}
  const s2e::simulation::SimulationConfiguration& Get() const { return simulation_configuration_; }
};
GROUP(configuration) {
  for (long k = 0; k < m.n(12, 100); k++) {
    auto& r = m.rng;
    world::Settings s(1);
    const int sats = (int)r.i(1, 12), stations = (int)r.i(0, 12), listed_sats = sats + (int)r.i(0, 2), listed_stations = std::max(1, stations + (int)r.i(0, 2));
    auto name = [&](const char* what) { return mon::F("SETTINGS_DIR_FROM_EXE/%s%llx/%llx.ini", what, (unsigned long long)r.next(), (unsigned long long)r.next()); };
    auto read = [&](std::string x) { return "settings" + x.substr(std::string("SETTINGS_DIR_FROM_EXE").size()); };
    std::vector<std::string> fs_, fg;
    for (int i = 0; i < listed_sats; i++) fs_.push_back(name("sat")), s.B("SIMULATION_SETTINGS", mon::F("spacecraft_file(%d)", i), fs_.back());
    for (int i = 0; i < listed_stations; i++) fg.push_back(name("station")), s.B("SIMULATION_SETTINGS", mon::F("ground_station_file(%d)", i), fg.back());
    const std::string comm = name("comm"), gnss = mon::F("SETTINGS_DIR_FROM_EXE/environment/gnss%llx.ini", (unsigned long long)r.next());
    s.B("SIMULATION_SETTINGS", "inter_sat_comm_file", comm), s.B("SIMULATION_SETTINGS", "gnss_file", gnss);
    std::filesystem::copy(s.gnss, read(gnss));
    s.B("SIMULATION_SETTINGS", "number_of_simulated_spacecraft", (double)sats), s.B("SIMULATION_SETTINGS", "number_of_simulated_ground_station", (double)stations);
    m.begin("base file with %d spacecraft and %d stations", sats, stations);
    world::Quiet q;
    Configured c(s.base);
    auto& g = c.Get();
    auto same = [&](const std::string& a, const std::string& b) { return std::filesystem::path(a).lexically_normal() == std::filesystem::path(read(b)).lexically_normal(); };
    m.check(g.initialize_base_file_name_ == s.base, "configuration:base", "base file %s", g.initialize_base_file_name_.c_str());
    m.check(g.number_of_simulated_spacecraft_ == (unsigned)sats && g.number_of_simulated_ground_station_ == (unsigned)stations, "configuration:numbers", "%u spacecraft and %u stations instead of %d and %d",
            g.number_of_simulated_spacecraft_, g.number_of_simulated_ground_station_, sats, stations);
    if (m.check(g.spacecraft_file_list_.size() == fs_.size(), "configuration:spacecraft", "%zu files instead of %zu", g.spacecraft_file_list_.size(), fs_.size()))
      for (size_t i = 0; i < fs_.size(); i++) m.check(same(g.spacecraft_file_list_[i], fs_[i]), "configuration:spacecraft", "spacecraft %zu: %s instead of %s", i, g.spacecraft_file_list_[i].c_str(), fs_[i].c_str());
    if (m.check(g.ground_station_file_list_.size() == fg.size(), "configuration:stations", "%zu files instead of %zu", g.ground_station_file_list_.size(), fg.size()))
      for (size_t i = 0; i < fg.size(); i++) m.check(same(g.ground_station_file_list_[i], fg[i]), "configuration:stations", "station %zu: %s instead of %s", i, g.ground_station_file_list_[i].c_str(), fg[i].c_str());
    m.check(same(g.gnss_file_, gnss), "configuration:gnss", "%s instead of %s", g.gnss_file_.c_str(), gnss.c_str());
    m.check(same(g.inter_sc_communication_file_, comm), "configuration:inter", "%s instead of %s", g.inter_sc_communication_file_.c_str(), comm.c_str());
    m.distinctv({(double)sats, (double)stations, (double)k});
    m.ev("base files");
  }
  m.require("base files", 10);
}
