// Monitoring kernel shared by the harnesses of /verif.
//
// A harness registers case groups with GROUP(name){...}. Each group is run in its own process by /verif/check.py, so that a sanitizer report,
// an abort, a call of exit() or a hang in one group is attributed to that group and does not mask the others.
// Inside a group, `m` counts the cases and the events that the monitors observed, and records violations (key + witness).
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mon {

inline std::string Format(const char* fmt, va_list ap) {
  char buffer[2048];
  vsnprintf(buffer, sizeof(buffer), fmt, ap);
  return buffer;
}
inline std::string F(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string F(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = Format(fmt, ap);
  va_end(ap);
  return s;
}

// Deterministic generator, independent of the code under test
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0xD1342543DE82EF95ull + 0x1234567) {
    s = next() ^ (seed << 32);  // neighbouring seeds must not give shifted copies of one stream
    s = next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u01(); }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }  // inclusive
  bool b(double p = 0.5) { return u01() < p; }
  double n() {
    double a = u01(), b2 = u01();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2.0 * std::log(a)) * std::cos(6.283185307179586 * b2);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[(size_t)(next() % v.size())];
  }
};

inline std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o;
}

struct Violation {
  std::string key, detail, context;
};

class Mon {
 public:
  Rng rng{1};
  uint64_t seed = 1;
  bool thorough = false;
  std::string group, scratch;

  // number of cases for the tier
  long n(long quick, long deep) const { return thorough ? deep : quick; }

  // Opens a case. The description is kept in a memory mapped file, so that it survives a crash.
  void begin(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    context_ = Format(fmt, ap);
    va_end(ap);
    evaluations_++;
    if (context_map_) snprintf(context_map_, 2000, "%s", context_.c_str());
    if (samples_.size() < 2 || (samples_.size() < 4 && (evaluations_ & 0x3f) == 0)) samples_.push_back(context_);
  }
  void ev(const std::string& name, long count = 1) { events_[name] += count; }
  void distinct(uint64_t h) { distinct_.insert(h); }
  void distinct(const std::string& s) { distinct_.insert(std::hash<std::string>()(s)); }
  // A state counts once per rounded value: distinct observations of doubles
  void distinctv(std::initializer_list<double> v) {
    uint64_t h = 1469598103934665603ull;
    for (double d : v) {
      uint64_t u;
      double r = (double)(float)d;
      memcpy(&u, &r, 8);
      h = (h ^ u) * 1099511628211ull;
      h ^= h >> 29;
    }
    distinct_.insert(h);
  }

  bool check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
    checks_++;
    if (ok) return true;
    va_list ap;
    va_start(ap, fmt);
    std::string d = Format(fmt, ap);
    va_end(ap);
    violate(key, d);
    return false;
  }
  void violate(const std::string& key, const std::string& detail) {
    long& c = per_key_[key];
    c++;
    if (c <= 3) violations_.push_back({key, detail, context_});
  }
  // |a-b| <= tol, NaN never passes
  bool close(double a, double b, double tol, const char* key, const char* what) {
    checks_++;
    if (std::fabs(a - b) <= tol) return true;
    if (std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0)) return true;
    violate(key, F("%s: got %.17g, expected %.17g (difference %.3g, tolerance %.3g)", what, a, b, a - b, tol));
    return false;
  }
  bool finite(double a, const char* key, const char* what) {
    checks_++;
    if (std::isfinite(a)) return true;
    violate(key, F("%s is not finite: %g", what, a));
    return false;
  }
  // The run must have observed at least `least` events `name`, else it is inconclusive
  void require(const std::string& name, long least) { required_[name] = least; }

  std::string context_;
  char* context_map_ = nullptr;
  long evaluations_ = 0, checks_ = 0;
  std::map<std::string, long> events_, per_key_, required_;
  std::unordered_set<uint64_t> distinct_;
  std::vector<Violation> violations_;
  std::vector<std::string> samples_;

  void write(const std::string& path) {
    std::string o = "{\"group\":\"" + JsonEscape(group) + "\"";
    o += F(",\"evaluations\":%ld,\"checks\":%ld,\"distinct\":%ld", evaluations_, checks_, (long)distinct_.size());
    o += ",\"events\":{";
    bool first = true;
    for (auto& e : events_) {
      o += (first ? "\"" : ",\"") + JsonEscape(e.first) + "\":" + std::to_string(e.second);
      first = false;
    }
    o += "},\"missing\":[";
    first = true;
    for (auto& r : required_)
      if (events_[r.first] < r.second) {
        o += (first ? "\"" : ",\"") + JsonEscape(r.first) + F(" %ld<%ld", events_[r.first], r.second) + "\"";
        first = false;
      }
    o += "],\"samples\":[";
    first = true;
    for (auto& s : samples_) {
      o += (first ? "\"" : ",\"") + JsonEscape(s) + "\"";
      first = false;
    }
    o += "],\"violations\":[";
    first = true;
    for (auto& v : violations_) {
      o += (first ? "{" : ",{");
      o += "\"key\":\"" + JsonEscape(v.key) + "\",\"detail\":\"" + JsonEscape(v.detail) + "\",\"context\":\"" + JsonEscape(v.context) +
           F("\",\"count\":%ld}", per_key_[v.key]);
      first = false;
    }
    o += "]}\n";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) {
      perror("mon: cannot write result");
      _exit(3);
    }
    fwrite(o.data(), 1, o.size(), f);
    fclose(f);
  }
};

// an object in memory that held other things before: every four bytes are the number 1
template <class T>
class InUsedMemory {
  alignas(T) unsigned char raw_[sizeof(T)];
  T* object_;

 public:
  template <class... A>
  explicit InUsedMemory(A&&... a) {
    for (size_t i = 0; i < sizeof(T); i++) raw_[i] = i % 4 == 0;
    object_ = new (raw_) T(std::forward<A>(a)...);
  }
  InUsedMemory(const InUsedMemory&) = delete;
  ~InUsedMemory() { object_->~T(); }
  T* operator->() { return object_; }
  T& operator*() { return *object_; }
};

using GroupFn = void (*)(Mon&);
inline std::vector<std::pair<std::string, GroupFn>>& Groups() {
  static std::vector<std::pair<std::string, GroupFn>> g;
  return g;
}
struct Registrar {
  Registrar(const char* name, GroupFn fn) { Groups().push_back({name, fn}); }
};
#define GROUP(name)                                        \
  static void group_##name(mon::Mon& m);                   \
  static mon::Registrar registrar_##name(#name, group_##name); \
  static void group_##name(mon::Mon& m)

inline uint64_t HashName(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

inline int Main(int argc, char** argv) {
  std::string out, run;
  uint64_t seed = 1;
  bool thorough = false;
  std::string scratch = ".";
  for (int a = 1; a < argc; a++) {
    std::string s = argv[a];
    if (s == "--list") {
      for (auto& g : Groups()) printf("%s\n", g.first.c_str());
      return 0;
    }
    if (s == "--run") run = argv[++a];
    if (s == "--seed") seed = strtoull(argv[++a], nullptr, 10);
    if (s == "--tier") thorough = std::string(argv[++a]) == "thorough";
    if (s == "--out") out = argv[++a];
    if (s == "--scratch") scratch = argv[++a];
  }
  for (auto& g : Groups()) {
    if (g.first != run) continue;
    Mon m;
    m.group = run;
    m.seed = seed;
    m.thorough = thorough;
    m.scratch = scratch;
    m.rng = Rng(seed ^ HashName(run));
    const std::string ctx = out + ".ctx";
    int fd = open(ctx.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) m.context_map_ = (char*)p;
    }
    try {
      g.second(m);
    } catch (const std::exception& e) {
      m.violate("exception:" + run, std::string("uncaught exception: ") + e.what());
    }
    m.write(out);
    fflush(stdout);
    _exit(0);  // destructors of function statics are not under test
  }
  fprintf(stderr, "no such group: %s\n", run.c_str());
  return 3;
}
}  // namespace mon

int main(int argc, char** argv) { return mon::Main(argc, argv); }
