// Stand-in for CSPICE (absent offline): analytic ephemerides. Every body moves on a Kepler ellipse about its parent, so that positions and
// velocities are exactly consistent, and states are differences of barycentric-like states, so that observer/target are antisymmetric.
#include <vector>
#include <string>
#include <SpiceUsr.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace {
struct Body {
  const char* name;
  int id;
  int parent;   // index in the table, -1 for the Sun
  double gm;    // km3/s2
  double re;    // equatorial radius km
  double rp;    // polar radius km
  double a_km;  // orbit
  double ecc;
  double inc_rad;
  double raan_rad;
  double argp_rad;
  double m0_rad;  // mean anomaly at et=0
  double gm_parent;
};
const double kAu = 149597870.7;
const double kObl = 0.40909280422232897;
const double kSunGm = 132712440041.94;
const Body kBodies[] = {
    {"SUN", 10, -1, kSunGm, 696000.0, 696000.0, 0, 0, 0, 0, 0, 0, 0},
    {"EARTH", 399, 0, 398600.435436, 6378.1366, 6356.7519, 1.00000011 * kAu, 0.0167, kObl, 0.0, 1.7966, 6.2401, kSunGm},
    {"MOON", 301, 1, 4902.800066, 1737.4, 1737.4, 384400.0, 0.0549, kObl + 0.05, 0.2, 1.1, 2.3, 398600.435436 + 4902.800066},
    {"MERCURY", 199, 0, 22031.78, 2439.7, 2439.7, 0.387 * kAu, 0.2056, kObl, 0.3, 0.5, 0.4, kSunGm},
    {"VENUS", 299, 0, 324858.592, 6051.8, 6051.8, 0.723 * kAu, 0.0068, kObl, 0.4, 0.6, 1.4, kSunGm},
    {"MARS", 499, 0, 42828.37, 3396.19, 3376.2, 1.524 * kAu, 0.0934, kObl, 0.1, 4.9, 0.3, kSunGm},
    {"JUPITER", 599, 0, 126686534.9, 71492.0, 66854.0, 5.203 * kAu, 0.0484, kObl, 0.2, 1.2, 0.35, kSunGm},
    {"SATURN", 699, 0, 37931207.8, 60268.0, 54364.0, 9.537 * kAu, 0.0542, kObl, 0.5, 1.3, 5.5, kSunGm},
    {"URANUS", 799, 0, 5793951.3, 25559.0, 24973.0, 19.19 * kAu, 0.0472, kObl, 0.7, 1.4, 2.5, kSunGm},
    {"NEPTUNE", 899, 0, 6835099.5, 24764.0, 24341.0, 30.07 * kAu, 0.0086, kObl, 0.8, 1.5, 4.5, kSunGm},
    {"PLUTO", 999, 0, 869.6, 1195.0, 1195.0, 39.48 * kAu, 0.2488, kObl + 0.3, 0.9, 1.6, 0.25, kSunGm},
};
const int kNum = (int)(sizeof(kBodies) / sizeof(kBodies[0]));

int IndexOfId(int id) {
  for (int i = 0; i < kNum; i++)
    if (kBodies[i].id == id) return i;
  return -1;
}
int IndexOfName(const char* name) {
  for (int i = 0; i < kNum; i++) {
    const char *a = kBodies[i].name, *b = name;
    while (*a && *b && (*a == (*b >= 'a' && *b <= 'z' ? *b - 32 : *b))) a++, b++;
    if (!*a && (!*b || (i > 0 && strcmp(b, "_BARYCENTER") == 0))) return i;
  }
  return -1;
}
[[noreturn]] void Fail(const char* what, const char* arg) {
  fprintf(stderr, "SPICE stand-in: %s: %s\n", what, arg);
  exit(1);  // as CSPICE does by default
}
void State(int index, double et, double out[6]) {
  for (int i = 0; i < 6; i++) out[i] = 0.0;
  while (index > 0) {
    const Body& b = kBodies[index];
    const double n = std::sqrt(b.gm_parent / (b.a_km * b.a_km * b.a_km));
    const double m = std::fmod(b.m0_rad + n * et, 2.0 * M_PI);
    double e = m;
    for (int k = 0; k < 30; k++) e -= (e - b.ecc * std::sin(e) - m) / (1.0 - b.ecc * std::cos(e));
    const double s = std::sqrt(1.0 - b.ecc * b.ecc);
    const double ed = n / (1.0 - b.ecc * std::cos(e));
    const double x = b.a_km * (std::cos(e) - b.ecc), y = b.a_km * s * std::sin(e);
    const double vx = -b.a_km * std::sin(e) * ed, vy = b.a_km * s * std::cos(e) * ed;
    const double cw = std::cos(b.argp_rad), sw = std::sin(b.argp_rad);
    const double ci = std::cos(b.inc_rad), si = std::sin(b.inc_rad);
    const double co = std::cos(b.raan_rad), so = std::sin(b.raan_rad);
    const double p[3] = {co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si};
    const double q[3] = {-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si};
    for (int i = 0; i < 3; i++) {
      out[i] += x * p[i] + y * q[i];
      out[i + 3] += vx * p[i] + vy * q[i];
    }
    index = b.parent;
  }
}
}  // namespace

std::vector<std::string>& verif_spice_kernels() {
  static std::vector<std::string> k;
  return k;
}
extern "C" {
int verif_spice_furnsh_calls = 0;

void furnsh_c(ConstSpiceChar* file) { verif_spice_furnsh_calls++, verif_spice_kernels().push_back(file); }

void str2et_c(ConstSpiceChar* str, SpiceDouble* et) {
  double jd = 0.0;
  if (sscanf(str, "jd %lf", &jd) != 1) Fail("str2et_c: unsupported time string", str);
  *et = (jd - 2451545.0) * 86400.0 + 69.184;
}

void bodvcd_c(SpiceInt bodyid, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values) {
  const int i = IndexOfId(bodyid);
  if (i < 0) Fail("bodvcd_c: unknown body", item);
  if (strcmp(item, "GM") == 0 && maxn >= 1) {
    *dim = 1;
    values[0] = kBodies[i].gm;
  } else if (strcmp(item, "RADII") == 0 && maxn >= 3) {
    *dim = 3;
    values[0] = values[1] = kBodies[i].re;
    values[2] = kBodies[i].rp;
  } else {
    Fail("bodvcd_c: unsupported item", item);
  }
}

void bodc2n_c(SpiceInt code, SpiceInt lenout, SpiceChar* name, SpiceBoolean* found) {
  const int i = IndexOfId(code);
  *found = i >= 0 ? SPICETRUE : SPICEFALSE;
  if (i < 0) return;
  strncpy(name, kBodies[i].name, (size_t)lenout - 1);
  name[lenout - 1] = '\0';
}

void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found) {
  const int i = IndexOfName(name);
  *found = i >= 0 ? SPICETRUE : SPICEFALSE;
  if (i >= 0) *code = kBodies[i].id;
}

void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar*, ConstSpiceChar* obs, SpiceDouble starg[6],
              SpiceDouble* lt) {
  const int t = IndexOfName(target), o = IndexOfName(obs);
  if (t < 0) Fail("spkezr_c: unknown target", target);
  // the planetary ephemerides hold the barycenters of these systems only
  if (t >= IndexOfId(499) && !strstr(target, "_BARYCENTER")) Fail("spkezr_c: insufficient ephemeris data for", target);
  if (o < 0) Fail("spkezr_c: unknown observer", obs);
  if (strcmp(ref, "J2000") != 0) Fail("spkezr_c: unsupported frame", ref);
  double st[6], so[6];
  State(t, et, st);
  State(o, et, so);
  for (int i = 0; i < 6; i++) starg[i] = st[i] - so[i];
  *lt = std::sqrt(starg[0] * starg[0] + starg[1] * starg[1] + starg[2] * starg[2]) / 299792.458;
}

void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]) {
  if (strcmp(from, "J2000") != 0 || strcmp(to, "IAU_MOON") != 0) Fail("sxform_c: unsupported frames", to);
  const double rate = 2.0 * M_PI / (27.321661 * 86400.0);
  const double w = std::fmod(0.6 + rate * et, 2.0 * M_PI), c = std::cos(w), s = std::sin(w);
  const double ct = std::cos(0.4), st = std::sin(0.4);  // pole tilt
  const double pole[3][3] = {{1, 0, 0}, {0, ct, st}, {0, -st, ct}};
  const double rot[3][3] = {{c, s, 0}, {-s, c, 0}, {0, 0, 1}};
  const double drot[3][3] = {{-s * rate, c * rate, 0}, {-c * rate, -s * rate, 0}, {0, 0, 0}};
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) xform[i][j] = 0.0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double r = 0.0, d = 0.0;
      for (int k = 0; k < 3; k++) {
        r += rot[i][k] * pole[k][j];
        d += drot[i][k] * pole[k][j];
      }
      xform[i][j] = xform[i + 3][j + 3] = r;
      xform[i + 3][j] = d;
    }
}
}
