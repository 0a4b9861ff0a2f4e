// C09: geodetic and Cartesian positions
#include "s2e.hpp"
//
#include <environment/global/physical_constants.hpp>
#include <math_physics/geodesy/geodetic_position.hpp>

using s2e::geodesy::GeodeticPosition;
static const L kA = 6378136.6L, kF = 3.352797e-3L;

static V3 Ecef(L lat, L lon, L alt) {  // point of the ellipsoid with the normal in that direction, plus the altitude along the normal
  L b = kA * (1 - kF), c = cosl(lat), s = sinl(lat);
  L d = sqrtl(kA * kA * c * c + b * b * s * s);
  V3 n{c * cosl(lon), c * sinl(lon), s};
  return V3{kA * kA * n.x / d, kA * kA * n.y / d, b * b * n.z / d} + alt * n;
}
static void Frame(mon::Mon& m, const GeodeticPosition& g, L lat, L lon, double tol) {
  M3 c = ref::rotq(g.GetQuaternionXcxfToLtc());
  Quat q = g.GetQuaternionXcxfToLtc();
  m.close(qnorm(q), 1, 1e-12, "frame_unit", "norm of the frame quaternion");
  V3 e{-sinl(lon), cosl(lon), 0}, n{-sinl(lat) * cosl(lon), -sinl(lat) * sinl(lon), cosl(lat)}, u{cosl(lat) * cosl(lon), cosl(lat) * sinl(lon), sinl(lat)};
  M3 w;
  for (int i = 0; i < 3; i++) w[0][i] = e[i], w[1][i] = n[i], w[2][i] = u[i];
  mclose(m, c, w, tol, "local_frame", "east-north-up frame");
  // applied to a vector by the class under use
  Vec3 east = q.InverseFrameConversion(vec(1, 0, 0));
  vclose(m, ref::v(east), e, tol, "east_axis", "east axis");
  m.ev("frames_compared");
}
static void RandomPlace(mon::Mon& m, double& lat, double& lon, double& alt) {
  switch (m.rng.i(0, 8)) {
    case 0: lat = m.rng.b() ? M_PI / 2 : -M_PI / 2; break;
    case 1: lat = (m.rng.b() ? 1 : -1) * (M_PI / 2 - m.rng.logu(1e-14, 1e-2)); break;
    case 2: lat = 0; break;
    case 3: lat = m.rng.n() * 1e-9; break;
    default: lat = m.rng.u(-M_PI / 2, M_PI / 2);
  }
  switch (m.rng.i(0, 7)) {
    case 0: lon = m.rng.i(-8, 8) * M_PI / 4; break;
    case 1: lon = M_PI * m.rng.i(-2, 2) + m.rng.n() * 1e-9; break;
    case 2: lon = m.rng.u(-20, 20); break;
    default: lon = m.rng.u(-M_PI, 2 * M_PI);
  }
  switch (m.rng.i(0, 5)) {
    case 0: alt = 0; break;
    case 1: alt = m.rng.u(-11000, 0); break;
    case 2: alt = m.rng.logu(1, 1e5); break;
    default: alt = m.rng.logu(1e5, 4.5e8);
  }
}
GROUP(forward_and_back) {
  for (long c = 0; c < m.n(30000, 1000000); c++) {
    double lat, lon, alt;
    RandomPlace(m, lat, lon, alt);
    m.begin("latitude %.15g rad, longitude %.15g rad, altitude %.12g m", lat, lon, alt);
    m.distinctv({lat, lon, alt});
    GeodeticPosition g(lat, lon, alt);
    m.check(g.GetLatitude_rad() == lat && g.GetLongitude_rad() == lon && g.GetAltitude_m() == alt, "stored", "stored coordinates");
    Frame(m, g, lat, lon, 1e-9);
    V3 p = ref::v(g.CalcEcefPosition());
    double scale = 1 + (fabs(alt) + 6.4e6) * 1e-14;
    vclose(m, p, Ecef(lat, lon, alt), 1e-7 * scale + (fabs(alt) + 6.4e6) * 2e-15 * (1 + fabs(lon)), "ecef", "Earth-fixed position");
    GeodeticPosition b;
    if (m.rng.b()) b.UpdateFromEcef(vec(7e6, -1e6, 3e5));  // earlier contents must not matter
    b.UpdateFromEcef(tov(p));
    double tol_m = 2e-3 + fabs(alt) * 2e-10;  // the iteration stops at 1e-10 rad
    m.close(b.GetAltitude_m(), alt, tol_m, "altitude", "altitude converted back");
    m.close(b.GetLatitude_rad(), lat, 3e-10, "latitude", "latitude converted back");
    L cl = cosl((L)lat);
    double dl = fabs((double)ref::wrappi(b.GetLongitude_rad() - (L)lon));
    m.check(dl * (double)cl < 1e-12 * (1 + fabs(lon)) + 1e-14, "longitude", "longitude converted back %.15g", b.GetLongitude_rad());
    m.check(b.GetLongitude_rad() >= 0 && b.GetLongitude_rad() <= 2 * M_PI && fabs(b.GetLatitude_rad()) <= M_PI / 2 + 1e-15, "range", "latitude %.15g, longitude %.15g", b.GetLatitude_rad(),
            b.GetLongitude_rad());
    vclose(m, ref::v(b.CalcEcefPosition()), p, 2 * tol_m, "round_trip", "position converted to geodetic coordinates and back");
    if (fabs(lat) < M_PI / 2 - 1e-3) Frame(m, b, lat, lon, 1e-8);
    else Frame(m, b, b.GetLatitude_rad(), b.GetLongitude_rad(), 1e-8);
    m.ev("round_trips");
    if (M_PI / 2 - fabs(lat) < 1e-6) m.ev("polar_places");
    if (alt < 0) m.ev("below_sea_level");
  }
  m.require("round_trips", 1000);
  m.require("polar_places", 100);
  m.require("below_sea_level", 100);
}
GROUP(from_cartesian) {  // positions as orbits give them, exactly on the axis included
  for (long c = 0; c < m.n(30000, 1000000); c++) {
    V3 d = gen::dir(m.rng);
    double r = m.rng.b() ? m.rng.u(6.34e6, 7.5e6) : m.rng.logu(6.4e6, 5e8);
    Vec3 p = tov((L)r * d);
    m.begin("position %s m", S3(p).c_str());
    m.distinctv({p[0], p[1], p[2]});
    GeodeticPosition b;
    b.UpdateFromEcef(p);
    m.finite(b.GetAltitude_m(), "finite", "altitude");
    m.finite(b.GetLatitude_rad(), "finite", "latitude");
    m.finite(b.GetLongitude_rad(), "finite", "longitude");
    vclose(m, Ecef(b.GetLatitude_rad(), b.GetLongitude_rad(), b.GetAltitude_m()), ref::v(p), 2e-3 + r * 2e-10, "same_place", "place of the geodetic coordinates");
    vclose(m, ref::v(b.CalcEcefPosition()), ref::v(p), 2e-3 + r * 2e-10, "round_trip", "position converted to geodetic coordinates and back");
    Frame(m, b, b.GetLatitude_rad(), b.GetLongitude_rad(), 1e-8);
    m.ev("positions");
    if (p[0] == 0 && p[1] == 0) m.ev("on_the_axis");
  }
  m.require("positions", 1000);
  m.require("on_the_axis", 50);
}
GROUP(continuity) {  // along a meridian over the pole and across the date line: no jump of altitude
  for (long c = 0; c < m.n(300, 10000); c++) {
    double r = m.rng.u(6.5e6, 8e6), az = m.rng.u(0, 2 * M_PI), h = m.rng.logu(1e-9, 1e-3);
    double last = 0;
    for (int k = -30; k <= 30; k++) {
      double th = k * h;
      Vec3 p = vec(r * sin(th) * cos(az), r * sin(th) * sin(az), r * cos(th));
      m.begin("over the pole: radius %.9g m, polar angle %.9g rad, azimuth %.9g", r, th, az);
      m.distinctv({r, th, az});
      GeodeticPosition b;
      b.UpdateFromEcef(p);
      if (k > -30) m.check(fabs(b.GetAltitude_m() - last) < 2e-3 + 5e4 * h, "continuous", "altitude jumps from %.6f to %.6f m", last, b.GetAltitude_m());
      last = b.GetAltitude_m();
      m.close(b.GetAltitude_m(), r - 6378136.6 * (1 - 3.352797e-3), 2e-3 + 5e4 * fabs(th), "polar_altitude", "altitude near the pole");
      m.ev("steps");
    }
  }
}
