// Bridges between the reference arithmetic and the types of the code under test
#pragma once
#include "mon.hpp"
#define MON_GEN
#include "ref.hpp"
//
#include <math_physics/math/matrix_vector.hpp>
#include <math_physics/math/quaternion.hpp>
#include <math_physics/math/vector.hpp>

using Vec3 = s2e::math::Vector<3>;
using Mat3 = s2e::math::Matrix<3, 3>;
using Quat = s2e::math::Quaternion;
using ref::L;
using ref::M3;
using ref::V3;

inline Vec3 tov(const V3& a) {
  Vec3 r(0.0);
  for (int i = 0; i < 3; i++) r[i] = (double)a[i];
  return r;
}
inline Vec3 vec(double x, double y, double z) {
  Vec3 r(0.0);
  r[0] = x;
  r[1] = y;
  r[2] = z;
  return r;
}
inline Quat toq(const std::array<double, 4>& q) { return Quat(q[0], q[1], q[2], q[3]); }
inline Mat3 tom(const M3& a) {
  Mat3 r(0.0);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = (double)a[i][j];
  return r;
}
// |a-b| as a double; NaN stays NaN
inline double vdiff(const V3& a, const V3& b) { return (double)ref::norm(a - b); }
inline double qnorm(const Quat& q) { return std::sqrt((double)q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); }
inline std::string S(const V3& a) { return mon::F("(%.17g, %.17g, %.17g)", (double)a.x, (double)a.y, (double)a.z); }
template <class T>
std::string S3(const T& a) {
  return mon::F("(%.17g, %.17g, %.17g)", (double)a[0], (double)a[1], (double)a[2]);
}
template <class T>
std::string S4(const T& a) {
  return mon::F("(%.17g, %.17g, %.17g, %.17g)", (double)a[0], (double)a[1], (double)a[2], (double)a[3]);
}
// vector within tolerance, NaN never passes
inline bool vclose(mon::Mon& m, const V3& got, const V3& want, double tol, const char* key, const char* what) {
  double d = vdiff(got, want);
  return m.check(d <= tol, key, "%s: got %s, expected %s (difference %.3g, tolerance %.3g)", what, S(got).c_str(), S(want).c_str(), d, tol);
}
inline bool mclose(mon::Mon& m, const M3& got, const M3& want, double tol, const char* key, const char* what) {
  double d = (double)ref::maxdiff(got, want);
  return m.check(d <= tol, key, "%s: rows %s %s %s, expected %s %s %s (difference %.3g)", what, S(ref::v(got[0])).c_str(), S(ref::v(got[1])).c_str(),
                 S(ref::v(got[2])).c_str(), S(ref::v(want[0])).c_str(), S(ref::v(want[1])).c_str(), S(ref::v(want[2])).c_str(), d);
}
