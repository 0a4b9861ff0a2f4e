// Reference arithmetic of the monitors: long double, written from the definitions and independent of the code under test.
#pragma once
#include <array>
#include <cmath>

namespace ref {
using L = long double;
constexpr L kPi = 3.14159265358979323846264338327950288L;
constexpr L kTau = 2.0L * kPi;

struct V3 {
  L x = 0, y = 0, z = 0;
  L operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
  L& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator-(V3 a) { return {-a.x, -a.y, -a.z}; }
inline V3 operator*(L s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline L dot_(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross_(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline L norm(V3 a) { return sqrtl(dot_(a, a)); }
inline V3 unit(V3 a) {
  L n = norm(a);
  return n > 0 ? (1 / n) * a : a;
}
// numerically robust angle between two vectors
inline L angle(V3 a, V3 b) { return atan2l(norm(cross_(a, b)), dot_(a, b)); }
// anything indexable -> V3
template <class T>
V3 v(const T& a) {
  return {(L)a[0], (L)a[1], (L)a[2]};
}

struct M3 {
  L a[3][3] = {{0}};
  L* operator[](int i) { return a[i]; }
  const L* operator[](int i) const { return a[i]; }
};
inline V3 operator*(const M3& m, V3 b) {
  V3 r;
  for (int i = 0; i < 3; i++) r[i] = m[i][0] * b.x + m[i][1] * b.y + m[i][2] * b.z;
  return r;
}
inline M3 operator*(const M3& m, const M3& n) {
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r[i][j] += m[i][k] * n[k][j];
  return r;
}
inline M3 T(const M3& m) {
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = m[j][i];
  return r;
}
inline L det(const M3& m) {
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
         m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
inline L maxdiff(const M3& m, const M3& n) {
  L d = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      L e = fabsl(m[i][j] - n[i][j]);
      if (!(e <= d)) d = e;  // NaN propagates
    }
  return d;
}
template <class T3>
M3 m(const T3& x) {
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = x[i][j];
  return r;
}
inline M3 eye() {
  M3 r;
  r[0][0] = r[1][1] = r[2][2] = 1;
  return r;
}
// Frame-conversion matrix (components of a fixed vector in the frame rotated by theta around the unit axis e)
inline M3 rot(V3 e, L theta) {
  const L c = cosl(theta), s = sinl(theta);
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = (1 - c) * e[i] * e[j] + (i == j ? c : 0);
  r[0][1] += s * e.z;
  r[1][0] -= s * e.z;
  r[1][2] += s * e.x;
  r[2][1] -= s * e.x;
  r[2][0] += s * e.y;
  r[0][2] -= s * e.y;
  return r;
}
// Frame-conversion matrix of the quaternion (x,y,z,w) = (e sin(t/2), cos(t/2)), by axis and angle
template <class Q>
M3 rotq(const Q& q) {
  V3 e{(L)q[0], (L)q[1], (L)q[2]};
  L s = norm(e);
  if (s == 0) return eye();
  return rot((1 / s) * e, 2 * atan2l(s, (L)q[3]));
}
inline M3 rx(L t) { return rot({1, 0, 0}, t); }
inline M3 ry(L t) { return rot({0, 1, 0}, t); }
inline M3 rz(L t) { return rot({0, 0, 1}, t); }
// rotation angle between two rotation matrices (robust near 0)
inline L rotdist(const M3& a, const M3& b) {
  M3 d = a * T(b);
  V3 w{d[1][2] - d[2][1], d[2][0] - d[0][2], d[0][1] - d[1][0]};
  return atan2l(norm(w), d[0][0] + d[1][1] + d[2][2] - 1);
}
inline L wrap(L a) {  // [0, 2pi)
  a = fmodl(a, kTau);
  return a < 0 ? a + kTau : a;
}
inline L wrappi(L a) {  // (-pi, pi]
  a = wrap(a);
  return a > kPi ? a - kTau : a;
}
}  // namespace ref

// Generators shared by the harnesses (need mon.hpp)
#ifdef MON_GEN
namespace gen {
// Vector of norm `scale` in a random, often special, direction
template <class RNG>
ref::V3 dir(RNG& r) {
  switch (r.i(0, 9)) {
    case 0: {  // an axis
      ref::V3 a;
      a[(int)r.i(0, 2)] = r.b() ? 1 : -1;
      return a;
    }
    case 1: {  // in a coordinate plane
      double t = r.u(0, 6.283185307179586);
      ref::V3 a;
      int k = (int)r.i(0, 2);
      a[k] = cos(t);
      a[(k + 1) % 3] = sin(t);
      return a;
    }
    case 2: {  // near an axis
      ref::V3 a{r.n() * 1e-7, r.n() * 1e-7, r.n() * 1e-7};
      a[(int)r.i(0, 2)] += r.b() ? 1 : -1;
      return ref::unit(a);
    }
    default: {
      ref::V3 a{r.n(), r.n(), r.n()};
      return ref::unit(a);
    }
  }
}
// Rotation angle, often special
template <class RNG>
double rotangle(RNG& r) {
  const double pi = 3.141592653589793;
  switch (r.i(0, 7)) {
    case 0: return 0.0;
    case 1: return pi;
    case 2: return pi * (1 + r.n() * 1e-9);
    case 3: return r.n() * 1e-9;
    case 4: return pi / 2 * r.i(-3, 3);
    default: return r.u(-2 * pi, 2 * pi);
  }
}
// Unit quaternion (x,y,z,w), often special
template <class RNG>
std::array<double, 4> quat(RNG& r) {
  ref::V3 e = dir(r);
  double t = rotangle(r);
  std::array<double, 4> q;
  for (int i = 0; i < 3; i++) q[i] = (double)(e[i] * sinl(t / 2));
  q[3] = cos(t / 2);
  return q;
}
}  // namespace gen
#endif
