// C01: quaternion, direction cosine matrix, Euler angles and axis-angle describe the same rotation
#include "s2e.hpp"
//
#include <math_physics/math/constants.hpp>
#include <math_physics/math/matrix.hpp>

static void ProperRotation(mon::Mon& m, const M3& d, const char* key, double tol = 1e-12) {
  mclose(m, d * ref::T(d), ref::eye(), tol, key, "M M^T of a rotation matrix");
  m.close((double)ref::det(d), 1.0, tol, key, "determinant of a rotation matrix");
}

GROUP(frame_conversion) {
  long n = m.n(40000, 1500000);
  for (long k = 0; k < n; k++) {
    auto qa = gen::quat(m.rng);
    V3 x = (L)m.rng.logu(1e-3, 1e8) * gen::dir(m.rng);
    m.begin("q=%s v=%s", S4(qa).c_str(), S(x).c_str());
    Quat q = toq(qa);
    Vec3 v = tov(x);
    double s = (double)ref::norm(x);
    M3 want = ref::rotq(qa);
    V3 w = want * x;
    double tol = 2e-14 * s + 0;
    vclose(m, ref::v(q.FrameConversion(v)), w, tol, "frame_conversion", "FrameConversion against the axis-angle matrix");
    vclose(m, ref::v(q.InverseFrameConversion(v)), ref::T(want) * x, tol, "inverse_frame_conversion", "InverseFrameConversion");
    vclose(m, ref::v(q.Conjugate().FrameConversion(v)), ref::T(want) * x, tol, "conjugate", "conversion by the conjugate");
    vclose(m, ref::v(q.InverseFrameConversion(q.FrameConversion(v))), x, tol, "restore", "inverse conversion of the conversion");
    Mat3 dcm = q.ConvertToDcm();
    mclose(m, ref::m(dcm), want, 1e-14, "to_dcm", "ConvertToDcm against the axis-angle matrix");
    ProperRotation(m, ref::m(dcm), "to_dcm_proper", 1e-13);
    vclose(m, ref::v(dcm * v), w, tol, "dcm_times_vector", "DCM * v");
    vclose(m, ref::v(dcm.Transpose() * (dcm * v)), x, tol, "transpose_restores", "transpose restores");
    m.ev("conversions", 6);
    m.distinctv({qa[0], qa[1], qa[2], qa[3]});
  }
  m.require("conversions", 1000);
}

GROUP(dcm_round_trip) {
  long n = m.n(40000, 1500000);
  for (long k = 0; k < n; k++) {
    auto qa = gen::quat(m.rng);
    m.begin("q=%s", S4(qa).c_str());
    M3 want = ref::rotq(qa);
    Quat q = toq(qa);
    Quat back = Quat::ConvertFromDcm(q.ConvertToDcm());
    m.close(qnorm(back), 1.0, 1e-13, "from_dcm_norm", "norm of ConvertFromDcm");
    mclose(m, ref::rotq(back), want, 1e-13, "from_dcm", "rotation of ConvertFromDcm(ConvertToDcm(q))");
    Quat back2 = Quat::ConvertFromDcm(tom(want));
    mclose(m, ref::rotq(back2), want, 1e-13, "from_dcm_exact", "rotation of ConvertFromDcm of a rotation matrix");
    int biggest = 0;
    for (int i = 1; i < 4; i++)
      if (fabs(qa[i]) > fabs(qa[biggest])) biggest = i;
    m.ev(mon::F("largest_element_%d", biggest));
    m.distinctv({qa[0], qa[1], qa[2], qa[3]});
  }
  for (int i = 0; i < 4; i++) m.require(mon::F("largest_element_%d", i), 100);
}

GROUP(euler) {
  long n = m.n(40000, 1500000);
  const double pi = 3.141592653589793;
  for (long k = 0; k < n; k++) {
    double e[3] = {m.rng.u(-pi, pi), m.rng.u(-pi / 2, pi / 2), m.rng.u(-pi, pi)};
    int mode = (int)m.rng.i(0, 7);
    if (mode == 0) e[1] = m.rng.b() ? pi / 2 : -pi / 2;                                         // at the singularity
    if (mode == 1) e[1] = (m.rng.b() ? 1 : -1) * (pi / 2 - m.rng.logu(1e-14, 1e-2));            // near it
    if (mode == 2) e[1] = m.rng.u(-4, 4);                                                       // beyond it
    if (mode == 3) e[m.rng.i(0, 2)] = 0;
    if (mode == 4) e[m.rng.pick(std::vector<int>{0, 2})] = pi / 2 * m.rng.i(-2, 2);
    m.begin("euler=%s mode=%d", S3(e).c_str(), mode);
    M3 want = ref::rx(e[0]) * ref::ry(e[1]) * ref::rz(e[2]);
    Quat q = Quat::ConvertFromEuler(vec(e[0], e[1], e[2]));
    m.close(qnorm(q), 1.0, 1e-12, "from_euler_norm", "norm of ConvertFromEuler");
    mclose(m, ref::rotq(q), want, 1e-12, "from_euler", "rotation of ConvertFromEuler (3-2-1)");
    Vec3 back = q.ConvertToEuler();
    bool singular = fabs(fabs(e[1]) - pi / 2) < 1e-6;
    m.ev(singular ? "singular" : "regular");
    M3 again = ref::rx(back[0]) * ref::ry(back[1]) * ref::rz(back[2]);
    mclose(m, again, want, 1e-12, singular ? "to_euler_singular" : "to_euler", "rotation of ConvertToEuler");
    m.check(fabs(back[1]) <= pi / 2 + 1e-12, "euler_range", "pitch %.17g outside [-pi/2, pi/2]", (double)back[1]);
    if (fabs(e[1]) < pi / 2 - 1e-3) {
      for (int i = 0; i < 3; i++)
        m.check(fabsl(ref::wrappi((L)back[i] - e[i])) < 1e-10, "euler_angles", "angle %d: %.17g, expected %.17g", i, (double)back[i], e[i]);
    }
    m.distinctv({e[0], e[1], e[2]});
  }
  m.require("singular", 100);
  m.require("regular", 100);
}

GROUP(axis_angle_and_two_vectors) {
  long n = m.n(40000, 1500000);
  for (long k = 0; k < n; k++) {
    V3 e = gen::dir(m.rng);
    double t = gen::rotangle(m.rng);
    m.begin("axis=%s angle=%.17g", S(e).c_str(), t);
    Quat q(tov(e), t);
    mclose(m, ref::rotq(q), ref::rot(e, t), 1e-13, "axis_angle", "rotation of the axis-angle constructor");
    m.close(qnorm(q), 1.0, 1e-13, "axis_angle_norm", "norm of the axis-angle quaternion");
    // rotation that carries one vector to another
    V3 a = (L)m.rng.logu(1e-3, 1e8) * gen::dir(m.rng), b = (L)m.rng.logu(1e-3, 1e8) * gen::dir(m.rng);
    int mode = (int)m.rng.i(0, 7);
    if (mode == 0) b = (L)m.rng.logu(1e-3, 1e3) * a;
    if (mode == 1) b = -((L)m.rng.logu(1e-3, 1e3) * a);
    if (mode == 2) b = a + (ref::norm(a) * (L)m.rng.logu(1e-12, 1e-2)) * gen::dir(m.rng);
    if (mode == 3) b = -(a + (ref::norm(a) * (L)m.rng.logu(1e-12, 1e-2)) * gen::dir(m.rng));
    if (ref::norm(b) < 1e-10L || ref::norm(a) < 1e-10L) continue;
    V3 a2 = ref::v(tov(a)), b2 = ref::v(tov(b));
    m.begin("before=%s after=%s mode=%d", S(a2).c_str(), S(b2).c_str(), mode);
    Quat p(tov(a), tov(b));
    m.close(qnorm(p), 1.0, 1e-9, "two_vectors_norm", "norm of the quaternion from two vectors");
    // carries the unit vector `before` onto `after` as a rotation of vectors (inverse of the frame conversion)
    V3 got = ref::T(ref::rotq(p)) * ref::unit(a2);
    vclose(m, got, ref::unit(b2), 5e-8, "two_vectors", "rotated `before` vector");
    m.ev(mode == 0 ? "parallel" : mode == 1 ? "opposite" : mode <= 3 ? "near" : "general");
    m.distinctv({(double)a2.x, (double)b2.x, (double)a2.y});
  }
  m.require("parallel", 50);
  m.require("opposite", 50);
  m.require("near", 50);
}

GROUP(composition) {
  long n = m.n(40000, 1500000);
  for (long k = 0; k < n; k++) {
    auto qa = gen::quat(m.rng), qb = gen::quat(m.rng);
    V3 x = (L)m.rng.logu(1e-3, 1e8) * gen::dir(m.rng);
    m.begin("q1=%s q2=%s v=%s", S4(qa).c_str(), S4(qb).c_str(), S(x).c_str());
    Quat a = toq(qa), b = toq(qb);
    Quat ab = a * b;
    // q_i2c = q_i2b * q_b2c
    mclose(m, ref::rotq(ab), ref::rotq(qb) * ref::rotq(qa), 1e-13, "product", "rotation of a quaternion product");
    m.close(qnorm(ab), 1.0, 1e-13, "product_norm", "norm of a product");
    vclose(m, ref::v(ab.FrameConversion(tov(x))), ref::v(b.FrameConversion(a.FrameConversion(tov(x)))), 4e-14 * (double)ref::norm(x), "product_conversion",
           "conversion by a product");
    mclose(m, ref::m(b.ConvertToDcm() * a.ConvertToDcm()), ref::m(ab.ConvertToDcm()), 1e-13, "matrix_product", "DCM of a product");
    Quat id = a * a.Conjugate();
    m.check(fabs(id[0]) < 1e-14 && fabs(id[1]) < 1e-14 && fabs(id[2]) < 1e-14 && fabs(id[3] - 1) < 1e-14, "inverse_product", "q q* = %s", S4(id).c_str());
    // normalisation
    double s = m.rng.b(0.1) ? m.rng.logu(1e-100, 1e100) : m.rng.logu(1e-6, 1e6);
    Quat c = s * a;
    Quat d = c.Normalize();
    for (int i = 0; i < 4; i++) {
      m.close(d[i], qa[i], 1e-14, "normalize", "normalised element");
      m.close(c[i], qa[i], 1e-14, "normalize_in_place", "normalised element in place");
    }
    auto sum = a + b, dif = a - b;
    for (int i = 0; i < 4; i++) {
      m.check(sum[i] == qa[i] + qb[i], "sum", "sum element %d", i);
      m.check(dif[i] == qa[i] - qb[i], "difference", "difference element %d", i);
    }
    // product with a vector = product with the pure quaternion
    Quat pv = a * tov(x), pq = a * Quat((double)x.x, (double)x.y, (double)x.z, 0.0);
    for (int i = 0; i < 4; i++) m.close(pv[i], pq[i], 1e-14 * (double)ref::norm(x), "vector_product", "product with a vector");
    auto vv = a.ConvertToVector();
    for (int i = 0; i < 4; i++) m.check(vv[i] == qa[i], "to_vector", "element %d", i);
    m.ev("products");
    m.distinctv({qa[0], qa[1], qb[2], qb[3]});
  }
  Quat z(0, 0, 0, 0);
  m.begin("zero quaternion");
  Quat zn = z.Normalize();
  m.check(zn[0] == 0 && zn[3] == 0, "zero_normalize", "zero quaternion normalises to %s", S4(zn).c_str());
  m.require("products", 1000);
}

GROUP(elementary_rotations) {
  long n = m.n(20000, 500000);
  for (long k = 0; k < n; k++) {
    double t = gen::rotangle(m.rng);
    m.begin("angle=%.17g", t);
    Mat3 x = s2e::math::MakeRotationMatrixX<3, double>(t), y = s2e::math::MakeRotationMatrixY<3, double>(t), z = s2e::math::MakeRotationMatrixZ<3, double>(t);
    mclose(m, ref::m(x), ref::rx(t), 1e-15, "rot_x", "MakeRotationMatrixX");
    mclose(m, ref::m(y), ref::ry(t), 1e-15, "rot_y", "MakeRotationMatrixY");
    mclose(m, ref::m(z), ref::rz(t), 1e-15, "rot_z", "MakeRotationMatrixZ");
    m.ev("elementary", 3);
    m.distinctv({t});
  }
}
