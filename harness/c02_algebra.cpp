// C02: vector and matrix algebra
#include "s2e.hpp"
//
#include <math_physics/math/s2e_math.hpp>

template <size_t N>
static s2e::math::Vector<N> RandV(mon::Mon& m, double scale) {
  s2e::math::Vector<N> v(0.0);
  for (size_t i = 0; i < N; i++) v[i] = scale * m.rng.n() * (m.rng.b(0.1) ? 0.0 : 1.0);
  return v;
}
template <size_t R, size_t C>
static s2e::math::Matrix<R, C> RandM(mon::Mon& m, double scale) {
  s2e::math::Matrix<R, C> a(0.0);
  for (size_t i = 0; i < R; i++)
    for (size_t j = 0; j < C; j++) a[i][j] = scale * m.rng.n() * (m.rng.b(0.1) ? 0.0 : 1.0);
  return a;
}

template <size_t N>
static void VectorCase(mon::Mon& m) {
  double s = m.rng.b(0.3) ? m.rng.logu(1e-100, 1e100) : m.rng.logu(1e-6, 1e8);
  auto a = RandV<N>(m, s), b = RandV<N>(m, s);
  double k = m.rng.n() * m.rng.logu(1e-3, 1e3);
  if (k == 0) k = 1;
  m.begin("vectors of length %zu, a[0]=%.17g b[0]=%.17g factor=%.17g", N, (double)a[0], (double)b[0], k);
  auto sum = a + b, dif = a - b, sc = k * a, neg = -a;
  auto a1 = a, a2 = a, a3 = a, a4 = a;
  a1 += b;
  a2 -= b;
  a3 *= k;
  a4 /= k;
  L ip = 0, nn = 0, mag = 0;
  for (size_t i = 0; i < N; i++) {
    m.check(sum[i] == a[i] + b[i] && a1[i] == sum[i], "sum", "element %zu", i);
    m.check(dif[i] == a[i] - b[i] && a2[i] == dif[i], "difference", "element %zu", i);
    m.close(sc[i], k * a[i], 1e-15 * fabs(k * a[i]), "scale", "k*a");
    m.close(a3[i], k * a[i], 1e-15 * fabs(k * a[i]), "scale", "a*=k");
    m.close(a4[i], a[i] / k, 1e-15 * fabs(a[i] / k), "divide", "a/=k");
    m.check(neg[i] == -a[i], "negate", "element %zu", i);
    m.check(a(i) == a[i], "access", "element %zu", i);
    ip += (L)a[i] * b[i];
    mag += fabsl((L)a[i] * b[i]);
    nn += (L)a[i] * a[i];
  }
  m.check(a.GetLength() == N, "length", "length %zu", (size_t)a.GetLength());
  m.close(InnerProduct(a, b), (double)ip, 1e-14 * (double)mag, "inner", "inner product");
  m.check(InnerProduct(a, b) == InnerProduct(b, a), "inner_symmetric", "a.b != b.a");
  m.close(a.CalcNorm(), (double)sqrtl(nn), 1e-14 * (double)sqrtl(nn), "norm", "norm");
  if (nn > 0) {
    auto u = a.CalcNormalizedVector();
    for (size_t i = 0; i < N; i++) m.close(u[i], (double)(a[i] / sqrtl(nn)), 1e-14, "normalize", "normalised element");
    if (b.CalcNorm() > 0) {
      L bn = 0;
      for (size_t i = 0; i < N; i++) bn += (L)b[i] * b[i];
      // robust reference angle: 2 atan2(|u-v|, |u+v|)
      L d2 = 0, s2 = 0;
      for (size_t i = 0; i < N; i++) {
        L x = a[i] / sqrtl(nn), y = b[i] / sqrtl(bn);
        d2 += (x - y) * (x - y);
        s2 += (x + y) * (x + y);
      }
      L want = 2 * atan2l(sqrtl(d2), sqrtl(s2));
      m.close(CalcAngleTwoVectors_rad(a, b), (double)want, 1e-7, "angle", "angle between two vectors");
    }
  }
  bool threw = false;
  try {
    a(N);
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  m.check(threw, "access_range", "access beyond the end did not throw");
  m.ev("vector_cases");
  m.distinctv({(double)a[0], (double)b[N - 1]});
}

GROUP(vectors) {
  long n = m.n(4000, 200000);
  for (long k = 0; k < n; k++) {
    VectorCase<1>(m);
    VectorCase<2>(m);
    VectorCase<3>(m);
    VectorCase<4>(m);
    VectorCase<6>(m);
  }
}

GROUP(angle_between_vectors) {
  long n = m.n(40000, 1000000);
  for (long k = 0; k < n; k++) {
    V3 a = (L)(m.rng.b(0.3) ? m.rng.logu(1e-100, 1e100) : m.rng.logu(1e-3, 1e9)) * gen::dir(m.rng), b;
    int mode = (int)m.rng.i(0, 4);
    double f = m.rng.logu(1e-6, 1e6);
    if (mode == 0) b = (L)f * a;
    if (mode == 1) b = -((L)f * a);
    if (mode == 2) b = (L)f * (a + (ref::norm(a) * (L)m.rng.logu(1e-12, 1e-3)) * gen::dir(m.rng));
    if (mode == 3) b = -((L)f * (a + (ref::norm(a) * (L)m.rng.logu(1e-12, 1e-3)) * gen::dir(m.rng)));
    if (mode == 4) b = (L)f * gen::dir(m.rng);
    Vec3 x = tov(a), y = tov(b);
    m.begin("v1=%s v2=%s mode=%d", S3(x).c_str(), S3(y).c_str(), mode);
    double got = s2e::math::CalcAngleTwoVectors_rad(x, y);
    m.check(got >= 0 && got <= 3.1415926535897936, "angle_range", "angle %.17g", got);
    m.close(got, (double)ref::angle(ref::v(x), ref::v(y)), 5e-8, "angle_value", "angle between two vectors");
    m.ev(mode == 0 ? "parallel" : mode == 1 ? "opposite" : "other");
    m.distinctv({(double)x[0], (double)y[0]});
  }
  m.require("parallel", 100);
  m.require("opposite", 100);
}

GROUP(cross_and_frames) {
  long n = m.n(40000, 1000000);
  for (long k = 0; k < n; k++) {
    const bool wide = m.rng.b(0.3);
    V3 a = (L)(wide ? m.rng.logu(1e-100, 1e100) : m.rng.logu(1e-3, 1e8)) * gen::dir(m.rng), b = (L)(wide ? m.rng.logu(1e-100, 1e100) : m.rng.logu(1e-3, 1e8)) * gen::dir(m.rng);
    Vec3 x = tov(a), y = tov(b);
    m.begin("a=%s b=%s", S3(x).c_str(), S3(y).c_str());
    a = ref::v(x);
    b = ref::v(y);
    double s = (double)(ref::norm(a) * ref::norm(b));
    vclose(m, ref::v(OuterProduct(x, y)), ref::cross_(a, b), 1e-14 * s, "cross", "outer product");
    // orthogonal unit vector
    Vec3 o = s2e::math::GenerateOrthogonalUnitVector(x);
    m.close((double)ref::norm(ref::v(o)), 1.0, 1e-12, "orthogonal_unit", "norm of the orthogonal vector");
    m.close((double)(ref::dot_(ref::v(o), a) / ref::norm(a)), 0.0, 1e-12, "orthogonal", "inner product with the orthogonal vector");
    // polar coordinates
    Vec3 p = s2e::math::ConvertFrameOrthogonal2Polar(x);
    L r = ref::norm(a);
    m.close(p[0], (double)r, 1e-14 * (double)r, "polar_radius", "radius");
    m.check(p[1] >= 0 && p[1] <= 3.14159265358979356, "polar_theta_range", "theta=%.17g", (double)p[1]);
    m.check(p[2] >= 0 && p[2] <= 6.2831853071795871, "polar_phi_range", "phi=%.17g", (double)p[2]);
    V3 back{p[0] * sinl(p[1]) * cosl(p[2]), p[0] * sinl(p[1]) * sinl(p[2]), p[0] * cosl(p[1])};
    vclose(m, back, a, 5e-8 * (double)r, "polar_back", "position from the polar coordinates");
    m.ev("cases");
    m.distinctv({(double)x[0], (double)x[1], (double)y[2]});
  }
  m.begin("zero vector");
  Vec3 z(0.0);
  Vec3 u = z.CalcNormalizedVector();
  for (int i = 0; i < 3; i++) m.finite(u[i], "zero_normalize", "normalised zero vector");
  Vec3 p = s2e::math::ConvertFrameOrthogonal2Polar(z);
  for (int i = 0; i < 3; i++) m.check(p[i] == 0, "zero_polar", "polar coordinates of zero: %s", S3(p).c_str());
}

template <size_t R, size_t C, size_t D>
static void MatrixCase(mon::Mon& m) {
  auto a = RandM<R, C>(m, 1.0), a2 = RandM<R, C>(m, 1.0);
  auto b = RandM<C, D>(m, 1.0);
  auto v = RandV<C>(m, 1.0);
  double k = 0.1 + fabs(m.rng.n());
  m.begin("matrices %zux%zu and %zux%zu, a[0][0]=%.17g", R, C, C, D, (double)a[0][0]);
  auto ab = a * b;
  auto av = a * v;
  auto at = a.Transpose();
  auto sum = a + a2, dif = a - a2, sc = k * a;
  auto c1 = a, c2 = a, c3 = a, c4 = a;
  auto filled = a;
  filled.FillUp(k);
  const s2e::math::Matrix<R, C> uniform(k);
  L trace = 0;
  for (size_t i = 0; i < R && R == C; i++) trace += a[i][i];
  m.close(a.CalcTrace(), (double)trace, 1e-14 * R, "trace", "trace");
  c1 += a2;
  c2 -= a2;
  c3 *= k;
  c4 /= k;
  for (size_t i = 0; i < R; i++) {
    for (size_t j = 0; j < D; j++) {
      L s = 0;
      for (size_t q = 0; q < C; q++) s += (L)a[i][q] * b[q][j];
      m.close(ab[i][j], (double)s, 1e-13, "matmul", "matrix product element");
    }
    L s = 0;
    for (size_t q = 0; q < C; q++) s += (L)a[i][q] * v[q];
    m.close(av[i], (double)s, 1e-13, "matvec", "matrix-vector product element");
    for (size_t j = 0; j < C; j++) {
      m.check(at[j][i] == a[i][j], "transpose", "element %zu %zu", i, j);
      m.check(sum[i][j] == a[i][j] + a2[i][j] && c1[i][j] == sum[i][j], "matsum", "element %zu %zu", i, j);
      m.check(dif[i][j] == a[i][j] - a2[i][j] && c2[i][j] == dif[i][j], "matdif", "element %zu %zu", i, j);
      m.close(sc[i][j], k * a[i][j], 1e-15 * fabs(k * a[i][j]), "matscale", "scaled element");
      m.close(c3[i][j], k * a[i][j], 1e-15 * fabs(k * a[i][j]), "matscale", "scaled element in place");
      m.close(c4[i][j], a[i][j] / k, 1e-15 * fabs(a[i][j] / k), "matdivide", "divided element");
      m.check(filled[i][j] == k && uniform[i][j] == k, "matfill", "element %zu %zu of a matrix filled with %.17g is %.17g (constructed: %.17g)", i, j, k, (double)filled[i][j], (double)uniform[i][j]);
      m.check(a(i, j) == a[i][j], "mataccess", "element %zu %zu", i, j);
    }
  }
  m.check(a.GetRowLength() == R && a.GetColumnLength() == C, "matsize", "size");
  int threw = 0;
  try {
    a(R, 0);
  } catch (const std::invalid_argument&) {
    threw++;
  }
  try {
    a(0, C);
  } catch (const std::invalid_argument&) {
    threw++;
  }
  m.check(threw == 2, "mataccess_range", "access beyond the end did not throw");
  m.ev("matrix_cases");
  m.distinctv({(double)a[0][0], (double)b[0][0]});
}

template <size_t N>
static void SquareCase(mon::Mon& m) {
  // well conditioned: rotation-like random factor times permutation times diagonal within two decades, or permuted triangular with zeros
  s2e::math::Matrix<N, N> a(0.0);
  int mode = (int)m.rng.i(0, 3);
  if (mode == 0) {
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) a[i][j] = m.rng.n();
  } else {
    size_t p[N];
    for (size_t i = 0; i < N; i++) p[i] = i;
    for (size_t i = N; i-- > 1;) std::swap(p[i], p[m.rng.i(0, i)]);
    for (size_t i = 0; i < N; i++) {
      a[i][p[i]] = (m.rng.b() ? 1 : -1) * m.rng.u(1, 3);
      if (mode >= 2)
        for (size_t j = 0; j < N; j++)
          if (j != p[i] && m.rng.b(0.4)) a[i][j] = m.rng.n() * 0.4 / N;
    }
    if (mode == 3)
      for (size_t i = 0; i < N; i++) {
        double s = m.rng.logu(1e-3, 1e3);
        for (size_t j = 0; j < N; j++) a[i][j] *= s;
      }
  }
  m.begin("%zux%zu matrix, mode %d, first element %.17g", N, N, mode, (double)a[0][0]);
  // condition estimate by the reference inverse (Gauss-Jordan with full pivoting, long double)
  L w[N][2 * N];
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < 2 * N; j++) w[i][j] = j < N ? (L)a[i][j] : (j - N == i ? 1.0L : 0.0L);
  bool ok = true;
  for (size_t c = 0; c < N; c++) {
    size_t best = c;
    for (size_t i = c; i < N; i++)
      if (fabsl(w[i][c]) > fabsl(w[best][c])) best = i;
    if (fabsl(w[best][c]) < 1e-9L) ok = false;
    if (!ok) break;
    for (size_t j = 0; j < 2 * N; j++) std::swap(w[c][j], w[best][j]);
    L f = w[c][c];
    for (size_t j = 0; j < 2 * N; j++) w[c][j] /= f;
    for (size_t i = 0; i < N; i++)
      if (i != c) {
        L g = w[i][c];
        for (size_t j = 0; j < 2 * N; j++) w[i][j] -= g * w[c][j];
      }
  }
  if (!ok) return;
  L na = 0, ni = 0;
  for (size_t i = 0; i < N; i++) {
    L ra = 0, ri = 0;
    for (size_t j = 0; j < N; j++) ra += fabsl(a[i][j]), ri += fabsl(w[i][N + j]);
    na = std::max(na, ra);
    ni = std::max(ni, ri);
  }
  double cond = (double)(na * ni);
  if (cond > 1e8) {
    m.ev("ill_conditioned_skipped");
    return;
  }
  auto inv = s2e::math::CalcInverseMatrix(a);
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++) m.close(inv[i][j], (double)w[i][N + j], 1e-13 * cond * (double)ni, "inverse", "element of the inverse");
  s2e::math::Vector<N> x(0.0);
  for (size_t i = 0; i < N; i++) x[i] = m.rng.b(0.3) ? 0.0 : m.rng.n();
  auto b = a * x;
  auto lu = a;
  size_t index[N];
  s2e::math::LuDecomposition(lu, index);
  auto sol = b;
  s2e::math::SolveLinearSystemWithLu(lu, index, sol);
  for (size_t i = 0; i < N; i++) m.close(sol[i], x[i], 1e-12 * cond, "solve", "solution of the linear system");
  L tr = 0;
  for (size_t i = 0; i < N; i++) tr += a[i][i];
  m.close(a.CalcTrace(), (double)tr, 1e-13 * (double)na * N, "trace", "trace");
  bool pivoted = false;
  for (size_t i = 0; i < N; i++) pivoted |= index[i] != i;
  m.ev(pivoted ? "pivoted" : "not_pivoted");
  m.distinctv({(double)a[0][0], (double)a[N - 1][0], cond});
}

GROUP(matrices) {
  long n = m.n(1500, 80000);
  for (long k = 0; k < n; k++) {
    MatrixCase<1, 1, 1>(m);
    MatrixCase<2, 3, 4>(m);
    MatrixCase<3, 3, 3>(m);
    MatrixCase<4, 2, 1>(m);
    MatrixCase<6, 6, 3>(m);
  }
  auto id = s2e::math::MakeIdentityMatrix<5, double>();
  m.begin("identity");
  for (int i = 0; i < 5; i++)
    for (int j = 0; j < 5; j++) m.check(id[i][j] == (i == j), "identity", "element %d %d", i, j);
}

GROUP(inverses) {
  long n = m.n(4000, 200000);
  for (long k = 0; k < n; k++) {
    SquareCase<1>(m);
    SquareCase<2>(m);
    SquareCase<3>(m);
    SquareCase<4>(m);
    SquareCase<6>(m);
    SquareCase<9>(m);
  }
  for (int k = 0; k < 2000; k++) {  // however small or large the unit makes the elements
    const M3 R = ref::rot(gen::dir(m.rng), m.rng.u(-3, 3)), Q = ref::rot(gen::dir(m.rng), m.rng.u(-3, 3));
    const L scale = m.rng.logu(1e-60, 1e60);
    M3 D, E;
    for (int i = 0; i < 3; i++) D[i][i] = scale * m.rng.logu(1, 100) * (m.rng.b() ? 1 : -1), E[i][i] = 1 / D[i][i];
    const M3 A = R * D * Q, B = ref::T(Q) * E * ref::T(R);
    m.begin("3x3 matrix of the size %.6Lg", scale);
    m.distinctv({(double)scale, (double)A[0][0]});
    s2e::math::Matrix<3, 3> a(0.0);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) a[i][j] = (double)A[i][j];
    try {
      auto inv = s2e::math::CalcInverseMatrix(a);
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) m.close(inv[i][j], (double)B[i][j], (double)(1e-11L / scale), "inverse_scaled", "element of the inverse");
    } catch (const std::invalid_argument&) {
      m.check(false, "inverse_scaled", "an invertible matrix is refused as singular");
    }
    m.ev("scaled_inverses");
  }
  m.require("pivoted", 100);
  m.require("not_pivoted", 100);
  for (int k = 0; k < 200; k++) {
    // exactly singular: small integers, a zero row, a zero column or two equal rows
    s2e::math::Matrix<3, 3> a(0.0);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) a[i][j] = (double)m.rng.i(1, 4);
    int mode = (int)m.rng.i(0, 1), at = (int)m.rng.i(0, 2);
    for (int j = 0; j < 3; j++) (mode == 0 ? a[at][j] : a[j][at]) = 0.0;
    m.begin("singular matrix with zero %s %d", mode ? "column" : "row", at);
    bool threw = false;
    try {
      s2e::math::CalcInverseMatrix(a);
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    m.check(threw, "singular", "the inverse of a singular matrix was not refused");
    m.ev("singular");
  }
}

GROUP(wrap_angle) {
  long n = m.n(20000, 500000);
  for (long k = 0; k < n; k++) {
    double a = m.rng.b(0.2) ? (double)(ref::kPi / 2 * m.rng.i(-40, 40)) : m.rng.u(-1, 1) * m.rng.logu(1e-3, 1e4);
    m.begin("angle=%.17g", a);
    double w = s2e::math::WrapTo2Pi(a);
    m.check(w >= 0 && w <= 6.2831853071795873, "wrap_range", "wrapped to %.17g", w);
    m.check(fabsl(ref::wrappi((L)w - (L)a)) < 1e-9, "wrap_value", "wrapped %.17g to %.17g", a, w);
    m.ev("angles");
    m.distinctv({a});
  }
}
