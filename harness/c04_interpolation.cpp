// C04: interpolation reproduces its samples and the function they come from
#include "s2e.hpp"
//
#include <math_physics/math/interpolation.hpp>
#include <math_physics/orbit/interpolation_orbit.hpp>
#include <algorithm>

using s2e::math::Interpolation;

static std::vector<double> Abscissas(mon::Mon& m, size_t n, double scale, double offset) {
  std::vector<double> x;
  double t = 0;
  for (size_t i = 0; i < n; i++) {
    x.push_back(t);
    t += m.rng.b(0.3) ? 1.0 : m.rng.u(0.3, 2.0);
  }
  for (auto& v : x) v = offset + scale * v;
  return x;
}
static double QueryPoint(mon::Mon& m, const std::vector<double>& x) {
  if (m.rng.b(0.3)) {  // near a sample or a midpoint
    size_t i = (size_t)m.rng.i(0, x.size() - 2);
    double f = m.rng.pick(std::vector<double>{0.0, 0.5, 1.0, 1e-9, 1 - 1e-9, 0.499999, 0.500001});
    return x[i] + f * (x[i + 1] - x[i]);
  }
  return m.rng.u(x.front(), x.back());
}
// Lagrange form in long double, with the amplification of the sample values
static L Lagrange(const std::vector<double>& x, const std::vector<double>& y, double q, L* amplification) {
  L s = 0, a = 0;
  for (size_t i = 0; i < x.size(); i++) {
    L l = 1;
    for (size_t j = 0; j < x.size(); j++)
      if (j != i) l *= ((L)q - x[j]) / ((L)x[i] - x[j]);
    s += l * y[i];
    a += fabsl(l * y[i]);
  }
  *amplification = a;
  return s;
}

GROUP(polynomial) {
  long n = m.n(30000, 1000000);
  for (long k = 0; k < n; k++) {
    size_t d = (size_t)m.rng.i(2, 12);
    double scale = m.rng.logu(1e-2, 1e3), offset = m.rng.b() ? 0 : m.rng.u(-100, 100) * scale;
    auto x = Abscissas(m, d, scale, offset);
    std::vector<double> y;
    bool random_values = m.rng.b();
    std::vector<double> c;
    for (size_t i = 0; i < d; i++) c.push_back(m.rng.u(-1, 1));
    auto poly = [&](double t) {
      L s = 0, u = (t - offset) / scale / d;
      for (size_t i = d; i-- > 0;) s = s * u + c[i];
      return (double)s;
    };
    double ymax = 0;
    for (double t : x) {
      y.push_back(random_values ? m.rng.n() * 10 : poly(t));
      ymax = std::max(ymax, fabs(y.back()));
    }
    Interpolation in(x, y);
    double q = QueryPoint(m, x);
    m.begin("%zu samples from %.17g step about %g, %s, at %.17g", d, offset, scale, random_values ? "random values" : "polynomial", q);
    L amp;
    L want = Lagrange(x, y, q, &amp);
    double tol = 1e-11 * ((double)amp + ymax) * (1 + fabs(offset) / scale * 1e-1);
    double got = in.CalcPolynomial(q);
    m.close(got, (double)want, tol, "polynomial", "polynomial interpolation against the Lagrange form");
    if (!random_values) m.close(got, poly(q), tol * 10 + 1e-11 * d, "polynomial_exact", "polynomial reproduced");
    size_t i = (size_t)m.rng.i(0, d - 1);
    m.close(in.CalcPolynomial(x[i]), y[i], 1e-12 * ymax, "sample", "value at a sample");
    m.check(in.GetDegree() == d, "degree", "degree %zu", in.GetDegree());
    m.ev(mon::F("samples_%zu", d));
    m.distinctv({q, y[0], (double)d});
  }
}

GROUP(trigonometric) {
  long n = m.n(30000, 1000000);
  for (long k = 0; k < n; k++) {
    size_t d = (size_t)m.rng.i(3, 11);
    double span = m.rng.u(0.5, 5.5);  // of the period 2 pi / w
    double w = m.rng.logu(1e-4, 10);
    auto x = Abscissas(m, d, 1.0, 0.0);
    double f = span / w / x.back();
    double offset = m.rng.u(-3, 3) / w;
    for (auto& v : x) v = v * f + offset;
    size_t used = d % 2 ? d : d - 1, deg = (used - 1) / 2;
    double a0 = m.rng.u(-1, 1);
    std::vector<double> a, b;
    for (size_t i = 1; i <= deg; i++) a.push_back(m.rng.u(-1, 1)), b.push_back(m.rng.u(-1, 1));
    auto fn = [&](double t) {
      L s = a0;
      for (size_t i = 1; i <= deg; i++) s += a[i - 1] * cosl(i * (L)w * t) + b[i - 1] * sinl(i * (L)w * t);
      return (double)s;
    };
    std::vector<double> y;
    for (double t : x) y.push_back(fn(t));
    Interpolation in(x, y);
    double q = QueryPoint(m, x);
    m.begin("%zu samples over %.3f of the angular frequency %.17g, at %.17g", d, span, w, q);
    // amplification by the cardinal functions of every subset that may be used
    double amp = 0;
    for (size_t st = 0; st <= d - used; st++) {
      double s = 0;
      for (size_t i = st; i < st + used; i++) {
        L l = 1;
        for (size_t j = st; j < st + used; j++)
          if (j != i) l *= sinl(w * ((L)q - x[j]) / 2) / sinl(w * ((L)x[i] - x[j]) / 2);
        s += (double)fabsl(l * y[i]);
      }
      amp = std::max(amp, s);
    }
    m.close(in.CalcTrigonometric(q, w), fn(q), 1e-12 * (amp + 1) * (1 + deg), "trigonometric", "trigonometric polynomial reproduced");
    size_t i = (size_t)m.rng.i(0, d - 1);
    if (d % 2) m.close(in.CalcTrigonometric(x[i], w), y[i], 1e-12 * (1 + deg), "trigonometric_sample", "value at a sample");
    // an even number of samples: the sample farthest from the point asked for is left out, so that
    // every sample is still reproduced at its own abscissa, whatever the samples are
    size_t de = (size_t)m.rng.i(1, 5) * 2;
    std::vector<double> xe, ye;
    double at = m.rng.u(-3, 3) / w;
    for (size_t j = 0; j < de; j++) xe.push_back(at += m.rng.u(0.2, 1) * 5.5 / w / (double)de), ye.push_back(m.rng.u(-1, 1));
    Interpolation even(xe, ye);
    for (size_t j = 0; j < de; j++) m.close(even.CalcTrigonometric(xe[j], w), ye[j], 1e-12, "trigonometric_even_sample", "value at a sample of an even number of samples");
    m.ev(mon::F("samples_%zu", d));
    m.distinctv({q, y[0], (double)d});
  }
}

GROUP(history) {
  long n = m.n(600, 20000);
  for (long k = 0; k < n; k++) {
    size_t d = (size_t)m.rng.i(2, 10);
    auto all = Abscissas(m, d + 40, 1.0, m.rng.u(-5, 5));
    std::vector<double> vals;
    for (size_t i = 0; i < all.size(); i++) vals.push_back(k % 3 ? m.rng.n() : (double)m.rng.i(-1, 1));  // with repeated values
    Interpolation in(std::vector<double>(all.begin(), all.begin() + d), std::vector<double>(vals.begin(), vals.begin() + d));
    std::vector<double> mx(all.begin(), all.begin() + d), my(vals.begin(), vals.begin() + d);
    m.begin("%zu samples, 40 pushes, first %.17g", d, all[0]);
    for (size_t i = d; i < all.size(); i++) {
      if (m.rng.b(0.3)) {  // refused: not later than the last
        double t = m.rng.b() ? mx.back() : mx.back() - m.rng.u(0, 10);
        m.check(!in.PushAndPopData(t, 99), "refused", "a sample at %.17g was accepted after %.17g", t, mx.back());
        m.ev("refused_samples");
      }
      m.check(in.PushAndPopData(all[i], vals[i]), "accepted", "a later sample was refused");
      mx.erase(mx.begin());
      mx.push_back(all[i]);
      my.erase(my.begin());
      my.push_back(vals[i]);
      m.check(in.GetIndependentVariables() == mx && in.GetDependentVariables() == my && in.GetDegree() == d, "history", "the buffer is not the last %zu samples after push %zu", d, i);
      double q = QueryPoint(m, mx);
      L amp, want = Lagrange(mx, my, q, &amp);
      m.close(in.CalcPolynomial(q), (double)want, 1e-11 * ((double)amp + 5), "polynomial_after_push", "interpolation after pushes");
      m.ev("pushes");
    }
    m.distinctv({all[0], vals[0], (double)d});
  }
}

GROUP(orbit) {
  long n = m.n(300, 10000);
  for (long k = 0; k < n; k++) {
    size_t d = (size_t)m.rng.i(5, 13);
    double w = 2 * M_PI / m.rng.u(5400, 86400), r = m.rng.u(6.7e6, 4.2e7), inc = m.rng.u(0, 3), ph = m.rng.u(0, 6.28);
    auto pos = [&](double t) { return vec(r * cos(w * t + ph), r * sin(w * t + ph) * cos(inc), r * sin(w * t + ph) * sin(inc)); };
    double step = m.rng.u(0.02, 0.05) * 2 * M_PI / w;
    s2e::orbit::InterpolationOrbit o(d);
    m.begin("circular orbit w=%.17g radius=%.17g %zu samples every %.3f s", w, r, d, step);
    m.check(o.GetDegree() == d, "orbit_degree", "degree %zu", o.GetDegree());
    std::vector<double> ts;
    for (int i = 0; i < 40; i++) {
      double t = i * step;
      m.check(o.PushAndPopData(t, pos(t)), "orbit_push", "push refused at %.17g", t);
      m.check(!o.PushAndPopData(t - m.rng.b() * step * 0.5, pos(0)), "orbit_refuse", "an older sample was accepted");
      ts.push_back(t);
      if (ts.size() < d) continue;
      auto list = o.GetTimeList();
      std::vector<double> last(ts.end() - d, ts.end());
      m.check(list == last, "orbit_times", "time list is not the last %zu times", d);
      size_t axis = (size_t)m.rng.i(0, 2);
      auto data = o.GetPositionDataList(axis);
      for (size_t j = 0; j < d; j++) m.close(data[j], pos(last[j])[axis], 0, "orbit_data", "stored position");
      size_t mid = d / 2;
      double q = last[mid - 1] + m.rng.u01() * (last[mid] - last[mid - 1]);
      vclose(m, ref::v(o.CalcPositionWithPolynomial(q)), ref::v(pos(q)), r * 2e-3, "orbit_polynomial", "orbit position (polynomial)");
      vclose(m, ref::v(o.CalcPositionWithTrigonometric(q, w)), ref::v(pos(q)), r * 1e-6, "orbit_trigonometric", "orbit position (trigonometric)");
      vclose(m, ref::v(o.CalcPositionWithPolynomial(last[mid])), ref::v(pos(last[mid])), r * 1e-9, "orbit_sample", "orbit position at a sample");
      m.ev("orbit_positions");
    }
    m.distinctv({w, r, inc});
  }
  // an axis that does not exist is not answered from other memory
  s2e::orbit::InterpolationOrbit o(4);
  for (size_t axis = 3; axis < 8; axis++) {
    m.begin("axis %zu", axis);
    m.check(o.GetPositionDataList(axis).size() == 4, "axis_range", "list of axis %zu", axis);
  }
}
