// C03: numerical integrators converge at their order
#include "s2e.hpp"
//
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <math_physics/numerical_integration/dormand_prince_5.hpp>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
#include <math_physics/numerical_integration/runge_kutta_4.hpp>
#include <math_physics/numerical_integration/runge_kutta_fehlberg.hpp>
#include <algorithm>

namespace ni = s2e::numerical_integration;
using ni::NumericalIntegrationMethod;
constexpr size_t N = 4;
using V = s2e::math::Vector<N>;

// A problem with a known solution: y' = s'(t) + A(y - s(t)) + B (y-s(t)) o (y - s(t)) + c (sin(y) - sin(s(t))), coupled, nonlinear and non-autonomous
struct Problem {
  double amp[N], w[N], ph[N], lin[N], A[N][N], B[N], c[N];
  void Make(mon::Rng& r) {
    for (size_t i = 0; i < N; i++) {
      amp[i] = r.u(0.5, 2);
      w[i] = r.u(0.5, 2.0);
      ph[i] = r.u(0, 6.28);
      lin[i] = r.u(-1, 1);
      B[i] = r.u(-0.5, 0.5);
      c[i] = r.u(-1, 1);
      for (size_t j = 0; j < N; j++) A[i][j] = r.u(-1, 1);
    }
  }
  V Sol(double t) const {
    V y(0.0);
    for (size_t i = 0; i < N; i++) y[i] = amp[i] * sin(w[i] * t + ph[i]) + lin[i] * t;
    return y;
  }
  V F(double t, const V& y) const {
    V d(0.0);
    V s = Sol(t);
    for (size_t i = 0; i < N; i++) {
      d[i] = amp[i] * w[i] * cos(w[i] * t + ph[i]) + lin[i];
      for (size_t j = 0; j < N; j++) d[i] += A[i][j] * (y[j] - s[j]) + 0.3 * A[j][i] * (sin(y[j]) - sin(s[j]));
      d[i] += B[i] * (y[i] * y[(i + 1) % N] - s[i] * s[(i + 1) % N]) + c[i] * (sin(y[i]) - sin(s[i]));
    }
    return d;
  }
};
struct Ode : public ni::InterfaceOde<N> {
  const Problem* p = nullptr;
  mutable long calls = 0;
  mutable double last_t = 0;
  V DerivativeFunction(const double t, const V& y) const override {
    calls++;
    last_t = t;
    return p->F(t, y);
  }
};
struct OldOde : public s2e::math::OrdinaryDifferentialEquation<N> {
  const Problem* p = nullptr;
  explicit OldOde(double h) : OrdinaryDifferentialEquation<N>(h) {}
  void DerivativeFunction(double t, const V& y, V& d) override { d = p->F(t, y); }
};

static const char* kName[] = {"rk4", "rkf", "dp5", "ode_rk4"};
static const double kOrder[] = {4, 5, 5, 4};
static const double kInterpolationOrder[] = {0, 4, 4, 0};

static V Run(int method, const Problem& p, double t0, double h, int steps, int split, mon::Mon& m) {
  if (method == 3) {
    OldOde o(h);
    o.p = &p;
    o.Setup(t0, p.Sol(t0));
    for (int i = 0; i < steps; i++) {
      if (i == split) {
        V s = ((const OldOde&)o).s2e::math::OrdinaryDifferentialEquation<N>::GetState();
        double t = o.GetIndependentVariable();
        o.Setup(t, s);
        o.SetStepWidth(h);
      }
      if (i % 2) o.Update();
      else ++o;
    }
    m.close(o.GetIndependentVariable(), t0 + h * steps, 1e-13 * (1 + steps), "independent_variable", "independent variable after the steps");
    return ((const OldOde&)o).s2e::math::OrdinaryDifferentialEquation<N>::GetState();
  }
  Ode o;
  o.p = &p;
  ni::NumericalIntegratorManager<N> man(h, o, (NumericalIntegrationMethod)method);
  auto it = man.GetIntegrator();
  it->SetState(t0, p.Sol(t0));
  for (int i = 0; i < steps; i++) {
    if (i == split) it->SetState(t0 + h * i, V(it->GetState()));
    it->Integrate();
  }
  return it->GetState();
}
static double Err(const V& a, const V& b) {
  double s = 0;
  for (size_t i = 0; i < N; i++) s += (a[i] - b[i]) * (a[i] - b[i]);
  return sqrt(s);
}
static double Median(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  return v[v.size() / 2];
}

GROUP(order) {
  for (int method = 0; method < 4; method++) {
    long n = m.n(400, 12000);
    std::vector<double> orders, global;
    for (long k = 0; k < n; k++) {
      Problem p;
      p.Make(m.rng);
      double t0 = m.rng.u(-3, 3);
      double h = 0.08;
      m.begin("%s t0=%.17g step=%g problem w0=%.17g", kName[method], t0, h, p.w[0]);
      double e1 = Err(Run(method, p, t0, h, 1, -1, m), p.Sol(t0 + h)), e2 = Err(Run(method, p, t0, h / 2, 1, -1, m), p.Sol(t0 + h / 2));
      if (e2 > 1e-13) orders.push_back(log2(e1 / e2));
      double g1 = Err(Run(method, p, t0, 0.05, 20, -1, m), p.Sol(t0 + 1)), g2 = Err(Run(method, p, t0, 0.025, 40, -1, m), p.Sol(t0 + 1));
      if (g2 > 1e-12) global.push_back(log2(g1 / g2));
      m.check(g1 < 2e-3, "global_error", "%s: error %.3g after 1 time unit with step 0.05", kName[method], g1);
      m.check(g2 < g1 || g1 < 1e-9, "error_decreases", "%s: halving the step raised the error from %.3g to %.3g", kName[method], g1, g2);
      m.ev(mon::F("problems_%s", kName[method]));
      m.distinctv({p.w[0], p.w[1], t0, (double)method});
    }
    double loc = Median(orders), glo = Median(global);
    m.begin("%s: median local order %.3f over %zu problems, median global order %.3f over %zu problems", kName[method], loc, orders.size(), glo,
            global.size());
    m.check(orders.size() > (size_t)n / 2 && loc > kOrder[method] + 1 - 0.25, "local_order", "%s: local error falls with order %.3f, expected %.0f", kName[method],
            loc, kOrder[method] + 1);
    m.check(global.size() > (size_t)n / 2 && glo > kOrder[method] - 0.25, "global_order", "%s: global error falls with order %.3f, expected %.0f", kName[method],
            glo, kOrder[method]);
    if (getenv("VERIF_DEBUG")) printf("%s local %.3f global %.3f\n", kName[method], loc, glo);
  }
}

// y' = polynomial in t
struct PolyOde : public ni::InterfaceOde<1> {
  std::vector<double> c;
  s2e::math::Vector<1> DerivativeFunction(const double t, const s2e::math::Vector<1>&) const override {
    s2e::math::Vector<1> r(0.0);
    for (size_t i = c.size(); i-- > 0;) r[0] = r[0] * t + c[i];
    return r;
  }
};
GROUP(polynomials) {
  long n = m.n(8000, 300000);
  for (long k = 0; k < n; k++) {
    int method = (int)m.rng.i(0, 2);
    int degree = (int)m.rng.i(0, (int)kOrder[method] - 1);
    PolyOde o;
    for (int i = 0; i <= degree; i++) o.c.push_back(m.rng.u(-2, 2));
    double h = m.rng.logu(1e-3, 1.0), t0 = m.rng.u(-1, 1), y0 = m.rng.u(-5, 5);
    int steps = (int)m.rng.i(1, 12);
    m.begin("%s degree %d step %.17g t0=%.17g steps=%d", kName[method], degree, h, t0, steps);
    ni::NumericalIntegratorManager<1> man(h, o, (NumericalIntegrationMethod)method);
    auto it = man.GetIntegrator();
    it->SetState(t0, s2e::math::Vector<1>(y0));
    auto exact = [&](double t) {
      L s = y0;
      for (int i = 0; i <= degree; i++) s += (L)o.c[i] * (powl(t, i + 1) - powl(t0, i + 1)) / (i + 1);
      return (double)s;
    };
    double scale = 1;
    for (int i = 0; i < steps; i++) {
      it->Integrate();
      double t = t0 + h * (i + 1), want = exact(t);
      scale = std::max(scale, pow(std::max(fabs(t), 1.0), degree + 1) * 10);
      m.close(it->GetState()[0], want, 1e-13 * scale * (i + 2), "polynomial", "integral of a polynomial of the method's degree");
      if (method > 0) {
        m.close(it->CalcInterpolationState(0.0)[0], exact(t - h), 1e-13 * scale * (i + 2), "interpolation_start", "interpolation at the start of the step");
        m.close(it->CalcInterpolationState(1.0)[0], want, 1e-12 * scale * (i + 2), "interpolation_end", "interpolation at the end of the step");
        if (degree <= 3) {
          double sg = m.rng.u01();
          m.close(it->CalcInterpolationState(sg)[0], exact(t - h + sg * h), 1e-12 * scale * (i + 2), "interpolation_inside",
                  "interpolation of a polynomial inside the step");
        }
      }
    }
    m.ev(mon::F("polynomial_degree_%d", degree));
    m.distinctv({h, t0, y0});
  }
}

GROUP(interpolation) {
  for (int method = 1; method < 3; method++) {
    long n = m.n(400, 12000);
    std::vector<double> orders;
    for (long k = 0; k < n; k++) {
      Problem p;
      p.Make(m.rng);
      double t0 = m.rng.u(-3, 3), sg = m.rng.u(0.05, 0.95), e[2];
      m.begin("%s t0=%.17g sigma=%.17g problem w0=%.17g", kName[method], t0, sg, p.w[0]);
      for (int half = 0; half < 2; half++) {
        double h = half ? 0.05 : 0.1;
        Ode o;
        o.p = &p;
        ni::NumericalIntegratorManager<N> man(h, o, (NumericalIntegrationMethod)method);
        auto it = man.GetIntegrator();
        it->SetState(t0, p.Sol(t0));
        V before = it->GetState();
        it->Integrate();
        V after = it->GetState();
        e[half] = Err(it->CalcInterpolationState(sg), p.Sol(t0 + sg * h));
        m.check(Err(it->CalcInterpolationState(0.0), before) < 1e-13, "interpolation_start", "%s: interpolated start differs from the previous state", kName[method]);
        m.check(Err(it->CalcInterpolationState(1.0), after) < (method == 2 ? 1e-12 : 1e-6), "interpolation_end", "%s: interpolated end differs from the new state by %.3g",
                kName[method], Err(it->CalcInterpolationState(1.0), after));
        V again = it->GetState();
        m.check(Err(again, after) == 0, "interpolation_pure", "interpolating changed the state");
      }
      if (e[1] > 1e-13) orders.push_back(log2(e[0] / e[1]));
      m.ev(mon::F("interpolated_%s", kName[method]));
      m.distinctv({p.w[0], sg, t0});
    }
    double o = Median(orders);
    m.begin("%s: median order of the interpolation error %.3f over %zu problems", kName[method], o, orders.size());
    m.check(orders.size() > (size_t)n / 2 && o > kInterpolationOrder[method] + 1 - 0.3, "interpolation_order", "%s: interpolation error falls with order %.3f, expected %.0f",
            kName[method], o, kInterpolationOrder[method] + 1);
    if (getenv("VERIF_DEBUG")) printf("%s interpolation %.3f\n", kName[method], o);
  }
}

GROUP(splitting) {
  long n = m.n(800, 30000);
  for (long k = 0; k < n; k++) {
    int method = (int)m.rng.i(0, 3);
    Problem p;
    p.Make(m.rng);
    double t0 = m.rng.u(-3, 3), h = m.rng.logu(1e-3, 0.1);
    int steps = (int)m.rng.i(2, 30), split = (int)m.rng.i(1, steps - 1);
    m.begin("%s t0=%.17g h=%.17g steps=%d split at %d", kName[method], t0, h, steps, split);
    V whole = Run(method, p, t0, h, steps, -1, m), parts = Run(method, p, t0, h, steps, split, m);
    m.check(Err(whole, parts) < 1e-12, "splitting", "%s: splitting the run changed the result by %.3g", kName[method], Err(whole, parts));
    m.ev("splits");
    m.distinctv({t0, h, (double)split});
  }
}

GROUP(step_control) {
  long n = m.n(600, 20000);
  for (long k = 0; k < n; k++) {
    Problem p;
    p.Make(m.rng);
    Ode o;
    o.p = &p;
    double t0 = m.rng.u(-3, 3), h = 0.05;
    bool dp = m.rng.b();
    m.begin("%s t0=%.17g problem w0=%.17g", dp ? "dp5" : "rkf", t0, p.w[0]);
    // The embedded error estimate of one step must be the difference of the two solutions, which falls with its order; and after the step control the
    // estimate of the same step meets the tolerance.
    ni::DormandPrince5<N> d(h, o);
    ni::RungeKuttaFehlberg<N> f(h, o);
    ni::EmbeddedRungeKutta<N>& e = dp ? (ni::EmbeddedRungeKutta<N>&)d : (ni::EmbeddedRungeKutta<N>&)f;
    e.SetState(t0, p.Sol(t0));
    e.Integrate();
    double est = e.GetLocalTruncationError();
    m.check(est > 0 && est < 1e-4, "estimate", "error estimate %.3g of a step of %g", est, h);
    double tol = m.rng.b() ? est * m.rng.u(0.3, 3.0) : std::max(1e-12, est * m.rng.logu(1e-6, 1));
    e.ControlStepWidth(tol);
    e.SetState(t0, p.Sol(t0));
    e.Integrate();
    double est2 = e.GetLocalTruncationError();
    const double far = 2.5 * pow(std::max(1.0, est / tol), 0.2);  // the exponent is that of the higher order
    m.check(est2 > tol / far && est2 < tol * far, "step_control", "%s: after step control for %.3g (from %.3g) the estimate is %.3g", dp ? "dp5" : "rkf", tol, est, est2);
    m.ev("controlled_steps");
    m.distinctv({t0, est, tol});
  }
}
