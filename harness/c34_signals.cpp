// C34: Gaussian beams, quantisation, first-order lags and byte-order copies against their definitions
#include <math_physics/control_utilities/first_order_lag.hpp>
#include <math_physics/optics/gaussian_beam_base.hpp>
#include <utilities/endian.hpp>
#include <utilities/quantization.hpp>

#include <memory>

#include "s2e.hpp"
static const double PI = 3.14159265358979323846;

GROUP(beam) {
  for (long c = 0; c < m.n(3000, 100000); c++) {
    auto& g = m.rng;
    double wl = g.logu(1e-7, 1e-4), w0 = g.logu(1e-6, 10), P = g.b(0.05) ? 0.0 : g.logu(1e-9, 1e6);
    m.begin("beam of %g m, waist %g m, %g W", wl, w0, P);
    s2e::optics::GaussianBeamBase b(wl, w0, P);
    // changes and readings in any order
    for (int k = 0; k < (int)g.i(1, 8); k++) {
      switch (g.i(0, 4)) {
        case 0: b.SetWaveLength_m(wl = g.logu(1e-7, 1e-4)); break;
        case 1: b.SetBeamWaistRadius_m(w0 = g.logu(1e-6, 10)); break;
        case 2: b.SetTotalPower_W(P = g.logu(1e-9, 1e6)); break;
        case 3: {
          Vec3 d(0.0), p(0.0);
          for (int i = 0; i < 3; i++) d[i] = g.n(), p[i] = g.u(-1e9, 1e9);
          b.SetPointingVector_i(d), b.SetBeamWaistPosition_i_m(p);
          const auto e = b.GetPointingVector_i(), q = b.GetBeamWaistPosition_i_m();
          for (int i = 0; i < 3; i++) m.check(e[i] == d[i] && q[i] == p[i], "beam:setting", "pointing or waist position is not what was set");
          break;
        }
        default: break;
      }
      m.check(b.GetWaveLength_m() == wl && b.GetBeamWaistRadius_m() == w0 && b.GetTotalPower_W() == P, "beam:setting", "%g m, %g m, %g W instead of %g m, %g m, %g W", b.GetWaveLength_m(), b.GetBeamWaistRadius_m(), b.GetTotalPower_W(), wl, w0, P);
      const double zr = PI * w0 * w0 / wl;
      auto close = [&](double a, double r, double tol = 1e-9) { return std::fabs(a - r) <= tol * std::fabs(r) + 1e-300; };
      m.check(close(b.CalcBeamWidthRadius_m(0.0), w0), "beam:waist", "radius %.15g at the waist of %.15g", b.CalcBeamWidthRadius_m(0.0), w0);
      m.check(close(b.CalcBeamWidthRadius_m(zr), w0 * sqrt(2.0)), "beam:rayleigh", "radius %.15g at the Rayleigh length instead of %.15g", b.CalcBeamWidthRadius_m(zr), w0 * sqrt(2.0));
      m.check(close(b.CalcBeamWidthRadius_m(1e7 * zr) / (1e7 * zr), wl / PI / w0), "beam:divergence", "far divergence %.15g instead of %.15g", b.CalcBeamWidthRadius_m(1e7 * zr) / (1e7 * zr), wl / PI / w0);
      const double z = zr * g.logu(1e-4, 1e5) * (g.b() ? 1 : -1), w = b.CalcBeamWidthRadius_m(z);
      m.check(close(w * w - w0 * w0, z * z * wl * wl / PI / PI / w0 / w0, 1e-7 + 1e-14 * w * w / (w * w - w0 * w0)), "beam:hyperbola", "radius %.15g at %g m", w, z);
      m.check(close(b.CalcBeamWidthRadius_m(-z), w), "beam:symmetry", "radius %.15g at %g m, %.15g at the other side", w, z, b.CalcBeamWidthRadius_m(-z));
      // the power through the plane, and through a disc in it
      const double reach = 5.0, disc = g.u(0.1, 2.5);
      auto power = [&](double to) {
        const int n = 200;
        double s = 0;
        for (int i = 0; i <= n; i++) {
          const double r = to * w * i / n;
          s += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * b.CalcIntensity_W_m2(z, r) * 2 * PI * r;
        }
        return s * to * w / n / 3;
      };
      m.check(close(power(reach), P, 1e-5), "beam:power", "%.9g W through the plane at %g m instead of %.9g W", power(reach), z, P);
      m.check(close(power(disc), P * (1 - exp(-2 * disc * disc)), 1e-5), "beam:encircled", "%.9g W through the disc of %g beam radii instead of %.9g W", power(disc), disc, P * (1 - exp(-2 * disc * disc)));
      const double r = w * g.u(0, 4), i0 = b.CalcIntensity_W_m2(z, r);
      m.check(close(b.CalcIntensity_W_m2(z, w), b.CalcIntensity_W_m2(z, 0) * exp(-2.0)), "beam:edge", "intensity at the beam radius");
      m.check(close(b.CalcIntensity_W_m2(z, -r), i0) && close(b.CalcIntensity_W_m2(-z, r), i0), "beam:symmetry", "intensity %.15g, mirrored %.15g %.15g", i0, b.CalcIntensity_W_m2(z, -r), b.CalcIntensity_W_m2(-z, r));
      m.check(b.CalcIntensity_W_m2(z, r * 1.01) <= i0 * (1 + 1e-12), "beam:falls", "intensity grows away from the axis");
      m.check(b.CalcIntensity_W_m2(z * 1.01, 0) <= b.CalcIntensity_W_m2(z, 0) * (1 + 1e-12), "beam:falls", "intensity on the axis grows away from the waist");
      const double far = b.CalcIntensity_W_m2(z, w * 1e4);
      m.check(far >= 0 && far <= i0, "beam:falls", "intensity %g far from the axis", far);
      m.ev("planes");
      m.distinctv({z / zr, w0 / wl});
    }
  }
  m.require("planes", 1000);
}
GROUP(quantisation) {
  for (long c = 0; c < m.n(300000, 5000000); c++) {
    auto& g = m.rng;
    const double step = g.b(0.3) ? g.pick(std::vector<double>{1.0, 0.5, 0.1, 0.01, 1e-3, 1.0 / 65536, 3.0}) : g.logu(1e-12, 1e6);
    const double n = g.b(0.3) ? (double)g.i(-1000, 1000) : g.logu(1e-3, g.b(0.2) ? 1e14 : 1e9) * (g.b() ? 1 : -1);
    const double x = g.b(0.5) ? n * step : (std::trunc(n) + (g.b() ? 0.0 : g.u(-0.999, 0.999))) * step;
    if (c % 64 == 0) m.begin("quantisation of %.17g with %.17g", x, step);
    const double q = s2e::utilities::quantization(x, step), k = q / step, eps = std::fabs(x) * 1e-15;
    m.check(std::fabs(q - x) <= step * (1 + 1e-12) + 2 * eps, "quantisation:distance", "%.17g becomes %.17g with steps of %.17g", x, q, step);
    m.check(std::fabs(q) <= std::fabs(x) + 2 * eps, "quantisation:zero", "%.17g becomes %.17g with steps of %.17g", x, q, step);
    m.check(q == 0 || (q > 0) == (x > 0), "quantisation:sign", "%.17g becomes %.17g", x, q);
    m.check(std::fabs(k - std::round(k)) <= 1e-9 + 1e-15 * std::fabs(k), "quantisation:multiple", "%.17g becomes %.17g, no multiple of %.17g", x, q, step);
    m.check(s2e::utilities::quantization(-x, step) == -q, "quantisation:symmetric", "%.17g becomes %.17g, the negative one %.17g", x, q, s2e::utilities::quantization(-x, step));
    const double y = x + g.logu(1e-3, 1e3) * step;
    m.check(s2e::utilities::quantization(y, step) >= q, "quantisation:monotone", "%.17g becomes %.17g and the larger %.17g becomes %.17g", x, q, y, s2e::utilities::quantization(y, step));
    // one step further is one step further
    const double one = s2e::utilities::quantization((std::trunc(n) + 0.5 * (n < 0 ? -1 : 1)) * step, step);
    if (std::fabs(n) < 1e12) m.check(std::fabs(one / step - std::trunc(n)) < 1e-3, "quantisation:step", "the middle of step %.17g becomes step %.17g", std::trunc(n), one / step);
    const float f = s2e::utilities::quantization_float(x, step);
    m.check(std::fabs(f - q) <= 6e-8 * std::fabs(q) + 1e-45, "quantisation:float", "%.17g and %.9g", q, f);
    m.ev(std::fabs(n) > 2147483648.0 ? "large" : "small");
    m.distinctv({x, step});
  }
  m.require("large", 100);
}
GROUP(lag) {
  for (long c = 0; c < m.n(4000, 50000); c++) {
    auto& g = m.rng;
    const double dt = g.b(0.05) ? 0.0 : g.logu(1e-4, 100), tau = g.b(0.1) ? 0.0 : g.logu(1e-4, 1e3), gain = g.b() ? 1.0 : g.u(-5, 5);
    if (dt + tau <= 0) continue;
    m.begin("lag of %g s with steps of %g s, gain %g", tau, dt, gain);
    s2e::control_utilities::FirstOrderLag l(dt, tau, gain);
    m.check(l.GetOutput() == 0.0, "lag:start", "%g", l.GetOutput());
    double y = 0, u = g.u(-10, 10), since = 0, from = 0;
    int steps = 0;
    for (int k = 0; k < 200; k++) {
      if (g.b(0.03)) u = g.u(-10, 10), from = y, since = 0, steps = 0;
      const double out = l.Update(u), target = gain * u, e = 1e-12 * (1 + std::fabs(target) + std::fabs(y));
      since += dt, steps++;
      m.check(out == l.GetOutput(), "lag:output", "%g is returned and %g is the output", out, l.GetOutput());
      m.check(out >= std::min(y, target) - e && out <= std::max(y, target) + e, "lag:monotone", "from %.15g to %.15g with the target %.15g", y, out, target);
      if (tau == 0 && dt > 0) m.check(std::fabs(out - target) <= e, "lag:none", "%.15g instead of %.15g without a delay", out, target);
      if (dt == 0) m.check(std::fabs(out - y) <= e, "lag:time", "%.15g becomes %.15g in no time", y, out);
      // the exact solution of the first-order lag, to the accuracy of the steps
      const double exact = target + (from - target) * (tau > 0 ? exp(-since / tau) : 0.0), room = std::fabs(from - target) * (tau > 0 ? std::min(1.0, 0.7 * dt / tau) : 0.0) + 1e-9;
      if (dt > 0) m.check(std::fabs(out - exact) <= room, "lag:constant", "%.12g instead of %.12g %g s after the step from %g to %g", out, exact, since, from, target);
      y = out;
      m.ev("updates");
    }
    m.distinctv({dt, tau});
  }
  m.require("updates", 10000);
}
GROUP(bytes) {
  for (long c = 0; c < m.n(50000, 1000000); c++) {
    auto& g = m.rng;
    const size_t n = g.b(0.1) ? 0 : g.b(0.5) ? (size_t)g.i(1, 9) : (size_t)g.i(1, 300);
    if (c % 16 == 0) m.begin("copy of %zu bytes", n);
    // exactly as much room as needed, at any alignment
    const size_t a = (size_t)g.i(0, 7), b = (size_t)g.i(0, 7);
    std::unique_ptr<uint8_t[]> s(new uint8_t[n + a]), d(new uint8_t[n + b + 1]), back(new uint8_t[n]);
    for (size_t i = 0; i < n + a; i++) s[i] = (uint8_t)g.next();
    const std::vector<uint8_t> before(s.get(), s.get() + n + a);
    memset(d.get(), 0x5c, n + b + 1);
    void* r = s2e::utilities::endian_memcpy(d.get() + b, s.get() + a, n);
    m.check(r == d.get() + b, "bytes:result", "the destination is not returned");
    for (size_t i = 0; i < n; i++) m.check(d[b + i] == before[a + n - 1 - i], "bytes:order", "byte %zu of %zu is %02x instead of %02x", i, n, d[b + i], before[a + n - 1 - i]);
    for (size_t i = 0; i < b; i++) m.check(d[i] == 0x5c, "bytes:outside", "a byte before the destination of %zu bytes is changed", n);
    m.check(d[n + b] == 0x5c, "bytes:outside", "the byte after the destination of %zu bytes is changed", n);
    for (size_t i = 0; i < n + a; i++) m.check(s[i] == before[i], "bytes:source", "the source is changed");
    s2e::utilities::endian_memcpy(back.get(), d.get() + b, n);
    m.check(n == 0 || !memcmp(back.get(), s.get() + a, n), "bytes:reversible", "two copies of %zu bytes are not the source", n);
    m.ev(n ? "copies" : "empty");
    m.distinctv({(double)n, (double)(n ? before[a] : 0)});
  }
  // values of the types which are sent
  for (long c = 0; c < m.n(20000, 200000); c++) {
    auto& g = m.rng;
    uint32_t x = (uint32_t)g.next(), y = 0;
    s2e::utilities::endian_memcpy(&y, &x, 4);
    m.check(y == __builtin_bswap32(x), "bytes:value", "%08x becomes %08x", x, y);
    uint64_t p = g.next(), q = 0;
    s2e::utilities::endian_memcpy(&q, &p, 8);
    m.check(q == __builtin_bswap64(p), "bytes:value", "%016lx becomes %016lx", p, q);
  }
  m.require("empty", 10);
}
