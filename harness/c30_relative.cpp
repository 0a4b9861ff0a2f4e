// C30: relative information between spacecraft
#include "component.hpp"
//
#include <simulation/multiple_spacecraft/relative_information.hpp>
using ref::v;
using s2e::simulation::RelativeInformation;

struct State {
  V3 r, u;
  M3 b;  // inertial to body
};
struct Rtn {
  M3 d;
  V3 w;
};
static Rtn Local(const State& s) {
  const V3 e = ref::unit(s.r), h = ref::cross_(s.r, s.u), n = ref::unit(h), t = ref::cross_(n, e);
  Rtn l;
  const V3 rows[3] = {e, t, n};
  for (int i = 0; i < 3; i++) l.d[i][0] = rows[i].x, l.d[i][1] = rows[i].y, l.d[i][2] = rows[i].z;
  l.w = (1 / ref::dot_(s.r, s.r)) * h;
  return l;
}
static world::Settings Fleet(mon::Mon& m, int n, double step) {
  auto& g = m.rng;
  world::Settings s(n);
  s.Times(step, 1e7, Start(g));
  const bool near = g.b();
  const L a0 = 6378137.0L + g.logu(3e5, 3e7);
  const V3 d0 = gen::dir(g), p0 = ref::unit(ref::cross_(d0, gen::dir(g) + V3{0.001L, 0.002L, 0.003L}));
  for (int i = 0; i < n; i++) {
    V3 r, u;
    if (near) {
      const L far = g.logu(0.1, 1e5);
      r = a0 * d0 + far * gen::dir(g), u = sqrtl(3.986e14L / a0) * p0 + far * 1e-3L * gen::dir(g);
    } else {
      const L a = 6378137.0L + g.logu(3e5, 3e7);
      const V3 e1 = gen::dir(g), e2 = ref::unit(ref::cross_(e1, gen::dir(g) + V3{0.001L, 0.002L, 0.003L}));
      r = a * e1, u = sqrtl(3.986e14L / a) * ((L)g.u(1.0, 1.2) * e2 + (L)g.u(-0.1, 0.1) * e1);
    }
    s.Orbit(i, r, u, g.b(0.3) ? "KEPLER" : "RK4");
    s.Attitude(i, gen::quat(g), V3{g.n() * 0.01, g.n() * 0.01, g.n() * 0.01});
    s.NoNoise(i);
    s.NoDisturbance(i);
  }
  return s;
}

struct Watch {
  mon::Mon& m;
  void operator()(const RelativeInformation& ri, const std::vector<State>& s, bool log = true) {
    const int n = (int)s.size();
    std::vector<V3> want[4];
    for (int t = 0; t < n; t++)
      for (int r = 0; r < n; r++) {
        const V3 dp = s[t].r - s[r].r, du = s[t].u - s[r].u;
        const Rtn l = Local(s[r]);
        const V3 p = l.d * dp, u = l.d * (du - ref::cross_(l.w, dp));
        const L ep = 1e-12L * (ref::norm(s[t].r) + ref::norm(s[r].r)) + 1e-14L, eu = 1e-12L * (ref::norm(s[t].u) + ref::norm(s[r].u)) + ref::norm(l.w) * ep;
        const V3 gp = v(ri.GetRelativePosition_i_m(t, r)), gu = v(ri.GetRelativeVelocity_i_m_s(t, r)), gpr = v(ri.GetRelativePosition_rtn_m(t, r)), gur = v(ri.GetRelativeVelocity_rtn_m_s(t, r));
        m.check(ref::norm(gp - dp) <= ep, "relative:position", "position of %d from %d is %s instead of %s", t, r, S(gp).c_str(), S(dp).c_str());
        m.check(ref::norm(gu - du) <= eu, "relative:velocity", "velocity of %d from %d is %s instead of %s", t, r, S(gu).c_str(), S(du).c_str());
        m.check(ref::norm(gpr - p) <= 10 * ep, "relative:local position", "position of %d in the frame of %d is %s instead of %s", t, r, S(gpr).c_str(), S(p).c_str());
        m.check(ref::norm(gur - u) <= 10 * eu, "relative:local velocity", "velocity of %d in the frame of %d is %s instead of %s", t, r, S(gur).c_str(), S(u).c_str());
        m.check(fabsl(ri.GetRelativeDistance_m(t, r) - ref::norm(dp)) <= ep, "relative:distance", "%d is %.6f m from %d instead of %.6Lf", t, ri.GetRelativeDistance_m(t, r), r, ref::norm(dp));
        // the relative attitude carries the directions of the reference body to those of the target body
        const auto q = ri.GetRelativeAttitudeQuaternion(t, r);
        const M3 a = ref::rotq(q);
        L off = 0;
        for (int k = 0; k < 3; k++) {
          V3 x{k == 0 ? 1.0L : 0, k == 1 ? 1.0L : 0, k == 2 ? 1.0L : 0};
          off = std::max(off, ref::norm(a * (s[r].b * x) - s[t].b * x));
        }
        m.check(off < 1e-9, "relative:attitude", "attitude of %d from %d is off by %.3Le", t, r, off);
        // counterparts
        const V3 bp = v(ri.GetRelativePosition_i_m(r, t)), bu = v(ri.GetRelativeVelocity_i_m_s(r, t));
        m.check(ref::norm(gp + bp) == 0 && ref::norm(gu + bu) == 0 && ri.GetRelativeDistance_m(t, r) == ri.GetRelativeDistance_m(r, t), "relative:counterpart", "what %d and %d see of each other differs", t, r);
        const auto qb = ri.GetRelativeAttitudeQuaternion(r, t);
        const M3 id = ref::rotq(qb) * a;
        L wrong = 0;
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++) wrong = std::max(wrong, fabsl(id[i][j] - (i == j)));
        m.check(wrong < 1e-9, "relative:counter attitude", "attitudes of %d and %d seen from each other are not inverse to each other by %.3Le", t, r, wrong);
        if (r < t) want[0].push_back(dp), want[1].push_back(du), want[2].push_back(p), want[3].push_back(u);
        m.ev(t == r ? "itself" : "pairs");
        m.distinctv({(double)gp.x, (double)gu.x});
      }
    if (!log) return;
    // log
    std::vector<std::string> head, value;
    std::stringstream hs(ri.GetLogHeader()), vs(ri.GetLogValue());
    for (std::string x; std::getline(hs, x, ',');) head.push_back(x);
    for (std::string x; std::getline(vs, x, ',');) value.push_back(x);
    const size_t pairs = (size_t)n * (size_t)(n - 1) / 2;
    if (!m.check(head.size() == 12 * pairs && value.size() == head.size(), "relative:columns", "%zu columns and %zu values for %d spacecraft", head.size(), value.size(), n)) return;
    const char* kind[] = {"_position_from_satellite", "_velocity_from_satellite", "_position_from_satellite", "_velocity_from_satellite"};
    const char *frame[] = {"_i_", "_i_", "_rtn_", "_rtn_"}, *unit[] = {"[m]", "[m/s]", "[m]", "[m/s]"};
    size_t c = 0;
    for (int k = 0; k < 4; k++) {
      size_t p = 0;
      for (int t = 0; t < n; t++)
        for (int r = 0; r < t; r++, p++)
          for (int a = 0; a < 3; a++, c++) {
            const std::string name = "satellite" + std::to_string(t) + kind[k] + std::to_string(r) + frame[k] + "xyz"[a] + unit[k];
            m.check(head[c] == name, "relative:name", "column %s instead of %s", head[c].c_str(), name.c_str());
            const V3 x = want[k][p];
            const L w = a == 0 ? x.x : a == 1 ? x.y : x.z;
            m.check(fabsl(strtold(value[c].c_str(), nullptr) - w) <= 2e-5L * fabsl(w) + 1e-5L * (k % 2 ? 1e-3L : 1), "relative:logged", "%s is logged as %s instead of %.9Lg", name.c_str(), value[c].c_str(), w);
            m.ev("logged");
          }
    }
  }
};
static std::vector<State> States(world::World& W) {
  std::vector<State> s;
  for (auto& c : W.sc) s.push_back({v(c->Dyn().GetOrbit().GetPosition_i_m()), v(c->Dyn().GetOrbit().GetVelocity_i_m_s()), ref::rotq(c->Dyn().GetAttitude().GetQuaternion_i2b())});
  return s;
}
GROUP(pairs) {
  Watch watch{m};
  const long worlds = m.n(25, 250);
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    const int n = (int)g.i(1, 6);
    world::World W(Fleet(m, n, g.pick(std::vector<double>{1, 10, 30})));
    m.begin("%d spacecraft", n);
    for (long t = 0; t < 40; t++) {
      W.Step();
      for (auto& c : W.sc)
        if (g.b(0.5)) c->Dyn().SetAttitude().SetQuaternion_i2b(toq(gen::quat(g)));
      W.relative.Update();
      watch(W.relative, States(W), t % 5 == 0);
      // the values are those of the last update
      if (t % 10 == 0) {
        const auto before = States(W);
        W.Step();
        watch(W.relative, before, false);
        m.ev("held");
      }
    }
  }
  m.require("pairs", 3000);
  m.require("logged", 2000);
  m.require("held", 50);
}

// Other orders of registration, and spacecraft that leave and come back
GROUP(registration) {
  Watch watch{m};
  const long worlds = m.n(15, 150);
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    const int n = (int)g.i(2, 6);
    world::World W(Fleet(m, n, 10));
    m.begin("%d spacecraft", n);
    for (int trial = 0; trial < 10; trial++) {
      RelativeInformation ri;
      std::vector<int> order;
      for (int i = 0; i < n; i++) order.insert(order.begin() + g.i(0, i), i);
      for (int i : order) ri.RegisterDynamicsInfo((size_t)i, &W.sc[i]->Dyn());
      W.Step();
      ri.Update();
      watch(ri, States(W));
      for (int i = 0; i < n; i++) m.check(ri.GetReferenceSatDynamics((size_t)i) == &W.sc[i]->Dyn(), "relative:dynamics", "dynamics of %d", i);
      m.ev("orders");
      // the last ones leave
      const int stay = (int)g.i(0, n - 1);
      for (int i = n - 1; i >= stay; i--) ri.RemoveDynamicsInfo((size_t)i);
      W.Step();
      ri.Update();
      auto s = States(W);
      s.resize((size_t)stay);
      if (stay) watch(ri, s);
      // and others take their place
      std::vector<int> back;
      for (int i = stay; i < n; i++) back.insert(back.begin() + g.i(0, i - stay), i);
      for (int i : back) ri.RegisterDynamicsInfo((size_t)i, &W.sc[i]->Dyn());
      W.Step();
      ri.Update();
      watch(ri, States(W));
      m.ev("returns");
    }
  }
  m.require("orders", 100);
}

// The velocity in the local frame is the rate of the position in the local frame (two-body motion)
GROUP(rates) {
  const long worlds = m.n(40, 400);
  for (long w = 0; w < worlds; w++) {
    auto& g = m.rng;
    const double dt = g.pick(std::vector<double>{0.5, 1, 2});
    world::Settings s = Fleet(m, 2, dt);
    for (int i = 0; i < 2; i++) s.Sat(i, "ORBIT", "propagate_mode", "KEPLER");
    world::World W(s);
    m.begin("two spacecraft, %g s", dt);
    std::vector<V3> p, u;
    std::vector<L> rate;
    for (long t = 0; t < 60; t++) {
      W.Step();
      W.relative.Update();
      p.push_back(v(W.relative.GetRelativePosition_rtn_m(1, 0)));
      u.push_back(v(W.relative.GetRelativeVelocity_rtn_m_s(1, 0)));
      const auto st = States(W);
      rate.push_back(std::max(ref::norm(Local(st[0]).w), ref::norm(Local(st[1]).w)));
      if (t < 4) continue;
      const size_t k = p.size() - 3;
      const V3 d = (1 / (12 * (L)dt)) * ((p[k - 2] - p[k + 2]) + 8.0L * (p[k + 1] - p[k - 1]));
      // the times are those of the Julian day: 4e-5 s
      const L size = ref::norm(p[k]) * rate[k] + ref::norm(u[k]) + 1e-6L;
      m.check(ref::norm(d - u[k]) < size * (3e-4L / dt + 30 * powl(rate[k] * dt, 4)) + 1e-4L, "relative:rate", "the position changes with %s m/s, the velocity is %s m/s", S(d).c_str(), S(u[k]).c_str());
      m.ev("rates");
      m.distinctv({(double)d.x});
    }
  }
  m.require("rates", 2000);
}
