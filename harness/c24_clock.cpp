// C24: components run exactly when their prescaler and power allow
#include "component.hpp"
//
#include <components/base/component.hpp>
#include <components/ports/power_port.hpp>
#include <functional>
#include <simulation/spacecraft/spacecraft.hpp>

using namespace s2e::components;
using s2e::environment::ClockGenerator;

// Everything that a component was told, by its identity
struct Calls {
  int main = 0, fast = 0, off = 0, count = 0;
};
struct Probe : Component {
  int id;
  std::map<int, Calls>* log;
  std::set<int>* alive;
  std::function<void(int)> action;  // what it does when it runs: 0 main, 1 fast, 2 off
  static int next;
  Probe(unsigned pre, ClockGenerator* clock, unsigned fast, std::map<int, Calls>* l, std::set<int>* a) : Component(pre, clock, fast), id(next++), log(l), alive(a) { alive->insert(id); }
  Probe(unsigned pre, ClockGenerator* clock, std::map<int, Calls>* l, std::set<int>* a) : Component(pre, clock), id(next++), log(l), alive(a) { alive->insert(id); }
  Probe(unsigned pre, ClockGenerator* clock, PowerPort* port, unsigned fast, std::map<int, Calls>* l, std::set<int>* a) : Component(pre, clock, port, fast), id(next++), log(l), alive(a) { alive->insert(id); }
  Probe(const Probe& o) : Component(o), id(next++), log(o.log), alive(o.alive) { alive->insert(id); }
  Probe& operator=(const Probe& o) {
    Component::operator=(o);
    log = o.log, alive = o.alive;  // keeps its identity
    return *this;
  }
  ~Probe() override { alive->erase(id); }
  void Run(int kind) {
    if (action) {
      auto a = action;  // the probe may be destroyed by what it does
      a(kind);
    }
  }
  void MainRoutine(const int t) override {
    (*log)[id].main++, (*log)[id].count = t;
    Run(0);
  }
  void FastUpdate() override {
    (*log)[id].fast++;
    Run(1);
  }
  void PowerOffRoutine() override {
    (*log)[id].off++;
    Run(2);
  }
};
int Probe::next = 0;

struct Entry {
  std::unique_ptr<Probe> p;
  unsigned pre, fast;
  PowerPort* port;  // nullptr for a component that is always on
  bool needs = false;
  int clock = 0;
};
static void Expect(mon::Mon& m, const Entry& e, const Calls& c, unsigned t, const char* key) {
  const bool main = t % e.pre == 0, fast = e.needs && t % e.fast == 0, on = !e.port || e.port->GetIsOn();
  const int off = on ? 0 : (int)main + (int)fast;
  m.check(c.main == (main && on) && c.fast == (fast && on) && c.off == off, key, "tick %u of a component (1/%u, fast 1/%u %s) that is %s: %d main, %d fast, %d off", t, e.pre, e.fast, e.needs ? "enabled" : "disabled", on ? "on" : "off", c.main, c.fast, c.off);
  if (main && on) m.check(c.count == (int)t, key, "tick %u was announced as %d", t, c.count);
  if (main && on) m.ev("main");
  if (fast && on) m.ev("fast");
  if (off) m.ev("off");
  if (!main && !fast) m.ev("idle");
}

GROUP(registry) {
  for (long k = 0; k < m.n(600, 8000); k++) {
    std::map<int, Calls> log;
    std::set<int> alive;
    const int clocks = (int)m.rng.i(1, 3);
    std::vector<std::unique_ptr<ClockGenerator>> clock;
    std::vector<unsigned> now((size_t)clocks, 0);
    for (int i = 0; i < clocks; i++) clock.emplace_back(new ClockGenerator);
    std::vector<std::unique_ptr<PowerPort>> ports;
    for (int i = 0; i < 4; i++) ports.push_back(std::make_unique<PowerPort>(i, 1.0, 5.0, 1.0));
    std::vector<Entry> all;
    auto prescaler = [&] { return (unsigned)(m.rng.b(0.05) ? 0 : m.rng.b() ? m.rng.i(1, 4) : m.rng.i(1, 40)); };
    m.begin("%d clocks", clocks);
    for (int i = 0; i < 250; i++) {
      switch (m.rng.i(0, 13)) {
        case 0:
        case 1: {
          Entry e;
          const unsigned pre = prescaler(), fast = prescaler();
          e.clock = (int)m.rng.i(0, clocks - 1), e.pre = std::max(pre, 1u), e.fast = std::max(fast, 1u), e.port = nullptr;
          ClockGenerator* c = clock[(size_t)e.clock].get();
          const int kind = (int)m.rng.i(0, 3);
          if (kind == 0) {
            e.fast = 1, e.p = std::make_unique<Probe>(pre, c, &log, &alive);
          } else if (kind == 1) {
            e.p = std::make_unique<Probe>(pre, c, fast, &log, &alive);
          } else {
            e.port = ports[(size_t)m.rng.i(0, 3)].get();
            e.p = std::make_unique<Probe>(pre, c, e.port, fast, &log, &alive);
          }
          m.check(!e.p->GetNeedsFastUpdate(), "registry:fast", "fast updates are enabled by default");
          all.push_back(std::move(e));
          m.ev("create");
          break;
        }
        case 2:
          if (!all.empty()) {
            const Entry& o = all[(size_t)m.rng.i(0, (long)all.size() - 1)];
            Entry e{std::make_unique<Probe>(*o.p), o.pre, o.fast, o.port, o.needs, o.clock};
            all.push_back(std::move(e));
            m.ev("copy");
          }
          break;
        case 3:
          if (!all.empty()) {
            Entry &a = all[(size_t)m.rng.i(0, (long)all.size() - 1)], &b = all[(size_t)m.rng.i(0, (long)all.size() - 1)];
            *a.p = *b.p;
            m.ev(a.clock == b.clock ? "assign" : "assign_other_clock");
            a.pre = b.pre, a.fast = b.fast, a.port = b.port, a.needs = b.needs, a.clock = b.clock;
          }
          break;
        case 4:
          if (!all.empty()) {
            const size_t j = (size_t)m.rng.i(0, (long)all.size() - 1);
            all.erase(all.begin() + (long)j);
            m.ev("destroy");
          }
          break;
        case 5:
          if (!all.empty()) {
            Entry& e = all[(size_t)m.rng.i(0, (long)all.size() - 1)];
            e.needs = m.rng.b(0.7);
            e.p->SetNeedsFastUpdate(e.needs);
          }
          break;
        case 6:
          ports[(size_t)m.rng.i(0, 3)]->SetVoltage_V(m.rng.b() ? 5.5 : m.rng.u(0, 6));
          break;
        case 7:
          if (m.rng.b(0.1)) {
            const size_t c = (size_t)m.rng.i(0, clocks - 1);
            clock[c]->ClearTimerCount();
            now[c] = 0;
            m.ev("clear");
          } else if (!all.empty()) {
            // a tick by hand reaches this component only
            Entry& e = all[(size_t)m.rng.i(0, (long)all.size() - 1)];
            const unsigned t = (unsigned)m.rng.i(0, m.rng.b() ? 100 : 2000000000);
            log.clear();
            const bool needs = e.needs;
            e.needs = false;
            e.p->Tick(t);
            Expect(m, e, log[e.p->id], t, "registry:tick");
            log.clear();
            e.p->FastTick(t);
            const bool fast = t % e.fast == 0, on = !e.port || e.port->GetIsOn();
            const Calls& c = log[e.p->id];
            m.check(c.main == 0 && c.fast == (fast && on) && c.off == (fast && !on), "registry:fast_tick", "fast tick %u of a component (fast 1/%u) that is %s: %d main, %d fast, %d off", t, e.fast, on ? "on" : "off", c.main, c.fast, c.off);
            m.check(log.size() == 1, "registry:tick", "a tick of one component reached others");
            e.needs = needs;
          }
          break;
        default: {
          const size_t c = (size_t)m.rng.i(0, clocks - 1);
          log.clear();
          clock[c]->TickToComponents();
          std::set<int> known;
          for (const Entry& e : all) {
            known.insert(e.p->id);
            if (e.clock == (int)c) {
              Expect(m, e, log[e.p->id], now[c], "registry:run");
            } else {
              m.check(!log.count(e.p->id), "registry:other_clock", "a component ran with the clock of another");
            }
          }
          for (auto& [id, calls] : log) m.check(known.count(id) > 0, "registry:destroyed", "a component that was destroyed ran");
          now[c]++;
          m.distinctv({(double)all.size(), (double)now[c], (double)ports[0]->GetIsOn(), (double)ports[1]->GetIsOn(), (double)k});
        }
      }
    }
    while (!all.empty()) {
      all.erase(all.begin() + m.rng.i(0, (long)all.size() - 1));
      log.clear();
      for (auto& c : clock) c->TickToComponents();
      for (auto& [id, calls] : log) m.check(alive.count(id) > 0, "registry:destroyed", "a component that was destroyed ran");
    }
    for (auto& c : clock) c->TickToComponents();
  }
  for (const char* e : {"create", "copy", "assign", "assign_other_clock", "destroy", "clear", "main", "fast", "off", "idle"}) m.require(e, 200);
}

// Components come and go while the clock is ticking: by the work of other components and their own
GROUP(inside) {
  for (long k = 0; k < m.n(1500, 20000); k++) {
    std::map<int, Calls> log;
    std::set<int> alive;
    ClockGenerator clock;
    std::map<int, std::unique_ptr<Probe>> all;
    std::map<int, std::array<unsigned, 3>> spec;  // prescalers and whether fast updates are enabled
    m.begin("components that come and go during a tick");
    std::set<int> gone, born;
    std::function<void(int, int)> act;
    auto add = [&](std::unique_ptr<Probe> p, unsigned pre, unsigned fast, bool needs) {
      const int id = p->id;
      p->SetNeedsFastUpdate(needs);
      p->action = [&act, id](int kind) { act(id, kind); };
      spec[id] = {pre, fast, needs};
      all[id] = std::move(p);
      born.insert(id);
    };
    act = [&](int id, int kind) {
      (void)kind;
      m.check(alive.count(id) > 0 && !gone.count(id), "inside:destroyed", "a component that was destroyed ran");
      if (!m.rng.b(0.25)) return;
      const long what = m.rng.i(0, 5);
      if (what == 0) {
        // another one goes
        auto it = all.begin();
        std::advance(it, m.rng.i(0, (long)all.size() - 1));
        const int victim = it->first;
        gone.insert(victim);
        all.erase(it);
        m.ev(victim == id ? "itself" : victim < id ? "earlier" : "later");
      } else if (what == 1) {
        gone.insert(id);
        all.erase(id);
        m.ev("itself");
      } else if (what == 2) {
        for (long j = m.rng.i(1, 9); j > 0 && all.size() < 60; j--) {
          const unsigned pre = (unsigned)m.rng.i(1, 3), fast = (unsigned)m.rng.i(1, 3);
          add(std::make_unique<Probe>(pre, &clock, fast, &log, &alive), pre, fast, m.rng.b());
          m.ev("new");
        }
      } else if (what == 3 && all.size() < 60) {
        const auto s = spec[id];
        add(std::make_unique<Probe>(*all[id]), s[0], s[1], s[2]);
        m.ev("copy");
      } else if (what == 4) {
        Probe temporary(*all[id]);
        temporary.action = nullptr;
        m.ev("temporary");
      }
    };
    for (long j = m.rng.i(1, 10); j > 0; j--) {
      const unsigned pre = (unsigned)m.rng.i(1, 3), fast = (unsigned)m.rng.i(1, 3);
      add(std::make_unique<Probe>(pre, &clock, fast, &log, &alive), pre, fast, m.rng.b());
    }
    for (unsigned t = 0; t < 12; t++) {
      log.clear(), gone.clear(), born.clear();
      clock.TickToComponents();
      for (auto& [id, p] : all) {
        const Calls c = log[id];
        const auto s = spec[id];
        const int main = t % s[0] == 0, fast = s[2] && t % s[1] == 0;
        if (born.count(id)) {
          m.check(c.main <= main && c.fast <= fast, "inside:born", "a component that was created during tick %u ran %d times", t, c.main + c.fast);
        } else {
          m.check(c.main == main && c.fast == fast && c.off == 0, "inside:run", "tick %u of a component (1/%u, fast 1/%u %s): %d main, %d fast, %d off", t, s[0], s[1], s[2] ? "enabled" : "disabled", c.main, c.fast, c.off);
        }
      }
      for (int id : gone) m.check(log[id].main <= 1 && log[id].fast <= 1, "inside:gone", "a component that was destroyed ran twice");
      m.distinctv({(double)all.size(), (double)gone.size(), (double)born.size(), (double)t});
    }
  }
  for (const char* e : {"itself", "earlier", "later", "new", "copy", "temporary"}) m.require(e, 200);
}

// Components of a spacecraft follow the component period of the simulation
GROUP(spacecraft) {
  for (long k = 0; k < m.n(30, 300); k++) {
    const int n = (int)m.rng.i(1, 3);
    world::Settings s(n);
    const double step = m.rng.pick(std::vector<double>{0.1, 0.25, 1});
    const int every = (int)m.rng.i(1, 5);
    s.Times(step, 1000);
    s.B("TIME", "component_update_period_s", step * every);
    for (int i = 0; i < n; i++) s.NoDisturbance(i);
    world::World W(s);
    std::map<int, Calls> log;
    std::set<int> alive;
    std::vector<std::unique_ptr<PowerPort>> ports;
    for (int i = 0; i < 3; i++) ports.push_back(std::make_unique<PowerPort>(i, 1.0, 5.0, 1.0));
    std::vector<Entry> all;
    m.begin("%d spacecraft with steps of %g s, components every %d steps", n, step, every);
    unsigned ticks = 0;
    for (int i = 1; i <= 120; i++) {
      if (m.rng.b(0.2)) {
        Entry e;
        e.clock = (int)m.rng.i(0, n - 1), e.pre = (unsigned)m.rng.i(1, 6), e.fast = (unsigned)m.rng.i(1, 4), e.needs = m.rng.b(), e.port = ports[(size_t)m.rng.i(0, 2)].get();
        e.p = std::make_unique<Probe>(e.pre, &W.sc[(size_t)e.clock]->Clock(), e.port, e.fast, &log, &alive);
        e.p->SetNeedsFastUpdate(e.needs);
        all.push_back(std::move(e));
      }
      if (m.rng.b(0.1) && !all.empty()) all.erase(all.begin() + m.rng.i(0, (long)all.size() - 1));
      ports[(size_t)m.rng.i(0, 2)]->SetVoltage_V(m.rng.b(0.7) ? 5.5 : 1.0);
      log.clear();
      W.Step();
      if (W.Time().GetCompoUpdateFlag()) {
        for (const Entry& e : all) Expect(m, e, log[e.p->id], ticks, "spacecraft:run");
        ticks++;
        m.ev("tick");
      } else {
        m.check(log.empty(), "spacecraft:between", "components ran between two component periods");
        m.ev("no_tick");
      }
      m.distinctv({(double)every, (double)ticks, (double)all.size()});
    }
    m.check(ticks == (unsigned)(every == 1 ? 120 : 121 / every), "spacecraft:ticks", "%u ticks in 120 steps with components every %d steps", ticks, every);
    all.clear();
    for (int i = 0; i < 3; i++) W.Step();
  }
  m.require("tick", 500), m.require("no_tick", 200);
}
