// C23: data ports deliver bytes in order, once, and only where they were sent
#include "component.hpp"
//
#include <components/base/gpio_connection_with_obc.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/base/uart_communication_with_obc.hpp>
#include <components/ports/gpio_port.hpp>
#include <components/ports/i2c_port.hpp>
#include <components/ports/uart_port.hpp>
#include <components/real/cdh/c2a_communication.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <deque>
#include <utilities/ring_buffer.hpp>
#include <utilities/slip.hpp>

using namespace s2e::components;
using Bytes = std::vector<unsigned char>;

static Bytes Random(mon::Rng& r, size_t n) {
  Bytes b(n);
  // small alphabets make repeated and special bytes likely, counters make every byte recognisable
  const int kind = (int)r.i(0, 2);
  static unsigned char count = 0;
  for (auto& x : b) x = kind == 0 ? (unsigned char)r.i(0, 255) : kind == 1 ? count++ : r.pick(std::vector<unsigned char>{0, 0xc0, 0xdb, 0xdc, 0xdd, 0xff, 7});
  return b;
}
static std::string Hex(const Bytes& b) {
  std::string s;
  for (size_t i = 0; i < b.size() && i < 40; i++) s += mon::F("%02x", b[i]);
  return s + (b.size() > 40 ? "..." : "");
}

// One direction of a serial line
struct Line {
  std::deque<unsigned char> queue;
  size_t capacity;
  bool overrun = false;
};
// Writes through `write` (buffer, offset, length) like a user: the data stands somewhere inside a buffer that ends right behind it
template <class F>
static void Send(mon::Mon& m, Line& line, size_t n, F write, const char* key) {
  const size_t offset = m.rng.b() ? 0 : (size_t)m.rng.i(0, 20);
  Bytes data = Random(m.rng, n), buffer = Random(m.rng, offset);
  buffer.insert(buffer.end(), data.begin(), data.end());
  if (buffer.empty()) buffer.reserve(1);
  const Bytes before = buffer;
  const int ret = write(buffer.data(), (unsigned)offset, (unsigned)n);
  m.check(ret == (int)n, key, "%d bytes reported for a write of %zu", ret, n);
  m.check(buffer == before, key, "the written data was changed");
  line.queue.insert(line.queue.end(), data.begin(), data.end());
  m.ev("write");
}
template <class F>
static void Receive(mon::Mon& m, Line& line, size_t n, F read, const char* key) {
  const size_t offset = m.rng.b() ? 0 : (size_t)m.rng.i(0, 20);
  Bytes buffer = Random(m.rng, offset + n);
  Bytes want = buffer;
  if (buffer.empty()) buffer.reserve(1);
  const size_t k = std::min(n, line.queue.size());
  for (size_t i = 0; i < k; i++) want[offset + i] = line.queue[i];
  const int ret = read(buffer.data(), (unsigned)offset, (unsigned)n);
  m.check(ret == (int)k, key, "%d bytes reported for a read of %zu with %zu waiting", ret, n, line.queue.size());
  m.check(buffer == want, key, "read %s instead of %s (offset %zu, %zu of %zu bytes)", Hex(buffer).c_str(), Hex(want).c_str(), offset, k, n);
  line.queue.erase(line.queue.begin(), line.queue.begin() + (long)k);
  m.ev(k == 0 ? "read_nothing" : k < n ? "read_all" : "read_part");
}
// A length that often is exactly what fits or waits
static size_t Pick(mon::Rng& r, size_t limit) {
  switch (r.i(0, 4)) {
    case 0: return limit;
    case 1: return (size_t)r.i(0, std::min<long>(3, (long)limit));
    case 2: return limit / 2;
    default: return (size_t)r.i(0, (long)limit);
  }
}
static size_t Space(const Line& l) { return l.capacity - l.queue.size(); }

GROUP(uart_port) {
  for (long k = 0; k < m.n(4000, 60000); k++) {
    const bool standard = m.rng.b(0.1);
    size_t size[2] = {(size_t)(m.rng.b() ? m.rng.i(2, 12) : m.rng.i(2, 2000)), (size_t)(m.rng.b() ? m.rng.i(2, 12) : m.rng.i(2, 2000))};
    if (m.rng.b(0.05)) size[m.rng.i(0, 1)] = 0;  // stands for the default size
    auto port = standard ? std::make_unique<UartPort>() : std::make_unique<UartPort>((unsigned)size[0], (unsigned)size[1]);
    Line line[2];  // rx, tx
    for (int d = 0; d < 2; d++) line[d].capacity = (standard || size[d] == 0 ? 1024 : size[d]) - 1;
    m.begin("serial port %s with %zu and %zu bytes", standard ? "by default" : "", size[0], size[1]);
    const int ops = (int)m.rng.i(1, 60);
    for (int i = 0; i < ops; i++) {
      const int d = (int)m.rng.i(0, 1);
      if (m.rng.b()) {
        Send(m, line[d], Pick(m.rng, Space(line[d])), [&](unsigned char* b, unsigned o, unsigned n) { return d ? port->WriteTx(b, o, n) : port->WriteRx(b, o, n); }, "uart:write");
        if (Space(line[d]) == 0) m.ev("full");
      } else {
        Receive(m, line[d], (size_t)m.rng.i(0, m.rng.b() ? 5 : (long)line[d].capacity + 5), [&](unsigned char* b, unsigned o, unsigned n) { return d ? port->ReadTx(b, o, n) : port->ReadRx(b, o, n); }, "uart:read");
      }
      m.distinctv({(double)line[0].capacity, (double)line[0].queue.size(), (double)line[1].capacity, (double)line[1].queue.size()});
    }
    // everything that was sent arrives in the end
    for (int d = 0; d < 2; d++) Receive(m, line[d], line[d].capacity + 1, [&](unsigned char* b, unsigned o, unsigned n) { return d ? port->ReadTx(b, o, n) : port->ReadRx(b, o, n); }, "uart:rest");
    // an overrun loses data but stays inside the buffer, and does not touch the other direction
    const int d = (int)m.rng.i(0, 1);
    Send(m, line[1 - d], Pick(m.rng, line[1 - d].capacity), [&](unsigned char* b, unsigned o, unsigned n) { return d ? port->WriteRx(b, o, n) : port->WriteTx(b, o, n); }, "uart:write");
    for (int i = 0; i < 5; i++) {
      Line lost;
      Send(m, lost, (size_t)m.rng.i(0, 3 * (long)line[d].capacity + 3), [&](unsigned char* b, unsigned o, unsigned n) { return d ? port->WriteTx(b, o, n) : port->WriteRx(b, o, n); }, "uart:overrun");
      Bytes b((size_t)m.rng.i(1, 2 * (long)line[d].capacity));
      const int ret = d ? port->ReadTx(b.data(), 0, (unsigned)b.size()) : port->ReadRx(b.data(), 0, (unsigned)b.size());
      m.check(ret >= 0 && (size_t)ret <= std::min(b.size(), line[d].capacity), "uart:overrun", "%d bytes read after an overrun from a buffer of %zu", ret, line[d].capacity);
      m.ev("overrun");
    }
    Receive(m, line[1 - d], line[1 - d].capacity + 1, [&](unsigned char* b, unsigned o, unsigned n) { return d ? port->ReadRx(b, o, n) : port->ReadTx(b, o, n); }, "uart:rest");
  }
  for (const char* e : {"write", "read_nothing", "read_all", "read_part", "full", "overrun"}) m.require(e, 1000);
}

// The ring buffer alone, over a long life
GROUP(ring_buffer) {
  for (long k = 0; k < m.n(60, 600); k++) {
    const size_t size = (size_t)(m.rng.b() ? m.rng.i(2, 9) : m.rng.i(2, 300));
    s2e::utilities::RingBuffer ring((int)size);
    Line line;
    line.capacity = size - 1;
    m.begin("ring buffer of %zu bytes", size);
    for (int i = 0; i < 3000; i++) {
      if (m.rng.b()) {
        Send(m, line, Pick(m.rng, Space(line)), [&](unsigned char* b, unsigned o, unsigned n) { return ring.Write(b, o, n); }, "ring:write");
      } else {
        Receive(m, line, Pick(m.rng, line.capacity + 1), [&](unsigned char* b, unsigned o, unsigned n) { return ring.Read(b, o, n); }, "ring:read");
      }
      m.distinctv({(double)size, (double)line.queue.size(), (double)(i % 64)});
    }
  }
}

// Ports of an on-board computer
struct ObcBox {
  s2e::environment::ClockGenerator clock;
  std::unique_ptr<OnBoardComputer> obc;
  ObcWithC2a* c2a = nullptr;
  explicit ObcBox(mon::Rng& r) {
    if (r.b()) {
      obc = std::make_unique<OnBoardComputer>(&clock);
    } else {
      obc = std::make_unique<ObcWithC2a>(&clock);
      c2a = (ObcWithC2a*)obc.get();
    }
  }
  // calls of the flight software: through the object, its static functions or the functions for C
  int Send(mon::Rng& r, int p, unsigned char* b, unsigned o, unsigned n) {
    const int way = c2a ? (int)r.i(0, 2) : 0;
    return way == 0 ? obc->SendFromObc(p, b, (int)o, (int)n) : way == 1 ? ObcWithC2a::SendFromObc_C2A(p, b, (int)o, (int)n) : OBC_C2A_SendFromObc(p, b, (int)o, (int)n);
  }
  int Receive(mon::Rng& r, int p, unsigned char* b, unsigned o, unsigned n) {
    const int way = c2a ? (int)r.i(0, 2) : 0;
    return way == 0 ? obc->ReceivedByObc(p, b, (int)o, (int)n) : way == 1 ? ObcWithC2a::ReceivedByObc_C2A(p, b, (int)o, (int)n) : OBC_C2A_ReceivedByObc(p, b, (int)o, (int)n);
  }
};

GROUP(obc_uart) {
  for (long k = 0; k < m.n(600, 8000); k++) {
    ObcBox box(m.rng);
    auto& obc = *box.obc;
    struct Wire {
      Line up, down;  // to the computer, to the component
    };
    std::map<int, Wire> wires;
    m.begin("serial ports of %s", box.c2a ? "a computer with flight software" : "a computer");
    for (int i = 0; i < 150; i++) {
      const int p = m.rng.b(0.9) ? (int)m.rng.i(0, 6) : (int)m.rng.i(-1000000, 1000000);
      const bool open = wires.count(p) > 0;
      unsigned char dummy[4] = {1, 2, 3, 4};
      switch (m.rng.i(0, 9)) {
        case 0: {
          const size_t n = (size_t)m.rng.i(2, 100);
          const int ret = obc.ConnectComPort(p, (int)n, (int)n);
          m.check(ret == (open ? -1 : 0), "obc:connect", "connecting port %d (%s) returned %d", p, open ? "in use" : "free", ret);
          if (!open) wires[p].up.capacity = wires[p].down.capacity = n - 1;
          m.ev(open ? "connect_again" : "connect");
          break;
        }
        case 1: {
          if (!m.rng.b(0.4)) break;
          const int ret = obc.CloseComPort(p);
          m.check(ret == (open ? 0 : -1), "obc:close", "closing port %d (%s) returned %d", p, open ? "in use" : "free", ret);
          wires.erase(p);
          m.ev(open ? "close" : "close_free");
          break;
        }
        default: {
          if (!open) {
            const int ret[4] = {box.Send(m.rng, p, dummy, 0, 4), box.Receive(m.rng, p, dummy, 0, 4), obc.SendFromCompo(p, dummy, 0, 4), obc.ReceivedByCompo(p, dummy, 0, 4)};
            for (int r : ret) m.check(r == -1, "obc:free_port", "an access to port %d, which is not connected, returned %d", p, r);
            m.check(dummy[0] == 1 && dummy[3] == 4, "obc:free_port", "port %d, which is not connected, delivered data", p);
            m.ev("free_port");
            break;
          }
          Wire& w = wires[p];
          switch (m.rng.i(0, 3)) {
            case 0: Send(m, w.down, Pick(m.rng, Space(w.down)), [&](unsigned char* b, unsigned o, unsigned n) { return box.Send(m.rng, p, b, o, n); }, "obc:send"); break;
            case 1: Receive(m, w.down, (size_t)m.rng.i(0, 40), [&](unsigned char* b, unsigned o, unsigned n) { return obc.ReceivedByCompo(p, b, (int)o, (int)n); }, "obc:received_by_component"); break;
            case 2: Send(m, w.up, Pick(m.rng, Space(w.up)), [&](unsigned char* b, unsigned o, unsigned n) { return obc.SendFromCompo(p, b, (int)o, (int)n); }, "obc:send_from_component"); break;
            default: Receive(m, w.up, (size_t)m.rng.i(0, 40), [&](unsigned char* b, unsigned o, unsigned n) { return box.Receive(m.rng, p, b, o, n); }, "obc:received"); break;
          }
          m.distinctv({(double)w.up.queue.size(), (double)w.down.queue.size(), (double)wires.size()});
        }
      }
    }
    while (!wires.empty()) {
      const int p = wires.begin()->first;
      Receive(m, wires[p].up, 100, [&](unsigned char* b, unsigned o, unsigned n) { return box.Receive(m.rng, p, b, o, n); }, "obc:rest");
      Receive(m, wires[p].down, 100, [&](unsigned char* b, unsigned o, unsigned n) { return obc.ReceivedByCompo(p, b, (int)o, (int)n); }, "obc:rest");
      m.check(obc.CloseComPort(p) == 0, "obc:close", "port %d could not be closed", p);
      wires.erase(p);
    }
  }
  for (const char* e : {"connect", "connect_again", "close", "close_free", "free_port", "write", "read_all", "read_part"}) m.require(e, 200);
}

// A component on a serial line
struct SerialComponent : UartCommunicationWithObc {
  using UartCommunicationWithObc::ReceiveCommand;
  using UartCommunicationWithObc::SendTelemetry;
  Bytes telemetry;  // the frame to send
  size_t offset = 0;
  std::vector<std::pair<int, Bytes>> parsed;
  int answer = 0;
  SerialComponent(unsigned port, OnBoardComputer* obc) : UartCommunicationWithObc(port, obc) {}
  SerialComponent(unsigned port, unsigned tx, unsigned rx, OnBoardComputer* obc) : UartCommunicationWithObc(port, tx, rx, obc) {}
  SerialComponent(int port, OnBoardComputer* obc, unsigned hils) : UartCommunicationWithObc(port, obc, hils, 115200, nullptr) {}
  int ParseCommand(const int size) override {
    parsed.emplace_back(size, rx_buffer_);
    return answer;
  }
  int GenerateTelemetry() override {
    for (size_t i = 0; i < telemetry.size() && offset + i < tx_buffer_.size(); i++) tx_buffer_[offset + i] = telemetry[i];
    return (int)telemetry.size();
  }
};
GROUP(uart_component) {
  for (long k = 0; k < m.n(1500, 20000); k++) {
    ObcBox box(m.rng);
    struct Unit {
      std::unique_ptr<SerialComponent> c;
      size_t tx, rx;
      Line up, down;
    };
    std::map<int, Unit> units;
    m.begin("components on serial lines");
    for (int i = 0; i < 60; i++) {
      const int p = (int)m.rng.i(0, 4);
      world::Quiet quiet;
      if (!units.count(p)) {
        Unit& u = units[p];
        u.tx = u.rx = 1024;
        const int kind = (int)m.rng.i(0, 3);
        if (kind == 0) {
          u.c = std::make_unique<SerialComponent>((unsigned)p, box.obc.get());
        } else if (kind == 1) {
          u.c = std::make_unique<SerialComponent>(p, box.obc.get(), 3u);
        } else {
          u.tx = (size_t)m.rng.i(2, m.rng.b() ? 20 : 1500), u.rx = (size_t)m.rng.i(2, m.rng.b() ? 20 : 1500);
          u.c = std::make_unique<SerialComponent>((unsigned)p, (unsigned)u.tx, (unsigned)u.rx, box.obc.get());
          u.tx = std::min<size_t>(u.tx, 1024), u.rx = std::min<size_t>(u.rx, 1024);
        }
        u.up.capacity = u.tx - 1, u.down.capacity = u.rx - 1;
        m.check(u.c->IsConnected(), "component:connected", "the component is not connected to its port");
        continue;
      }
      Unit& u = units[p];
      const long op = m.rng.i(0, 9);
      if (op == 0) {
        SerialComponent second((unsigned)p, box.obc.get());
        m.check(!second.IsConnected(), "component:connected", "two components are connected to port %d", p);
        m.ev("second");
      } else if (op == 1) {
        units.erase(p);
        m.ev("removed");
      } else if (op <= 3) {
        Send(m, u.down, Pick(m.rng, Space(u.down)), [&](unsigned char* b, unsigned o, unsigned n) { return box.Send(m.rng, p, b, o, n); }, "component:send");
      } else if (op <= 5) {
        Receive(m, u.up, (size_t)m.rng.i(0, 1100), [&](unsigned char* b, unsigned o, unsigned n) { return box.Receive(m.rng, p, b, o, n); }, "component:telemetry");
      } else if (op <= 7) {
        // a command
        size_t offset = m.rng.b(0.7) ? 0 : (size_t)m.rng.i(0, (long)u.rx), n = Pick(m.rng, u.rx - offset);
        const long hostile = m.rng.i(0, 12);
        if (hostile == 0) offset = u.rx + (size_t)m.rng.i(1, 10);
        if (hostile == 1) n = u.rx - offset + (size_t)m.rng.i(1, 10);
        if (hostile == 2) offset = (size_t)m.rng.i(1, (long)u.rx), n = 0xffffffffu - (size_t)m.rng.i(0, (long)offset - 1);
        const bool fits = offset + n <= u.rx;
        u.c->parsed.clear();
        u.c->answer = (int)m.rng.i(-3, 100);
        const int ret = u.c->ReceiveCommand((unsigned)offset, (unsigned)n);
        const size_t got = fits ? std::min(n, u.down.queue.size()) : 0;
        if (!fits) {
          m.check(ret == -1 && u.c->parsed.empty(), "component:refused", "a command of %zu bytes at %zu for a buffer of %zu returned %d", n, offset, u.rx, ret);
          m.ev("command_refused");
        } else if (got == 0) {
          m.check(ret == 0 && u.c->parsed.empty(), "component:no_command", "a command was found on an empty line (returned %d)", ret);
          m.ev("no_command");
        } else if (m.check(u.c->parsed.size() == 1 && ret == u.c->answer, "component:command", "%zu commands parsed, returned %d instead of %d", u.c->parsed.size(), ret, u.c->answer)) {
          const auto& [size, bytes] = u.c->parsed[0];
          m.check(size == (int)got, "component:size", "a command of %d bytes instead of %zu", size, got);
          bool same = bytes.size() >= offset + got;
          for (size_t j = 0; same && j < got; j++) same = bytes[offset + j] == u.down.queue[j];
          m.check(same, "component:bytes", "the command is %s (at %zu)", Hex(bytes).c_str(), offset);
          u.down.queue.erase(u.down.queue.begin(), u.down.queue.begin() + (long)got);
          m.ev(offset ? "command_at_offset" : "command");
        }
      } else {
        // telemetry
        size_t offset = m.rng.b(0.7) ? 0 : (size_t)m.rng.i(0, (long)u.tx), n = Pick(m.rng, std::min(u.tx - offset, Space(u.up)));
        const long hostile = m.rng.i(0, 12);
        if (hostile == 0) offset = u.tx + (size_t)m.rng.i(1, 10);
        if (hostile == 1) n = u.tx - offset + (size_t)m.rng.i(1, 600);
        const bool fits = offset + n <= u.tx;
        u.c->telemetry = Random(m.rng, n), u.c->offset = offset;
        const int ret = u.c->SendTelemetry((unsigned)offset);
        m.check(ret == (fits ? 0 : -1), "component:send_telemetry", "a telemetry of %zu bytes at %zu from a buffer of %zu returned %d", n, offset, u.tx, ret);
        if (fits) u.up.queue.insert(u.up.queue.end(), u.c->telemetry.begin(), u.c->telemetry.end());
        m.ev(!fits ? "telemetry_refused" : offset ? "telemetry_at_offset" : u.tx > u.rx ? "long_telemetry" : "telemetry");
        m.distinctv({(double)u.tx, (double)u.rx, (double)offset, (double)n});
      }
    }
    for (auto& [p, u] : units) Receive(m, u.up, 1100, [&](unsigned char* b, unsigned o, unsigned n) { return box.Receive(m.rng, p, b, o, n); }, "component:rest");
  }
  for (const char* e : {"second", "removed", "command_refused", "no_command", "command_at_offset", "command", "telemetry_refused", "telemetry_at_offset", "long_telemetry", "telemetry"}) m.require(e, 200);
}

// I2C registers and commands
struct I2cModel {
  unsigned char max = 0xff;
  std::map<unsigned char, std::array<unsigned char, 256>> reg, cmd;
  int pointer = -1, owner = -1;  // register that the next sequential read gives, and the device it was set for
  void Register(unsigned char a) { reg[a].fill(0), cmd[a].fill(0); }
  bool Select(unsigned char a, unsigned char r) {
    if (r >= max) return false;
    pointer = r, owner = a;
    return true;
  }
  bool Write(unsigned char a, unsigned char r, unsigned char v) {
    if (!Select(a, r)) return false;
    reg[a][r] = v;
    return true;
  }
  unsigned char Next(unsigned char a) {
    const unsigned char x = reg[a][(size_t)pointer];
    pointer = (pointer + 1) % max;
    return x;
  }
};
GROUP(i2c_port) {
  for (long k = 0; k < m.n(3000, 40000); k++) {
    I2cModel w;
    std::unique_ptr<I2cPort> port;
    if (m.rng.b()) {
      port = std::make_unique<I2cPort>();
    } else {
      w.max = (unsigned char)m.rng.i(1, m.rng.b() ? 10 : 255);
      port = std::make_unique<I2cPort>(w.max);
    }
    std::vector<unsigned char> devices;
    const int n = (int)m.rng.i(1, 4);
    while ((int)devices.size() < n) {
      const unsigned char a = (unsigned char)m.rng.i(0, 255);
      if (w.reg.count(a)) continue;
      devices.push_back(a), w.Register(a);
      port->RegisterDevice(a);
    }
    m.begin("%d I2C devices with %d registers", n, w.max);
    for (int i = 0; i < 200; i++) {
      const unsigned char a = m.rng.pick(devices), r = (unsigned char)(m.rng.b(0.8) ? m.rng.i(0, w.max - 1) : m.rng.b(0.3) ? w.max - 1 : m.rng.i(0, 255)), x = (unsigned char)m.rng.i(0, 255);
      switch (m.rng.i(0, 7)) {
        case 0:
        case 1: {
          const int ret = port->WriteRegister(a, r, x);
          const bool ok = w.Write(a, r, x);
          m.check((ret != 0) == ok, "i2c:write", "writing register %d of %d returned %d", r, w.max, ret);
          m.ev(ok ? "register_write" : "register_refused");
          break;
        }
        case 2: {
          const unsigned char got = port->ReadRegister(a, r);
          const unsigned char want = w.Select(a, r) ? w.reg[a][r] : 0;
          m.check(got == want, "i2c:read", "register %d of device %d reads %d instead of %d", r, a, got, want);
          m.ev("register_read");
          break;
        }
        case 3: {
          const int ret = port->WriteRegister(a, r);
          m.check((ret != 0) == w.Select(a, r), "i2c:select", "selecting register %d of %d returned %d", r, w.max, ret);
          break;
        }
        case 4:
        case 5: {
          if (w.owner != a) break;
          const int count = (int)m.rng.i(1, m.rng.b(0.9) ? 6 : 300);
          for (int j = 0; j < count; j++) {
            const int p = w.pointer;
            const unsigned char want = w.Next(a), got = port->ReadRegister(a);
            m.check(got == want, "i2c:sequence", "register %d of device %d reads %d instead of %d in sequence", p, a, got, want);
            m.ev(p == w.max - 1 ? "wrap" : "sequence");
          }
          break;
        }
        case 6: {
          const size_t len = (size_t)(m.rng.b(0.7) ? m.rng.i(0, 8) : m.rng.i(0, 255));
          Bytes data = Random(m.rng, len);
          if (data.empty()) data.reserve(1);
          const unsigned char ret = port->WriteCommand(a, data.data(), (unsigned char)len);
          m.check(ret == len, "i2c:command", "a command of %zu bytes returned %d", len, ret);
          for (size_t j = 0; j < len; j++) w.cmd[a][j] = data[j];
          if (len == 1) w.Select(a, data[0]);
          if (len == 2) w.Write(a, data[0], data[1]);
          m.ev(len == 1 ? "command_select" : len == 2 ? "command_write" : "command");
          break;
        }
        default: {
          Bytes got((size_t)m.rng.i(1, m.rng.b() ? 8 : 255), 0x55);
          const unsigned char ret = port->ReadCommand(a, got.data(), (unsigned char)got.size());
          m.check(ret == got.size(), "i2c:read_command", "reading a command of %zu bytes returned %d", got.size(), ret);
          m.check(std::equal(got.begin(), got.end(), w.cmd[a].begin()), "i2c:read_command", "device %d received the command %s", a, Hex(got).c_str());
          m.ev("read_command");
        }
      }
      m.distinctv({(double)w.max, (double)w.pointer, (double)r, (double)a});
    }
    for (unsigned char a : devices)
      for (int r = 0; r < w.max; r++) m.check(port->ReadRegister(a, (unsigned char)r) == w.reg[a][(size_t)r], "i2c:final", "register %d of device %d does not hold %d", r, a, w.reg[a][(size_t)r]);
  }
  for (const char* e : {"register_write", "register_refused", "register_read", "sequence", "wrap", "command_select", "command_write", "command", "read_command"}) m.require(e, 500);
}

struct I2cComponent : I2cTargetCommunicationWithObc {
  using I2cTargetCommunicationWithObc::ReadCommand;
  using I2cTargetCommunicationWithObc::ReadRegister;
  using I2cTargetCommunicationWithObc::WriteRegister;
  I2cComponent(unsigned port, unsigned char address, OnBoardComputer* obc) : I2cTargetCommunicationWithObc(port, address, obc) {}
  I2cComponent(unsigned port, unsigned char address, OnBoardComputer* obc, unsigned hils) : I2cTargetCommunicationWithObc(port, hils, address, obc, nullptr) {}
  I2cComponent(I2cComponent&&) = default;
};
GROUP(obc_i2c) {
  for (long k = 0; k < m.n(1500, 20000); k++) {
    ObcBox box(m.rng);
    auto& obc = *box.obc;
    std::map<int, I2cModel> ports;
    struct Unit {
      std::unique_ptr<I2cComponent> c;
      int port;
      unsigned char a;
    };
    std::vector<Unit> units;
    const int n = (int)m.rng.i(1, 5);
    while ((int)units.size() < n) {
      const int p = (int)m.rng.i(0, 3);
      const unsigned char a = (unsigned char)m.rng.i(0, m.rng.b() ? 3 : 255);
      if (ports.count(p) && ports[p].reg.count(a)) continue;
      ports[p].Register(a);
      world::Quiet quiet;
      units.push_back({m.rng.b() ? std::make_unique<I2cComponent>((unsigned)p, a, &obc) : std::make_unique<I2cComponent>((unsigned)p, a, &obc, 2u), p, a});
    }
    m.begin("%d components on %zu I2C ports of %s", n, ports.size(), box.c2a ? "a computer with flight software" : "a computer");
    for (int i = 0; i < 80; i++) {
      Unit& u = units[(size_t)m.rng.i(0, n - 1)];
      I2cModel& w = ports[u.port];
      const unsigned char r = (unsigned char)m.rng.i(0, 254), len = (unsigned char)(m.rng.b(0.8) ? m.rng.i(0, std::min(8, 255 - r)) : m.rng.i(0, 255 - r));
      switch (m.rng.i(0, 7)) {
        case 0:
        case 1: {
          Bytes data = Random(m.rng, len);
          if (data.empty()) data.reserve(1);
          if (m.rng.b()) {
            u.c->WriteRegister(r, data.data(), len);
          } else {
            m.check(obc.I2cComponentWriteRegister(u.port, u.a, r, data.data(), len) == 0, "obc_i2c:write", "writing registers failed");
          }
          for (int j = 0; j < len; j++) w.Write(u.a, (unsigned char)(r + j), data[(size_t)j]);
          m.ev(len > 1 ? "block_write" : "single_write");
          break;
        }
        case 2:
        case 3: {
          Bytes got(std::max<size_t>(1, len), 0x55);
          if (m.rng.b()) {
            u.c->ReadRegister(r, got.data(), len);
          } else {
            m.check(obc.I2cComponentReadRegister(u.port, u.a, r, got.data(), len) == 0, "obc_i2c:read", "reading registers failed");
          }
          for (int j = 0; j < len; j++) m.check(got[(size_t)j] == w.reg[u.a][(size_t)(r + j)], "obc_i2c:read", "register %d of device %d at port %d reads %d instead of %d", r + j, u.a, u.port, got[(size_t)j], w.reg[u.a][(size_t)(r + j)]);
          if (len) w.Select(u.a, (unsigned char)(r + len - 1));
          m.ev(len > 1 ? "block_read" : "single_read");
          break;
        }
        case 4: {
          Bytes got((size_t)m.rng.i(1, 255), 0x55);
          if (m.rng.b()) {
            u.c->ReadCommand(got.data(), (unsigned char)got.size());
          } else {
            m.check(obc.I2cComponentReadCommand(u.port, u.a, got.data(), (unsigned char)got.size()) == 0, "obc_i2c:read_command", "reading a command failed");
          }
          m.check(std::equal(got.begin(), got.end(), w.cmd[u.a].begin()), "obc_i2c:read_command", "device %d received the command %s", u.a, Hex(got).c_str());
          m.ev("read_command");
          break;
        }
        case 5: {
          if (!box.c2a) break;
          // the flight software writes a command
          const size_t count = (size_t)m.rng.i(1, 30);
          Bytes data = Random(m.rng, count);
          const int ret = m.rng.b() ? ObcWithC2a::I2cWriteCommand(u.port, u.a, data.data(), (unsigned char)count) : OBC_C2A_I2cWriteCommand(u.port, u.a, data.data(), (unsigned char)count);
          m.check(ret == 0, "obc_i2c:command", "writing a command failed");
          for (size_t j = 0; j < count; j++) w.cmd[u.a][j] = data[j];
          if (count == 1) w.Select(u.a, data[0]);
          if (count == 2) w.Write(u.a, data[0], data[1]);
          m.ev("flight_command");
          break;
        }
        case 6: {
          if (!box.c2a) break;
          // the flight software writes registers, the first byte is the address
          Bytes data = Random(m.rng, (size_t)len + 1);
          data[0] = r;
          const int ret = m.rng.b() ? ObcWithC2a::I2cWriteRegister(u.port, u.a, data.data(), (unsigned char)data.size()) : OBC_C2A_I2cWriteRegister(u.port, u.a, data.data(), (unsigned char)data.size());
          m.check(ret == 0, "obc_i2c:flight_write", "writing registers failed");
          if (len == 0) w.Select(u.a, r);
          for (int j = 0; j < len; j++) w.Write(u.a, (unsigned char)(r + j), data[(size_t)j + 1]);
          m.ev("flight_write");
          break;
        }
        default: {
          if (!box.c2a || w.owner != u.a) break;
          Bytes got((size_t)m.rng.i(1, 255), 0x55);
          const int ret = m.rng.b() ? ObcWithC2a::I2cReadRegister(u.port, u.a, got.data(), (unsigned char)got.size()) : OBC_C2A_I2cReadRegister(u.port, u.a, got.data(), (unsigned char)got.size());
          m.check(ret == 0, "obc_i2c:flight_read", "reading registers failed");
          for (size_t j = 0; j < got.size(); j++) {
            const int p = w.pointer;
            const unsigned char want = w.Next(u.a);
            m.check(got[j] == want, "obc_i2c:flight_read", "register %d of device %d reads %d instead of %d", p, u.a, got[j], want);
          }
          m.ev("flight_read");
        }
      }
      m.distinctv({(double)r, (double)len, (double)u.a, (double)u.port});
      if (m.rng.b(0.05)) {
        // a component that is moved keeps its connection
        u.c = std::make_unique<I2cComponent>(std::move(*u.c));
        m.ev("moved");
      }
      if (m.rng.b(0.05)) {
        // a port that nobody connected
        Bytes data(4, 1);
        const int p = (int)m.rng.i(10, 1000);
        const int ret[3] = {obc.I2cComponentWriteRegister(p, u.a, r, data.data(), 4), obc.I2cComponentReadRegister(p, u.a, r, data.data(), 4), obc.I2cComponentReadCommand(p, u.a, data.data(), 4)};
        for (int x : ret) m.check(x == -1, "obc_i2c:free_port", "an access to port %d, which is not connected, returned %d", p, x);
        m.check(data == Bytes(4, 1), "obc_i2c:free_port", "port %d, which is not connected, delivered data", p);
        m.check(obc.I2cCloseComPort(p) == -1, "obc_i2c:free_port", "port %d, which is not connected, was closed", p);
        if (box.c2a) m.check(ObcWithC2a::I2cWriteCommand(p, u.a, data.data(), 4) == -1 && ObcWithC2a::I2cWriteRegister(p, u.a, data.data(), 4) == -1 && ObcWithC2a::I2cReadRegister(p, u.a, data.data(), 4) == -1, "obc_i2c:free_port", "an access to port %d did not fail", p);
        m.ev("free_port");
      }
    }
    // a closed port is like one that was never connected
    for (auto& [p, w] : ports) {
      (void)w;
      world::Quiet quiet;
      Bytes data(4, 1);
      m.check(obc.I2cCloseComPort(p) == 0, "obc_i2c:close", "port %d could not be closed", p);
      m.check(obc.I2cCloseComPort(p) == -1, "obc_i2c:close", "port %d was closed twice", p);
      m.check(obc.I2cComponentWriteRegister(p, 1, 2, data.data(), 4) == -1 && obc.I2cComponentReadRegister(p, 1, 2, data.data(), 4) == -1 && obc.I2cComponentReadCommand(p, 1, data.data(), 4) == -1 && data == Bytes(4, 1), "obc_i2c:close", "port %d still answers after it was closed", p);
      m.ev("closed");
    }
  }
  for (const char* e : {"closed", "block_write", "single_write", "block_read", "single_read", "read_command", "flight_command", "flight_write", "flight_read", "moved", "free_port"}) m.require(e, 200);
}

struct Listener : IGPIOCompo {
  std::vector<std::pair<int, bool>> edges;
  void GpioStateChanged(const int port, const bool edge) override { edges.emplace_back(port, edge); }
};
struct GpioComponent : GpioConnectionWithObc {
  using GpioConnectionWithObc::GpioConnectionWithObc;
  using GpioConnectionWithObc::Read;
  using GpioConnectionWithObc::Write;
};
GROUP(gpio) {
  for (long k = 0; k < m.n(1500, 20000); k++) {
    // a port with a component that is told about edges
    Listener l;
    const int id = (int)m.rng.i(0, 100000);
    const bool heard = m.rng.b(0.9);
    GpioPort port((unsigned)id, heard ? &l : nullptr);
    m.check(!port.DigitalRead(), "gpio:initial", "a new port is high");
    bool state = false;
    m.begin("GPIO port %d %s", id, heard ? "with a listener" : "alone");
    for (int i = 0; i < 40; i++) {
      const bool x = m.rng.b();
      l.edges.clear();
      m.check(port.DigitalWrite(x) == 0, "gpio:write", "writing failed");
      m.check(port.DigitalRead() == x && port.DigitalRead() == x, "gpio:read", "reads %d after %d was written", port.DigitalRead(), x);
      if (heard) m.check(l.edges.size() == (state != x ? 1u : 0u) && (state == x || l.edges[0] == std::make_pair(id, x)), "gpio:edge", "%zu edges were announced when %d became %d", l.edges.size(), state, x);
      m.ev(state != x ? "edge" : "same");
      state = x;
    }
    // ports of a computer
    ObcBox box(m.rng);
    std::vector<int> ids;
    std::map<int, bool> level;
    const int n = (int)m.rng.i(1, 8), base = box.c2a ? (int)(k * 100) : 0;  // the ports of the flight software live as long as the process
    while ((int)ids.size() < n) {
      const int p = base + (int)m.rng.i(0, 40);
      if (!level.count(p)) ids.push_back(p), level[p] = false;
    }
    GpioComponent c(ids, box.obc.get());
    for (int i = 0; i < 60; i++) {
      const int index = (int)m.rng.i(0, n - 1), p = ids[(size_t)index];
      const bool x = m.rng.b();
      if (m.rng.b()) {
        const long way = m.rng.i(0, box.c2a ? 3 : 1);
        if (way == 0) c.Write(index, x);
        if (way == 1) m.check(box.obc->GpioComponentWrite(p, x) == 0, "gpio:obc_write", "writing port %d failed", p);
        if (way == 2) m.check(ObcWithC2a::GpioWrite_C2A(p, x) == 0, "gpio:obc_write", "writing port %d failed", p);
        if (way == 3) m.check(OBC_C2A_GpioWrite(p, x) == 0, "gpio:obc_write", "writing port %d failed", p);
        level[p] = x;
        m.ev("obc_write");
      }
      for (int j = 0; j < n; j++) {
        const int q = ids[(size_t)j];
        const bool got[2] = {c.Read(j), box.obc->GpioComponentRead(q)};
        const bool c2a[2] = {box.c2a ? ObcWithC2a::GpioRead_C2A(q) : level[q], box.c2a ? OBC_C2A_GpioRead(q) : level[q]};
        m.check(got[0] == level[q] && got[1] == level[q] && c2a[0] == level[q] && c2a[1] == level[q], "gpio:obc_read", "port %d reads %d %d %d %d instead of %d", q, got[0], got[1], c2a[0], c2a[1], level[q]);
      }
      if (i == 30) {
        m.check(box.obc->GpioConnectPort(p) == -1, "gpio:connect", "port %d was connected twice", p);
        const int free = base + 60 + (int)m.rng.i(0, 30);
        m.check(box.obc->GpioComponentWrite(free, true) == -1 && !box.obc->GpioComponentRead(free), "gpio:free_port", "port %d, which is not connected, answered", free);
        m.ev("free_port");
      }
      uint64_t bits = 0;
      for (int q : ids) bits = bits * 2 + level[q];
      m.distinctv({(double)n, (double)bits, (double)p});
    }
  }
  for (const char* e : {"edge", "same", "obc_write", "free_port"}) m.require(e, 500);
}

// Framing
GROUP(slip) {
  using namespace s2e::utilities;
  for (long k = 0; k < m.n(30000, 400000); k++) {
    const Bytes in = Random(m.rng, (size_t)(m.rng.b(0.8) ? m.rng.i(0, 30) : m.rng.i(0, 3000)));
    m.begin("frame of %zu bytes: %s", in.size(), Hex(in).c_str());
    Bytes want;
    for (unsigned char x : in) {
      if (x == 0xc0) {
        want.push_back(0xdb), want.push_back(0xdc);
      } else if (x == 0xdb) {
        want.push_back(0xdb), want.push_back(0xdd);
      } else {
        want.push_back(x);
      }
    }
    want.push_back(0xc0);
    Bytes head = want;
    head.insert(head.begin(), 0xc0);
    const Bytes enc = encode_slip(in), henc = encode_slip_with_header(in);
    m.check(enc == want, "slip:encode", "encoded as %s instead of %s", Hex(enc).c_str(), Hex(want).c_str());
    m.check(henc == head, "slip:encode_header", "encoded as %s instead of %s", Hex(henc).c_str(), Hex(head).c_str());
    m.check(decode_slip(enc) == in, "slip:decode", "decoded as %s", Hex(decode_slip(enc)).c_str());
    m.check(decode_slip_with_header(henc) == in, "slip:decode_header", "decoded as %s", Hex(decode_slip_with_header(henc)).c_str());
    // what follows the frame does not matter
    Bytes more = enc;
    const Bytes tail = Random(m.rng, (size_t)m.rng.i(0, 10));
    more.insert(more.end(), tail.begin(), tail.end());
    m.check(decode_slip(more) == in, "slip:first_frame", "decoded as %s with another frame behind", Hex(decode_slip(more)).c_str());
    m.ev(enc.size() > in.size() + 1 ? "escaped" : "plain");
    // any bytes at all, as they arrive on a disturbed line
    Bytes any = Random(m.rng, (size_t)m.rng.i(0, 20));
    any.shrink_to_fit();
    bool valid = true;
    Bytes out;
    for (size_t i = 0; i < any.size() && any[i] != 0xc0; i++) {
      if (any[i] == 0xdb) {
        const int x = i + 1 < any.size() ? any[i + 1] : -1;
        if (x == 0xdc) out.push_back(0xc0);
        if (x == 0xdd) out.push_back(0xdb);
        if (x != 0xdc && x != 0xdd) valid = false;
        i++;
      } else {
        out.push_back(any[i]);
      }
    }
    const Bytes got = decode_slip(any);
    if (valid) m.check(got == out, "slip:decode_any", "%s decoded as %s instead of %s", Hex(any).c_str(), Hex(got).c_str(), Hex(out).c_str());
    m.check(got.size() <= any.size(), "slip:size", "%zu bytes decoded from %zu", got.size(), any.size());
    Bytes behind(any.begin() + (any.empty() ? 0 : 1), any.end());
    m.check(decode_slip_with_header(any) == decode_slip(behind), "slip:header_any", "%s decoded differently with header", Hex(any).c_str());
    m.ev(valid ? "valid" : any.empty() || any.back() == 0xdb ? "cut" : "invalid");
    m.distinct(Hex(any));
  }
  for (const char* e : {"escaped", "plain", "valid", "invalid", "cut"}) m.require(e, 100);
}
