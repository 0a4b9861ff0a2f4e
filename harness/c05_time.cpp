// C05: time representations
#include "civil.hpp"
#include "mon.hpp"
//
#include <math_physics/orbit/sgp4/sgp4ext.h>
#include <math_physics/time_system/date_time_format.hpp>
#include <math_physics/time_system/epoch_time.hpp>
#include <math_physics/time_system/gps_time.hpp>

using namespace s2e::time_system;

struct Date {
  int y, mo, d, h, mi;
  double s;
  int64_t whole() const { return civil::days(y, mo, d) * 86400 + h * 3600 + mi * 60 + (int64_t)floor(s); }
  double frac() const { return s - floor(s); }
};
static Date RandomDate(mon::Mon& m, int y0 = 1970, int y1 = 2099) {
  Date d;
  d.y = (int)m.rng.i(y0, y1);
  d.mo = (int)m.rng.i(1, 12);
  d.d = (int)m.rng.i(1, civil::mdays(d.y, d.mo));
  d.h = (int)m.rng.i(0, 23);
  d.mi = (int)m.rng.i(0, 59);
  d.s = m.rng.b(0.3) ? (double)m.rng.i(0, 59) : m.rng.u(0, 60);
  switch (m.rng.i(0, 7)) {
    case 0:  // ends of the year
      d.mo = 12, d.d = 31;
      break;
    case 1:
      d.mo = 1, d.d = 1;
      break;
    case 2:  // around the leap day
      d.mo = m.rng.b() ? 2 : 3;
      d.d = d.mo == 2 ? civil::mdays(d.y, 2) - (int)m.rng.i(0, 1) : 1;
      break;
    case 3:  // ends of the month
      d.d = civil::mdays(d.y, d.mo);
      break;
  }
  switch (m.rng.i(0, 7)) {
    case 0: d.h = d.mi = 0, d.s = 0; break;
    case 1: d.h = 23, d.mi = 59, d.s = 59; break;
    case 2: d.h = 23, d.mi = 59, d.s = 59 + m.rng.u(0, 0.9999999); break;
    case 3: d.s = m.rng.i(0, 59) + m.rng.pick(std::vector<double>{0.5, 0.25, 1e-9, 0.999999, 0.1}); break;
  }
  return d;
}
static std::string Show(const Date& d) { return mon::F("%04d/%02d/%02d %02d:%02d:%.12g", d.y, d.mo, d.d, d.h, d.mi, d.s); }

// The text form has six significant digits of the second, so it may show 60
static bool Same(mon::Mon& m, const DateTime& t, const Date& d, const char* key, double tol, bool text = false) {
  double diff = (double)(civil::days((int64_t)t.GetYear(), (int)t.GetMonth(), (int)t.GetDay()) - civil::days(d.y, d.mo, d.d)) * 86400 +
                ((double)t.GetHour() - d.h) * 3600 + ((double)t.GetMinute() - d.mi) * 60 + (t.GetSecond() - d.s);
  bool range = t.GetMonth() >= 1 && t.GetMonth() <= 12 && t.GetDay() >= 1 && (int)t.GetDay() <= civil::mdays((int64_t)t.GetYear(), (int)t.GetMonth()) && t.GetHour() < 24 &&
               t.GetMinute() < 60 && t.GetSecond() >= 0 && (text ? t.GetSecond() <= 60 : t.GetSecond() < 60);
  return m.check(range && fabs(diff) <= tol, key, "got %zu/%zu/%zu %zu:%zu:%.12g, %.3g s off, fields %s", t.GetYear(), t.GetMonth(), t.GetDay(), t.GetHour(),
                 t.GetMinute(), t.GetSecond(), diff, range ? "in range" : "out of range");
}

GROUP(calendar_and_epoch) {
  long n = m.n(60000, 3000000);
  for (long k = 0; k < n; k++) {
    Date d = RandomDate(m);
    m.begin("%s", Show(d).c_str());
    DateTime t((size_t)d.y, (size_t)d.mo, (size_t)d.d, (size_t)d.h, (size_t)d.mi, d.s);
    EpochTime e(t);
    m.check((int64_t)e.GetTime_s() == d.whole(), "to_epoch", "epoch second %lld, expected %lld", (long long)e.GetTime_s(), (long long)d.whole());
    m.close(e.GetFraction_s(), d.frac(), 1e-12, "to_epoch_fraction", "fraction");
    m.close(e.GetTimeWithFraction_s(), (double)d.whole() + d.frac(), 1e-6, "with_fraction", "time with fraction");
    Same(m, DateTime(e), d, "from_epoch", 1e-12);
    // text
    DateTime text(mon::F("%d/%d/%d %d:%d:%.15g", d.y, d.mo, d.d, d.h, d.mi, d.s));
    Same(m, text, d, "from_text", 1e-10);
    DateTime again(t.GetAsString());
    Same(m, again, d, "as_text", 1e-3, true);
    m.check(t.GetAsString().compare(0, 17, mon::F("%04d/%02d/%02d %02d:%02d:", d.y, d.mo, d.d, d.h, d.mi)) == 0, "as_text", "written as %s", t.GetAsString().c_str());
    m.ev(civil::leap(d.y) ? "leap_years" : "common_years");
    m.distinctv({(double)d.y, (double)d.mo, (double)d.d, d.s});
  }
  m.require("leap_years", 1000);
  // every day of the supported span, once
  int64_t day = 0;
  for (int y = 1970; y <= 2099; y++)
    for (int mo = 1; mo <= 12; mo++)
      for (int d = 1; d <= civil::mdays(y, mo); d++, day++) {
        m.begin("%04d/%02d/%02d", y, mo, d);
        EpochTime e(DateTime((size_t)y, (size_t)mo, (size_t)d, 0, 0, 0.0));
        m.check((int64_t)e.GetTime_s() == day * 86400, "day_number", "epoch day %.6f, expected %lld", (double)e.GetTime_s() / 86400, (long long)day);
        DateTime b(EpochTime((uint64_t)(day * 86400 + 86399), 0.5));
        m.check((int)b.GetYear() == y && (int)b.GetMonth() == mo && (int)b.GetDay() == d, "day_back", "got %zu/%zu/%zu", b.GetYear(), b.GetMonth(), b.GetDay());
        m.ev("days");
      }
}

GROUP(epoch_arithmetic) {
  long n = m.n(60000, 3000000);
  for (long k = 0; k < n; k++) {
    auto frac = [&]() {
      return m.rng.b(0.4) ? m.rng.pick(std::vector<double>{0.0, 0.5, 0.25, 0.75, 0.1, 0.9, 0.3, 0.7, 0.999999999, 1e-17, 0.1 + 0.2 - 0.3 + 1e-18}) : m.rng.u01();
    };
    uint64_t s1 = (uint64_t)m.rng.i(0, 4000000000ll), s2 = (uint64_t)m.rng.i(0, (int64_t)s1);
    if (m.rng.b(0.2)) s2 = s1;
    EpochTime a(s1, frac()), b(s2, frac());
    m.begin("a=(%llu, %.17g) b=(%llu, %.17g)", (unsigned long long)s1, a.GetFraction_s(), (unsigned long long)s2, b.GetFraction_s());
    auto normal = [&](const EpochTime& t, const char* what) {
      m.check(t.GetFraction_s() >= 0 && t.GetFraction_s() < 1, "normalised", "%s: fraction %.17g", what, t.GetFraction_s());
    };
    auto diff = [&](const EpochTime& t, long double want, const char* key) {
      long double got = (long double)(int64_t)t.GetTime_s() + t.GetFraction_s();
      m.check(fabsl(got - want) < 1e-9L, key, "%.12Lf instead of %.12Lf", got, want);
    };
    long double va = (long double)s1 + a.GetFraction_s(), vb = (long double)s2 + b.GetFraction_s();
    EpochTime sum = a + b;
    normal(sum, "sum");
    diff(sum, va + vb, "sum");
    EpochTime rev = b + a;
    m.check(sum == rev, "sum_commutes", "a+b != b+a");
    if (va >= vb) {
      EpochTime dif = a - b;
      normal(dif, "difference");
      diff(dif, va - vb, "difference");
      EpochTime back = dif + b;
      normal(back, "difference plus subtrahend");
      diff(back, va, "inverse");
    }
    EpochTime back2 = sum - b;
    diff(back2, va, "inverse2");
    // order
    bool less = s1 < s2 || (s1 == s2 && a.GetFraction_s() < b.GetFraction_s()), equal = s1 == s2 && a.GetFraction_s() == b.GetFraction_s();
    m.check((a < b) == less && (a > b) == (!less && !equal) && (a <= b) == (less || equal) && (a >= b) == !less && (a == b) == equal && (a != b) == !equal, "order",
            "comparison of %.12Lf and %.12Lf", va, vb);
    m.check((b < a) == (!less && !equal) && (b > a) == less && (b <= a) == !less && (b >= a) == (less || equal) && (b == a) == equal && (b != a) == !equal, "order",
            "comparison of %.12Lf and %.12Lf", vb, va);
    EpochTime same_second(s1, b.GetFraction_s());
    bool lt = a.GetFraction_s() < same_second.GetFraction_s(), eq = a.GetFraction_s() == same_second.GetFraction_s();
    m.check((a < same_second) == lt && (a > same_second) == (!lt && !eq) && (a == same_second) == eq && (a >= same_second) == !lt && (a <= same_second) == (lt || eq), "order_fraction",
            "comparison of the fractions %.17g and %.17g", a.GetFraction_s(), same_second.GetFraction_s());
    // fractions that complete a second exactly
    EpochTime h1(s1, 0.5), h2(s2, 0.5), one = h1 + h2;
    normal(one, "halves");
    m.check(one == EpochTime(s1 + s2 + 1, 0.0), "exact_carry", "0.5 s + 0.5 s = (%llu, %.17g)", (unsigned long long)one.GetTime_s(), one.GetFraction_s());
    m.ev("pairs");
    m.distinctv({(double)s1, (double)s2, a.GetFraction_s(), b.GetFraction_s()});
  }
}

GROUP(gps_time) {
  long n = m.n(40000, 2000000);
  const int64_t gps0 = civil::days(1980, 1, 6) * 86400;
  for (long k = 0; k < n; k++) {
    Date d = RandomDate(m, 1981, 2099);
    m.begin("%s", Show(d).c_str());
    DateTime t((size_t)d.y, (size_t)d.mo, (size_t)d.d, (size_t)d.h, (size_t)d.mi, d.s);
    GpsTime g(t);
    int64_t el = d.whole() - gps0;
    size_t week = (size_t)(el / 604800);
    double sow = (double)(el % 604800) + d.frac();
    m.check(g.GetWeek() == week, "week", "week %zu, expected %zu", g.GetWeek(), week);
    m.close(g.GetElapsedTimeFromWeek_s(), sow, 1e-9, "second_of_week", "second of week");
    Same(m, g.GetDateTime(), d, "gps_date", 1e-12);
    GpsTime ge((EpochTime(t)));
    m.check(ge.GetWeek() == week && fabs(ge.GetElapsedTimeFromWeek_s() - sow) < 1e-9, "from_epoch", "week %zu second %.12g", ge.GetWeek(), ge.GetElapsedTimeFromWeek_s());
    Same(m, ge.GetDateTime(), d, "gps_date_from_epoch", 1e-12);
    GpsTime gw(week, sow);
    m.check(std::fabs((double)((int64_t)gw.GetEpochTime().GetTime_s() - d.whole()) + gw.GetEpochTime().GetFraction_s() - d.frac()) < 1e-9, "to_epoch", "epoch time (%llu, %.17g)",
            (unsigned long long)gw.GetEpochTime().GetTime_s(), gw.GetEpochTime().GetFraction_s());
    DateTime gd = gw.GetDateTime();
    double df = (double)(civil::days((int64_t)gd.GetYear(), (int)gd.GetMonth(), (int)gd.GetDay()) * 86400 + (int64_t)gd.GetHour() * 3600 + (int64_t)gd.GetMinute() * 60 - d.whole()) +
                gd.GetSecond() - d.frac();
    m.check(fabs(df) < 1e-9, "week_to_date", "date is %.3g s off", df);
    DateTime u = g.GetDateTimeAsUtc();
    double du = (double)(civil::days((int64_t)u.GetYear(), (int)u.GetMonth(), (int)u.GetDay()) * 86400 + (int64_t)u.GetHour() * 3600 + (int64_t)u.GetMinute() * 60 - d.whole()) +
                u.GetSecond() - d.frac();
    m.check(fabs(du + 18) < 1e-9, "utc", "UTC is %.12g s from GPS time, expected -18", du);
    m.ev("gps_times");
    m.distinctv({(double)d.y, (double)d.mo, (double)d.d, d.s});
  }
}

GROUP(julian_day) {
  long n = m.n(60000, 3000000);
  for (long k = 0; k < n; k++) {
    Date d = RandomDate(m, 1960, 2099);
    m.begin("%s", Show(d).c_str());
    double jd;
    jday(d.y, d.mo, d.d, d.h, d.mi, d.s, jd);
    long double want = (long double)civil::jd0(d.y, d.mo, d.d) + (d.h * 3600.0L + d.mi * 60.0L + d.s) / 86400.0L;
    m.close(jd, (double)want, 1e-9, "jday", "Julian day");
    int y, mo, dd, h, mi;
    double s;
    invjday(jd, y, mo, dd, h, mi, s);
    double diff = (double)(civil::days(y, mo, dd) - civil::days(d.y, d.mo, d.d)) * 86400 + (h - d.h) * 3600.0 + (mi - d.mi) * 60.0 + (s - d.s);
    bool range = mo >= 1 && mo <= 12 && dd >= 1 && dd <= civil::mdays(y, mo) && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60;
    m.check(range && fabs(diff) < 1e-4, range ? "invjday" : "invjday_range", "got %d/%d/%d %d:%d:%.9f, %.3g s off", y, mo, dd, h, mi, s, diff);
    double dy;
    JdToDecyear(jd, &dy);
    double len = civil::leap(d.y) ? 366 : 365;
    double wy = d.y + ((double)(want - (long double)civil::jd0(d.y, 1, 1))) / len;
    m.close(dy, wy, 1.0 / 86400 / 365, "decimal_year", "decimal year");
    m.ev(civil::leap(d.y) ? "leap_years" : "common_years");
    m.distinctv({(double)d.y, (double)d.mo, (double)d.d, d.s});
  }
  // decimal years order instants as time does, over every day boundary
  double last = 0;
  for (int64_t day = civil::days(1995, 1, 1); day < civil::days(2060, 1, 1); day++) {
    double jd = day + 2440587.5;
    m.begin("JD %.1f", jd);
    double a, b;
    JdToDecyear(jd, &a);
    JdToDecyear(jd + 0.999, &b);
    m.check(a > last && b > a, "decimal_year_order", "decimal year %.9f after %.9f", a, last);
    last = b;
    m.ev("day_boundaries");
  }
}
