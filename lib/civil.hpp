// Reference calendar arithmetic (days from civil, proleptic Gregorian)
#pragma once
#include <cstdint>
namespace civil {
inline int64_t days(int64_t y, int m, int d) {  // days since 1970-01-01
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = (unsigned)(y - era * 400);
  const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int64_t y, int m) {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : d[m - 1];
}
// Julian day of 0 h as an exact double
inline double jd0(int64_t y, int m, int d) { return (double)days(y, m, d) + 2440587.5; }
inline void fromdays(int64_t n, int& y, int& m, int& d) {
  y = (int)(1970 + n / 366 - 2);
  while (days(y + 1, 1, 1) <= n) y++;
  while (days(y, 1, 1) > n) y--;
  m = 1;
  while (m < 12 && days(y, m + 1, 1) <= n) m++;
  d = (int)(n - days(y, m, 1)) + 1;
}
}  // namespace civil
