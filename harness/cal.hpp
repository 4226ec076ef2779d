// Independent calendar model (proleptic Gregorian), used by the oracles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include "sut.hpp"

namespace cal {
typedef long long i64;
struct Date { int y, m, d; };
struct DT { Date date; int h, mi, s; };

inline bool leap(i64 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int dim(i64 y, int m) {
    static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : t[m - 1];
}
inline i64 days(i64 y, int m, int d) { // days since 1970-01-01
    y -= m <= 2;
    i64 era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<i64>(doe) - 719468;
}
inline i64 days(const Date& d) { return days(d.y, d.m, d.d); }
inline Date fromDays(i64 z) {
    z += 719468;
    i64 era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = static_cast<unsigned>(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    i64 y = static_cast<i64>(yoe) + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    Date r;
    r.d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    r.m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    r.y = static_cast<int>(y + (r.m <= 2));
    return r;
}
inline int wday(i64 z) { return static_cast<int>(((z % 7) + 11) % 7); } // 0 = Sunday
inline int wday(const Date& d) { return wday(days(d)); }
static const i64 MIN_DAY = -208188, MAX_DAY = 2932896; // 1400-01-01, 9999-12-31
inline bool inCal(i64 z) { return z >= MIN_DAY && z <= MAX_DAY; }
// month arithmetic: keep the day clamped to the month; end of month stays end of month
inline bool addMonths(const Date in, i64 n, Date& out) {
    i64 t = static_cast<i64>(in.y) * 12 + (in.m - 1) + n;
    i64 y = t >= 0 ? t / 12 : -((-t + 11) / 12);
    int m = static_cast<int>(t - y * 12) + 1;
    if (y < 1400 || y > 9999) return false;
    int last = dim(y, m);
    out.y = static_cast<int>(y); out.m = m;
    out.d = in.d == dim(in.y, in.m) ? last : (in.d < last ? in.d : last);
    return true;
}
inline i64 secs(const DT& t) { return days(t.date) * 86400 + t.h * 3600 + t.mi * 60 + t.s; }
inline DT fromSecs(i64 x) {
    i64 z = x >= 0 ? x / 86400 : -((-x + 86399) / 86400);
    i64 r = x - z * 86400;
    return DT{fromDays(z), static_cast<int>(r / 3600), static_cast<int>(r / 60 % 60), static_cast<int>(r % 60)};
}
inline bool secsInCal(i64 x) { return x >= MIN_DAY * 86400 && x < (MAX_DAY + 1) * 86400; }
inline bool valid(i64 y, i64 m, i64 d) { return y >= 1400 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= dim(y, static_cast<int>(m)); }
static const char* const MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
inline std::string render(i64 x) { // seconds since 1970 to YYYY-Mon-DD HH:MM:SS
    DT t = fromSecs(x);
    char b[64];
    snprintf(b, sizeof b, "%04d-%s-%02d %02d:%02d:%02d", t.date.y, MON[t.date.m - 1], t.date.d, t.h, t.mi, t.s);
    return b;
}
inline std::string iso(i64 x) {
    DT t = fromSecs(x);
    char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", t.date.y, t.date.m, t.date.d, t.h, t.mi, t.s);
    return b;
}
inline Date dateOf(const sut::Ref& r) { return Date{r.y, r.mo, r.d}; }
inline DT dtOf(const sut::Ref& r) { return DT{{r.y, r.mo, r.d}, r.h, r.mi, r.s}; }
// seconds of the date-time that components denote (hour 24 allowed), valid date presumed
inline i64 secsOf(const sut::Comp& c) {
    return days(c.v[sut::Y], c.v[sut::MO], c.v[sut::D]) * 86400 + c.v[sut::H] * 3600LL + c.v[sut::MI] * 60LL + c.v[sut::S];
}
// nth given weekday (0 = Sunday) of a month
inline Date nth(int y, int m, int wd, int n) {
    i64 f = days(y, m, 1);
    return fromDays(f + (wd - wday(f) + 7) % 7 + 7 * (n - 1));
}
inline Date lastOf(int y, int m, int wd) {
    i64 l = days(y, m, dim(y, m));
    return fromDays(l - (wday(l) - wd + 7) % 7);
}
}
