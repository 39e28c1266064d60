// Reference model: proleptic Gregorian calendar, POSIX time zone rules and what each family of
// phrases means. Written from the property statements; shares no code with /repo or Boost.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull ^ 0xd1b54a32d192ed03ull) { next(); next(); }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < percent; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
    template<class T, size_t N> const T &pick(const T (&v)[N]) { return v[below((int)N)]; }
};

inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int64_t y, int m) { static const int d[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
// days since 1970-01-01
inline int64_t days_of(int64_t y, int m, int d) {
    int64_t n = 0, y0 = y - 1;
    n = y0 * 365 + y0 / 4 - y0 / 100 + y0 / 400;          // y >= 1
    for(int i = 1; i < m; i++) n += mdays(y, i);
    return n + d - 1 - 719162;
}
struct Date { int y, m, d; };
inline Date date_of(int64_t n) {
    int64_t y = 1970 + n / 366;
    if(n < 0) y = 1970 + n / 365 - 1;
    while(days_of(y + 1, 1, 1) <= n) y++;
    while(days_of(y, 1, 1) > n) y--;
    int64_t r = n - days_of(y, 1, 1);
    int m = 1;
    while(r >= mdays(y, m)) { r -= mdays(y, m); m++; }
    return Date{(int)y, m, (int)r + 1};
}
inline int wday_of(int64_t n) { return (int)(((n + 4) % 7 + 7) % 7); }   // 0 Sunday

struct Instant {                 // civil date and time
    int64_t day = 0;             // days since 1970
    int sec = 0;                 // of the day
    Date date() const { return date_of(day); }
    int h() const { return sec / 3600; }
    int mi() const { return sec / 60 % 60; }
    int s() const { return sec % 60; }
    int wday() const { return wday_of(day); }
    Instant plus(int64_t secs) const { int64_t t = day * 86400 + sec + secs; Instant r; r.day = t / 86400; if(t % 86400 < 0) r.day--; r.sec = (int)(t - r.day * 86400); return r; }
    Instant at(int h, int m = 0, int s = 0) const { Instant r = *this; r.sec = h * 3600 + m * 60 + s; return r; }
    Instant days(int64_t n) const { Instant r = *this; r.day += n; return r; }
    int64_t abs() const { return day * 86400 + sec; }
};
inline Instant inst(int y, int m, int d, int h = 0, int mi = 0, int s = 0) { Instant r; r.day = days_of(y, m, d); r.sec = h * 3600 + mi * 60 + s; return r; }
const int64_t DAY_MIN = -208188, DAY_MAX = 2932896;         // 1400-01-01, 9999-12-31
inline bool in_calendar(const Instant &i) { return i.day >= DAY_MIN && i.day <= DAY_MAX; }
inline Instant add_months(const Instant &i, int64_t n) {
    Date d = i.date();
    int64_t k = (int64_t)d.y * 12 + d.m - 1 + n;
    int64_t y = k / 12; int m = (int)(k % 12) + 1;
    if(k < 0 || y < 1 || y > 20000) { Instant r; r.day = DAY_MAX + 1000000; r.sec = 0; return r; }
    int last = mdays(y, m);
    int dd = d.d == mdays(d.y, d.m) ? last : (d.d > last ? last : d.d);
    Instant r = i; r.day = days_of(y, m, dd); return r;
}
inline std::string show(const Instant &i) {
    static const char *const mon[] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"};
    Date d = i.date(); char b[64];
    snprintf(b, sizeof b, "%04d-%s-%02d %02d:%02d:%02d", d.y, mon[d.m - 1], d.d, i.h(), i.mi(), i.s());
    return b;
}
inline std::string show(const Instant &a, const Instant &b) { return show(a) + " - " + show(b); }

// n-th (1..) weekday w of a month; n = 0: the last one
inline Instant nth_weekday(int y, int m, int n, int w) {
    if(n == 0) { Instant r = inst(y, m, mdays(y, m)); while(r.wday() != w) r.day--; return r; }
    Instant r = inst(y, m, 1); while(r.wday() != w) r.day++;
    r.day += 7 * (n - 1); return r;
}

// ------------------------------------------------------------------ time zones
struct Rule { int m, w, d, t; };                 // Mm.w.d/t, t in seconds
struct Zone { const char *posix; int off; bool dst; int dst_off; Rule start, end; };
inline const std::vector<Zone> &zones() {
    static const std::vector<Zone> z = {
        {"UTC0", 0, false, 0, {}, {}},
        {"IST-5:30", 19800, false, 0, {}, {}},
        {"NPT-5:45", 20700, false, 0, {}, {}},
        {"<-12>12", -43200, false, 0, {}, {}},
        {"<+14>-14", 50400, false, 0, {}, {}},
        {"EST5EDT,M3.2.0,M11.1.0", -18000, true, -14400, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
        {"PST8PDT,M3.2.0,M11.1.0", -28800, true, -25200, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
        {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, true, 7200, {3, 5, 0, 7200}, {10, 5, 0, 10800}},
        {"AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, true, 39600, {10, 1, 0, 7200}, {4, 1, 0, 10800}},
        {"<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", 37800, true, 39600, {10, 1, 0, 7200}, {4, 1, 0, 7200}},
        {"NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", -12600, true, -9000, {3, 2, 0, 60}, {11, 1, 0, 60}},
    };
    return z;
}
inline int64_t rule_day(int y, const Rule &r) { return (r.w == 5 ? nth_weekday(y, r.m, 0, r.d) : nth_weekday(y, r.m, r.w, r.d)).day; }
// UTC seconds of the change to (first) and from daylight saving time in year y
inline int64_t dst_begin(const Zone &z, int y) { return rule_day(y, z.start) * 86400 + z.start.t - z.off; }
inline int64_t dst_end(const Zone &z, int y) { return rule_day(y, z.end) * 86400 + z.end.t - z.dst_off; }
inline Instant from_abs(int64_t t) { Instant r; r.day = t / 86400; if(t % 86400 < 0) r.day--; r.sec = (int)(t - r.day * 86400); return r; }
inline Instant local_of(const Zone &z, int64_t epoch) {
    int off = z.off;
    if(z.dst) {
        int y = from_abs(epoch + z.off).date().y;
        int64_t b = dst_begin(z, y), e = dst_end(z, y);
        bool in = b < e ? (epoch >= b && epoch < e) : !(epoch >= e && epoch < b);
        if(in) off = z.dst_off;
    }
    return from_abs(epoch + off);
}
