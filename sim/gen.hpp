// Phrases with the answers that the reference model gives them.
#pragma once
#include "model.hpp"
#include "sut.hpp"
#include <cstdlib>
#include <cctype>
#include <cstring>

struct Phrase {
    std::string text;
    int parser = -1;                    // the parser of its kind, -1: only the chain
    std::vector<std::string> alts;      // acceptable answers
    bool chain_ok = true;               // the program's chain gives the same answer
    bool nocase = true;                 // letter case may be varied
    Instant start, end; bool has_end = false;
    std::string family;
};

typedef std::vector<std::string> Strs;

inline void ok1(Phrase &p, const Instant &a) { p.start = a; p.has_end = false; p.alts.push_back(in_calendar(a) ? show(a) : "none"); }
inline void ok2(Phrase &p, const Instant &a, const Instant &b) { p.start = a; p.end = b; p.has_end = true; p.alts.push_back(show(a, b)); }

const char *const NUMWORDS[] = {"one","two","three","four","five","six","seven","eight","nine","ten","eleven","twelve"};
const char *const WDAYS[7][5] = {{"sunday","sun",0,0,0},{"monday","mon",0,0,0},{"tuesday","tue","tues",0,0},{"wednesday","wed",0,0,0},
    {"thursday","thu","thur","thurs",0},{"friday","fri",0,0,0},{"saturday","sat",0,0,0}};
const char *const MONTHS[12][6] = {{"january","jan","jan.",0},{"february","feb","feb.",0},{"march","mar","mar.",0},{"april","apr","apr.",0},
    {"may","may.",0},{"june","jun","jun.",0},{"july","jul","jul.",0},{"august","aug","aug.",0},{"september","sep","sep.","sept","sept.",0},
    {"october","oct","oct.",0},{"november","nov","nov.",0},{"december","dec","dec.",0}};
const char *const ORDINALS[31] = {"first","second","third","fourth","fifth","sixth","seventh","eighth","ninth","tenth","eleventh","twelfth",
    "thirteenth","fourteenth","fifteenth","sixteenth","seventeenth","eighteenth","nineteenth","twentieth","twenty first","twenty second",
    "twenty third","twenty fourth","twenty fifth","twenty sixth","twenty seventh","twenty eighth","twenty ninth","thirtieth","thirty first"};
template<size_t N> inline std::string pick0(Rng &g, const char *const (&v)[N]) { int n = 0; while(n < (int)N && v[n]) n++; return v[g.below(n)]; }
inline std::string num(int64_t n) { return std::to_string(n); }
inline std::string suffix_of(int d) { if(d % 100 / 10 == 1) return "th"; return d % 10 == 1 ? "st" : d % 10 == 2 ? "nd" : d % 10 == 3 ? "rd" : "th"; }

// ------------------------------------------------------------------ C06
inline Phrase g_casual(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_CD; p.family = "casual";
    switch(g.below(8)) {
    case 0: p.text = "today"; ok1(p, r.at(0)); break;
    case 1: p.text = "tonight"; ok1(p, r.at(22)); break;
    case 2: p.text = "now"; ok1(p, r); break;
    case 3: case 4: p.text = g.chance(70) ? "tomorrow" : "tmr"; ok1(p, (r.h() == 0 ? r : r.days(1)).at(0)); break;
    case 5: case 6: p.text = "yesterday"; ok1(p, r.days(-1).at(r.h())); break;
    default: p.text = "last night"; ok1(p, (r.h() > 6 ? r.days(-1) : r).at(0));
    }
    return p;
}

// ------------------------------------------------------------------ C07
enum Unit { U_SEC, U_MIN, U_HOUR, U_DAY, U_WEEK, U_MONTH, U_YEAR };
inline Instant shift(const Instant &r, Unit u, int64_t n) {      // exact for time units, date only otherwise
    switch(u) {
    case U_SEC: return r.plus(n);
    case U_MIN: return r.plus(n * 60);
    case U_HOUR: return r.plus(n * 3600);
    case U_DAY: return r.days(n).at(0);
    case U_WEEK: return r.days(7 * n).at(0);
    case U_MONTH: return add_months(r, n).at(0);
    default: return add_months(r, 12 * n).at(0);
    }
}
inline int64_t some_count(Rng &g, const Instant &r, Unit u, int sign) {
    static const int common[] = {1,2,3,4,5,6,7,8,9,10,11,12,13,18,23,24,25,26,28,29,30,31,36,45,47,48,51,52,53,59,60,61,72,89,90,91,99,100,101,
        119,120,121,180,183,200,255,256,300,364,365,366,400,512,600,730,731,999,1000,1001,1023,1024,1439,1440,1441,2000,2400,3599,3600,3601,4000,5000,8760,9998,9999};
    if(g.chance(6)) {
        // far away: to the end of the calendar, or beyond it
        Date d = r.date();
        int64_t days = sign > 0 ? DAY_MAX - r.day : r.day - DAY_MIN, years = sign > 0 ? 9999 - d.y : d.y - 1400;
        int64_t room = u == U_SEC ? days * 86400 : u == U_MIN ? days * 1440 : u == U_HOUR ? days * 24 : u == U_DAY ? days : u == U_WEEK ? days / 7 : u == U_MONTH ? years * 12 : years;
        int64_t n = room;
        if(g.chance(40)) n += g.range(-2, 3);
        else if(g.chance(50)) n = 1 + (int64_t)(g.next() % (uint64_t)(room + 1));
        else { n = 1; for(int k = g.range(4, 9); k; k--) n *= 10; n = 1 + (int64_t)(g.next() % (uint64_t)n); }
        return n < 1 ? 1 : n > 999999999 ? 1 + n % 999999999 : n;
    }
    if(g.chance(35)) {
        // land on, just before or just after a boundary
        Date d = r.date();
        int64_t left;
        Instant b;
        switch(g.below(3)) {
        case 0: b = sign > 0 ? r.days(1).at(0) : r.at(0); break;                                                    // midnight
        case 1: b = sign > 0 ? (d.m == 12 ? inst(d.y + 1, 1, 1) : inst(d.y, d.m + 1, 1)) : inst(d.y, d.m, 1); break;   // month
        default: b = sign > 0 ? inst(d.y + 1, 1, 1) : inst(d.y, 1, 1);
        }
        left = (b.abs() - r.abs()) * sign;
        int64_t n = u == U_SEC ? left : u == U_MIN ? left / 60 : u == U_HOUR ? left / 3600 : u == U_DAY ? left / 86400 : u == U_WEEK ? left / 604800 : left / 2592000;
        n += g.range(-1, 2);
        if(n >= 1 && n <= 9999) return n;
    }
    if(u == U_MONTH && g.chance(60)) return g.range(1, 30);
    if(u == U_YEAR && g.chance(80)) return g.range(1, 120);
    if(g.chance(70)) return common[g.below(g.chance(60) ? 30 : (int)(sizeof common / sizeof *common))];
    return g.range(1, 9999);
}
// a count as text: digits, a word, "a few", "a"/"an"
inline std::string count_text(Rng &g, int64_t &n, bool an) {
    int k = g.below(10);
    if(k == 0) { n = 1; return an ? "an" : "a"; }
    if(k == 1) { n = 3; return "a few"; }
    if(k <= 3 || (n <= 12 && k <= 6)) { if(n > 12) n = g.range(1, 12); return NUMWORDS[n - 1]; }
    return num(n);
}
inline Phrase g_half(Rng &g, const Instant &r, int form) {
    Phrase p; p.family = "half";
    static const char *const units[] = {"minute", "hour", "day", "week", "month", "year"};
    int u = g.below(6), sign = form == 1 ? -1 : 1;
    std::string half = u == 1 ? (g.chance(70) ? "half an hour" : "half hour") : std::string(g.chance(70) ? "half a " : "half ") + units[u];
    if(form == 0) { p.text = std::string(g.chance(70) ? "in " : "within ") + half; p.parser = P_DL; }
    else if(form == 1) { p.text = half + (g.chance(60) ? " ago" : g.chance(50) ? " before" : " earlier"); p.parser = P_TA; }
    else { static const Strs w = {" later", " later", " from now", " out", " after", " henceforth", " forward"}; p.text = half + g.pick(w); p.parser = P_TL; }
    switch(u) {
    case 0: ok1(p, r.plus(30 * sign)); break;
    case 1: ok1(p, r.plus(1800 * sign)); break;
    case 2: ok1(p, r.plus(43200 * sign)); break;
    case 3: ok1(p, r.days(3 * sign).at(0)); break;
    case 4: ok1(p, r.days(15 * sign).at(0)); break;
    default: ok1(p, add_months(r, 6 * sign).at(0));
    }
    return p;
}
inline std::string unit_text(Rng &g, Unit u, int64_t n, bool deadline) {
    static const Strs sec = {"second","seconds","sec"}, min = {"minute","minutes","min","mins"}, hour = {"hour","hours"}, day = {"day","days"},
        week = {"week","weeks"}, month = {"month","months"}, year = {"year","years"};
    if(deadline && g.chance(25)) {
        switch(u) {
        case U_SEC: return "secs";
        case U_HOUR: return g.chance(50) ? "hr" : "hrs";
        case U_WEEK: return g.chance(50) ? "wk" : "wks";
        case U_YEAR: return g.chance(50) ? "yr" : "yrs";
        default: break;
        }
    }
    switch(u) {
    case U_SEC: return g.chance(75) ? (n == 1 ? "second" : "seconds") : g.pick(sec);
    case U_MIN: return g.chance(75) ? (n == 1 ? "minute" : "minutes") : g.pick(min);
    case U_HOUR: return g.chance(75) ? (n == 1 ? "hour" : "hours") : g.pick(hour);
    case U_DAY: return g.chance(75) ? (n == 1 ? "day" : "days") : g.pick(day);
    case U_WEEK: return g.chance(75) ? (n == 1 ? "week" : "weeks") : g.pick(week);
    case U_MONTH: return g.chance(75) ? (n == 1 ? "month" : "months") : g.pick(month);
    default: return g.chance(75) ? (n == 1 ? "year" : "years") : g.pick(year);
    }
}
inline Phrase g_duration(Rng &g, const Instant &r, int form /*0 in 1 ago 2 later*/) {
    for(;;) {
        if(g.chance(12)) { Phrase p = g_half(g, r, form); if(in_calendar(p.start)) return p; continue; }
        Phrase p; p.family = form == 0 ? "in" : form == 1 ? "ago" : "later";
        int sign = form == 1 ? -1 : 1;
        std::string body;
        if(form != 0 && g.chance(25)) {
            // several units
            static const Unit us[] = {U_WEEK, U_DAY, U_HOUR, U_MIN, U_SEC};
            int mask = 0; while(__builtin_popcount(mask) < 2) mask = g.range(1, 31);
            int64_t days = 0, secs = 0; bool time = false;
            for(int i = 0; i < 5; i++) if(mask >> i & 1) {
                int64_t n = g.chance(70) ? g.range(1, 70) : some_count(g, r, us[i], sign);
                std::string c = count_text(g, n, us[i] == U_HOUR);
                if(!body.empty()) body += " ";
                body += c + " " + unit_text(g, us[i], n, false);
                if(us[i] == U_WEEK) days += 7 * n; else if(us[i] == U_DAY) days += n;
                else { time = true; secs += n * (us[i] == U_HOUR ? 3600 : us[i] == U_MIN ? 60 : 1); }
            }
            Instant x = r.days(days * sign);
            x = time ? x.plus(secs * sign) : x.at(0);
            ok1(p, x);
        } else {
            Unit u = (Unit)g.below(7);
            int64_t n = some_count(g, r, u, sign);
            if(g.chance(2)) n = 0;
            std::string c = n ? count_text(g, n, u == U_HOUR) : "0";
            body = c + (form == 1 && isdigit(c[0]) && g.chance(15) ? "" : " ") + unit_text(g, u, n, form == 0);
            ok1(p, shift(r, u, n * sign));
        }
        if(!in_calendar(p.start)) { if(!g.chance(20)) continue; p.family += "-beyond"; p.chain_ok = false; }
        if(form == 0) { p.text = std::string(g.chance(75) ? "in " : "within ") + body; p.parser = P_DL; }
        else if(form == 1) { p.text = body + (g.chance(60) ? " ago" : g.chance(50) ? " before" : " earlier"); p.parser = P_TA; }
        else { static const Strs w = {" later", " later", " after", " from now", " out", " henceforth", " forward"}; p.text = body + g.pick(w); p.parser = P_TL; }
        return p;
    }
}
inline Phrase g_durations(Rng &g, const Instant &r) { return g_duration(g, r, g.below(3)); }

// ------------------------------------------------------------------ C08
inline Phrase g_week(Rng &g, const Instant &r) {
    for(;;) {
        Phrase p; p.parser = P_WX; p.family = "week";
        if(g.chance(12)) { p.text = "this week"; ok1(p, r.at(0)); return p; }
        if(g.chance(12)) {
            static const Strs bad = {"some", "many", "couple", "seventh", "twenty", "zero", "dozen", "other", "busy", "onee", "twelv", "abc", "holiday", "seve"};
            p.text = std::string(g.chance(50) ? "last " : "next ") + g.pick(bad) + (g.chance(50) ? " weeks" : " week");
            p.alts.push_back("none"); p.family = "week-nonumber"; return p;
        }
        int sign = g.chance(50) ? -1 : 1;
        std::string mod = sign < 0 ? "last " : "next ";
        if(g.chance(30)) { p.text = mod + (g.chance(85) ? "week" : "weeks"); ok1(p, r.days(7 * sign).at(0)); }
        else if(g.chance(40)) { int n = g.range(1, 12); p.text = mod + NUMWORDS[n - 1] + (n == 1 ? " week" : " weeks"); ok1(p, r.days(7 * n * sign).at(0)); }
        else { int64_t n = some_count(g, r, U_WEEK, sign); p.text = mod + num(n) + (n == 1 ? " week" : " weeks"); ok1(p, r.days(7 * n * sign).at(0)); }
        if(in_calendar(p.start)) return p;
        if(g.chance(20)) { p.family += "-beyond"; p.chain_ok = false; return p; }
    }
}
inline Phrase g_relative(Rng &g, const Instant &r) {
    for(;;) {
        Phrase p; p.parser = P_RD; p.family = "relative"; p.chain_ok = false;
        Date d = r.date();
        int k = g.below(10);
        if(k == 0) { p.text = "this week"; Instant a = r.days(-r.wday()).at(0); ok2(p, a, a.days(6)); }
        else if(k == 1) { p.text = "this month"; ok2(p, inst(d.y, d.m, 1), inst(d.y, d.m, mdays(d.y, d.m))); }
        else if(k == 2) { p.text = "this year"; ok2(p, inst(d.y, 1, 1), inst(d.y, 12, 31)); }
        else {
            int sign = g.chance(50) ? 1 : -1;
            p.text = sign > 0 ? "next " : g.chance(70) ? "last " : "past ";
            Unit u = (Unit)g.below(7);
            int64_t n = 1;
            if(u != U_SEC && g.chance(12)) {
                static const char *const hw[] = {"", "minute", "hour", "day", "week", "month", "year"};
                p.text += std::string(g.chance(50) ? "half " : g.chance(50) ? "half a " : "half an ") + hw[u];
                ok1(p, u == U_MIN ? shift(r, U_SEC, 30 * sign) : u == U_HOUR ? shift(r, U_MIN, 30 * sign) : u == U_DAY ? shift(r, U_HOUR, 12 * sign)
                     : u == U_WEEK ? shift(r, U_DAY, 3 * sign) : u == U_MONTH ? shift(r, U_DAY, 15 * sign) : shift(r, U_MONTH, 6 * sign));
                p.family = "relative-half";
                if(in_calendar(p.start)) return p;
                continue;
            }
            if(!g.chance(30)) {
                if(g.chance(15)) { n = 3; p.text += "few "; }
                else if(g.chance(30)) { n = g.range(1, 12); p.text += std::string(NUMWORDS[n - 1]) + " "; }
                else { n = some_count(g, r, u, sign); p.text += num(n) + " "; }
            }
            static const char *const w[] = {"second", "minute", "hour", "day", "week", "month", "year"};
            std::string un = w[u];
            if(u == U_MIN && g.chance(20)) un = "min";
            p.text += un + (n != 1 || g.chance(10) ? "s" : "");
            ok1(p, shift(r, u, n * sign));
        }
        if(in_calendar(p.start)) return p;
        if(g.chance(20)) { p.family += "-beyond"; p.chain_ok = false; return p; }
    }
}
inline Phrase g_units(Rng &g, const Instant &r) { return g.chance(45) ? g_week(g, r) : g_relative(g, r); }

// ------------------------------------------------------------------ C09
inline Phrase g_weekday(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_DOW; p.family = "weekday";
    int w = g.below(7);
    std::string name = g.chance(60) ? WDAYS[w][0] : pick0(g, WDAYS[w]);
    int k = g.below(8), week = 0;
    std::string t;
    switch(k) {
    case 0: t = name; break;
    case 1: t = g.chance(70) ? "this " + name : name + " this week"; break;
    case 2: case 3: t = "last " + name; week = -1; break;
    case 4: case 5: t = "next " + name; week = 1; break;
    case 6: t = name + " last week"; week = -1; break;
    default: t = name + " next week"; week = 1;
    }
    Instant a = r.days(-r.wday() + w + 7 * week).at(0);
    if(g.chance(25)) {
        int e = g.below(3);
        t = std::string(e == 0 ? "early " : e == 1 ? "earlier " : "late ") + t;
        a = a.at(e == 2 ? 20 : 6, 1);
        p.family = "weekday-timing";
    }
    p.text = t;
    ok1(p, a);
    return p;
}

// ------------------------------------------------------------------ C10
inline Phrase g_holiday(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_HOL; p.family = "holiday";
    int y = r.date().y;
    std::string day = g.chance(60) ? " day" : "";
    switch(g.below(13)) {
    case 0: p.text = "new year's" + day; ok1(p, inst(y, 1, 1)); break;
    case 1: p.text = "new year's eve"; ok1(p, inst(y, 12, 31)); break;
    case 2: { static const Strs n = {"mlk", "martin luther king jr", "martin luther king junior", "martin luther king jnr"};
              p.text = g.pick(n) + day; ok1(p, nth_weekday(y, 1, 3, 1)); break; }
    case 3: p.text = "president's" + day; ok1(p, nth_weekday(y, 2, 3, 1)); break;
    case 4: p.text = "memorial" + day; ok1(p, nth_weekday(y, 5, 0, 1)); break;
    case 5: p.text = "independence" + day; ok1(p, inst(y, 7, 4)); break;
    case 6: p.text = "labor" + day; ok1(p, nth_weekday(y, 9, 1, 1)); break;
    case 7: p.text = "columbus" + day; ok1(p, nth_weekday(y, 10, 2, 1)); break;
    case 8: p.text = std::string(g.chance(50) ? "veterans" : "veteran's") + day; ok1(p, inst(y, 11, 11)); break;
    case 9: p.text = "thanksgiving" + day; ok1(p, nth_weekday(y, 11, 4, 4)); break;
    case 10: p.text = "black friday"; ok1(p, nth_weekday(y, 11, 4, 4).days(1)); break;
    case 11: p.text = "christmas" + day; ok1(p, inst(y, 12, 25)); break;
    default: p.text = "christmas eve"; ok1(p, inst(y, 12, 24));
    }
    return p;
}

// ------------------------------------------------------------------ C11
// the occurrences of month, day that may be the answer
inline std::vector<int> nearest_years(const Instant &r, int m, int d) {
    int y = r.date().y;
    int64_t best = 1 << 30; std::vector<std::pair<int64_t,int>> c;
    for(int k = y - 1; k <= y + 1; k++) {
        if(d > mdays(k, m)) continue;
        int64_t dist = llabs(days_of(k, m, d) - r.day);
        c.push_back({dist, k}); if(dist < best) best = dist;
    }
    std::vector<int> out;
    for(auto &x : c) if(x.first == best) out.push_back(x.second);
    return out;
}
inline void some_monthday(Rng &g, const Instant &r, int &m, int &d) {
    if(g.chance(50)) {       // about half a year away, where the year changes
        Instant t = r.days((g.chance(50) ? 1 : -1) * g.range(178, 188));
        m = t.date().m; d = t.date().d;
    } else if(g.chance(20)) { Instant t = r.days(g.range(-3, 3)); m = t.date().m; d = t.date().d; }
    else { m = g.range(1, 12); d = g.chance(30) ? mdays(2019, m) : g.range(1, mdays(2019, m)); }
    if(g.chance(6)) { m = 2; d = 29; }
}
inline Phrase g_month(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_MN; p.family = "month";
    int m, d; some_monthday(g, r, m, d);
    if(g.chance(30)) m = g.range(1, 12);
    p.text = g.chance(70) ? MONTHS[m - 1][0] : pick0(g, MONTHS[m - 1]);
    bool first = true;
    for(int y : nearest_years(r, m, 1)) { if(first) ok1(p, inst(y, m, 1)); else p.alts.push_back(show(inst(y, m, 1))); first = false; }
    return p;
}
inline std::string day_text(Rng &g, int d) {
    int k = g.below(4);
    if(k <= 1) return num(d);
    if(k == 2) return num(d) + suffix_of(d);
    std::string o = ORDINALS[d - 1];
    if(g.chance(30)) for(auto &c : o) if(c == ' ') c = '-';
    return o;
}
inline Phrase g_monthday(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_MME; p.family = "month-day";
    int m, d; some_monthday(g, r, m, d);
    std::string mt = g.chance(60) ? MONTHS[m - 1][0] : pick0(g, MONTHS[m - 1]);
    if(g.chance(3)) {        // a day that the month has in no year
        d = g.chance(60) && mdays(2020, m) < 31 ? g.range(mdays(2020, m) + 1, 31) : g.chance(10) ? 0 : g.range(32, 99);
        p.text = mt + " " + (d && d < 32 ? day_text(g, d) : num(d) + (g.chance(30) ? suffix_of(d) : ""));
        p.alts.push_back("none"); p.chain_ok = false; p.family = "month-day-none"; return p;
    }
    int e = 0;
    p.text = mt + " " + day_text(g, d);
    auto years = nearest_years(r, m, d);
    if(years.empty()) { p.alts.push_back("none"); p.chain_ok = false; return p; }      // February 29
    if(g.chance(20) && d < mdays(years[0], m)) {
        e = g.range(d + 1, mdays(years[0], m));
        p.text += (g.chance(50) ? " to " : g.chance(50) ? " - " : "-") + day_text(g, e);
        p.family = "month-range";
    }
    bool first = true;
    for(int y : years) {
        if(e > mdays(y, m)) continue;
        Instant a = inst(y, m, d);
        if(e) { if(first) ok2(p, a, inst(y, m, e, 23, 59)); else p.alts.push_back(show(a, inst(y, m, e, 23, 59))); }
        else { if(first) ok1(p, a); else p.alts.push_back(show(a)); }
        first = false;
    }
    return p;
}
inline Phrase g_months(Rng &g, const Instant &r) { return g.chance(30) ? g_month(g, r) : g_monthday(g, r); }

// ------------------------------------------------------------------ C12
struct Clock { std::string text; int sec; int mer; bool h24; int h12; };   // mer 0 none, 1 am, 2 pm
inline std::string mer_text(Rng &g, int mer) {
    static const Strs am = {"am", " am", "am", " a.m.", "a.m", "a"}, pm = {"pm", " pm", "pm", " p.m.", "p.m", "p"};
    return mer == 1 ? g.pick(am) : g.pick(pm);
}
inline int some_min(Rng &g) { return g.chance(30) ? g.pick(std::vector<int>{0, 1, 29, 30, 31, 58, 59}) : g.below(60); }
inline Clock clock12(Rng &g, int mer) {
    Clock c; char b[32];
    int h = g.chance(25) ? 12 : g.range(1, 12), m = 0, s = 0;
    int form = g.below(4);
    if(form == 0) snprintf(b, sizeof b, "%d", h);
    else if(form <= 2) { m = some_min(g); snprintf(b, sizeof b, g.chance(80) ? "%d:%02d" : "%02d:%02d", h, m); }
    else { m = some_min(g); s = some_min(g); snprintf(b, sizeof b, "%d:%02d:%02d", h, m, s); }
    c.text = b; c.mer = mer; c.h24 = false; c.h12 = h;
    int hh = mer == 2 ? (h == 12 ? 12 : h + 12) : mer == 1 ? (h == 12 ? 0 : h) : h;
    c.sec = hh * 3600 + m * 60 + s;
    if(mer) c.text += mer_text(g, mer);
    return c;
}
inline Clock clock24(Rng &g) {
    Clock c; char b[32]; int h = g.below(24), m = some_min(g), s = 0;
    int form = g.below(5);
    if(form == 0) snprintf(b, sizeof b, "%02d%02d", h, m);
    else if(form <= 3) snprintf(b, sizeof b, g.chance(70) ? "%02d:%02d" : "%d:%02d", h, m);
    else { s = some_min(g); snprintf(b, sizeof b, "%02d:%02d:%02d", h, m, s); }
    c.text = b; c.mer = 0; c.h24 = true; c.h12 = 0; c.sec = h * 3600 + m * 60 + s;
    return c;
}
// two times: text without "from"; seconds of day of start and end (end already on the next day if earlier)
inline std::string clock_range(Rng &g, int &a, int &b) {
    std::string sep = g.chance(50) ? " to " : g.chance(70) ? " - " : g.chance(60) ? "-" : g.chance(50) ? " ~ " : " \xe2\x80\x93 ";
    Clock x, y;
    switch(g.below(5)) {
    case 0: x = clock12(g, g.range(1, 2)); y = clock12(g, g.range(1, 2)); break;
    case 1: x = clock24(g); y = clock24(g); break;
    case 2:   // the end takes the start's am or pm
        do { x = clock12(g, g.range(1, 2)); y = clock12(g, 0); } while(y.h12 == 12);
        if(x.mer == 2) y.sec += 43200;
        break;
    case 3:   // the start takes the end's pm
        do { x = clock12(g, 0); y = clock12(g, 2); } while(x.h12 == 12 || y.h12 == 12);
        x.sec += 43200; break;
    default: x = clock12(g, 2); y = clock12(g, 1);      // overnight
    }
    a = x.sec; b = y.sec; if(b < a) b += 86400;
    // "-0614" after a time is the offset of a zone, not an end
    if(sep != " to " && y.h24 && y.text.find(':') == std::string::npos) sep = " to ";
    return x.text + sep + y.text;
}
inline Phrase g_clock(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_TX; p.family = "clock";
    int k = g.below(10);
    if(k == 0) { p.text = g.chance(30) ? "at midnight" : "midnight"; ok1(p, r.at(0)); return p; }
    if(k == 1) { p.text = g.chance(30) ? "at noon" : "noon"; ok1(p, r.at(12)); p.chain_ok = false; return p; }
    char tx[48];
    if(k <= 5 && g.chance(15)) {      // other ways to write a time
        int h = g.below(24), m = some_min(g), s = 0;
        switch(g.below(6)) {
        case 0: m = 0; snprintf(tx, sizeof tx, "at %d", h); break;
        case 1: h = g.range(1, 9); snprintf(tx, sizeof tx, g.chance(50) ? "at %d%02d" : "%d%02d", h, m); break;
        case 2: h = g.range(1, 12); if(g.chance(60)) { m = 0; snprintf(tx, sizeof tx, g.chance(50) ? "at %d o'clock" : "%d o'clock", h); } else snprintf(tx, sizeof tx, "%d:%02d o'clock", h, m); break;
        case 3: { bool pm = g.chance(50); int x = g.range(1, 12); snprintf(tx, sizeof tx, "%d.%02d%s", x, m, mer_text(g, pm ? 2 : 1).c_str()); h = x % 12 + (pm ? 12 : 0); break; }
        case 4: s = some_min(g); snprintf(tx, sizeof tx, "%02d:%02d:%02d.%0*d", h, m, s, g.range(1, 6), g.below(10)); break;
        default: h = 24; m = 0; snprintf(tx, sizeof tx, g.chance(50) ? "at 24:00" : "24:00");
        }
        p.text = tx; p.family = "clock-form"; ok1(p, r.at(0).plus(h * 3600 + m * 60 + s)); return p;
    }
    if(k <= 5 && g.chance(10)) {      // times that do not exist
        int h = g.below(24), m = some_min(g);
        switch(g.below(6)) {
        case 0: snprintf(tx, sizeof tx, "%d:%02d", h, g.chance(40) ? 60 : g.range(60, 99)); break;
        case 1: snprintf(tx, sizeof tx, "%02d:%02d", g.chance(40) ? 25 : g.range(25, 99), m); break;
        case 2: snprintf(tx, sizeof tx, "%02d:%02d:%02d", h, m, g.chance(40) ? 60 : g.range(60, 99)); break;
        case 3: snprintf(tx, sizeof tx, "%d%s", g.chance(40) ? 13 : g.range(13, 99), mer_text(g, g.range(1, 2)).c_str()); break;
        case 4: snprintf(tx, sizeof tx, "24:%02d", g.chance(30) ? 1 : g.range(1, 59)); break;
        default: snprintf(tx, sizeof tx, "%02d%02d", h, g.range(60, 99));
        }
        p.text = (g.chance(50) ? "at " : "") + std::string(tx); p.family = "clock-none"; p.alts.push_back("none"); p.chain_ok = false; return p;
    }
    if(k > 5 && g.chance(8)) {        // an end that does not exist
        Clock c = g.chance(60) ? clock12(g, g.range(1, 2)) : clock24(g);
        int h = g.below(24), m = some_min(g);
        switch(g.below(3)) {
        case 0: snprintf(tx, sizeof tx, "%d:%02d", h, g.chance(40) ? 60 : g.range(60, 99)); break;
        case 1: snprintf(tx, sizeof tx, "%02d:%02d", g.chance(40) ? 25 : g.range(25, 99), m); break;
        default: snprintf(tx, sizeof tx, "%02d:%02d:%02d", h, m, g.chance(40) ? 60 : g.range(60, 99));
        }
        p.text = (g.chance(60) ? "from " : "") + c.text + " to " + tx; p.family = "clock-badend"; p.chain_ok = false;
        ok1(p, r.at(0).plus(c.sec)); return p;
    }
    if(k <= 5) {
        Clock c = g.chance(60) ? clock12(g, g.range(1, 2)) : clock24(g);
        p.text = (g.chance(50) ? "at " : "") + c.text; ok1(p, r.at(0).plus(c.sec)); return p;
    }
    int a, b;
    std::string t = clock_range(g, a, b);
    p.text = (g.chance(60) ? "from " : "") + t;
    p.family = "clock-range";
    ok2(p, r.at(0).plus(a), r.at(0).plus(b));
    return p;
}
inline Phrase g_daypart(Rng &g, const Instant &r) {
    Phrase p; p.parser = P_CT; p.family = "daypart";
    int k = g.below(5);
    static const char *const w[] = {"morning", "afternoon", "evening", "night", "noon"};
    static const int h[] = {6, 15, 20, 20, 12};
    p.text = (g.chance(60) ? "this " : "") + std::string(w[k]);
    ok1(p, r.at(h[k], r.mi()));
    if(k == 4) p.chain_ok = false;
    return p;
}
inline Phrase g_times(Rng &g, const Instant &r) { return g.chance(70) ? g_clock(g, r) : g_daypart(g, r); }

// ------------------------------------------------------------------ C13
inline Date some_date(Rng &g, int y0 = 1400, int y1 = 9999) {
    Date d;
    d.y = g.chance(60) ? g.range(1970, 2099) : g.chance(30) ? g.pick(std::vector<int>{1600, 1700, 1900, 2000, 2100, 2400, 2004, 2096, 1999}) : g.range(y0, y1);
    if(d.y < y0) d.y = y0;
    if(d.y > y1) d.y = y1;
    d.m = g.range(1, 12);
    d.d = g.chance(30) ? mdays(d.y, d.m) : g.chance(15) ? 1 : g.range(1, mdays(d.y, d.m));
    if(g.chance(8)) { d.m = 2; d.d = mdays(d.y, 2); }
    return d;
}
inline Phrase g_iso(Rng &g, const Instant &) {
    Phrase p; p.parser = P_ISO; p.family = "iso"; p.nocase = false;
    Date d = some_date(g); char b[64];
    Instant a = inst(d.y, d.m, d.d);
    if(g.chance(4)) {        // a date that does not exist
        switch(g.below(5)) {
        case 0: d.m = g.chance(50) ? 13 : g.range(13, 99); break;
        case 1: d.m = 0; break;
        case 2: d.d = 0; break;
        case 3: d.y = g.range(0, 1399); break;
        default: d.d = g.chance(60) ? mdays(d.y, d.m) + 1 : g.range(mdays(d.y, d.m) + 1, 99);
        }
        snprintf(b, sizeof b, "%04d-%02d-%02d", d.y, d.m, d.d);
        p.text = b; p.family = "date-none"; p.alts.push_back("none"); p.chain_ok = false; return p;
    }
    snprintf(b, sizeof b, g.chance(80) ? "%04d-%02d-%02d" : g.chance(50) ? "%d-%d-%d" : g.chance(50) ? "%d-%02d-%d" : "%d-%d-%02d", d.y, d.m, d.d);
    p.text = b;
    int k = g.below(5);
    if(k >= 3) {
        int h = g.below(24), m = some_min(g), s = some_min(g);
        if(k == 3) { snprintf(b, sizeof b, "T%02d:%02d", h, m); a = a.at(h, m); }
        else { snprintf(b, sizeof b, g.chance(85) ? "T%02d:%02d:%02d" : "T%d:%d:%d", h, m, s); a = a.at(h, m, s); if(g.chance(10)) { size_t l = strlen(b); snprintf(b + l, sizeof b - l, ".%0*d", g.range(1, 4), g.below(10)); } }
        if(g.chance(15)) strcat(b, "Z");
        p.text += b;
        p.family = "iso-time";
    }
    ok1(p, a);
    return p;
}
inline Phrase g_fulldate(Rng &g, const Instant &) {
    Phrase p;
    bool be = g.chance(12);
    Date d = be ? some_date(g, 1400, 9456) : some_date(g);
    std::string mt = g.chance(60) ? MONTHS[d.m - 1][0] : pick0(g, MONTHS[d.m - 1]);
    std::string yt = be ? num(d.y + 543) + " be" : num(d.y);
    if(g.chance(30)) {
        p.parser = P_MN; p.family = "month-year";
        p.text = mt + (g.chance(60) ? " " : g.chance(60) ? ", " : g.chance(50) ? "-" : ",") + yt;
        if(!be && g.chance(8)) p.text += g.chance(50) ? "ad" : " ad";
        ok1(p, inst(d.y, d.m, 1));
    } else {
        p.parser = P_MME; p.family = "month-day-year";
        Instant a = inst(d.y, d.m, d.d);
        if(g.chance(4)) {     // a day that the month has not
            int dd = g.chance(70) && mdays(d.y, d.m) < 31 ? g.range(mdays(d.y, d.m) + 1, 31) : g.range(32, 99);
            p.text = mt + " " + (dd < 32 ? day_text(g, dd) : num(dd)) + ", " + yt;
            p.family = "date-none"; p.alts.push_back("none"); p.chain_ok = false; return p;
        }
        bool ad = !be && g.chance(10);
        if(ad) yt += g.chance(50) ? " ad" : "ad";
        std::string s1 = g.chance(85) ? " " : g.chance(50) ? "-" : "/", s2 = g.chance(60) ? ", " : be || ad || g.chance(60) ? " " : g.chance(50) ? "-" : "/";
        if(g.chance(15) && d.d < mdays(d.y, d.m)) {      // a range of days
            int e = g.range(d.d + 1, mdays(d.y, d.m));
            p.text = mt + s1 + day_text(g, d.d) + (g.chance(50) ? " to " : g.chance(50) ? " - " : "-") + day_text(g, e) + s2 + yt;
            ok2(p, a, inst(d.y, d.m, e, 23, 59)); p.family = "month-range-year";
        } else { p.text = mt + s1 + day_text(g, d.d) + s2 + yt; ok1(p, a); }
        if(g.chance(12)) { int w = a.wday(); p.text = (g.chance(50) ? WDAYS[w][0] : pick0(g, WDAYS[w])) + (g.chance(60) ? ", " : " ") + p.text; if(g.chance(30)) p.text = "on " + p.text; p.family += "-weekday"; }
    }
    return p;
}
inline Phrase g_absolute(Rng &g, const Instant &r) { return g.chance(50) ? g_iso(g, r) : g_fulldate(g, r); }

// ------------------------------------------------------------------ C14
// a date phrase that a clock time can follow (certain: it can also be an end of a range)
inline Phrase g_datepart(Rng &g, const Instant &r, int certain) {   // 0 any, 1 an end of a range
    for(;;) {
        Phrase p; p.family = "datepart";
        switch(certain ? g.below(6) : g.below(8)) {
        case 0: { static const char *const w[] = {"today", "tomorrow", "yesterday"};
                  int k = g.below(3); p.text = w[k];
                  ok1(p, (k == 0 ? r : k == 1 ? (r.h() == 0 ? r : r.days(1)) : r.days(-1)).at(0));
                  if(k == 2 && certain) { p.alts.clear(); ok1(p, r.days(-1).at(r.h())); }
                  break; }
        case 1: { int w = g.below(7); bool n = g.chance(50); p.text = std::string(n ? "next " : "last ") + (g.chance(60) ? WDAYS[w][0] : pick0(g, WDAYS[w]));
                  ok1(p, r.days(-r.wday() + w + (n ? 7 : -7)).at(0)); break; }
        case 2: { Date d = some_date(g); char b[32]; snprintf(b, sizeof b, "%04d-%02d-%02d", d.y, d.m, d.d); p.text = b; ok1(p, inst(d.y, d.m, d.d)); p.nocase = false; break; }
        case 3: { int m, d; some_monthday(g, r, m, d); auto ys = nearest_years(r, m, d); if(ys.size() != 1) continue;
                  p.text = std::string(g.chance(60) ? MONTHS[m - 1][0] : pick0(g, MONTHS[m - 1])) + " " + day_text(g, d); ok1(p, inst(ys[0], m, d)); p.family = "datepart-md"; break; }
        case 4: { Date d = some_date(g); p.text = std::string(MONTHS[d.m - 1][0]) + " " + num(d.d) + ", " + num(d.y); ok1(p, inst(d.y, d.m, d.d)); break; }
        case 5: { int64_t n = g.chance(70) ? g.range(1, 40) : some_count(g, r, U_DAY, -1); bool wk = g.chance(30);
                  p.text = num(n) + (wk ? " weeks ago" : " days ago"); ok1(p, r.days(-n * (wk ? 7 : 1)).at(0)); break; }
        case 6: { int w = g.below(7); p.text = std::string(g.chance(50) ? "this " : "") + WDAYS[w][0]; ok1(p, r.days(-r.wday() + w).at(0)); break; }
        default: { int64_t n = g.chance(70) ? g.range(1, 40) : some_count(g, r, U_DAY, 1); bool wk = g.chance(30);
                  p.text = "in " + num(n) + (wk ? " weeks" : " days"); ok1(p, r.days(n * (wk ? 7 : 1)).at(0)); }
        }
        if(in_calendar(p.start)) return p;
    }
}
inline Phrase g_combo(Rng &g, const Instant &r) {
    for(;;) {
        Phrase p; p.parser = -1;
        int k = g.below(10);
        if(k <= 3) {
            Phrase d = g_datepart(g, r, false);
            Clock c = g.chance(60) ? clock12(g, g.range(1, 2)) : clock24(g);
            static const Strs sep = {" at ", " at ", ", ", " "};
            std::string se = g.pick(sep);
            if(c.text.find(':') == std::string::npos && !c.mer) se = " at ";       // "march 3, 1730" names a year
            p.text = d.text + se + c.text; p.nocase = d.nocase; p.family = "date-time";
            ok1(p, d.start.plus(c.sec));
        } else if(k == 4) {
            Clock c = g.chance(60) ? clock12(g, g.range(1, 2)) : clock24(g);
            Phrase d = g_datepart(g, r, false);
            static const Strs sep = {" ", " on ", ", "};
            p.text = c.text + g.pick(sep) + d.text; p.nocase = d.nocase; p.family = "time-date";
            ok1(p, d.start.plus(c.sec));
        } else if(k <= 6) {
            Phrase d = g_datepart(g, r, false);
            int a, b; std::string t = clock_range(g, a, b);
            p.text = d.text + (g.chance(50) ? " from " : " at ") + t; p.nocase = d.nocase; p.family = "date-timerange";
            ok2(p, d.start.plus(a), d.start.plus(b));
        } else {
            Phrase x = g_datepart(g, r, true), y = g_datepart(g, r, true);
            if(x.family == "datepart-md" && isdigit(y.text[0])) continue;           // "march 3 to 5 days ago" names the 5th
            if(isdigit(y.text[0]) && y.text.find(' ') == 4 && isdigit(x.text.back())) continue; // "may 9, 2002 to 1652 weeks ago" names two clock times
            static const Strs c = {" to ", " through ", " and ", " - "};
            p.text = x.text + g.pick(c) + y.text; p.nocase = x.nocase && y.nocase; p.family = "date-range";
            if(x.start.abs() <= y.start.abs()) ok2(p, x.start, y.start); else ok2(p, y.start, x.start);
            if(!in_calendar(p.end)) continue;
        }
        if(in_calendar(p.start) && (!p.has_end || in_calendar(p.end))) return p;
    }
}

// a clock time with a word that may be a time zone behind it (no expected answer: for differential oracles)
inline Phrase g_zoned(Rng &g, const Instant &r) {
    Phrase p = g_clock(g, r);
    static const Strs z = {"est", "pst", "utc", "gmt", "jst", "cest", "nst", "ist", "wat", "npt", "xyz", "q", "qq", "ok", "bob", "zzzz", "it"};
    std::string w = g.pick(z);
    if(g.chance(25)) { w.clear(); for(int i = g.range(2, 4); i > 0; i--) w += (char)g.range('a', 'z'); }
    if(g.chance(15)) w = "(" + w + ")";
    p.text += " " + w; p.parser = -1; p.family = "zoned"; p.chain_ok = false;
    p.alts.clear();
    return p;
}

// ------------------------------------------------------------------ texts around phrases
inline const Strs &noise_words() {
    static const Strs w = {"please", "remind", "me", "call", "bob", "meeting", "lunch", "report", "the", "about", "with", "team", "ship",
        "kindly", "hello", "we", "should", "meet", "project", "review", "kick", "off", "it", "my", "dentist", "deploy", "server"};
    return w;
}
inline std::string noise(Rng &g, int n) {
    std::string s;
    for(int i = 0; i < n; i++) { if(i) s += " "; s += g.pick(noise_words()); }
    return s;
}
inline std::string vary_case(Rng &g, std::string s) {
    int k = g.below(6);
    if(k == 0) for(auto &c : s) c = (char)toupper(c);
    else if(k == 1) for(auto &c : s) { if(g.chance(50)) c = (char)toupper(c); }
    else if(k == 2) { if(!s.empty()) s[0] = (char)toupper(s[0]); }
    return s;
}
// puts words around a phrase; pos: where the phrase begins
inline std::string decorate(Rng &g, const Phrase &p, int &pos) {
    std::string t = p.nocase ? vary_case(g, p.text) : p.text, s;
    if(g.chance(60)) { s = noise(g, g.range(1, 4)) + " "; if(g.chance(10)) s = "  " + s; }
    pos = (int)s.size();
    s += t;
    if(g.chance(50)) { static const Strs e = {"", ".", ",", "!", "?", ";", ")"}; s += g.pick(e); if(g.chance(70)) s += " " + noise(g, g.range(1, 3)); }
    return s;
}

// ------------------------------------------------------------------ reference instants
inline Instant some_instant(Rng &g) {
    int y, m, d;
    int k = g.below(100);
    if(k < 65) y = g.range(1971, 2099);
    else if(k < 80) y = g.pick(std::vector<int>{1999, 2000, 2001, 2004, 1900, 2100, 2096, 2400, 1972, 2019, 2020, 2038, 1800, 1600, 1700});
    else if(k < 92) y = g.range(1600, 2600);
    else y = g.range(1403, 9990);
    k = g.below(100);
    m = g.range(1, 12);
    d = g.range(1, mdays(y, m));
    if(k < 18) d = mdays(y, m);
    else if(k < 26) d = mdays(y, m) - g.range(1, 2);
    else if(k < 36) d = 1;
    else if(k < 44) { m = 2; d = g.range(27, mdays(y, 2)); }
    else if(k < 48) { m = 3; d = g.range(1, 2); }
    else if(k < 54) { m = 12; d = g.range(25, 31); }
    else if(k < 60) { m = 1; d = g.range(1, 7); }
    else if(k < 66) { m = g.range(6, 7); d = m == 6 ? g.range(26, 30) : g.range(1, 5); }
    int h = g.below(24), mi = g.below(60), s = g.below(60);
    k = g.below(100);
    if(k < 12) h = 0; else if(k < 18) h = 23; else if(k < 30) h = g.pick(std::vector<int>{1, 6, 7, 11, 12, 13, 22});
    if(g.chance(20)) mi = g.chance(50) ? 0 : 59;
    if(g.chance(20)) s = g.chance(50) ? 0 : 59;
    return inst(y, m, d, h, mi, s);
}
