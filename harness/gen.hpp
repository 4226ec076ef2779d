// Phrase generators, each with its own oracle for what the phrase means.
#pragma once
#include <map>
#include <algorithm>
#include <string>
#include <vector>
#include "cal.hpp"
#include "core.hpp"
#include "sut.hpp"

namespace gen {
using sut::Comp; using sut::Ref; using sut::Kind;
using sut::Y; using sut::MO; using sut::D; using sut::WD; using sut::H; using sut::MI; using sut::S; using sut::TZ; using sut::NF;
typedef long long i64;

struct Phrase {
    Kind kind = sut::CTP;
    std::string text;   // lower case
    bool result = true; // whether a result is expected
    Comp a, b;          // st: KNOWN certain, IMPLIED implied, UNSET absent (reads 0)
    bool end = false;
    unsigned careA = 0xff & ~(1u << WD), careB = 0xff & ~(1u << WD); // fields judged
    std::string cls;    // coverage class, also the key of a violation
    void known(int f, int v) { a.v[f] = v; a.st[f] = sut::KNOWN; }
    void imply(int f, int v) { a.v[f] = v; a.st[f] = sut::IMPLIED; }
    void date(const cal::Date& d, bool certain) {
        for (int f : {Y, MO, D}) { int v = f == Y ? d.y : f == MO ? d.m : d.d; certain ? known(f, v) : imply(f, v); }
    }
    void time(int h, int m, int s, bool certain) {
        certain ? known(H, h) : imply(H, h); certain ? known(MI, m) : imply(MI, m); certain ? known(S, s) : imply(S, s);
    }
    void wd(int w) { known(WD, w); careA |= 1u << WD; }
};

inline std::string num(i64 n) { return std::to_string(n); }
inline std::string pad(int n, int w) { char b[16]; snprintf(b, sizeof b, "%0*d", w, n); return b; }

inline std::string blanks(Rng& r, i64 n) {
    std::string s;
    bool mixed = r.chance(50);
    for (i64 i = 0; i < n; i++) s += mixed && r.chance(20) ? r.pick({'\t', '\n', '\r', '\v', '\f'}) : ' ';
    return s;
}
// leading zeros that do not change a number
inline std::string zeros(Rng& r) { return std::string(static_cast<size_t>(r.chance(50) ? 1 : r.chance(80) ? r.range(1, 5) : r.range(6, 40)), '0'); }
// ---------------------------------------------------------------- references
struct RefOpt { int lo = 1400, hi = 9999; bool extremes = true; bool fraction = true; };
inline Ref makeRef(Rng& r, RefOpt o = RefOpt()) {
    Ref f{};
    int mode = static_cast<int>(r.below(100));
    if (mode < 50) f.y = static_cast<int>(r.range(1900, 2100));
    else if (mode < 60) f.y = r.pick({1900, 1904, 1996, 2000, 2004, 2019, 2020, 2024, 2100, 2400, 1600, 1700, 2099, 2096});
    else if (mode < 92 || !o.extremes) f.y = static_cast<int>(r.range(std::max(o.lo, 1402), std::min(o.hi, 9997)));
    else f.y = r.pick({o.lo, o.lo + 1, o.hi, o.hi - 1});
    f.mo = static_cast<int>(r.range(1, 12));
    f.d = static_cast<int>(r.range(1, cal::dim(f.y, f.mo)));
    int dm = static_cast<int>(r.below(100));
    if (dm < 12) f.d = cal::dim(f.y, f.mo);
    else if (dm < 18) f.d = 1;
    else if (dm < 24) { f.mo = 2; f.d = static_cast<int>(r.range(27, cal::dim(f.y, 2))); }
    else if (dm < 28) { f.mo = 12; f.d = static_cast<int>(r.range(24, 31)); }
    else if (dm < 32) { f.mo = 1; f.d = static_cast<int>(r.range(1, 7)); }
    else if (dm < 34) { f.mo = 3; f.d = 1; }
    f.h = static_cast<int>(r.below(24)); f.mi = static_cast<int>(r.below(60)); f.s = static_cast<int>(r.below(60));
    int tm = static_cast<int>(r.below(100));
    if (tm < 8) f.h = f.mi = f.s = 0;
    else if (tm < 12) { f.h = 23; f.mi = f.s = 59; }
    else if (tm < 18) f.h = 0;
    else if (tm < 22) f.h = 1;
    else if (tm < 26) f.h = r.pick({6, 7});
    else if (tm < 29) f.h = 12;
    else if (tm < 32) f.h = 23;
    else if (tm < 34) { f.mi = 0; f.s = 0; }
    if (o.fraction && r.chance(10)) f.us = static_cast<int>(r.below(1000000));
    return f;
}

// ---------------------------------------------------------------- amounts and units
struct Amount { std::string text; i64 n = 0; bool half = false; std::string cls; };
static const char* const NUMWORD[] = {"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"};
enum Unit { SEC, MIN, HOUR, DAY, WEEK, MONTH, YEAR, NUNIT };
static const char* const UNIT_NAME[] = {"sec", "min", "hour", "day", "week", "month", "year"};

inline i64 digits(Rng& r, Unit u) {
    int m = static_cast<int>(r.below(100));
    if (m < 45) return r.range(0, 31);
    if (m < 75) return r.range(0, 400);
    if (m < 90) return r.pick({0LL, 1LL, 7LL, 11LL, 12LL, 13LL, 23LL, 24LL, 25LL, 28LL, 29LL, 30LL, 31LL, 52LL, 59LL, 60LL, 61LL, 99LL, 100LL, 365LL, 366LL, 1439LL, 1440LL, 1441LL, 3600LL, 86399LL, 86400LL, 86401LL});
    switch (u) {
        case SEC: return r.range(0, 16000000);
        case MIN: return r.range(0, 3000000);
        case HOUR: return r.range(0, 1000000);
        case DAY: return r.range(0, 100000);
        case WEEK: return r.range(0, 20000);
        case MONTH: return r.range(0, 10000);
        default: return r.range(0, 2000);
    }
}
// style bits: which spellings the parser at hand knows
enum { A_WORDS = 1, A_DIGITS = 2, A_ARTICLE = 4, A_AFEW = 8, A_FEW = 16, A_HALF = 32 };
inline Amount amount(Rng& r, Unit u, int styles, const std::string& gap = " ") {
    Amount a;
    for (;;) {
        int m = static_cast<int>(r.below(100));
        if (m < 30 && (styles & A_WORDS)) { int k = static_cast<int>(r.below(12)); a.text = NUMWORD[k]; a.n = k + 1; a.cls = "word"; return a; }
        if (m < 70 && (styles & A_DIGITS)) {
            a.n = digits(r, u); a.text = num(a.n); a.cls = "digits";
            if (r.chance(4)) a.text = zeros(r) + a.text;
            return a;
        }
        if (m < 80 && (styles & A_ARTICLE)) { a.text = r.chance(50) ? "a" : "an"; a.n = 1; a.cls = "a"; return a; }
        if (m < 88 && (styles & A_AFEW)) { a.text = "a" + gap + "few"; a.n = 3; a.cls = "afew"; return a; }
        if (m < 88 && (styles & A_FEW)) { a.text = "few"; a.n = 3; a.cls = "few"; return a; }
        if (m >= 88 && (styles & A_HALF)) {
            int k = static_cast<int>(r.below(3));
            a.text = k == 0 ? "half" : k == 1 ? "half" + gap + "a" : "half" + gap + "an";
            a.half = true; a.cls = "half"; return a;
        }
    }
}
inline std::string space(Rng& r, bool mayBeEmpty = false) {
    int m = static_cast<int>(r.below(100));
    if (mayBeEmpty && m < 15) return "";
    if (m < 85) return " ";
    if (m < 92) return "  ";
    if (m < 95) return "\t";
    if (m < 97) return "   ";
    if (m < 98) return r.pick({"\n", "\r\n", "\v", "\f", " \n\t "});
    if (m < 99) return "\n";
    if (r.chance(50)) return "    ";
    return blanks(r, r.chance(80) ? r.range(5, 40) : r.range(41, 150)); // long runs
}

// result of moving ref by n units; half amounts resolved per unit. returns false if outside the calendar
struct Moved { bool ok = true; cal::Date date; bool hasTime = false; int h = 0, mi = 0, s = 0; };
inline Moved moveBy(const Ref& ref, Unit u, i64 n) { // n signed
    Moved m;
    cal::Date d = cal::dateOf(ref);
    if (u == SEC || u == MIN || u == HOUR) {
        i64 t = cal::secs(cal::dtOf(ref)) + n * (u == SEC ? 1 : u == MIN ? 60 : 3600);
        if (!cal::secsInCal(t)) { m.ok = false; return m; }
        cal::DT x = cal::fromSecs(t);
        m.date = x.date; m.hasTime = true; m.h = x.h; m.mi = x.mi; m.s = x.s;
        return m;
    }
    if (u == DAY || u == WEEK) {
        i64 z = cal::days(d) + n * (u == DAY ? 1 : 7);
        if (!cal::inCal(z)) { m.ok = false; return m; }
        m.date = cal::fromDays(z);
        return m;
    }
    m.ok = cal::addMonths(d, n * (u == MONTH ? 1 : 12), m.date);
    return m;
}
// half a unit, as a whole amount of a smaller one
inline void halfOf(Unit u, Unit& v, i64& n, int halfSecond) {
    switch (u) {
        case SEC: v = SEC; n = halfSecond; break;
        case MIN: v = SEC; n = 30; break;
        case HOUR: v = MIN; n = 30; break;
        case DAY: v = HOUR; n = 12; break;
        case WEEK: v = DAY; n = 3; break;
        case MONTH: v = DAY; n = 15; break;
        default: v = MONTH; n = 6;
    }
}
static const i64 MAX_AMOUNT = 2147483647LL;
// amounts that are refused by size alone
inline bool tooLarge(Unit, i64 n) { return n > MAX_AMOUNT; }

// ---------------------------------------------------------------- C08
inline Phrase casualDate(Rng& r, const Ref& ref, int which = -1) {
    static const char* const W[] = {"now", "today", "tonight", "tomorrow", "tmr", "yesterday", "last night"};
    if (which < 0) which = static_cast<int>(r.below(7));
    Phrase p; p.kind = sut::CDP; p.text = W[which]; p.cls = std::string("casualdate:") + W[which];
    i64 z = cal::days(cal::dateOf(ref));
    switch (which) {
        case 0: p.time(ref.h, ref.mi, ref.s, true); break;
        case 2: p.imply(H, 22); break;
        case 3: case 4: if (ref.h > 0) z++; break;
        case 5: z--; p.imply(H, ref.h); break;
        case 6: p.text = "last" + space(r, true) + "night"; p.imply(H, 0); if (ref.h > 6) z--; break;
        default: break;
    }
    if (!cal::inCal(z)) { p.result = false; return p; }
    p.date(cal::fromDays(z), true);
    return p;
}
// ---------------------------------------------------------------- C09
inline Phrase casualTime(Rng& r, const Ref& ref) {
    static const struct { const char* w; int h; } W[] = {{"morning", 6}, {"afternoon", 15}, {"evening", 20}, {"night", 20}, {"noon", 12}};
    const auto& w = W[r.below(5)];
    Phrase p; p.kind = sut::CTP; p.cls = std::string("casualtime:") + w.w;
    p.text = (r.chance(40) ? "this" + space(r, true) : std::string()) + w.w;
    p.date(cal::dateOf(ref), false);
    p.imply(WD, cal::wday(cal::dateOf(ref))); p.careA |= 1u << WD;
    p.imply(H, w.h); p.imply(MI, ref.mi);
    return p;
}
// ---------------------------------------------------------------- C10
inline Phrase deadlineOf(const Ref& ref, const std::string& lead, const Amount& a, Unit u, const std::string& unitText, const std::string& g1, const std::string& g2) {
    Phrase p; p.kind = sut::DFP;
    p.text = lead + g1 + a.text + g2 + unitText;
    p.cls = std::string("deadline:") + UNIT_NAME[u] + ":" + a.cls;
    Unit v = u; i64 n = a.n;
    if (a.half) halfOf(u, v, n, 1);
    else if (tooLarge(u, a.n)) { p.result = false; return p; }
    Moved m = moveBy(ref, v, n);
    if (!m.ok) { p.result = false; return p; }
    p.date(m.date, false);
    if (m.hasTime) {
        p.time(m.h, m.mi, m.s, false);
        if (u == DAY) { p.a.v[S] = 0; p.a.st[S] = sut::UNSET; p.careA &= ~(1u << S); } // half a day: seconds are not promised
    }
    return p;
}
inline std::string deadlineUnit(Rng& r, Unit u) {
    static const std::vector<std::string> F[] = {{"sec", "secs", "second", "seconds"}, {"min", "mins", "minute", "minutes"},
        {"hr", "hrs", "hour", "hours"}, {"day", "days"}, {"wk", "wks", "week", "weeks"}, {"month", "months"}, {"yr", "yrs", "year", "years"}};
    return r.pick(F[u]);
}
inline Phrase deadline(Rng& r, const Ref& ref) {
    Unit u = static_cast<Unit>(r.below(NUNIT));
    Amount a = amount(r, u, A_WORDS | A_DIGITS | A_ARTICLE | A_AFEW | A_HALF, space(r));
    return deadlineOf(ref, r.chance(60) ? "in" : "within", a, u, deadlineUnit(r, u), space(r), space(r));
}
// ---------------------------------------------------------------- C11
inline std::string longUnit(Rng& r, Unit u) {
    static const std::vector<std::string> F[] = {{"sec", "second", "seconds"}, {"min", "mins", "minute", "minutes"},
        {"hour", "hours"}, {"day", "days"}, {"week", "weeks"}, {"month", "months"}, {"year", "years"}};
    return r.pick(F[u]);
}
// sum[u]: total amount per unit, already without halves
inline void applySums(Phrase& p, const Ref& ref, const i64 (&sum)[NUNIT], int sign) {
    for (int u = 0; u < NUNIT; u++) if (tooLarge(static_cast<Unit>(u), sum[u])) { p.result = false; return; }
    cal::Date d = cal::dateOf(ref);
    i64 t = cal::secs(cal::dtOf(ref)) + sign * (sum[SEC] + 60 * sum[MIN] + 3600 * sum[HOUR]);
    p.result = false;
    if (!cal::secsInCal(t)) return;
    cal::DT x = cal::fromSecs(t);
    i64 z = cal::days(d) + sign * sum[DAY];
    if (!cal::inCal(z)) return;
    d = cal::fromDays(z);
    if (!cal::addMonths(d, sign * sum[MONTH], d)) return;
    z = cal::days(d) + sign * 7 * sum[WEEK];
    if (!cal::inCal(z)) return;
    d = cal::fromDays(z);
    if (!cal::addMonths(d, sign * 12 * sum[YEAR], d)) return;
    z = cal::days(d) + (cal::days(x.date) - cal::days(cal::dateOf(ref)));
    if (!cal::inCal(z)) return;
    p.result = true;
    bool tm = sum[SEC] > 0 || sum[MIN] > 0 || sum[HOUR] > 0;
    bool dt = sum[DAY] > 0 || sum[WEEK] > 0 || sum[MONTH] > 0 || sum[YEAR] > 0;
    if (tm) p.time(x.h, x.mi, x.s, true);
    p.date(dt ? cal::fromDays(z) : x.date, dt);
}
inline Phrase agoLater(Rng& r, const Ref& ref, int later = -1, int pairs = 0) {
    if (later < 0) later = r.chance(50);
    if (pairs == 0) { int m = static_cast<int>(r.below(100)); pairs = m < 50 ? 1 : m < 80 ? 2 : m < 93 ? 3 : m < 97 ? 4 : static_cast<int>(r.chance(80) ? r.range(5, 12) : r.range(13, 40)); }
    Phrase p; p.kind = later ? sut::TLP : sut::TAP;
    i64 sum[NUNIT] = {0};
    std::string t, cls;
    for (int i = 0; i < pairs; i++) {
        Unit u = static_cast<Unit>(r.below(NUNIT));
        Amount a = amount(r, u, A_WORDS | A_DIGITS | A_ARTICLE | A_AFEW | A_HALF, space(r));
        if ((a.n > 3000 && pairs > 1 && u >= MONTH) || (a.n > 400 && pairs > 4)) a = amount(r, u, A_WORDS);
        if (a.half && u == SEC) a = amount(r, u, A_WORDS | A_DIGITS); // below the resolution, not judged
        Unit v = u; i64 n = a.n;
        if (a.half) halfOf(u, v, n, 0);
        sum[v] += n;
        t += a.text + (later ? space(r) : space(r, a.cls == "digits")) + longUnit(r, u) + space(r);
        cls += std::string(i ? "+" : "") + UNIT_NAME[u] + ":" + a.cls;
    }
    if (pairs > 1) cls = pairs > 4 ? "long sum" : "sum" + num(pairs);
    if (later) t += r.chance(10) ? "from" + space(r) + "now" : r.pick({"later", "after", "from now", "henceforth", "forward", "out"});
    else {
        if (r.chance(15)) t = "within" + space(r) + t;
        t += r.pick({"ago", "before", "earlier"});
    }
    p.text = t;
    p.cls = std::string(later ? "later:" : "ago:") + cls;
    applySums(p, ref, sum, later ? 1 : -1);
    return p;
}
// ---------------------------------------------------------------- C12
inline std::string relUnit(Rng& r, Unit u) {
    static const std::vector<std::string> F[] = {{"second", "seconds"}, {"min", "mins", "minute", "minutes"},
        {"hour", "hours"}, {"day", "days"}, {"week", "weeks"}, {"month", "months"}, {"year", "years"}};
    return r.pick(F[u]);
}
inline Phrase relative(Rng& r, const Ref& ref) {
    Phrase p; p.kind = sut::REL;
    Unit u = static_cast<Unit>(r.below(NUNIT));
    std::string ut = relUnit(r, u);
    if (r.chance(25)) { // this
        bool amt = r.chance(25);
        p.text = "this" + space(r, true) + (amt ? amount(r, u, A_WORDS | A_DIGITS | A_FEW | A_HALF).text + space(r) : std::string()) + ut;
        p.cls = std::string("relative:this:") + UNIT_NAME[u] + (amt ? ":amount" : "");
        p.result = !amt && (u == WEEK || u == MONTH || u == YEAR);
        if (!p.result) return p;
        cal::Date d = cal::dateOf(ref), x, y;
        i64 z = cal::days(d);
        bool kY = u != WEEK, kM = u == MONTH;
        if (u == WEEK) {
            i64 s = z - cal::wday(z), e = s + 6;
            if (!cal::inCal(s) || !cal::inCal(e)) { p.result = false; return p; }
            x = cal::fromDays(s); y = cal::fromDays(e);
        } else if (u == MONTH) { x = {d.y, d.m, 1}; y = {d.y, d.m, cal::dim(d.y, d.m)}; }
        else { x = {d.y, 1, 1}; y = {d.y, 12, 31}; }
        auto put = [&](Comp& c, const cal::Date& q) {
            c.v[Y] = q.y; c.v[MO] = q.m; c.v[D] = q.d;
            c.st[Y] = kY ? sut::KNOWN : sut::IMPLIED; c.st[MO] = kM ? sut::KNOWN : sut::IMPLIED; c.st[D] = sut::IMPLIED;
        };
        put(p.a, x); put(p.b, y); p.end = true;
        return p;
    }
    std::string mod = r.pick({"next", "last", "past"});
    int sign = mod == "next" ? 1 : -1;
    Amount a;
    if (r.chance(25)) { a.n = 1; a.cls = "none"; }
    else a = amount(r, u, A_WORDS | A_DIGITS | A_FEW | A_HALF);
    p.text = mod + space(r) + (a.cls == "none" ? std::string() : a.text + space(r, a.cls == "digits")) + ut;
    p.cls = "relative:" + mod + ":" + UNIT_NAME[u] + ":" + a.cls;
    Unit v = u; i64 n = a.n;
    if (a.half) halfOf(u, v, n, 0);
    else if (tooLarge(u, n)) { p.result = false; return p; }
    Moved m = moveBy(ref, v, sign * n);
    if (!m.ok) { p.result = false; return p; }
    p.date(m.date, false);
    if (m.hasTime) {
        p.time(m.h, m.mi, m.s, false);
        if (u == DAY) { p.a.v[S] = 0; p.a.st[S] = sut::UNSET; p.careA &= ~(1u << S); }
    }
    return p;
}
// ---------------------------------------------------------------- C13
inline Phrase weekExpr(Rng& r, const Ref& ref, bool unknown = false) {
    Phrase p; p.kind = sut::WXP;
    if (!unknown && r.chance(15)) {
        p.text = "this" + space(r, true) + "week"; p.cls = "week:this";
        p.date(cal::dateOf(ref), false);
        return p;
    }
    bool next = r.chance(50);
    std::string t = next ? "next" : "last";
    i64 n = 1;
    p.cls = "week:" + t;
    t += space(r);
    if (unknown) {
        t += r.pick({"few", "several", "many", "busy", "couple", "working", "thirteen", "twenty", "fiscal", "zero", "hundred", "dozen"}) + std::string(" ");
        p.result = false; p.cls += ":unknown";
    } else if (r.chance(70)) {
        if (r.chance(40)) { int k = static_cast<int>(r.below(12)); n = k + 1; t += NUMWORD[k] + space(r); p.cls += ":word"; }
        else { n = digits(r, WEEK); t += (r.chance(8) ? zeros(r) : std::string()) + num(n) + space(r, true); p.cls += ":digits"; }
    }
    p.text = t + (r.chance(50) ? "weeks" : "week");
    if (!p.result) return p;
    if (tooLarge(WEEK, n)) { p.result = false; return p; }
    Moved m = moveBy(ref, WEEK, next ? n : -n);
    if (!m.ok) { p.result = false; return p; }
    p.date(m.date, false);
    return p;
}
// ---------------------------------------------------------------- C14
static const std::vector<std::string> WEEKDAY[7] = {{"sun", "sunday"}, {"mon", "monday"}, {"tue", "tues", "tuesday"}, {"wed", "wednesday"},
    {"thu", "thur", "thurs", "thursday"}, {"fri", "friday"}, {"sat", "saturday"}};
inline Phrase dayOfWeek(Rng& r, const Ref& ref) {
    Phrase p; p.kind = sut::DOW;
    int wd = static_cast<int>(r.below(7));
    std::string name = r.pick(WEEKDAY[wd]);
    int mod = static_cast<int>(r.below(4)); // 0 none 1 this 2 last 3 next
    static const char* const M[] = {"", "this", "last", "next"};
    bool post = mod && r.chance(40);
    std::string timing;
    if (mod && !post && r.chance(30)) timing = r.pick({"early", "earlier", "late"});
    std::string t;
    if (mod && !post) t = (timing.empty() ? "" : timing + space(r)) + M[mod] + space(r) + name;
    else if (post) t = name + space(r) + M[mod] + (r.chance(40) ? space(r) + "week" : std::string());
    else t = name;
    p.text = t;
    p.cls = std::string("weekday:") + (mod ? M[mod] : "bare") + (post ? ":post" : "") + (timing.empty() ? "" : ":" + timing);
    i64 z = cal::days(cal::dateOf(ref));
    i64 x = z - cal::wday(z) + wd + (mod == 2 ? -7 : mod == 3 ? 7 : 0);
    if (!cal::inCal(x)) { p.result = false; return p; }
    p.date(cal::fromDays(x), mod >= 2);
    if (timing == "late") { p.imply(H, 20); p.imply(MI, 1); }
    else if (!timing.empty()) { p.imply(H, 6); p.imply(MI, 1); }
    return p;
}
// ---------------------------------------------------------------- C15
static const struct { const char* name; int id; } HOLIDAY[] = {{"independence", 0}, {"new year's", 1}, {"new year's eve", 2}, {"veterans", 3},
    {"veteran's", 3}, {"christmas", 4}, {"christmas eve", 5}, {"mlk", 6}, {"martin luther king junior", 6}, {"martin luther king jr", 6},
    {"martin luther king jnr", 6}, {"president's", 7}, {"memorial", 8}, {"labor", 9}, {"columbus", 10}, {"thanksgiving", 11}, {"black friday", 12}};
static const size_t NHOLIDAY = sizeof HOLIDAY / sizeof HOLIDAY[0];
inline cal::Date holidayDate(int id, int y) {
    switch (id) {
        case 0: return {y, 7, 4};
        case 1: return {y, 1, 1};
        case 2: return {y, 12, 31};
        case 3: return {y, 11, 11};
        case 4: return {y, 12, 25};
        case 5: return {y, 12, 24};
        case 6: return cal::nth(y, 1, 1, 3);
        case 7: return cal::nth(y, 2, 1, 3);
        case 8: return cal::lastOf(y, 5, 1);
        case 9: return cal::nth(y, 9, 1, 1);
        case 10: return cal::nth(y, 10, 1, 2);
        case 11: return cal::nth(y, 11, 4, 4);
        default: return cal::fromDays(cal::days(cal::nth(y, 11, 4, 4)) + 1);
    }
}
inline Phrase holiday(Rng& r, const Ref& ref, int which = -1) {
    if (which < 0) which = static_cast<int>(r.below(NHOLIDAY));
    Phrase p; p.kind = sut::HOL;
    for (const char* q = HOLIDAY[which].name; *q; q++) p.text += *q == ' ' ? space(r, true) : std::string(1, *q);
    if (r.chance(50)) p.text += space(r, true) + "day";
    p.cls = std::string("holiday:") + HOLIDAY[which].name;
    cal::Date d = holidayDate(HOLIDAY[which].id, ref.y);
    p.date(d, true);
    p.known(H, 0); p.known(MI, 0);
    if (HOLIDAY[which].id >= 6) p.wd(cal::wday(d));
    return p;
}
// ---------------------------------------------------------------- C16
inline int writtenYear(Rng& r) {
    if (r.chance(3)) return r.pick({1400, 1401, 9998, 9999});
    return static_cast<int>(r.chance(75) ? r.range(1900, 2100) : r.range(1400, 9999));
}
struct IsoOpt { bool invalid = false; bool dateOnly = false; };
inline Phrase isoDate(Rng& r, const Ref&, IsoOpt o = IsoOpt()) {
    Phrase p; p.kind = sut::ISO;
    int y = writtenYear(r);
    int m = static_cast<int>(r.range(1, 12));
    int d = static_cast<int>(r.chance(30) ? r.range(std::max(1, cal::dim(y, m) - 2), cal::dim(y, m)) : r.range(1, cal::dim(y, m)));
    bool tm = !o.dateOnly && r.chance(75), sec = tm && r.chance(60), frac = sec && r.chance(40);
    int h = static_cast<int>(r.chance(3) ? 24 : r.below(24)), mi = static_cast<int>(r.below(60)), s = static_cast<int>(r.below(60));
    if (tm && h == 24 && y == 9999 && m == 12 && d == 31) h = 23; // past the end of the calendar
    p.cls = "iso";
    if (o.invalid) {
        p.result = false;
        switch (r.below(tm ? 6 : 3)) {
            case 0: m = r.pick({0, 13, 14, 20, 99}); p.cls += ":badmonth"; break;
            case 1: d = r.pick({0, 32, 33, 99, cal::dim(y, m) + 1}); p.cls += ":badday"; break;
            case 2: if (r.chance(50)) { m = 2; d = 30; } else { y = static_cast<int>(r.chance(30) ? 1399 : r.range(0, 1399)); } p.cls += ":badyear"; break;
            case 3: h = static_cast<int>(r.chance(30) ? 25 : r.range(25, 99)); p.cls += ":badhour"; break;
            case 4: mi = static_cast<int>(r.chance(30) ? 60 : r.range(60, 99)); p.cls += ":badminute"; break;
            default: if (sec) { s = static_cast<int>(r.range(60, 99)); p.cls += ":badsecond"; } else { mi = 60; p.cls += ":badminute"; }
        }
        if (cal::valid(y, m, d) && h < 25 && mi < 60 && s < 60) { m = 13; }
    }
    bool p1 = r.chance(75), q1 = r.chance(15) ? !p1 : p1;
    std::string t = pad(y, 4) + "-" + (p1 ? pad(m, 2) : num(m)) + "-" + (q1 ? pad(d, 2) : num(d));
    p.date({y, m, d}, true);
    if (tm) {
        bool p2 = r.chance(85), q2 = r.chance(15) ? !p2 : p2, s2 = r.chance(15) ? !p2 : p2;
        t += "t" + (p2 ? pad(h, 2) : num(h)) + ":" + (q2 ? pad(mi, 2) : num(mi));
        p.known(H, h); p.known(MI, mi);
        p.cls += ":time";
        if (sec) { t += ":" + (s2 ? pad(s, 2) : num(s)); p.known(S, s); p.cls += ":sec"; }
        if (frac) { int k = static_cast<int>(r.chance(60) ? r.range(1, 4) : r.chance(90) ? r.range(5, 9) : r.range(10, 40)); t += "."; while (k--) t += static_cast<char>('0' + r.below(10)); p.cls += ":frac"; }
        int off = 0;
        int z = static_cast<int>(r.below(100));
        if (z < 30) { t += "z"; p.cls += ":z"; }
        else if (z < 75) {
            int oh = static_cast<int>(r.chance(90) ? r.below(15) : r.below(24)), om = r.chance(50) ? static_cast<int>(r.below(60)) : r.pick({0, 30, 45});
            bool neg = r.chance(50), mins = r.chance(80);
            t += (neg ? "-" : "+") + pad(oh, 2);
            if (mins) t += (r.chance(60) ? ":" : "") + pad(om, 2);
            off = (oh * 60 + (mins ? om : 0)) * (neg ? -1 : 1);
            p.cls += neg ? ":neg" : ":pos";
        }
        p.known(TZ, off);
    }
    p.text = t;
    return p;
}
// ---------------------------------------------------------------- C17
static const std::vector<std::string> MONTH_FORM[12] = {{"jan", "jan.", "january"}, {"feb", "feb.", "february"}, {"mar", "mar.", "march"},
    {"apr", "apr.", "april"}, {"may", "may."}, {"jun", "jun.", "june"}, {"jul", "jul.", "july"}, {"aug", "aug.", "august"},
    {"sep", "sep.", "sept", "sept.", "september"}, {"oct", "oct.", "october"}, {"nov", "nov.", "november"}, {"dec", "dec.", "december"}};
static const char* const ORDINAL[] = {"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth", "eleventh",
    "twelfth", "thirteenth", "fourteenth", "fifteenth", "sixteenth", "seventeenth", "eighteenth", "nineteenth", "twentieth", "twenty first",
    "twenty second", "twenty third", "twenty fourth", "twenty fifth", "twenty sixth", "twenty seventh", "twenty eighth", "twenty ninth",
    "thirtieth", "thirty first"};
inline int nearestYear(const Ref& ref, int m, int d) {
    i64 z = cal::days(cal::dateOf(ref));
    auto dist = [&](int y) { return std::llabs(cal::days(y, m, d) - z); };
    int best = ref.y;
    if (dist(ref.y + 1) < dist(ref.y)) best = ref.y + 1;
    else if (dist(ref.y - 1) < dist(ref.y)) best = ref.y - 1;
    return best;
}
inline Phrase monthName(Rng& r, const Ref& ref, bool yearGiven) { // ref.y in 1401..9998
    Phrase p; p.kind = sut::MNP;
    int m = static_cast<int>(r.range(1, 12));
    std::string t = r.pick(MONTH_FORM[m - 1]);
    p.cls = "monthname";
    p.imply(D, 1); p.known(MO, m);
    if (yearGiven) {
        int y = writtenYear(r);
        std::string sep = r.chance(20) ? space(r) + r.pick({"", ",", "-"}) + space(r) : r.pick({" ", ", ", ",", "-", " - ", "  "});
        int era = static_cast<int>(r.below(10)); // 0,1 BE  2 AD  3 BC
        if (era <= 1) { t += sep + pad(std::min(y + 543, 9999), 4) + (era ? space(r) + "be" : "be"); y = std::min(y + 543, 9999) - 543; p.cls += ":be"; }
        else if (era == 2) { t += sep + pad(y, 4) + (r.chance(50) ? space(r) : "") + "ad"; p.cls += ":ad"; }
        else if (era == 4) { int early = static_cast<int>(r.chance(30) ? r.pick({1, 542, 543, 544}) : r.range(1, 1399)); t += sep + pad(early, 4) + (r.chance(50) ? space(r) : "") + r.pick({"be", "ad", "bc"}); p.result = false; p.cls += ":early"; }
        else if (era == 3) { t += sep + pad(y, 4) + (r.chance(50) ? space(r) : "") + "bc"; p.result = false; p.cls += ":bc"; }
        else {
            bool brief = r.chance(2); // 0000 to 0099
            if (brief) y = static_cast<int>(r.chance(20) ? r.pick({2000, 2099}) : r.range(2000, 2099));
            else if (r.chance(2)) y = static_cast<int>(r.chance(50) ? r.pick({100, 101, 999, 1000, 1399}) : r.range(100, 1399));
            t += sep + pad(brief ? y - 2000 : y, 4); p.cls += brief ? ":00yy" : ":year";
        }
        p.known(Y, y);
        if (y < 1400) p.result = false;
    } else p.imply(Y, nearestYear(ref, m, 1));
    p.text = t;
    return p;
}
inline std::string suffix(int d) { return d % 10 == 1 && d != 11 ? "st" : d % 10 == 2 && d != 12 ? "nd" : d % 10 == 3 && d != 13 ? "rd" : "th"; }
inline std::string dayText(Rng& r, int d, std::string& cls) {
    int k = static_cast<int>(r.below(10));
    if (k < 4 || d < 1 || d > 31) { cls = "num"; return r.chance(20) ? pad(d, 2) : num(d); }
    if (k < 6) { cls = "suffix"; return num(d) + suffix(d); }
    cls = "ordinal";
    std::string o = ORDINAL[d - 1];
    if (r.chance(40)) std::replace(o.begin(), o.end(), ' ', '-');
    return o;
}
struct MdOpt { int year = -1; /* -1 random, 0 no, 1 yes */ int range = -1; bool invalid = false; bool weekday = true; bool era = true; };
inline Phrase monthDay(Rng& r, const Ref& ref, MdOpt o = MdOpt()) { // ref.y in 1401..9998
    Phrase p; p.kind = sut::MME;
    int m = static_cast<int>(r.range(1, 12));
    bool year = o.year < 0 ? r.chance(50) : o.year == 1;
    bool range = o.range < 0 ? r.chance(25) : o.range == 1;
    int y = writtenYear(r), shown = y;
    bool brief = year && !o.invalid && r.chance(2); // 0000 to 0099
    if (brief) { y = static_cast<int>(r.chance(20) ? r.pick({2000, 2099}) : r.range(2000, 2099)); shown = y - 2000; }
    int era = year && !brief && o.era && r.chance(30) ? static_cast<int>(r.range(1, 3)) : 0;
    std::string eraText;
    if (era == 1) { shown = std::min(y + 543, 9999); y = shown - 543; eraText = "be"; }
    else if (era == 2) eraText = "ad";
    else if (era == 3) eraText = "bc";
    if (era && r.chance(50)) eraText = space(r) + eraText;
    int maxd = year ? cal::dim(y, m) : cal::dim(2019, m) - (m == 2 ? 1 : 0); // without a year: not the last days of February
    int d = static_cast<int>(r.chance(25) ? r.range(std::max(1, maxd - 1), maxd) : r.range(1, maxd));
    int e = range ? static_cast<int>(r.range(r.chance(10) ? 1 : d, maxd)) : d;
    p.cls = "monthday";
    if (o.invalid) {
        p.result = false;
        int k = static_cast<int>(r.below(5)), badEnd = 0;
        if (k == 4) { range = true; badEnd = r.chance(30) ? r.pick({0, 32, 45, 99}) : cal::dim(year ? y : 2019, m) + 1; if (badEnd == 29) badEnd = 30; if (m == 2 && d > 28) d = 28; p.cls += ":badend"; }
        else if (k == 0) { d = r.pick({0, 32, 40, 99}); p.cls += ":badday"; range = false; }
        else if (k == 1 && m == 2) { d = r.pick({30, 31}); range = false; p.cls += ":badfeb"; }
        else if (k == 1) { static const int sm[] = {4, 6, 9, 11}; m = sm[r.below(4)]; d = 31; range = false; p.cls += ":bad31"; }
        else if (k == 2) { bool tiny = r.chance(30); y = shown = static_cast<int>(tiny ? (r.chance(20) ? 1 : r.range(1, 999)) : r.range(1000, 1399)); year = true; era = 0; eraText = tiny ? r.pick({"ad", " ad", "bc", " bc"}) : ""; if (!tiny && r.chance(10)) y = shown = static_cast<int>(r.range(100, 999)); else if (!tiny && r.chance(10)) y = shown = r.pick({100, 101, 999, 1399}); else if (!tiny && r.chance(10)) { shown = static_cast<int>(r.chance(50) ? r.range(540, 545) : r.chance(20) ? 1942 : r.range(1, 1942)); eraText = "be"; } p.cls += ":badyear"; if (m == 2 && d > 28) d = 28; if (range && e > 28) range = false; }
        else { m = 2; d = 29; year = true; era = 0; eraText = ""; do { y = shown = static_cast<int>(r.range(1400, 9999)); } while (cal::leap(y)); range = false; p.cls += ":badleap"; }
        e = k == 4 ? badEnd : std::max(e, d);
    }
    std::string c1, c2;
    std::string t, dt = dayText(r, d, c1);
    int wd = -1;
    if (o.weekday && r.chance(20)) {
        wd = static_cast<int>(r.below(7));
        t = (r.chance(25) ? "on" + space(r) : std::string()) + r.pick(WEEKDAY[wd]) + (r.chance(40) ? ", " : r.chance(30) ? "," + space(r) : space(r));
        p.cls += ":weekday";
    }
    std::string sep = c1 == "num" && r.chance(30) ? r.pick({"-", "/", "", ", "}) : (r.chance(70) ? " " : r.chance(50) ? space(r) : r.chance(50) ? ", " : space(r, true) + "," + space(r, true));
    std::string mf = r.pick(MONTH_FORM[m - 1]);
    if (c1 != "num" && sep.empty()) sep = " ";
    t += mf + sep + dt;
    p.cls += ":" + c1;
    if (range) {
        std::string et = dayText(r, e, c2);
        t += (r.chance(20) ? space(r) + r.pick({"to", "-"}) + space(r) : r.chance(50) ? r.pick({" - ", "-", " -"}) : std::string(" to ")) + et;
        p.cls += ":range:" + c2;
    }
    if (year) {
        t += (r.chance(20) ? space(r) + (r.chance(50) ? "," + space(r, true) : std::string()) : r.chance(80) ? r.pick({", ", " ", ","}) : std::string(c1 == "num" && !range ? "/" : ", ")) + (shown < 1000 && !brief && eraText.find("be") == std::string::npos && !eraText.empty() ? num(shown) : pad(shown, 4)) + eraText;
        p.cls += era == 1 ? ":be" : era == 2 ? ":ad" : era == 3 ? ":bc" : ":year";
    }
    p.text = t;
    if (era == 3 || y < 1400) p.result = p.result && !(year && (era == 3 || y < 1400));
    if (!p.result) return p;
    int yy = year ? y : nearestYear(ref, m, d);
    p.date({yy, m, d}, true);
    if (wd >= 0) p.wd(wd);
    if (range) {
        p.end = true;
        p.b = p.a;
        p.b.v[D] = e; p.b.v[H] = 23; p.b.st[H] = sut::KNOWN; p.b.v[MI] = 59; p.b.st[MI] = sut::KNOWN;
    }
    return p;
}
// ---------------------------------------------------------------- C18
struct Clock { std::string text; int h = 0, mi = 0, s = 0; bool sec = false; int mer = 0; /* 0 none 1 am 2 pm 3 o'clock */ bool word = false; bool bare34 = false; };
inline std::string meridiem(Rng& r, int mer) {
    static const std::vector<std::string> A{"am", "a.m.", "a.m", "a"}, P{"pm", "p.m.", "p.m", "p"}, O{"o'clock", "oclock", "o clock"};
    const std::vector<std::string>& v = mer == 1 ? A : mer == 2 ? P : O;
    return r.pick(v);
}
// side 0: start of an expression, 1: end of a range. written hour in h
inline Clock clock(Rng& r, int side, int form = -1) {
    Clock c;
    if (form < 0) form = static_cast<int>(r.below(10));
    c.h = static_cast<int>(r.range(0, 24)); c.mi = static_cast<int>(r.below(60)); c.s = static_cast<int>(r.below(60));
    if (side == 0 && form == 9) { c.word = true; bool noon = r.chance(50); c.text = noon ? "noon" : "midnight"; c.h = noon ? 12 : 0; c.mi = 0; return c; }
    c.mer = static_cast<int>(r.below(6)); if (c.mer > 3) c.mer = 0;
    if (c.mer == 1 || c.mer == 2) c.h = static_cast<int>(r.range(1, 12));
    if (c.mer == 3) c.h = static_cast<int>(r.range(1, 12));
    std::string hh = r.chance(30) ? pad(c.h, 2) : num(c.h);
    const char* dot = r.chance(82) ? ":" : r.chance(60) ? "." : "\xef\xbc\x9a"; // full width colon
    const char* dot2 = r.chance(95) ? ":" : side == 1 && r.chance(50) ? "." : "\xef\xbc\x9a"; // the end takes a dot here, too
    bool one = form >= 4 && form <= 7 && r.chance(12); // a minute below ten without its zero
    if (one) c.mi %= 10;
    if (form <= 3) { c.mi = 0; c.text = hh; }
    else if (form <= 6) c.text = hh + dot + pad(c.mi, one ? 1 : 2);
    else if (form == 7) { bool oneSec = side == 1 && r.chance(12); if (oneSec) c.s %= 10; c.text = hh + dot + pad(c.mi, one ? 1 : 2) + dot2 + pad(c.s, oneSec ? 1 : 2); c.sec = true; if (r.chance(20)) c.text += "." + num(r.range(0, 999999)); }
    else { c.text = (r.chance(50) ? pad(c.h, 2) : num(c.h)) + pad(c.mi, 2); c.bare34 = true; }
    return c;
}
inline int fullHour(int h, int mer) { return mer == 1 ? h % 12 : mer == 2 ? h % 12 + 12 : h; }
struct TimeOpt { int range = -1; bool invalid = false; bool allowBare = true; bool dots = true; };
inline Phrase timeExpr(Rng& r, const Ref& ref, TimeOpt o = TimeOpt()) {
    Phrase p; p.kind = sut::TXP;
    bool range = o.range < 0 ? r.chance(40) : o.range == 1;
    Clock a = clock(r, 0), b;
    p.cls = "time";
    std::string lead = r.chance(30) ? (r.chance(60) ? "at " : "from ") : "";
    if (o.invalid) {
        range = false; p.result = false; a.word = false; a.bare34 = false; a.sec = false;
        switch (r.below(5)) {
            case 4: a.h = static_cast<int>(r.range(1, 99)); a.mi = static_cast<int>(r.range(a.h > 24 ? 0 : 60, 99)); a.text = num(a.h) + pad(a.mi, 2); if (a.h > 12) a.mer = 0; p.cls += ":badhhmm"; break;
            case 0: a.mi = static_cast<int>(r.range(60, 99)); a.h = static_cast<int>(r.range(1, 12)); a.text = num(a.h) + ":" + pad(a.mi, 2); p.cls += ":badminute"; break;
            case 1: a.h = static_cast<int>(r.range(25, 99)); a.mi = 0; a.text = num(a.h) + (r.chance(50) ? ":00" : ""); a.mer = 0; p.cls += ":badhour"; break;
            case 2: a.h = static_cast<int>(r.range(13, 24)); a.text = num(a.h); a.mer = static_cast<int>(r.range(1, 2)); p.cls += ":badmeridiem"; break;
            default: a.h = static_cast<int>(r.range(1, 12)); a.text = num(a.h) + ":10:" + num(r.range(60, 99)); p.cls += ":badsecond";
        }
    }
    if (!lead.empty() && r.chance(15)) lead = lead.substr(0, lead.size() - 1) + space(r, true);
    std::string t = lead + a.text;
    if (a.mer) t += (r.chance(45) ? " " : r.chance(10) ? space(r) : std::string()) + meridiem(r, a.mer);
    if (a.word) p.cls += ":word"; else if (a.bare34) p.cls += ":hhmm"; else if (a.sec) p.cls += ":sec";
    static const char* const MN[] = {"", ":am", ":pm", ":oclock"};
    p.cls += MN[a.mer];
    int sh = fullHour(a.h, a.mer), eh = 0;
    if (range) {
        b = clock(r, 1);
        bool to = r.chance(40);
        // 0 o'clock does not occur in 12 hour notation
        if ((b.mer == 1 || b.mer == 2) && a.mer == 0 && !a.word && a.h == 0) { a.h = 9; a.text = "9:" + pad(a.mi, 2); a.sec = a.bare34 = false; t = lead + a.text; sh = 9; }
        if ((a.mer == 1 || a.mer == 2) && b.mer == 0 && b.h == 0) { b.h = 7; b.text = "7:" + pad(b.mi, 2); b.sec = b.bare34 = false; }
        if (!to && b.bare34 && b.mer == 0) { b.bare34 = false; b.text = num(b.h) + ":" + pad(b.mi, 2); }
        t += to ? " to " : r.pick({" - ", "-", " -", "~", " ~ ", " - ", "-", "~", " \xe2\x80\x93 ", "\xe2\x80\x93", "\xe3\x80\x9c"}); // en dash, wave dash
        if (to && r.chance(15)) t = t.substr(0, t.size() - 4) + space(r) + "to" + space(r);
        t += b.text;
        if (b.mer) t += (r.chance(45) ? " " : r.chance(10) ? space(r) : std::string()) + meridiem(r, b.mer);
        p.cls += std::string(":range") + MN[b.mer];
        eh = fullHour(b.h, b.mer);
        if (a.mer == 0 && (b.mer == 1 || b.mer == 2)) { // one meridiem for both
            if (!a.word && a.h <= 12) sh = fullHour(a.h, b.mer); // noon and midnight are complete
        }
        if (b.mer == 0 && (a.mer == 1 || a.mer == 2) && b.h >= 1 && b.h <= 12) eh = fullHour(b.h, a.mer);
    }
    p.text = t;
    if (!p.result) return p;
    p.date(cal::dateOf(ref), false);
    p.known(H, sh); p.known(MI, a.mi);
    if (a.sec) p.known(S, a.s);
    if (range) {
        p.end = true;
        for (int f : {Y, MO, D}) { p.b.v[f] = p.a.v[f]; p.b.st[f] = sut::IMPLIED; }
        p.b.v[H] = eh; p.b.st[H] = sut::KNOWN; p.b.v[MI] = b.mi; p.b.st[MI] = sut::KNOWN;
        if (b.sec) { p.b.v[S] = b.s; p.b.st[S] = sut::KNOWN; }
    }
    // hour 24 of the last day of the calendar is past its end
    if (p.a.v[Y] == 9999 && p.a.v[MO] == 12 && p.a.v[D] == 31 && (sh == 24 || (range && eh == 24))) p.result = false;
    return p;
}

// a range of times of which the start or the end does not exist; the other one in p.a (and p.a.v[H] or altHour is its hour)
inline Phrase badRange(Rng& r, const Ref& ref, bool badEnd, int& altHour) {
    auto bad = [&r](int& mer) {
        mer = r.chance(30) ? static_cast<int>(r.range(1, 2)) : 0;
        switch (r.below(5)) {
            case 0: return num(r.range(1, 12)) + ":" + num(r.range(60, 99));
            case 1: mer = 0; return num(r.range(25, 99)) + ":" + pad(static_cast<int>(r.below(60)), 2);
            case 2: mer = static_cast<int>(r.range(1, 2)); return num(r.range(13, 24)) + ":" + pad(static_cast<int>(r.below(60)), 2);
            case 3: return num(r.range(1, 12)) + ":" + pad(static_cast<int>(r.below(60)), 2) + ":" + num(r.range(60, 99));
            default: mer = 0; return num(r.range(1, 24)) + ":" + num(r.range(60, 99)) + ":" + pad(static_cast<int>(r.below(60)), 2);
        }
    };
    Phrase p; p.kind = sut::TXP; p.cls = badEnd ? "time:range:bad end" : "time:range:bad start";
    int mer = 0;
    std::string wrong = bad(mer);
    if (mer) wrong += (r.chance(50) ? " " : "") + meridiem(r, mer);
    Clock g = clock(r, badEnd ? 0 : 1, r.chance(50) ? 4 : 7);
    std::string good = g.text;
    if (g.mer) good += (r.chance(50) ? " " : "") + meridiem(r, g.mer);
    int h = fullHour(g.h, g.mer);
    altHour = h;
    if (g.mer != 1 && g.mer != 2 && mer && g.h <= 12) altHour = fullHour(g.h, mer);
    p.text = (r.chance(30) ? r.pick({"at ", "from "}) : "") + (badEnd ? good : wrong) + r.pick({" to ", " - ", "-", " -", "~", " ~ "}) + (badEnd ? wrong : good);
    p.date(cal::dateOf(ref), false);
    p.known(H, h); p.known(MI, g.mi);
    if (g.sec) p.known(S, g.s);
    return p;
}

// ---------------------------------------------------------------- surroundings
// words that mean nothing to any parser, before and after phrases of any kind
static const char* const NEUTRAL[] = {"hello", "we", "should", "meet", "please", "report", "budget", "team", "call", "with", "project", "is",
    "ready", "green", "window", "review", "dinner", "bring", "my", "keys", "robin", "went", "home", "done", "finish", "homework", "hockey",
    "release", "deploy", "server", "email", "you", "remember", "coffee", "river", "zebra", "lunch", "quiz", "festival", "she", "left"};
inline std::string filler(Rng& r, int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += (i ? " " : "") + std::string(r.pick(NEUTRAL));
    return s;
}
// a long stretch of such words, so that what follows lies beyond 2^8, 2^15, 2^16 or 2^17 characters
inline std::string farFiller(Rng& r) {
    static const std::vector<size_t> L{200, 32700, 65450, 65450, 65450, 98250, 131000};
    size_t n = r.pick(L) + r.below(180);
    std::string s = filler(r, static_cast<int>(r.range(20, 60))) + " ", t;
    while (t.size() < n) t += s;
    while (t.size() > n && t.back() != ' ') t.pop_back();
    return t;
}
inline std::string randomCase(Rng& r, std::string s) {
    int m = static_cast<int>(r.below(6));
    for (size_t i = 0; i < s.size(); i++) {
        bool up = m == 0 ? true : m == 1 ? (i == 0 || s[i - 1] == ' ') : m == 2 ? r.chance(50) : false;
        if (up && s[i] >= 'a' && s[i] <= 'z') s[i] = static_cast<char>(s[i] - 32);
    }
    return s;
}
inline std::string lowered(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }

// any phrase of any parser with a result (ref.y should be well inside the calendar)
inline Phrase anyPhrase(Rng& r, const Ref& ref, bool withRelative = true) {
    for (;;) {
        Phrase p;
        switch (r.below(withRelative ? 13 : 12)) {
            case 0: p = casualTime(r, ref); break;
            case 1: p = deadline(r, ref); break;
            case 2: p = dayOfWeek(r, ref); break;
            case 3: p = casualDate(r, ref); break;
            case 4: p = monthDay(r, ref); break;
            case 5: p = agoLater(r, ref, 1); break;
            case 6: p = monthName(r, ref, r.chance(50)); break;
            case 7: p = agoLater(r, ref, 0); break;
            case 8: p = timeExpr(r, ref); break;
            case 9: p = isoDate(r, ref); break;
            case 10: p = holiday(r, ref); break;
            case 11: p = weekExpr(r, ref); break;
            default: p = relative(r, ref);
        }
        if (p.result) return p;
    }
}

// a phrase of this parser; in some of the cases one of its form that may give no result
inline Phrase ofKind(Rng& r, const Ref& ref, int kind, int without = 15) {
    bool bad = r.chance(without);
    for (;;) {
        Phrase p;
        switch (kind) {
            case sut::CTP: p = casualTime(r, ref); break;
            case sut::DFP: p = deadline(r, ref); if (bad) p.text = "in " + std::string(r.pick({"99999999", "4294967297", "99999999999999999999"})) + " " + r.pick({"days", "weeks", "months", "years"}); break;
            case sut::DOW: p = dayOfWeek(r, ref); break;
            case sut::CDP: p = casualDate(r, ref); break;
            case sut::MME: { MdOpt o; o.invalid = bad && r.chance(50); if (bad) o.year = 1; p = monthDay(r, ref, o); break; }
            case sut::TLP: p = agoLater(r, ref, 1); if (bad) p.text = std::string(r.pick({"99999999", "4294967297", "99999999999999999999"})) + " " + r.pick({"days", "weeks", "months", "years"}) + " later"; break;
            case sut::MNP: p = monthName(r, ref, bad || r.chance(50)); break;
            case sut::TAP: p = agoLater(r, ref, 0); if (bad) p.text = std::string(r.pick({"99999999", "4294967297", "99999999999999999999"})) + " " + r.pick({"days", "weeks", "months", "years"}) + " ago"; break;
            case sut::TXP: { TimeOpt o; o.invalid = bad; int alt; if (bad && r.chance(40)) p = badRange(r, ref, r.chance(50), alt); else p = timeExpr(r, ref, o); break; }
            case sut::ISO: { IsoOpt o; o.invalid = bad; p = isoDate(r, ref, o); break; }
            case sut::HOL: p = holiday(r, ref); break;
            case sut::WXP: p = weekExpr(r, ref, bad); break;
            default: p = relative(r, ref);
        }
        if (p.result || bad) return p;
    }
}

// of several such phrases the one whose form was used least so far
inline Phrase rareOfKind(Rng& r, const Ref& ref, int kind, std::map<std::string, int>& used) {
    Phrase best;
    int least = -1;
    for (int i = 0; i < 12; i++) {
        Phrase p = ofKind(r, ref, kind, 30);
        int n = used[p.cls];
        if (least < 0 || n < least) { best = p; least = n; }
    }
    used[best.cls]++;
    return best;
}

// ---------------------------------------------------------------- comparison
inline std::string showComp(const Comp& c, unsigned care = 0xff) {
    std::string s;
    for (int f = 0; f < NF; f++) {
        if (f) s += ",";
        if (!(care >> f & 1)) s += "*";
        else { s += num(c.v[f]); if (c.st[f] == sut::KNOWN) s += "!"; }
    }
    return s;
}
// empty if as expected, else what differs
inline std::string diffComp(const Comp& want, const Comp& got, unsigned care, const char* side) {
    for (int f = 0; f < NF; f++) {
        if (!(care >> f & 1)) continue;
        bool k = want.st[f] == sut::KNOWN;
        if (want.v[f] != got.v[f]) return std::string(side) + " " + sut::FIELD_NAME[f] + " is " + num(got.v[f]) + ", expected " + num(want.v[f]);
        if (k != (got.st[f] == sut::KNOWN)) return std::string(side) + " " + sut::FIELD_NAME[f] + (k ? " is not certain" : " is certain") + ", value " + num(got.v[f]);
    }
    return "";
}
inline std::string diffPhrase(const Phrase& p, const sut::Res& r) {
    std::string d = diffComp(p.a, r.a, p.careA, "start");
    if (!d.empty()) return d;
    if (p.end != r.end) return p.end ? "range end missing" : "unexpected range end";
    if (p.end) return diffComp(p.b, r.b, p.careB, "end");
    return "";
}
// where the phrase is reported: whitespace before it may be included, a closing full stop may be left out
inline std::string diffSpan(const std::string& text, size_t at, size_t len, const sut::Res& r) {
    size_t b = r.index, e = r.index + r.len;
    if (e > text.size()) return "span ends after the text";
    while (b < e && isspace(static_cast<unsigned char>(text[b]))) b++;
    size_t want = at + len;
    if (b != at) return "span starts at " + num(b) + ", the phrase at " + num(at);
    if (e != want && !(e + 1 == want && text[want - 1] == '.')) return "span ends at " + num(e) + ", the phrase at " + num(want);
    return "";
}
inline std::string show(const sut::Results& rs) {
    std::string s;
    for (auto& r : rs) s += r.str() + " ";
    return s.empty() ? "(no result)" : s;
}
}
