// Amounts around the ends of the calendar and of machine integers, up to 10^30.
#include "phrase_check.hpp"
using namespace sut;
using gen::i64; using gen::Unit;
const char* const CHECK_ID = "C24";
uint64_t caseCount(bool thorough) { return thorough ? 6000000 : 240000; }

namespace {
// the largest amount that stays inside the calendar, or just about
i64 edge(const Ref& ref, Unit u, int sign) {
    i64 lo = 0, hi = 600000000000LL; // more than the calendar in seconds
    while (lo < hi) {
        i64 mid = (lo + hi + 1) / 2;
        if (gen::moveBy(ref, u, sign * mid).ok) lo = mid; else hi = mid - 1;
    }
    return lo;
}
struct Num { std::string text; i64 n; std::string cls; }; // n: clipped, the text has it all
Num number(Rng& r, const Ref& ref, Unit u, int sign) {
    Num o;
    auto small = [&](i64 n, const char* cls) { if (n < 0) n = 0; o.n = n; o.text = gen::num(n); o.cls = cls; };
    int m = static_cast<int>(r.below(100));
    if (m < 35) small(edge(ref, u, sign) + r.range(-3, 3), "at the end of the calendar");
    else if (m < 55) {
        static const i64 P[] = {1LL << 15, 1LL << 16, 1LL << 24, 1LL << 31, 1LL << 32, 1LL << 33, 1LL << 53, 9223372036854775800LL, 65536LL * 12, 65536LL * 365, (1LL << 32) / 7, (1LL << 31) / 7, (1LL << 31) / 12,
            (1LL << 32) / 12, (1LL << 31) / 30, (1LL << 31) / 3600, (1LL << 32) / 3600, (1LL << 31) / 60, (1LL << 32) / 60, 9223372036854LL, 2562047788LL, 153722867280LL, 106751991LL};
        i64 b = r.pick(P);
        small(b > 9000000000000000000LL ? b + r.range(0, 7) : b + r.range(-3, 3), "around a limit of machine integers");
    } else if (m < 65) { // wraps around to something small
        i64 base = r.pick({1LL << 16, 1LL << 31, 1LL << 32, 65536LL * 12});
        small(base * r.range(1, 9) + r.range(0, 40), "a multiple of a machine limit and a little");
    } else if (m < 80) { // beyond 64 bits
        static const std::vector<std::string> B{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551621", "36893488147419103234", "340282366920938463463374607431768211456", "340282366920938463463374607431768211461"};
        if (r.chance(50)) o.text = r.pick(B);
        else { int k = static_cast<int>(r.range(11, 31)); o.text = std::string(1, static_cast<char>('1' + r.below(9))); while (--k > 0) o.text += static_cast<char>(r.chance(40) ? '0' : '0' + r.below(10)); }
        if (o.text.size() > 40) o.text.resize(31);
        o.n = 1LL << 60; o.cls = "beyond 64 bits";
    } else if (m < 90) { i64 e = edge(ref, u, sign); small(r.range(0, e ? e : 1), "inside the calendar"); }
    else small(r.range(0, 40), "small");
    if (r.chance(15)) { o.text = std::string(1 + r.below(r.chance(50) ? 3 : 30), '0') + o.text; o.cls += ", leading zeros"; }
    return o;
}
}

void runCase(Ctx& c) {
    Rng& r = c.rng;
    Ref ref = gen::makeRef(r, {1400, 9999, true, false});
    if (r.chance(25)) { // within some days of an end
        i64 z = r.chance(50) ? cal::MIN_DAY + r.range(0, 400) : cal::MAX_DAY - r.range(0, 400);
        cal::Date d = cal::fromDays(z);
        ref.y = d.y; ref.mo = d.m; ref.d = d.d;
    }
    gen::Phrase p;
    int form = static_cast<int>(r.below(6));
    Unit u = static_cast<Unit>(r.below(gen::NUNIT));
    std::string cls;
    if (form == 0) {
        Num q = number(r, ref, u, 1);
        gen::Amount a; a.text = q.text; a.n = q.n; a.cls = q.cls;
        p = gen::deadlineOf(ref, r.chance(50) ? "in" : "within", a, u, gen::deadlineUnit(r, u), " ", " ");
        cls = "deadline: " + q.cls;
    } else if (form == 1 || form == 2) {
        bool later = form == 1;
        i64 sum[gen::NUNIT] = {0};
        p.kind = later ? TLP : TAP;
        int n = r.chance(60) ? 1 : static_cast<int>(r.range(2, 4));
        Ref at = ref;
        for (int i = 0; i < n; i++) {
            u = static_cast<Unit>(r.below(gen::NUNIT));
            Num q = number(r, at, u, later ? 1 : -1);
            if (n > 1 && r.chance(60)) { q.n = r.range(0, 60); q.text = gen::num(q.n); q.cls = "small"; }
            p.text += q.text + " " + gen::longUnit(r, u) + " ";
            sum[u] += std::min(q.n, 1LL << 58); // more than enough
            if (!i || q.cls != "small") cls = q.cls;
        }
        if (n > 1) cls = "sum of " + gen::num(n) + ", " + cls;
        p.text += later ? r.pick({"later", "after", "from now", "henceforth", "forward", "out"}) : r.pick({"ago", "before", "earlier"});
        gen::applySums(p, ref, sum, later ? 1 : -1);
        cls = (later ? "later: " : "ago: ") + cls;
        if (later && (ref.y > 9000)) cls += "";
    } else if (form == 3) {
        bool next = r.chance(50);
        Num q = number(r, ref, u, next ? 1 : -1);
        p.kind = REL;
        p.text = (next ? "next " : r.chance(50) ? "last " : "past ") + q.text + " " + gen::relUnit(r, u);
        cls = std::string("relative, ") + (next ? "next: " : "last: ") + q.cls;
        gen::Moved m;
        if (gen::tooLarge(u, q.n) || !(m = gen::moveBy(ref, u, next ? q.n : -q.n)).ok) p.result = false;
        else { p.date(m.date, false); if (m.hasTime) p.time(m.h, m.mi, m.s, false); }
    } else if (form == 4) {
        bool next = r.chance(50);
        Num q = number(r, ref, gen::WEEK, next ? 1 : -1);
        p.kind = WXP;
        p.text = (next ? "next " : "last ") + q.text + (r.chance(50) ? " weeks" : " week");
        cls = std::string("week, ") + (next ? "next: " : "last: ") + q.cls;
        gen::Moved m;
        if (gen::tooLarge(gen::WEEK, q.n) || !(m = gen::moveBy(ref, gen::WEEK, next ? q.n : -q.n)).ok) p.result = false;
        else p.date(m.date, false);
    } else { // words without an amount at the very ends
        if (r.chance(70)) {
            cal::Date d = cal::fromDays(r.chance(50) ? cal::MIN_DAY + r.range(0, 8) : cal::MAX_DAY - r.range(0, 8));
            ref.y = d.y; ref.mo = d.m; ref.d = d.d;
        }
        switch (r.below(4)) {
            case 0: p = gen::casualDate(r, ref); break;
            case 1: p = gen::weekExpr(r, ref); break;
            case 2: p = gen::casualTime(r, ref); break;
            default: p = gen::relative(r, ref);
        }
        cls = "without a large amount";
    }
    c.count(cls + (p.result ? ": inside" : ": outside"));
    p.cls = cls;
    judgePhrase(c, p, ref, r.chance(80));
}
void finish(Ctx&) {}
