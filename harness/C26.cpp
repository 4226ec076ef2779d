// isPossibleDate() and hasPossibleDates() against the calendar, for arbitrary component values.
#include "gen.hpp"
using namespace sut;
const char* const CHECK_ID = "C26";
uint64_t caseCount(bool thorough) { return thorough ? 3000000 : 200000; }

// a value of a field: inside, just outside, or one that equals an inside one after being cut to 8, 16 or 32 bits or negated
static int value(Rng& r, int f, int inside, std::string& cls) {
    static const int lo[NF] = {1400, 1, 1, 0, 0, 0, 0, -720}, hi[NF] = {9999, 12, 31, 6, 24, 59, 59, 840};
    switch (r.below(9)) {
        case 0: cls = "below"; return lo[f] - 1 - static_cast<int>(r.below(3));
        case 1: cls = "above"; return hi[f] + 1 + static_cast<int>(r.below(3));
        case 2: cls = "16 bits"; return inside + 65536 * static_cast<int>(r.range(-30000, 30000) | 1);
        case 3: cls = "8 bits"; return inside + 256 * static_cast<int>(r.range(1, 20));
        case 4: cls = "negative"; return -inside - (inside == 0);
        case 5: cls = "32 bit ends"; return r.pick({2147483647, -2147483647 - 1, 2147483646, -2147483647});
        case 6: cls = "any"; return static_cast<int>(r.next());
        case 7: cls = "zero"; return 0;
        default: cls = "near"; return inside + static_cast<int>(r.range(-2, 2));
    }
}
static bool real(const Comp& c) {
    if (!cal::valid(c.v[Y], c.v[MO], c.v[D])) return false;
    if (c.v[H] < 0 || c.v[H] > 24 || c.v[MI] < 0 || c.v[MI] > 59 || c.v[S] < 0 || c.v[S] > 59) return false;
    return cal::secsInCal(cal::secsOf(c));
}
static Comp comp(Rng& r, std::string& cls) {
    Comp c;
    Ref ref = gen::makeRef(r, {1400, 9999, true, true});
    int v[] = {ref.y, ref.mo, ref.d, 0, ref.h, ref.mi, ref.s, 0};
    for (int f : {Y, MO, D, H, MI, S}) {
        if (f >= H && r.chance(30)) continue;
        c.v[f] = v[f];
        c.st[f] = r.chance(50) ? KNOWN : IMPLIED;
    }
    if (r.chance(12)) { c.v[H] = 24; c.st[H] = KNOWN; }
    if (r.chance(15)) c.v[D] = static_cast<int>(r.range(28, 32));
    if (r.chance(20)) { c.v[WD] = static_cast<int>(r.range(-3, 9)); c.st[WD] = KNOWN; }
    if (r.chance(20)) { c.v[TZ] = static_cast<int>(r.next()); c.st[TZ] = KNOWN; }
    if (r.chance(55)) {
        int f = r.pick({Y, MO, D, H, MI, S});
        std::string k;
        c.v[f] = value(r, f, v[f], k);
        if (c.st[f] == UNSET) c.st[f] = r.chance(50) ? KNOWN : IMPLIED;
        cls = std::string(FIELD_NAME[f]) + " " + k;
    }
    if (r.chance(4)) { int f = r.pick({Y, MO, D}); c.v[f] = 0; c.st[f] = UNSET; cls += std::string(" no ") + FIELD_NAME[f]; }
    return c;
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    std::string ca, cb;
    Comp a = comp(r, ca), b;
    bool end = r.chance(50);
    if (end) { b = comp(r, cb); if (r.chance(40)) { a = Comp(); while (!real(a)) a = comp(r, ca); } }
    auto make = [](const Comp& x) { auto o = newBox(0); for (int f = 0; f < NF; f++) { if (x.st[f] == KNOWN) setField(*o, f, x.v[f]); else if (x.st[f] == IMPLIED) implyField(*o, f, x.v[f]); } return o; };
    std::string show = "start(" + gen::showComp(a) + ")" + (end ? " end(" + gen::showComp(b) + ")" : "");
    if (c.describe(show)) return;
    auto ba = make(a), bb = make(b);
    for (int k = 0; k < 2; k++) {
        if (possibleDate(*ba) != real(a)) { c.fail(real(a) ? "possible:refused" : "possible:accepted", "components (" + gen::showComp(a) + ") are " + (real(a) ? "not " : "") + "called a possible date"); return; }
        for (int f = 0; f < NF; f++)
            if (getField(*ba, f) != a.v[f] || certain(*ba, f) != (a.st[f] == KNOWN)) { c.fail("possible:changed", "components (" + gen::showComp(a) + ") changed by the question"); return; }
    }
    auto rb = newRBox(1, 3, "text");
    rStart(*rb, *ba);
    if (end) { rEnd(*rb, *bb); rMakeEnd(*rb); }
    bool want = real(a) && (!end || real(b));
    bool got = rPossible(*rb);
    if (got != want) { c.fail(want ? "possible:result refused" : "possible:result accepted", "a result with " + show + " has " + (got ? "" : "no ") + "possible dates by its own account"); return; }
    c.count(want ? "possible" : "not possible");
    if (!ca.empty()) c.count((real(a) ? "possible: " : "not possible: ") + ca);
    if (end) c.count(real(a) && !real(b) ? "only the end is not possible" : "with an end");
    c.observed(hashStr(show));
    c.sample(show + " -> " + (want ? "possible" : "not possible"));
}
void finish(Ctx&) {}
