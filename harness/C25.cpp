// Rendering and date conversion of arbitrary component combinations.
#include "gen.hpp"
using namespace sut;
const char* const CHECK_ID = "C25";
uint64_t caseCount(bool thorough) { return thorough ? 3000000 : 150000; }

static Comp comp(Rng& r, std::string& cls) {
    Comp c;
    Ref ref = gen::makeRef(r);
    bool k = r.chance(50);
    for (int f : {Y, MO, D}) { c.v[f] = f == Y ? ref.y : f == MO ? ref.mo : ref.d; c.st[f] = (k ? r.chance(80) : r.chance(20)) ? KNOWN : IMPLIED; }
    int n = static_cast<int>(r.below(5)); // how much of the time is there: none, hour, hour+min, all, random
    for (int f : {H, MI, S}) {
        bool there = n == 4 ? r.chance(50) : f == H ? n >= 1 : f == MI ? n >= 2 : n >= 3;
        if (!there) continue;
        c.v[f] = f == H ? ref.h : f == MI ? ref.mi : ref.s;
        if (f == H && r.chance(6)) { c.v[f] = 24; }
        c.st[f] = r.chance(50) ? KNOWN : IMPLIED;
    }
    if (r.chance(20)) { c.v[WD] = static_cast<int>(r.below(7)); c.st[WD] = r.chance(50) ? KNOWN : IMPLIED; }
    if (r.chance(20)) { c.v[TZ] = static_cast<int>(r.range(-720, 840)); c.st[TZ] = r.chance(50) ? KNOWN : IMPLIED; }
    if (c.v[Y] == 9999 && c.v[MO] == 12 && c.v[D] == 31 && c.v[H] == 24) c.v[H] = 23;
    cls = std::string("time") + gen::num(n) + (c.v[H] == 24 ? ":24" : "");
    return c;
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    Res in;
    std::string ca, cb;
    in.a = comp(r, ca);
    in.end = r.chance(40);
    if (in.end) in.b = comp(r, cb);
    in.index = static_cast<unsigned>(r.below(100)); in.len = 1 + r.below(20);
    for (int t = 0; t < NTAG; t++) if (t != T_TZA && r.chance(10)) in.tags |= 1u << t;
    // with the zone tag the shown ends are shifted by their own offsets
    int64_t sa = cal::secsOf(in.a), sb = in.end ? cal::secsOf(in.b) : 0;
    bool zoned = r.chance(25);
    if (zoned) {
        for (Comp* x : {&in.a, &in.b}) { x->v[TZ] = 0; x->st[TZ] = UNSET; if ((x == &in.a || in.end) && r.chance(80)) { x->v[TZ] = static_cast<int>(r.chance(50) ? r.range(-720, 840) : 60 * r.range(-12, 14)); x->st[TZ] = KNOWN; } }
        sa += 60 * in.a.v[TZ]; if (in.end) sb += 60 * in.b.v[TZ];
        if (!cal::secsInCal(sa) || (in.end && !cal::secsInCal(sb))) { zoned = false; sa = cal::secsOf(in.a); if (in.end) sb = cal::secsOf(in.b); }
        if (zoned) in.tags |= 1u << T_TZA;
    }
    auto rb = newRBox(1, in.index, std::string(in.len, 'q'));
    auto make = [](const Comp& x) { auto b = newBox(0); for (int f = 0; f < NF; f++) { if (x.st[f] == KNOWN) setField(*b, f, x.v[f]); else if (x.st[f] == IMPLIED) implyField(*b, f, x.v[f]); } return b; };
    auto a = make(in.a), b = make(in.b);
    rStart(*rb, *a);
    if (in.end) { rEnd(*rb, *b); rMakeEnd(*rb); }
    for (int t = 0; t < NTAG; t++) if (in.tags >> t & 1) rSetTag(*rb, t);
    std::string want = cal::render(sa) + (in.end ? " - " + cal::render(sb) : "");
    std::string key = std::string("C25:") + (in.end ? "range" : "single") + (zoned ? ":zone" : "");
    std::string show = "start(" + gen::showComp(in.a) + ")" + (in.end ? " end(" + gen::showComp(in.b) + ")" : "");
    if (c.describe(show)) return;
    for (int k = 0; k < 2; k++) {
        std::string got = rRender(*rb);
        if (got != want) { c.fail(key + ":render", show + " renders as '" + got + "', expected '" + want + "'" + (k ? " (second time)" : "")); return; }
        std::string d = boxDate(*a), wd = cal::iso(cal::secsOf(in.a));
        if (d != wd) { c.fail("C25:date", show + " converts to " + d + ", expected " + wd); return; }
        if (!possibleDate(*a)) { c.fail("C25:possible", show + " is not accepted as a possible date"); return; }
        Res back = rRead(*rb);
        if (!(back.a == in.a) || back.end != in.end || (in.end && !(back.b == in.b)) || back.index != in.index || back.len != in.len || back.tags != in.tags) {
            c.fail("C25:changed", show + " changed by rendering to " + back.str()); return;
        }
    }
    c.count("start " + ca); if (in.end) c.count("end " + cb);
    if (zoned) c.count(in.end ? "zones of a range" : "zone of a single date");
    c.observed(hashStr(show));
    c.sample(show + " -> " + want);
}
void finish(Ctx&) {}
