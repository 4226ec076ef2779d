// Validity of every reported result at every stage, and rejection of dates that do not exist.
#include "soup.hpp"
using namespace sut;
const char* const CHECK_ID = "C02";
uint64_t caseCount(bool thorough) { return thorough ? 2000000 : 120000; }

static std::string judge(const Res& x) {
    for (int side = 0; side < (x.end ? 2 : 1); side++) {
        const Comp& c = side ? x.b : x.a;
        std::string who = side ? "end " : "start ";
        if (c.v[Y] < 1400 || c.v[Y] > 9999) return who + "year " + gen::num(c.v[Y]);
        if (c.v[MO] < 1 || c.v[MO] > 12) return who + "month " + gen::num(c.v[MO]);
        if (c.v[D] < 1 || c.v[D] > cal::dim(c.v[Y], c.v[MO])) return who + "day " + gen::num(c.v[D]) + " of month " + gen::num(c.v[MO]) + " of " + gen::num(c.v[Y]);
        if (c.v[H] < 0 || c.v[H] > 24) return who + "hour " + gen::num(c.v[H]);
        if (c.v[MI] < 0 || c.v[MI] > 59) return who + "minute " + gen::num(c.v[MI]);
        if (c.v[S] < 0 || c.v[S] > 59) return who + "second " + gen::num(c.v[S]);
        const std::string& d = side ? x.bdate : x.adate;
        if (!cal::secsInCal(cal::secsOf(c))) { if (d[0] != '!') return who + "past the calendar converts to " + d; return who + "past the end of the calendar"; }
        if (d != cal::iso(cal::secsOf(c))) return who + "converts to " + d + ", its components are " + cal::iso(cal::secsOf(c));
    }
    if (!x.possible) return "it is not a possible date by its own account";
    if (!(x.tags >> T_TZA & 1)) {
        std::string want = cal::render(cal::secsOf(x.a)) + (x.end ? " - " + cal::render(cal::secsOf(x.b)) : "");
        if (x.render != want) return "it renders as '" + x.render + "', its components are '" + want + "'";
    }
    return "";
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    Ref ref = gen::makeRef(r, {1400, 9999, true, true});
    int m = static_cast<int>(r.below(100));
    if (m < 45) { // dates that do not exist
        gen::Phrase p;
        if (r.chance(8)) { // a range one of whose ends does not exist is at most the other time
            Ref in = gen::makeRef(r, {1402, 9997, false, false});
            int alt = 0;
            p = gen::badRange(r, in, r.chance(60), alt);
            std::string text = gen::randomCase(r, p.text), given = text;
            if (c.describe("text \"" + given + "\", reference " + refStr(in))) return;
            Results rs = execute(TXP, text, in);
            c.count("not a date: " + p.cls);
            c.observed(hashStr(given + refStr(in)));
            for (auto& x : rs) if (x.end || (x.a.v[H] != p.a.v[H] && x.a.v[H] != alt) || x.a.v[MI] != p.a.v[MI]) { c.fail("nodate:" + p.cls, "time parser reports " + gen::show(rs) + " for \"" + given + "\", reference " + refStr(in)); break; }
            return;
        }
        Ref in = gen::makeRef(r, {1402, 9997, false, false});
        int k = static_cast<int>(r.below(5));
        if (k == 0) { gen::IsoOpt o; o.invalid = true; p = gen::isoDate(r, in, o); }
        else if (k == 1 || k == 2) { gen::MdOpt o; o.invalid = true; p = gen::monthDay(r, in, o); }
        else if (k == 3) { gen::TimeOpt o; o.invalid = true; p = gen::timeExpr(r, in, o); }
        else { // out of the calendar years of a month name
            p.kind = MNP; p.result = false; p.cls = "monthname:badyear";
            p.text = r.pick({"january", "feb", "march", "may", "dec."}) + std::string(" ") + gen::pad(static_cast<int>(r.range(1000, 1399)), 4);
        }
        if (p.result) return;
        std::string text = gen::randomCase(r, p.text), given = text;
        if (c.describe("parser " + std::string(KIND_NAME[p.kind]) + ", text \"" + given + "\", reference " + refStr(in))) return;
        Results rs = execute(p.kind, text, in);
        c.count("not a date: " + p.cls.substr(0, p.cls.find(':', p.cls.find(':') + 1)));
        c.observed(hashStr(given + refStr(in)));
        c.sample("\"" + given + "\" -> " + gen::show(rs));
        if (!rs.empty()) c.fail("nodate:" + p.cls, "parser " + std::string(KIND_NAME[p.kind]) + " reports " + gen::show(rs) + " for \"" + given + "\", reference " + refStr(in));
        return;
    }
    std::string cls, text = soup::text(r, ref, cls, false), given = text;
    if (c.describe("text \"" + given + "\", reference " + refStr(ref))) return;
    auto look = [&](const Results& rs, const char* stage) {
        for (auto& x : rs) {
            std::string d = judge(x);
            c.count(std::string("results judged, ") + stage);
            if (x.end) c.count("ends judged");
            if (x.a.v[H] == 24 || x.b.v[H] == 24) c.count("hour 24");
            if (!d.empty()) { c.fail(std::string("invalid:") + stage, std::string(stage) + " reports " + x.str() + ": " + d + "; text \"" + given + "\", reference " + refStr(ref)); return; }
        }
    };
    if (m < 60) {
        Stages s = pipeline(text, ref);
        look(s.raw, "parsers"); look(s.olr, "overlap removal"); look(s.tza, "zones"); look(s.mdt, "date and time"); look(s.mdr, "date range");
        c.observed(hashStr(given + refStr(ref)), !s.raw.empty());
    } else {
        size_t n = 0;
        for (int k = 0; k < NKIND; k++) if (k != MME || r.chance(30)) { std::string t = given; Results rs = execute(static_cast<Kind>(k), t, ref); look(rs, KIND_NAME[k]); n += rs.size(); }
        c.observed(hashStr(given + refStr(ref)), n > 0);
    }
}
void finish(Ctx&) {}
