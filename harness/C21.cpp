// Merging of dates and times against its model, on synthetic lists and on parsed text.
#include "refine_model.hpp"
using namespace sut;
const char* const CHECK_ID = "C21";
uint64_t caseCount(bool thorough) { return thorough ? 1200000 : 100000; }

static void note(Ctx& c, const Results& in, const Results& want, int merges, const std::string& how) {
    c.count(how + ": merges " + gen::num(std::min(merges, 3)) + (merges >= 3 ? "+" : ""));
    for (auto& x : want) if (x.tags >> T_MDT & 1) {
        if (x.end && (x.a.v[D] != x.b.v[D] || x.a.v[MO] != x.b.v[MO])) c.count(how + ": range into another day");
        if (x.end && x.a.v[MO] != x.b.v[MO]) c.count(how + ": range into another month");
        if (x.a.st[H] == KNOWN) c.count(how + ": certain time"); else c.count(how + ": implied time");
    }
    (void)in;
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.idx % 25 == 24) { // "date at time", judged end to end
        Ref ref = gen::makeRef(r, {1405, 9995, false, false});
        gen::Phrase d;
        switch (r.below(4)) {
            case 0: d = gen::dayOfWeek(r, ref); break;
            case 1: d = gen::casualDate(r, ref, static_cast<int>(r.pick({1, 3, 4}))); break;
            case 2: { gen::MdOpt o; o.range = 0; o.year = 1; o.weekday = false; o.era = false; d = gen::monthDay(r, ref, o); break; }
            default: d = gen::agoLater(r, ref, static_cast<int>(r.below(2)), 1);
        }
        if (!d.result || d.a.st[H] == KNOWN) return;
        int h = static_cast<int>(r.range(1, 12)), mi = static_cast<int>(r.below(60)), h2 = static_cast<int>(r.range(1, 12)), mi2 = static_cast<int>(r.below(60));
        bool pm = r.chance(50), pm2 = r.chance(50), range = r.chance(40), first = r.chance(35);
        std::string tt = gen::num(h) + ":" + gen::pad(mi, 2) + (pm ? " pm" : " am");
        if (range) tt += std::string(r.chance(50) ? " to " : " - ") + gen::num(h2) + ":" + gen::pad(mi2, 2) + (pm2 ? " pm" : " am");
        std::string text = first ? tt + r.pick({" on ", " ", ", "}) + d.text : d.text + r.pick({" at ", " from ", ", "}) + tt;
        if (d.text.find("may") != std::string::npos || d.kind == MME) { if (first) return; } // "2:00 pm may 3": am/pm and month texts run together
        std::string pre = !first && r.chance(2) ? gen::farFiller(r) : ""; // it means the same anywhere
        if (!pre.empty()) c.count("date at time: far into the text");
        std::string given = pre + gen::randomCase(r, text);
        text = given;
        if (c.describe("pipeline, text \"" + given + "\", reference " + refStr(ref))) return;
        Stages s = pipeline(text, ref);
        std::string why;
        if (s.mdt.size() != 1) why = "the merge gives " + gen::num(static_cast<long long>(s.mdt.size())) + " results";
        else {
            const Res& x = s.mdt[0];
            int H1 = gen::fullHour(h, pm ? 2 : 1), H2 = gen::fullHour(h2, pm2 ? 2 : 1);
            cal::Date day{d.a.v[Y], d.a.v[MO], d.a.v[D]}, day2 = day;
            if (H2 * 60 + mi2 < H1 * 60 + mi) { if (!cal::inCal(cal::days(day) + 1)) return; day2 = cal::fromDays(cal::days(day) + 1); }
            auto want = cal::render(cal::days(day) * 86400 + H1 * 3600 + mi * 60);
            if (range) want += " - " + cal::render(cal::days(day2) * 86400 + H2 * 3600 + mi2 * 60);
            if (x.render != want) why = "reported as '" + x.render + "', expected '" + want + "'";
            else if (x.a.st[H] != KNOWN || x.a.st[MI] != KNOWN) why = "the time is not certain";
            else if (x.index + (x.index < pre.size() && pre.back() == ' ') != pre.size() || x.index + x.len != given.size()) why = "covers " + gen::num(x.index) + "+" + gen::num(static_cast<long long>(x.len)) + " of " + gen::num(static_cast<long long>(given.size()));
        }
        c.count(std::string("date at time: ") + (range ? "range" : "single") + (first ? ", time first" : ""));
        if (!why.empty()) c.fail("datetime:text", why + "; text \"" + given + "\", reference " + refStr(ref) + ": before " + gen::show(s.tza) + " after " + gen::show(s.mdt));
        c.observed(hashStr(given + refStr(ref)));
        c.sample("\"" + given + "\" @ " + refStr(ref) + " -> " + gen::show(s.mdt));
        return;
    }
    if (c.idx % 25 == 23) { // parsed lists against the model
        Ref ref = gen::makeRef(r, {1400, 9999, true, false});
        std::string t;
        int n = static_cast<int>(r.range(2, 5));
        for (int i = 0; i < n; i++) {
            gen::Phrase p = r.chance(40) ? gen::timeExpr(r, ref) : r.chance(20) ? gen::casualTime(r, ref) : gen::anyPhrase(r, ref, false);
            t += (i ? r.pick({" ", " and ", " at ", ", ", " on ", " hello "}) : "") + p.text;
        }
        std::string given = t;
        if (c.describe("pipeline, text \"" + given + "\", reference " + refStr(ref))) return;
        Stages s = pipeline(t, ref);
        int merges = 0;
        Results want = model::dateAndTime(s.tza, &merges);
        std::string d = model::diffList(want, s.mdt);
        note(c, s.tza, want, merges, "parsed");
        if (!d.empty()) c.fail("datetime:parsed", d + "; text \"" + given + "\", reference " + refStr(ref) + ": before " + gen::show(s.tza) + " after " + gen::show(s.mdt));
        c.observed(hashStr(given + refStr(ref)), s.tza.size() > 1);
        return;
    }
    // synthetic
    int n = static_cast<int>(r.below(7));
    Ref base = gen::makeRef(r);
    bool sameDay = r.chance(60);
    if (r.chance(1) && r.chance(20)) { n = static_cast<int>(r.range(100, 400)); c.count("synthetic: hundreds of results"); }
    std::string text = r.chance(1) ? gen::farFiller(r) : r.chance(50) ? gen::filler(r, 1) + " " : "";
    if (text.size() > 1000) c.count("synthetic: far into the text");
    bool wide = r.chance(1) && r.chance(30);
    if (wide) c.count("synthetic: far apart");
    Results in;
    for (int i = 0; i < n; i++) {
        if (wide && i && r.chance(40)) text += " " + gen::farFiller(r);
        if (!sameDay && i) base = gen::makeRef(r);
        if (i) text += r.pick({" ", " at ", " on ", ", ", " and ", " hello world ", "-", ""});
        Res x = model::synthetic(r, static_cast<model::Shape>(r.below(model::NSHAPE)), base);
        x.index = static_cast<unsigned>(text.size());
        x.len = static_cast<size_t>(r.range(1, 10));
        text += std::string(x.len, '7');
        in.push_back(x);
    }
    if (r.chance(50)) text += " " + gen::filler(r, 1);
    if (c.describe(model::show(in, text))) return;
    int merges = 0;
    Results got = model::refineTwice(c, MDT, in, text, "datetime"), want = model::dateAndTime(in, &merges);
    std::string d = model::diffList(want, got);
    note(c, in, want, merges, "synthetic");
    if (!d.empty()) c.fail("datetime:synthetic", d + "; " + model::show(in, text) + " gave " + gen::show(got) + ", expected " + gen::show(want));
    c.observed(hashStr(text + gen::show(in)), n > 1);
    if (n > 1) c.sample("\"" + text + "\" " + gen::show(in) + " -> " + gen::show(got));
}
void finish(Ctx&) {}
