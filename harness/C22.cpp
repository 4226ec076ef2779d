// Merging of two dates into a range against its model, on synthetic lists and on parsed text.
#include "refine_model.hpp"
using namespace sut;
const char* const CHECK_ID = "C22";
uint64_t caseCount(bool thorough) { return thorough ? 1200000 : 100000; }

void runCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.idx % 25 == 22) { // "date at time to date at time" is the range between the two moments
        Ref ref = gen::makeRef(r, {1405, 9995, false, false});
        std::string text;
        cal::i64 at[2];
        bool timed[2], certain[2];
        for (int i = 0; i < 2; i++) {
            gen::Phrase d;
            do {
                switch (r.below(4)) {
                    case 0: d = gen::dayOfWeek(r, ref); break;
                    case 1: d = gen::casualDate(r, ref, static_cast<int>(r.pick({1, 3, 4}))); break;
                    case 2: { gen::MdOpt o; o.range = 0; o.year = 1; o.weekday = false; o.era = false; d = gen::monthDay(r, ref, o); break; }
                    default: d = gen::agoLater(r, ref, static_cast<int>(r.below(2)), 1);
                }
            } while (!d.result || d.a.st[H] == KNOWN);
            int h = static_cast<int>(r.range(1, 12)), mi = static_cast<int>(r.below(60));
            bool pm = r.chance(50);
            timed[i] = i == 0 || r.chance(70); // without a time the first one must not be taken for the second's
            certain[i] = d.a.st[D] == KNOWN;
            at[i] = timed[i] ? cal::days(d.a.v[Y], d.a.v[MO], d.a.v[D]) * 86400 + gen::fullHour(h, pm ? 2 : 1) * 3600 + mi * 60 : cal::secsOf(d.a);
            // "5:00 am to 3 days ago" may be read as the hours from 5 to 3
            if (i) text += isdigit(static_cast<unsigned char>(d.text[0])) ? r.pick({" and ", " through "}) : r.pick({" to ", " and ", " through ", " - "});
            text += d.text;
            if (timed[i]) text += r.pick({" at ", ", "}) + gen::num(h) + ":" + gen::pad(mi, 2) + (pm ? " pm" : " am");
        }
        std::string pre = r.chance(2) ? gen::farFiller(r) : ""; // it means the same anywhere
        if (!pre.empty()) c.count("moments far into the text");
        std::string given = pre + gen::randomCase(r, text), want = cal::render(std::min(at[0], at[1])) + " - " + cal::render(std::max(at[0], at[1]));
        text = given;
        if (c.describe("pipeline, text \"" + given + "\", reference " + refStr(ref))) return;
        Stages s = pipeline(text, ref);
        std::string d;
        if (s.mdr.size() != 1) d = gen::num(static_cast<long long>(s.mdr.size())) + " results, expected one range";
        else if (s.mdr[0].render != want) d = "reported as '" + s.mdr[0].render + "', expected '" + want + "'";
        else if (s.mdr[0].index + (s.mdr[0].index < pre.size() && pre.back() == ' ') != pre.size() || s.mdr[0].index + s.mdr[0].len != given.size()) d = "covers " + gen::num(s.mdr[0].index) + "+" + gen::num(static_cast<long long>(s.mdr[0].len)) + " of " + gen::num(static_cast<long long>(given.size()));
        c.count(std::string("moment to ") + (timed[1] ? "moment" : "date") + (at[0] > at[1] ? ", later first" : ""));
        if (!d.empty()) c.fail("daterange:moments", d + "; text \"" + given + "\", reference " + refStr(ref) + ": before " + gen::show(s.raw) + " after " + gen::show(s.mdr));
        c.observed(hashStr(given + refStr(ref)));
        return;
    }
    if (c.idx % 25 >= 23) {
        bool exact = c.idx % 25 == 24;
        Ref ref = gen::makeRef(r, {1405, 9995, false, false});
        std::string t;
        gen::Phrase p[5];
        int n = exact ? 2 : static_cast<int>(r.range(2, 5));
        for (int i = 0; i < n; i++) {
            if (!exact) p[i] = gen::anyPhrase(r, ref, false);
            else do {
                switch (r.below(4)) {
                    case 0: p[i] = gen::dayOfWeek(r, ref); break;
                    case 1: p[i] = gen::casualDate(r, ref, static_cast<int>(r.pick({1, 3, 4, 5}))); break;
                    case 2: { gen::MdOpt o; o.range = 0; o.year = 1; o.weekday = false; o.era = false; p[i] = gen::monthDay(r, ref, o); break; }
                    default: p[i] = gen::agoLater(r, ref, static_cast<int>(r.below(2)), 1);
                }
            } while (!p[i].result || p[i].a.st[H] == KNOWN || (i == 1 && p[i].kind != MME && p[0].kind == MME));
            std::string sep = exact ? r.pick({" to ", " and ", " through ", " - "}) : r.pick({" to ", " and ", " through ", " - ", " ", ", ", " hello ", " at "});
            if (exact && i == 1 && p[0].kind != MME && sep == " and ") sep = " to ";
            t += (i ? sep : "") + p[i].text;
        }
        std::string pre = r.chance(2) ? gen::farFiller(r) : ""; // it means the same anywhere
        if (!pre.empty()) c.count("dates far into the text");
        std::string given = pre + gen::randomCase(r, t);
        t = given;
        if (c.describe("pipeline, text \"" + given + "\", reference " + refStr(ref))) return;
        Stages s = pipeline(t, ref);
        int merges = 0, swaps = 0;
        Results want = model::dateRange(s.mdt, t, &merges, &swaps);
        std::string d = model::diffList(want, s.mdr);
        if (d.empty() && exact) { // the whole of it
            cal::i64 x = cal::secsOf(p[0].a), y = cal::secsOf(p[1].a);
            std::string w = cal::render(std::min(x, y)) + " - " + cal::render(std::max(x, y));
            if (s.mdr.size() != 1) d = gen::num(static_cast<long long>(s.mdr.size())) + " results, expected one range";
            else if (s.mdr[0].render != w) d = "reported as '" + s.mdr[0].render + "', expected '" + w + "'";
            else if (s.mdr[0].index + (s.mdr[0].index < pre.size() && pre.back() == ' ') != pre.size() || s.mdr[0].index + s.mdr[0].len != given.size()) d = "covers " + gen::num(s.mdr[0].index) + "+" + gen::num(static_cast<long long>(s.mdr[0].len)) + " of " + gen::num(static_cast<long long>(given.size()));
            c.count(x > y ? "date to date: later first" : "date to date: in order");
        }
        c.count("parsed: ranges " + gen::num(merges));
        if (!d.empty()) c.fail(exact ? "daterange:text" : "daterange:parsed", d + "; text \"" + given + "\", reference " + refStr(ref) + ": before " + gen::show(s.mdt) + " after " + gen::show(s.mdr));
        c.observed(hashStr(given + refStr(ref)), s.mdt.size() > 1);
        if (exact) c.sample("\"" + given + "\" @ " + refStr(ref) + " -> " + gen::show(s.mdr));
        return;
    }
    int n = static_cast<int>(r.below(7));
    Ref base = gen::makeRef(r);
    bool sameDay = r.chance(25);
    if (r.chance(1) && r.chance(20)) { n = static_cast<int>(r.range(100, 400)); c.count("synthetic: hundreds of results"); }
    std::string text = r.chance(1) ? gen::farFiller(r) : r.chance(50) ? gen::filler(r, 1) + " " : "";
    if (text.size() > 1000) c.count("synthetic: far into the text");
    bool wide = r.chance(1) && r.chance(30);
    if (wide) c.count("synthetic: far apart");
    Results in;
    for (int i = 0; i < n; i++) {
        if (wide && i && r.chance(40)) text += " " + gen::farFiller(r);
        if (!sameDay && i) base = gen::makeRef(r);
        if (i) text += r.pick({" to ", " and ", "-", " - ", " through ", " ", ", ", " or ", " hello ", "", "to", " with x to green ", " / ", " until "});
        Res x = model::synthetic(r, static_cast<model::Shape>(r.below(model::NSHAPE)), base);
        if (i && r.chance(10)) x.a = in.back().a; // equal dates
        if (x.end && r.chance(60)) { x.end = false; x.b = Comp(); }
        x.index = static_cast<unsigned>(text.size());
        x.len = static_cast<size_t>(r.range(1, 10));
        text += std::string(x.len, '7');
        in.push_back(x);
    }
    if (r.chance(50)) text += r.pick({" to ", " ", " - "}) + gen::filler(r, 1);
    if (c.describe(model::show(in, text))) return;
    int merges = 0, swaps = 0;
    Results got = model::refineTwice(c, MDR, in, text, "daterange"), want = model::dateRange(in, text, &merges, &swaps);
    std::string d = model::diffList(want, got);
    c.count("synthetic: ranges " + gen::num(merges));
    if (swaps) c.count("synthetic: later date first");
    if (!d.empty()) c.fail("daterange:synthetic", d + "; " + model::show(in, text) + " gave " + gen::show(got) + ", expected " + gen::show(want));
    c.observed(hashStr(text + gen::show(in)), n > 1);
    if (n > 1) c.sample("\"" + text + "\" " + gen::show(in) + " -> " + gen::show(got));
}
void finish(Ctx&) {}
