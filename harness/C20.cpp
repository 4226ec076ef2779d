// Zone abbreviations after clock times, on synthetic lists and through time parser and pipeline.
#include "refine_model.hpp"
using namespace sut;
const char* const CHECK_ID = "C20";
uint64_t caseCount(bool thorough) { return thorough ? 1200000 : 100000; }

static std::string mangle(Rng& r, std::string s) {
    int m = static_cast<int>(r.below(3));
    for (char& ch : s) if (m == 0 || (m == 2 && r.chance(50))) ch = static_cast<char>(tolower(static_cast<unsigned char>(ch)));
    return s;
}
static std::string shown(const Comp& c, bool shift) { // empty if outside the calendar
    cal::i64 t = cal::secsOf(c) + (shift ? c.v[TZ] * 60LL : 0);
    return cal::secsInCal(t) ? cal::render(t) : "";
}
static std::string judgeRender(const Res& x) {
    bool shift = x.tags >> T_TZA & 1;
    std::string a = shown(x.a, shift), b = x.end ? shown(x.b, shift) : "x";
    if (a.empty() || b.empty()) return x.render[0] == '!' ? "" : "renders as " + x.render + " although that is outside the calendar";
    std::string want = a + (x.end ? " - " + b : "");
    return x.render == want ? "" : "renders as '" + x.render + "', expected '" + want + "'";
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    static const size_t NZ = sizeof model::ZONES / sizeof model::ZONES[0];
    const model::Zone& z = model::ZONES[r.chance(60) ? c.idx % NZ : r.below(NZ)];
    std::string ab = z.name, cls = "known";
    bool known = ab.size() <= 4 && model::zone(ab);
    if (!known) cls = "longer name";
    int m = static_cast<int>(r.below(100));
    if (m < 20) { // some other word
        static const std::vector<std::string> W{"xyz", "qq", "zzt", "abcd", "foo", "hi", "utcx", "gm", "esst", "p", "a", "z", "pstx", "edtt", "us", "eu", "local", "time", "zulu", "u", "mm"};
        ab = r.chance(60) ? r.pick(W) : std::string();
        if (ab.empty()) { int n = static_cast<int>(r.range(1, 6)); for (int i = 0; i < n; i++) ab += static_cast<char>('a' + r.below(26)); }
        known = ab.size() >= 2 && ab.size() <= 4 && model::zone(ab);
        cls = known ? "known" : "unknown";
    }
    std::string word = mangle(r, ab);
    static const std::vector<std::string> L{" ", "  ", " (", "(", "\t", "", "\n "}, E{"", ")", " ", ".", ",", " please", " x", "!", " 2019", "s", "1"};
    std::string lead = r.pick(L), tail = r.chance(65) ? (lead.find('(') != std::string::npos ? ")" : "") : r.pick(E);
    if (c.idx % 3 == 0) { // through the parsers
        Ref ref = gen::makeRef(r, {1400, 9999, true, false});
        gen::TimeOpt o;
        gen::Phrase p = gen::timeExpr(r, ref, o);
        if (!p.result) return;
        if (lead.empty()) lead = " ";
        // a letter that extends the time itself is not a zone
        std::string text = (r.chance(1) && r.chance(50) ? gen::farFiller(r) : std::string()) + p.text + lead + word + tail, given = text;
        bool far = text.size() > 1000;
        if (far) c.count("far into the text");
        bool full = r.chance(50);
        if (c.describe(std::string(full ? "pipeline" : "time parser and zone refiner") + ", text \"" + given + "\", reference " + refStr(ref))) return;
        Results before, after;
        if (full) { Stages s = pipeline(text, ref); before = s.olr; after = s.tza; }
        else {
            before = execute(TXP, text, ref);
            for (auto& x : before) for (Comp* q : {&x.a, &x.b}) for (int f = 0; f < NF; f++) if (q->st[f] == UNSET && q->v[f]) q->st[f] = IMPLIED; // as the getters show it
            after = model::refineTwice(c, TZA, before, text, "zone");
        }
        std::string d = model::diffList(model::timezone(before, text), after);
        for (auto& x : after) if (d.empty()) d = judgeRender(x);
        bool zoned = false;
        for (auto& x : after) if (x.tags >> T_TZA & 1) zoned = true;
        // the whole of it, where nothing else can interfere
        if (d.empty() && !full && before.size() == 1 && known && (tail.empty() || tail == ")")) {
            int off = model::zone(ab)->offset;
            const Res& x = after[0];
            if (!zoned || x.a.v[TZ] != off || x.a.st[TZ] != KNOWN || (x.end && (x.b.v[TZ] != off || x.b.st[TZ] != KNOWN)) || model::endOf(x) != given.size())
                d = "the zone " + ab + " (" + gen::num(off) + ") is not attached";
            c.count("time with zone judged end to end");
        }
        c.count(std::string(full ? "pipeline: " : "time parser: ") + (zoned ? "zone attached" : "no zone"));
        if (!d.empty()) c.fail(std::string("zone:parsed:") + (full ? "pipeline" : "parser"), d + "; text \"" + given + "\", reference " + refStr(ref) + ": before " + gen::show(before) + " after " + gen::show(after));
        c.observed(hashStr(given + refStr(ref)));
        c.sample("\"" + given + "\" -> " + gen::show(after));
        return;
    }
    Ref base = gen::makeRef(r);
    int n = static_cast<int>(r.range(1, 4));
    std::string text;
    Results in;
    if (r.chance(1)) { text = gen::farFiller(r); c.count("synthetic: far into the text"); }
    for (int i = 0; i < n; i++) {
        if (i || r.chance(50)) text += gen::filler(r, static_cast<int>(r.below(3))) + " ";
        Res x = model::synthetic(r, r.chance(70) ? model::TIME : static_cast<model::Shape>(r.below(model::NSHAPE)), base);
        if ((x.tags >> T_TXP & 1) && r.chance(60)) { x.a.v[TZ] = x.b.v[TZ] = 0; x.a.st[TZ] = x.b.st[TZ] = UNSET; }
        x.index = static_cast<unsigned>(text.size());
        x.len = static_cast<size_t>(r.range(1, 12));
        text += std::string(x.len, '7');
        if (r.chance(15) && i + 1 < n) text += " " + word; // zone in the middle: not the rest of the text
        in.push_back(x);
    }
    text += lead + word + tail;
    if (c.describe(model::show(in, text))) return;
    Results got = model::refineTwice(c, TZA, in, text, "zone"), want = model::timezone(in, text);
    std::string d = model::diffList(want, got);
    for (auto& x : got) if (d.empty()) d = judgeRender(x);
    bool zoned = false;
    for (auto& x : want) if (x.tags >> T_TZA & 1) { zoned = true; c.count("zone " + ab); }
    c.count("synthetic: " + cls + (zoned ? ", attached" : ", not attached"));
    if (!d.empty()) c.fail("zone:synthetic", d + "; " + model::show(in, text) + " gave " + gen::show(got));
    c.observed(hashStr(text + gen::show(in)));
    c.sample("\"" + text + "\" " + gen::show(in) + " -> " + gen::show(got));
}
void finish(Ctx&) {}
