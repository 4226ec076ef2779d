// Positions of results: inside the text, disjoint, ascending, and meaning the same on their own.
#include "soup.hpp"
using namespace sut;
const char* const CHECK_ID = "C03";
uint64_t caseCount(bool thorough) { return thorough ? 1500000 : 80000; }

static bool blank(char ch) { return ch && strchr(" \t\n\v\f\r", ch); }
static std::string within(const std::string& text, const Results& rs, bool trimmed) {
    size_t end = 0;
    for (auto& x : rs) {
        size_t e = x.index + x.len;
        if (!x.len) return "an empty stretch at " + gen::num(x.index);
        if (e > text.size()) return "a stretch " + gen::num(x.index) + "+" + gen::num(static_cast<long long>(x.len)) + " beyond the text of " + gen::num(static_cast<long long>(text.size()));
        if (x.index < end) return "stretches that overlap or go back at " + gen::num(x.index);
        if (trimmed && blank(text[e - 1])) return "a stretch ending in whitespace at " + gen::num(static_cast<long long>(e));
        end = e;
    }
    return "";
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    Ref ref = gen::makeRef(r, {1402, 9997, false, true});
    std::string cls, text;
    if (r.chance(50)) text = soup::text(r, ref, cls, r.chance(5));
    else { // several phrases of one parser, and words between
        cls = "one kind";
        gen::Phrase p = gen::anyPhrase(r, ref);
        int n = static_cast<int>(r.range(1, 5));
        bool far = r.chance(1) && r.chance(60);
        if (r.chance(1) && r.chance(40)) { n = static_cast<int>(r.range(100, 700)); c.count("hundreds of phrases"); }
        if (far) { text = gen::farFiller(r); c.count("phrases far into the text"); }
        else if (r.chance(50)) text = r.chance(70) ? gen::filler(r, 1) + " " : r.pick({" ", "  ", "\t\n", "...", "5x "});
        for (int i = 0; i < n; i++) {
            if (i) { text += r.pick({" ", "  ", ", ", " and ", " then hello ", "\n", ". ", "; x ", "   "}); while (true) { gen::Phrase q = gen::anyPhrase(r, ref); if (q.kind == p.kind) { p = q; break; } } }
            text += p.text;
        }
        if (r.chance(50)) text += r.pick({" ", "   ", " hello", ".", "\n\n", " ,", "! "});
        text = gen::randomCase(r, text);
    }
    std::string given = text;
    if (c.describe("text \"" + given + "\", reference " + refStr(ref))) return;
    size_t total = 0;
    bool pipe = r.chance(20);
    for (int k = 0; k < NKIND; k++) {
        if (k == MME && cls != "one kind" && r.chance(60)) continue;
        std::string t = given;
        Results rs = execute(static_cast<Kind>(k), t, ref);
        total += rs.size();
        if (rs.size() > 1) c.count(std::string("several results of ") + KIND_NAME[k]);
        std::string d = within(t, rs, true);
        if (!d.empty()) { c.fail(std::string("span:") + KIND_NAME[k], std::string("parser ") + KIND_NAME[k] + " reports " + d + ": " + gen::show(rs) + " in \"" + given + "\", reference " + refStr(ref)); return; }
        for (auto& x : rs) { // the stretch on its own
            std::string own = t.substr(x.index, x.len), o2 = own;
            Results again = execute(static_cast<Kind>(k), o2, ref);
            std::string why;
            if (again.empty()) why = "nothing";
            else {
                const Res& y = again[0];
                if (!(x.a == y.a) || x.end != y.end || (x.end && !(x.b == y.b))) why = "another date: " + y.str();
                else {
                    size_t b = 0, e = own.size(), yb = y.index, ye = y.index + y.len;
                    while (b < e && blank(own[b])) b++;
                    while (yb < ye && blank(own[yb])) yb++;
                    // punctuation that closes the phrase or starts something unfinished may or may not belong to it
                    auto open = [&](size_t x) { return x > b && !isalnum(static_cast<unsigned char>(own[x - 1])); };
                    while (open(e)) e--;
                    while (open(ye)) ye--;
                    if (yb != b || ye != e) why = "another stretch: " + y.str();
                }
            }
            c.count("stretches parsed on their own");
            if (!why.empty()) { c.fail(std::string("alone:") + KIND_NAME[k], std::string("parser ") + KIND_NAME[k] + " reports " + x.str() + " in \"" + given + "\", but on \"" + own + "\" alone " + why + "; reference " + refStr(ref)); return; }
        }
    }
    if (pipe) {
        std::string t = given;
        Stages s = pipeline(t, ref);
        const std::pair<const char*, const Results*> L[] = {{"overlap removal", &s.olr}, {"zones", &s.tza}, {"date and time", &s.mdt}, {"date range", &s.mdr}};
        for (auto& l : L) {
            std::string d = within(t, *l.second, true);
            if (!d.empty()) { c.fail(std::string("span:") + l.first, std::string(l.first) + " gives " + d + ": " + gen::show(*l.second) + " in \"" + given + "\", reference " + refStr(ref)); return; }
        }
        c.count("pipelines"); c.count("pipeline results", s.mdr.size());
    }
    c.count("class " + cls);
    c.count("results", total);
    c.observed(hashStr(given + refStr(ref)), total > 0);
    if (total > 1 && given.size() < 150) c.sample("\"" + given + "\": " + gen::num(static_cast<long long>(total)) + " results, positions checked and parsed again alone");
}
void finish(Ctx&) {}
