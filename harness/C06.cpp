// Metamorphic: a phrase in any case, place and company means what it means alone; words without a phrase mean nothing.
#include "soup.hpp"
using namespace sut;
const char* const CHECK_ID = "C06";
uint64_t caseCount(bool thorough) { return thorough ? 1500000 : 60000; }

namespace {
struct Piece { std::string text; size_t at; };

bool blank(char c) { return c && strchr(" \t\n\v\f\r", c); }
// the value of a result, and the stretch it covers without whitespace and closing punctuation, relative to `base`
std::string meaning(const Res& x, const std::string& text, size_t base) {
    size_t b = x.index, e = std::min(x.index + x.len, text.size());
    while (b < e && blank(text[b])) b++;
    while (e > b && !isalnum(static_cast<unsigned char>(text[e - 1]))) e--;
    return gen::num(static_cast<long long>(b) - static_cast<long long>(base)) + "+" + gen::num(static_cast<long long>(e - b)) + " " + gen::showComp(x.a) + (x.end ? " - " + gen::showComp(x.b) : "") + " tags " + gen::num(x.tags);
}
std::vector<std::string> meanings(const Results& rs, const std::string& text, size_t base) {
    std::vector<std::string> v;
    for (auto& x : rs) v.push_back(meaning(x, text, base));
    return v;
}
std::string join(const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += (s.empty() ? "" : "; ") + x;
    return s.empty() ? "(nothing)" : s;
}
// the words of each parser that mean something on their own, to be hidden inside longer words
const std::vector<std::string> KEYWORD[NKIND] = {
    {"morning", "afternoon", "evening", "noon", "night"}, {}, {"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sun", "mon", "tue", "tues", "wed", "thu", "thur", "fri", "sat"},
    {"now", "today", "tonight", "tomorrow", "tmr", "yesterday"}, {}, {},
    {"january", "jan", "february", "feb", "march", "mar", "april", "apr", "may", "june", "jun", "july", "jul", "august", "aug", "september", "sept", "sep", "october", "oct", "november", "nov", "december", "dec"},
    {}, {"noon", "midnight"}, {}, {"independence", "columbus", "mlk", "thanksgiving", "memorial", "labor", "veterans", "christmas"}, {}, {}};
const std::vector<std::string> LONGER{"mayor", "marching", "marble", "sunny", "sunset", "monkey", "mondays", "friendly", "satin", "wedge", "decent", "octopus", "novel", "augment", "junk", "julep", "nowhere",
    "snow", "known", "knight", "fortnight", "tonights", "daybreak", "weekend", "laborious", "memorials", "christmassy", "mornings", "nooning", "thursdays", "sepia", "apron", "marched", "dismay", "janitor",
    "nightly", "overnight", "undecided", "october_", "tuesdayish", "elaborate", "secondary", "minus", "hourglass", "yearly", "monthly", "weekly", "daily", "minutes", "seconds", "hours", "days", "afterwards", "outside",
    "later", "before", "ago", "next", "last", "this", "within", "half", "few", "one", "twelve", "first", "twentieth", "early", "late", "pm", "am", "o'clock", "utc", "est", "eve", "black", "king", "president", "new", "year", "day", "weeks"};
const std::vector<std::string> TEMPLATE[NKIND] = {
    {}, {"in 3 *", "within a few *", "in half an *", "in twelve *"}, {}, {}, {}, {"3 * later", "a few * from now", "half * after", "ten * out"}, {}, {"3 * ago", "a few * before", "half a * earlier"}, {}, {}, {}, {}, {"next 3 *", "last *", "past few *", "this *"}};
const std::vector<std::string> UNITS{"second", "seconds", "sec", "minute", "minutes", "min", "mins", "hour", "hours", "day", "days", "week", "weeks", "month", "months", "year", "years"};

std::string lead(Rng& r, bool clock) { // neutral words, and what stands directly before a phrase
    std::string s;
    if (r.chance(70)) s = gen::filler(r, static_cast<int>(r.range(1, 6))) + r.pick({" ", " ", " ", ", ", ": ", "; ", "! ", "? ", " ... ", "  ", "\t", "\n", " | "});
    else if (r.chance(20)) s = r.pick({" ", "\n", "   ", "! "});
    if (!clock && r.chance(20)) s += r.pick({"(", "[", "\"", "*", "<", ">"});
    return s;
}
// something of a parser's form that is no date
std::string noDate(Rng& r, Kind k, const Ref& ref) {
    static const std::vector<std::string> BIG{"99999999", "4294967297", "99999999999999999999"}, U{"seconds", "minutes", "hours", "days", "weeks", "months", "years"};
    std::string big = r.pick(BIG), u = big.size() > 9 ? r.pick(U) : "years";
    switch (k) {
        case TXP: { gen::TimeOpt o; o.invalid = true; return gen::timeExpr(r, ref, o).text; }
        case ISO: { gen::IsoOpt o; o.invalid = true; gen::Phrase p = gen::isoDate(r, ref, o); return p.result ? "" : p.text; }
        case MME: { gen::MdOpt o; o.invalid = true; gen::Phrase p = gen::monthDay(r, ref, o); return p.result ? "" : p.text; }
        case DFP: return "in " + big + " " + u;
        case TAP: return big + " " + u + " ago";
        case TLP: return big + " " + u + " later";
        case WXP: return "next " + big + " weeks";
        case REL: return r.pick({"next ", "last "}) + big + " " + u;
        default: return "";
    }
}
std::string trail(Rng& r) {
    std::string s;
    if (r.chance(25)) s = r.pick({")", "]", "\"", "!", ";", "*", ">", ","});
    if (r.chance(70)) s += r.pick({" ", " ", " ", ", ", "! ", "; ", "\n", "  ", "\t"}) + gen::filler(r, static_cast<int>(r.range(1, 6)));
    else if (r.chance(20)) s += r.pick({" ", "\n", "   ", " !"});
    return s;
}
}

void runCase(Ctx& c) {
    Rng& r = c.rng;
    Ref ref = gen::makeRef(r, {1402, 9997, false, true});
    int m = static_cast<int>(r.below(100));
    if (m < 25) { // nothing to be found
        std::string text;
        int k = -1;
        int mode = static_cast<int>(r.below(3));
        if (mode == 0) { // ordinary words
            int n = static_cast<int>(r.range(1, 30));
            for (int i = 0; i < n; i++) text += (i ? r.pick({" ", " ", " ", " ", ", ", ". ", "; ", "! ", "? ", "-", " - ", "\n", "  ", "/", ": "}) : std::string()) + r.pick(gen::NEUTRAL);
        } else if (mode == 1) { // longer words around
            int n = static_cast<int>(r.range(1, 8));
            for (int i = 0; i < n; i++) text += (i ? " " + (r.chance(60) ? gen::filler(r, 1) + " " : "") : "") + (r.chance(70) ? r.pick(LONGER) : gen::filler(r, 1));
            // single units and modifiers mean nothing alone, but some mean something together
            for (const char* w : {"next", "last", "this", "within", "half", "few", "one", "twelve", "first", "new", "black"}) {
                std::string s = std::string(w) + " ";
                for (size_t p; (p = text.find(s)) != std::string::npos && (p == 0 || text[p - 1] == ' ');) text.erase(p, s.size());
            }
        } else { // a keyword hidden in a word
            do k = static_cast<int>(r.below(NKIND)); while (KEYWORD[k].empty() && TEMPLATE[k].empty());
            auto hide = [&](const std::string& w) {
                std::string x = w;
                static const std::string L = "xzqk";
                int side = static_cast<int>(r.below(3));
                if (r.chance(15)) { // a digit or an underscore makes a longer word, too
                    std::string d(1, r.chance(40) ? '_' : static_cast<char>('0' + r.below(10)));
                    if (side != 1 || (d != "_" && (k == MNP || x.back() == 't'))) return d + x; // "t5" is the time of an ISO date
                    return x + d;
                }
                if (side != 0) for (int i = static_cast<int>(r.range(1, 3)); i > 0; i--) x += L[r.below(4)];
                if (side != 1) for (int i = static_cast<int>(r.range(1, 3)); i > 0; i--) x = L[r.below(4)] + x;
                return x;
            };
            if (!KEYWORD[k].empty()) text = hide(r.pick(KEYWORD[k]));
            else {
                text = r.pick(TEMPLATE[k]);
                text.replace(text.find('*'), 1, r.pick(UNITS) + std::string(1, "xzqk"[r.below(4)]));
            }
            text = lead(r, false) + text + trail(r);
        }
        text = gen::randomCase(r, text);
        if (c.describe("text \"" + text + "\" with nothing in it, reference " + refStr(ref))) return;
        for (int i = 0; i < NKIND; i++) {
            if (k >= 0 && i != k && mode == 2 && !TEMPLATE[k].empty()) continue; // the number in it may be a time
            std::string t = text;
            Results rs = execute(static_cast<Kind>(i), t, ref);
            c.count("parsers given words without a phrase");
            if (!rs.empty()) { c.fail(std::string("nothing:") + KIND_NAME[i], std::string("parser ") + KIND_NAME[i] + " reports " + gen::show(rs) + " in \"" + text + "\", reference " + refStr(ref)); return; }
        }
        c.count(mode == 0 ? "ordinary words" : mode == 1 ? "longer words" : "hidden keywords");
        c.observed(hashStr(text));
        if (text.size() < 80) c.sample("\"" + text + "\" -> nothing");
        return;
    }
    if (m == 99 && r.chance(50)) { // two parsers read "noon", and which of them wins depends on a space before it
        std::string text = lead(r, true) + "noon";
        size_t at = text.size() - 4;
        text = gen::randomCase(r, text + trail(r));
        if (c.describe("pipeline, text \"" + text + "\", reference " + refStr(ref))) return;
        std::string given = text, own = "noon";
        Stages s = pipeline(text, ref), q = pipeline(own, ref);
        std::string got = join(meanings(s.mdr, text, at)), want = join(meanings(q.mdr, own, 0));
        c.count("noon through the pipeline");
        c.observed(hashStr(given + refStr(ref)));
        if (got != want) {
            bool known = s.mdr.size() == 1 && q.mdr.size() == 1 && s.mdr[0].tags == 1u << T_TXP && q.mdr[0].tags == 1u << T_CTP && s.mdr[0].a.v[MI] == 0 && q.mdr[0].a.v[MI] == ref.mi &&
                s.mdr[0].a.v[H] == 12 && q.mdr[0].a.v[H] == 12 && s.mdr[0].a.v[D] == q.mdr[0].a.v[D] && s.mdr[0].a.v[MO] == q.mdr[0].a.v[MO] && s.mdr[0].a.v[Y] == q.mdr[0].a.v[Y];
            c.fail(known ? "noon" : "meaning:noon", "the pipeline reads \"" + given + "\" as " + got + ", \"noon\" alone as " + want + "; reference " + refStr(ref));
        }
        return;
    }
    bool pipe = m >= 75;
    int n = static_cast<int>(r.chance(35) ? 1 : r.range(2, 5));
    bool far = r.chance(1), many = !far && !pipe && r.chance(1) && r.chance(40);
    if (many) { n = static_cast<int>(r.range(100, 500)); c.count("hundreds of phrases"); }
    if (far) c.count("phrases far into the text");
    std::vector<gen::Phrase> ps;
    std::string text;
    std::vector<size_t> at;
    uint64_t badOnes = 0;
    for (int i = 0; i < n; i++) {
        gen::Phrase p;
        do p = gen::anyPhrase(r, ref, !pipe); while ((!pipe && i && p.kind != ps[0].kind) || (pipe && p.text == "noon"));
        std::string before = lead(r, p.kind == TXP || pipe);
        if (i && before.find_first_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos) before = r.pick({" ", ", ", "! "}) + gen::filler(r, 1) + " " + (blank(before.empty() ? ' ' : before[0]) ? before : "");
        if (i && !blank(before[0]) && text.size() && isalnum(static_cast<unsigned char>(text.back())) && isalnum(static_cast<unsigned char>(before[0]))) before = " " + before;
        if (!pipe && r.chance(20)) { // directly before the phrase something that is no date
            std::string bad = noDate(r, p.kind, ref), alone = bad;
            if (!bad.empty() && execute(p.kind, alone, ref).empty()) {
                if (!before.empty() && isalnum(static_cast<unsigned char>(before.back()))) before += " ";
                before += bad + r.pick({" ", " ", ", ", "; "});
                badOnes++;
            }
        }
        if (far && (i == 0 || r.chance(20))) text += (text.empty() ? "" : " ") + gen::farFiller(r);
        text += before;
        at.push_back(text.size());
        text += p.text + trail(r);
        ps.push_back(p);
    }
    std::string given = gen::randomCase(r, text);
    if (c.describe(std::string(pipe ? "pipeline" : KIND_NAME[ps[0].kind]) + ", text \"" + given + "\", reference " + refStr(ref))) return;
    std::vector<std::string> want, got;
    size_t single = 0;
    std::string t = given;
    if (!pipe) {
        for (int i = 0; i < n; i++) {
            std::string own = ps[i].text;
            Results rs = execute(ps[i].kind, own, ref);
            if (rs.size() == 1) single++;
            for (auto& s : meanings(rs, own, 0)) want.push_back("#" + gen::num(i) + " " + s);
        }
        Results rs = execute(ps[0].kind, t, ref);
        for (size_t i = 0; i < rs.size(); i++) {
            int o = n - 1;
            size_t b = rs[i].index;
            while (b < t.size() && blank(t[b])) b++;
            while (o > 0 && at[o] > b) o--;
            got.push_back("#" + gen::num(o) + " " + meaning(rs[i], t, at[o]));
        }
        c.count(n == 1 ? "one phrase" : "several phrases of one parser");
        c.count(std::string("phrases of ") + KIND_NAME[ps[0].kind], static_cast<uint64_t>(n));
    } else {
        for (int i = 0; i < n; i++) {
            std::string own = ps[i].text;
            Stages s = pipeline(own, ref);
            // separate phrases may still be combined by the merging refiners: those are judged elsewhere
            const Results& l = n == 1 ? s.mdr : s.olr;
            for (auto& x : meanings(l, own, 0)) want.push_back("#" + gen::num(i) + " " + x);
            if (l.size() == 1) single++;
        }
        Stages s = pipeline(t, ref);
        for (auto& x : n == 1 ? s.mdr : s.olr) {
            int o = n - 1;
            size_t b = x.index;
            while (b < t.size() && blank(t[b])) b++;
            while (o > 0 && at[o] > b) o--;
            got.push_back("#" + gen::num(o) + " " + meaning(x, t, at[o]));
        }
        c.count(n == 1 ? "one phrase through the pipeline" : "several phrases through the pipeline");
    }
    if (badOnes) c.count("directly after something that is no date", badOnes);
    c.count("phrases compared with themselves alone", static_cast<uint64_t>(n));
    c.count("phrases with one result alone", single);
    c.observed(hashStr(given + refStr(ref)));
    if (given.size() < 160) c.sample("\"" + given + "\" -> " + join(got));
    if (want != got) c.fail(std::string("meaning:") + (pipe ? "pipeline" : KIND_NAME[ps[0].kind]), std::string(pipe ? "the pipeline" : std::string("parser ") + KIND_NAME[ps[0].kind]) + " reads \"" + given + "\" as " + join(got) + "; the phrases alone are " + join(want) + "; reference " + refStr(ref));
}
void finish(Ctx&) {}
