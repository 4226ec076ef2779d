// The command line program: what it prints, against the phrases' own oracles, the library pipeline and the clock.
#include "soup.hpp"
#include "cli.hpp"
using namespace sut;
const char* const CHECK_ID = "C23";
uint64_t caseCount(bool thorough) { return thorough ? 160000 : 6000; }

namespace {
struct Zone { const char* name; int minutes; };
const Zone ZONES[] = {
#include "tz_table.inc"
};
std::string refArg(Rng& r, const Ref& ref) {
    char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", ref.y, ref.mo, ref.d, ref.h, ref.mi, ref.s);
    std::string s = b;
    if (ref.us) { snprintf(b, sizeof b, ".%06d", ref.us); s += b; }
    (void)r;
    return s;
}
std::string shown(const gen::Phrase& p) {
    return cal::render(cal::secsOf(p.a)) + (p.end ? " - " + cal::render(cal::secsOf(p.b)) : "");
}
bool usage(const cli::Out& o) { return o.out.compare(0, 7, "Usage: ") == 0 && o.out.find("Date:") == std::string::npos && o.out.find("Invalid date") == std::string::npos; }
const char* const INVALID = "[???] -- Invalid date\n";
}

void runCase(Ctx& c) {
    Rng& r = c.rng;
    const char* prog = getenv("VERIF_PROG_PLAIN");
    if (!prog) { fprintf(stderr, "no program\n"); exit(2); }
    Ref ref = gen::makeRef(r, {1402, 9997, false, true});
    static const std::vector<std::string> TZS{"UTC", "America/New_York", "Asia/Kolkata", "XYZ-13:45", "ABC11", "EST5EDT,M3.2.0,M11.1.0", "QQQ-0:30", "CET-1CEST", "Pacific/Apia"};
    std::string tz = r.pick(TZS);
    int m = static_cast<int>(r.below(100));
    auto run = [&](const std::vector<std::string>& args) {
        cli::Out o = cli::run(prog, args, tz.c_str(), 120);
        c.count("program runs");
        return o;
    };
    auto words = [&](const std::vector<std::string>& args) { std::string s; for (auto& a : args) s += " \"" + a + "\""; return s; };
    auto judge = [&](const char* key, const std::vector<std::string>& args, const cli::Out& o, const std::string& want) {
        c.observed(hashStr(words(args), hashStr(tz)));
        if (words(args).size() < 160) c.sample("time" + words(args) + " -> " + o.out.substr(0, o.out.find('\n')));
        if (o.timedOut) c.fail(std::string(key) + ":hang", "the program does not finish:" + words(args));
        else if (o.status != 0) c.fail(std::string(key) + ":status", "the program ends with status " + gen::num(o.status) + ":" + words(args) + " " + o.err.substr(0, 500));
        else if (o.out != want) c.fail(key, "the program prints \"" + o.out + "\" for" + words(args) + ", expected \"" + want + "\" (TZ=" + tz + ")");
    };
    if (m < 6) { // wrong number of arguments
        std::vector<std::string> args;
        if (r.chance(60)) for (int i = static_cast<int>(r.range(3, 6)); i > 0; i--) args.push_back(r.pick({"today", "2019-05-01 10:00:00", "", "tomorrow", "x", "-h"}));
        if (c.describe("arguments" + words(args))) return;
        cli::Out o = run(args);
        c.count(args.empty() ? "no argument" : "too many arguments");
        c.observed(hashStr(words(args)));
        if (o.timedOut || o.status != 0 || !usage(o)) c.fail("usage:count", "the program prints \"" + o.out + "\", status " + gen::num(o.status) + ", for" + words(args) + ", expected the usage text");
        return;
    }
    if (m < 16) { // malformed reference
        std::string bad, good = refArg(r, ref);
        switch (r.below(9)) {
            case 0: bad = ""; break;
            case 1: bad = r.pick({"hello", "now", "yesterday", "x", " ", "-", "tomorrow at 5", "ab-cd-ef gh:ij:kl", "not-a-date-time", "+infinity", "-infinity", "maximum-date-time"}); break;
            case 2: bad = good.substr(0, 10); break; // no time
            case 3: bad = good.substr(0, 10) + "T" + good.substr(11, 8); break;
            case 4: bad = good.substr(0, 5) + r.pick({"13", "00", "99", "14"}) + good.substr(7); break;
            case 5: bad = good.substr(0, 8) + r.pick({"32", "00", "99", "40"}) + good.substr(10); break;
            case 6: bad = good.substr(0, 5) + r.pick({"02-30", "02-31", "04-31", "06-31", "09-31", "11-31"}) + good.substr(10); break;
            case 7: bad = r.pick({"1399", "0000", "10000", "0999", "99999"}) + good.substr(4); break;
            default: bad = good.substr(0, 11) + r.pick({"ab:cd:ef", "x", "??:00:00", "now"});
        }
        std::string text = r.chance(50) ? gen::anyPhrase(r, ref, false).text : gen::filler(r, 2);
        std::vector<std::string> args{text, bad};
        if (c.describe("arguments" + words(args))) return;
        cli::Out o = run(args);
        c.count("malformed references");
        c.observed(hashStr(words(args)));
        if (o.timedOut || o.status != 0 || !usage(o)) c.fail("usage:reference", "the program prints \"" + o.out + "\", status " + gen::num(o.status) + ", for" + words(args) + ", expected the usage text");
        return;
    }
    if (m < 24) { // nothing in it
        std::string text = r.chance(5) ? r.pick({"", " ", "...", "\n"}) : gen::filler(r, static_cast<int>(r.range(1, 12)));
        std::vector<std::string> args{gen::randomCase(r, text)};
        if (r.chance(70)) args.push_back(refArg(r, ref));
        if (c.describe("arguments" + words(args))) return;
        c.count("texts without a phrase");
        judge("nothing", args, run(args), INVALID);
        return;
    }
    if (m < 34) { // without a reference: the current local time, bracketed by the clock
        gen::Phrase p;
        static const std::vector<std::string> CLOCK{"now", "in 5 minutes", "30 seconds ago", "in 36 hours", "today", "tomorrow", "this morning", "2 hours from now", "in 20 days", "3 weeks ago", "at 5pm", "yesterday"};
        std::string text;
        if (r.chance(70)) text = r.pick(CLOCK); else text = gen::anyPhrase(r, Ref{2025, 6, 15, 12, 0, 0, 0}, false).text;
        text = gen::randomCase(r, (r.chance(30) ? gen::filler(r, 1) + " " : "") + text);
        std::vector<std::string> args{text};
        if (c.describe("arguments" + words(args) + " TZ=" + tz)) return;
        time_t t0 = time(nullptr);
        cli::Out o = run(args);
        time_t t1 = time(nullptr);
        setenv("TZ", tz.c_str(), 1);
        tzset();
        bool ok = false;
        std::string want;
        for (time_t t = t0; t <= t1 && !ok; t++) {
            struct tm lt;
            localtime_r(&t, &lt);
            Ref now{lt.tm_year + 1900, lt.tm_mon + 1, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec, 0};
            std::string u = text;
            Stages s = pipeline(u, now, false);
            want = s.mdr.empty() ? INVALID : "Date:\t" + s.mdr[0].render + "\n";
            ok = o.out == want;
        }
        setenv("TZ", "UTC", 1);
        tzset();
        c.count("without a reference, TZ " + tz);
        judge("clock", args, o, ok ? o.out : want);
        return;
    }
    if (m < 70) { // one phrase, or the first of two, against its oracle
        gen::Phrase p;
        std::string want;
        bool zone = m < 40;
        for (;;) {
            p = zone ? gen::timeExpr(r, ref) : gen::anyPhrase(r, ref, false);
            if (!p.result) continue;
            if (p.text == "noon") continue; // two parsers read it, differently
            break;
        }
        std::string text = p.text;
        if (zone) {
            const Zone& z = ZONES[r.below(sizeof ZONES / sizeof *ZONES)];
            if (p.a.st[H] != KNOWN || strlen(z.name) > 4) return;
            cal::i64 a = cal::secsOf(p.a) + z.minutes * 60, b = p.end ? cal::secsOf(p.b) + z.minutes * 60 : a;
            if (!cal::secsInCal(a) || !cal::secsInCal(b)) return;
            text += r.pick({" ", "  "}) + (r.chance(30) ? "(" + std::string(z.name) + ")" : std::string(z.name));
            want = cal::render(a) + (p.end ? " - " + cal::render(b) : "");
            c.count("time with a zone");
        } else {
            want = shown(p);
            if (r.chance(60)) text = gen::filler(r, static_cast<int>(r.range(1, 3))) + " " + text;
            if (r.chance(50)) text += " " + gen::filler(r, static_cast<int>(r.range(1, 3)));
            c.count(std::string("one phrase: ") + KIND_NAME[p.kind]);
        }
        std::vector<std::string> args{gen::randomCase(r, text), refArg(r, ref)};
        if (c.describe("arguments" + words(args))) return;
        judge(zone ? "zone" : (std::string("phrase:") + p.cls).c_str(), args, run(args), "Date:\t" + want + "\n");
        return;
    }
    if (m < 80) { // several dates: the first
        gen::Phrase p[2];
        int n = static_cast<int>(r.range(2, 3));
        std::string text;
        if (r.chance(6)) { text = gen::farFiller(r).substr(0, 100000); text = text.substr(0, text.rfind(' ') + 1); c.count("far into the text"); }
        else if (r.chance(5)) { n = static_cast<int>(r.range(20, 400)); c.count("many phrases"); }
        for (int k = 0; k < n; k++) {
            int i = k ? 1 : 0;
            do {
                switch (r.below(4)) {
                    case 0: p[i] = gen::dayOfWeek(r, ref); break;
                    case 1: p[i] = gen::holiday(r, ref); break;
                    case 2: { gen::MdOpt o; o.range = 0; o.year = 1; o.era = false; p[i] = gen::monthDay(r, ref, o); break; }
                    default: p[i] = gen::isoDate(r, ref);
                }
            } while (!p[i].result);
            text += (k ? " " + gen::filler(r, static_cast<int>(r.range(1, 3))) + " " : "") + p[i].text;
        }
        if (r.chance(50)) text = gen::filler(r, 1) + " " + text;
        std::vector<std::string> args{gen::randomCase(r, text), refArg(r, ref)};
        if (c.describe("arguments" + words(args))) return;
        c.count("several phrases: the first is printed");
        judge("first", args, run(args), "Date:\t" + shown(p[0]) + "\n");
        return;
    }
    std::string cls, text = soup::text(r, ref, cls, false);
    for (char& ch : text) if (!ch) ch = ' ';
    std::vector<std::string> args{text, refArg(r, ref)};
    if (c.describe("arguments" + words(args))) return;
    std::string u = text;
    Stages s = pipeline(u, ref);
    if (s.raw.size() > 16) { c.count("more than 16 results, not judged"); return; } // their order is left open by std::sort
    std::string want = s.mdr.empty() || s.mdr[0].render[0] == '!' ? INVALID : "Date:\t" + s.mdr[0].render + "\n";
    c.count("compared with the library pipeline, class " + cls);
    c.count(s.mdr.empty() ? "compared with the library pipeline: nothing" : s.mdr.size() > 1 ? "compared with the library pipeline: several results" : "compared with the library pipeline: one result");
    judge("pipeline", args, run(args), want);
}
void finish(Ctx&) {}
