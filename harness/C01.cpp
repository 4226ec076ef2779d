// Hostile texts through every parser and the pipeline, to be run under sanitizers and in differently initialised builds.
#include "soup.hpp"
#include "cli.hpp"
using namespace sut;
const char* const CHECK_ID = "C01";
uint64_t caseCount(bool thorough) { return thorough ? 240000 : 7000; }

void runCase(Ctx& c) {
    Rng& r = c.rng;
    Ref ref = gen::makeRef(r, {1400, 9999, true, true});
    std::string cls, text = soup::text(r, ref, cls), given = text;
    if (c.describe("text \"" + given + "\", reference " + refStr(ref))) return;
    uint64_t h = 1;
    size_t found = 0, bad = 0;
    if (getenv("VERIF_LIGHT")) { // under valgrind: one phrase and the parser made for it, or all parsers on a short text
        bool whole = c.idx % 16 == 0;
        if (whole) {
            text.resize(std::min<size_t>(text.size(), 60));
            Stages s = pipeline(text, ref);
            found = s.raw.size();
            c.count("pipelines");
        } else {
            gen::Phrase p = gen::anyPhrase(r, ref, true);
            text = given = gen::randomCase(r, p.text);
            found = execute(p.kind, text, ref).size();
            c.count(std::string("phrases for ") + KIND_NAME[p.kind]);
        }
        c.observed(hashStr(given + refStr(ref)), found > 0);
        return;
    }
    Stages s = pipeline(text, ref);
    for (const Results* l : {&s.raw, &s.olr, &s.tza, &s.mdt, &s.mdr})
        for (auto& x : *l) { h = hashStr(x.str() + x.adate + x.bdate, h); found++; if (x.render[0] == '!') bad++; }
    std::string t2 = given;
    Results rel = execute(REL, t2, ref);
    for (auto& x : rel) { h = hashStr(x.str(), h); found++; }
    if (bad) { // a rendering may fail only when a zone shift moves the date out of the calendar
        for (const Results* l : {&s.raw, &s.olr, &s.tza, &s.mdt, &s.mdr})
            for (auto& x : *l) if (x.render[0] == '!' && !(x.tags >> T_TZA & 1)) { c.fail("render", "rendering fails: " + x.str() + "; text \"" + given + "\", reference " + refStr(ref)); return; }
        c.count("rendering out of the calendar by a zone");
    }
    for (auto& x : s.raw) for (int t = 0; t < NTAG; t++) if (x.tags >> t & 1) c.count("parser results tagged " + gen::num(t));
    const char* prog = getenv("VERIF_PROG_ASAN");
    if (prog && *prog) {
        if (c.idx % 32 == 0 || (cls == "long runs" && c.idx % 4 == 0)) {
            std::string arg = given;
            for (char& ch : arg) if (!ch) ch = ' ';
            char rb[64];
            snprintf(rb, sizeof rb, "%04d-%02d-%02d %02d:%02d:%02d", ref.y, ref.mo, ref.d, ref.h, ref.mi, ref.s);
            cli::Out o = cli::run(prog, {arg, rb});
            c.count("program runs");
            if (o.timedOut) { c.fail("program:hang", "the program does not finish on text \"" + arg + "\", reference " + rb); return; }
            if (o.status != 0) { c.fail("program:status", "the program ends with status " + gen::num(o.status) + " on text \"" + arg + "\", reference " + rb + "\n" + o.err.substr(0, 3000)); return; }
        }
    }
    c.digest(h);
    c.count("class " + cls);
    c.count("results at all stages", found);
    c.count(found ? "texts with results" : "texts without results");
    c.observed(hashStr(given + refStr(ref)), found > 0 || cls != "bytes");
    if (given.size() < 120) c.sample("\"" + given + "\" @ " + refStr(ref) + ": " + gen::num(static_cast<long long>(found)) + " results over all stages");
}
void finish(Ctx&) {}
