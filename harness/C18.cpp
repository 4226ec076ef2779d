#include "phrase_check.hpp"
const char* const CHECK_ID = "C18";
uint64_t caseCount(bool thorough) { return thorough ? 2000000 : 80000; }
using namespace sut;
void runCase(Ctx& c) {
    sut::Ref ref = gen::makeRef(c.rng);
    if (c.rng.chance(8)) { // one end does not exist: no time is made of it
        int alt = 0;
        bool badEnd = c.rng.chance(60);
        gen::Phrase p = gen::badRange(c.rng, ref, badEnd, alt);
        std::string text = gen::randomCase(c.rng, place(c.rng, p.text).text), given = text;
        if (c.describe("text \"" + given + "\", reference " + refStr(ref))) return;
        sut::Results rs = sut::execute(sut::TXP, text, ref);
        c.count(p.cls + (rs.empty() ? ": none" : ": the other time"));
        c.observed(hashStr(given + refStr(ref)));
        if (rs.empty()) return;
        gen::Phrase q = p;
        q.a.v[H] = alt;
        std::string why = gen::diffPhrase(p, rs[0]), other = gen::diffPhrase(q, rs[0]);
        if (rs.size() > 1) why = other = "more than one result";
        if (!why.empty() && !other.empty()) c.fail(p.cls, "text \"" + given + "\", reference " + refStr(ref) + ": " + why + "; reported " + gen::show(rs));
        return;
    }
    gen::TimeOpt o; o.invalid = c.rng.chance(12);
    judgePhrase(c, gen::timeExpr(c.rng, ref, o), ref);
}
void finish(Ctx&) {}
