#include "phrase_check.hpp"
const char* const CHECK_ID = "C13";
uint64_t caseCount(bool thorough) { return thorough ? 3000000 : 120000; }
void runCase(Ctx& c) {
    // unknown count words run in between, so that any trace they leave shows in later cases of the same process
    sut::Ref ref = gen::makeRef(c.rng);
    bool unknown = c.rng.chance(20);
    gen::Phrase p = gen::weekExpr(c.rng, ref, unknown);
    judgePhrase(c, p, ref);
    if (unknown) { // a second time, and then as a count of another parser
        judgePhrase(c, p, ref);
        sut::Ref ref2 = gen::makeRef(c.rng);
        judgePhrase(c, gen::weekExpr(c.rng, ref2, false), ref2);
    }
}
void finish(Ctx&) {}
