#include "phrase_check.hpp"
const char* const CHECK_ID = "C17";
uint64_t caseCount(bool thorough) { return thorough ? 500000 : 30000; }
void runCase(Ctx& c) {
    gen::RefOpt o; o.lo = 1401; o.hi = 9998;
    sut::Ref ref = gen::makeRef(c.rng, o);
    if (c.rng.chance(40)) judgePhrase(c, gen::monthName(c.rng, ref, c.rng.chance(50)), ref);
    else {
        gen::MdOpt m; m.invalid = c.rng.chance(15);
        judgePhrase(c, gen::monthDay(c.rng, ref, m), ref);
    }
}
void finish(Ctx&) {}
