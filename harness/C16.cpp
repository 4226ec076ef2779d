#include "phrase_check.hpp"
const char* const CHECK_ID = "C16";
uint64_t caseCount(bool thorough) { return thorough ? 3000000 : 120000; }
void runCase(Ctx& c) {
    sut::Ref ref = gen::makeRef(c.rng);
    gen::IsoOpt o; o.invalid = c.rng.chance(25);
    judgePhrase(c, gen::isoDate(c.rng, ref, o), ref);
}
void finish(Ctx&) {}
