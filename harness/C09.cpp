#include "phrase_check.hpp"
const char* const CHECK_ID = "C09";
uint64_t caseCount(bool thorough) { return thorough ? 4000000 : 160000; }
void runCase(Ctx& c) {
    sut::Ref ref = gen::makeRef(c.rng);
    judgePhrase(c, gen::casualTime(c.rng, ref), ref);
}
void finish(Ctx&) {}
