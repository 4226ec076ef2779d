#include "phrase_check.hpp"
const char* const CHECK_ID = "C12";
uint64_t caseCount(bool thorough) { return thorough ? 3000000 : 120000; }
void runCase(Ctx& c) {
    sut::Ref ref = gen::makeRef(c.rng);
    judgePhrase(c, gen::relative(c.rng, ref), ref);
}
void finish(Ctx&) {}
