#include "phrase_check.hpp"
const char* const CHECK_ID = "C10";
uint64_t caseCount(bool thorough) { return thorough ? 3000000 : 120000; }
void runCase(Ctx& c) {
    gen::RefOpt o; o.fraction = true;
    sut::Ref ref = gen::makeRef(c.rng, o);
    judgePhrase(c, gen::deadline(c.rng, ref), ref);
}
void finish(Ctx&) {}
