#include "phrase_check.hpp"
const char* const CHECK_ID = "C11";
uint64_t caseCount(bool thorough) { return thorough ? 2500000 : 100000; }
void runCase(Ctx& c) {
    gen::RefOpt o; o.fraction = true;
    sut::Ref ref = gen::makeRef(c.rng, o);
    judgePhrase(c, gen::agoLater(c.rng, ref, static_cast<int>(c.idx % 2)), ref);
}
void finish(Ctx&) {}
