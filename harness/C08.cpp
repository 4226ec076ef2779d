#include "phrase_check.hpp"
const char* const CHECK_ID = "C08";
uint64_t caseCount(bool thorough) { return thorough ? 4000000 : 160000; }
void runCase(Ctx& c) {
    // every word with every hour of the day first, then at random
    gen::RefOpt o; o.fraction = true;
    sut::Ref ref = gen::makeRef(c.rng, o);
    int which = -1;
    if (c.idx < 7 * 24 * 20) { which = static_cast<int>(c.idx % 7); ref.h = static_cast<int>(c.idx / 7 % 24); }
    judgePhrase(c, gen::casualDate(c.rng, ref, which), ref);
}
void finish(Ctx&) {}
