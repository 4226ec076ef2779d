#include "phrase_check.hpp"
const char* const CHECK_ID = "C14";
uint64_t caseCount(bool thorough) { return thorough ? 2500000 : 100000; }
void runCase(Ctx& c) {
    gen::RefOpt o; o.lo = 1401; o.hi = 9998; // weeks next to the ends of the calendar are not claimed
    sut::Ref ref = gen::makeRef(c.rng, o);
    judgePhrase(c, gen::dayOfWeek(c.rng, ref), ref);
}
void finish(Ctx&) {}
