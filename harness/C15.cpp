#include "phrase_check.hpp"
const char* const CHECK_ID = "C15";
uint64_t caseCount(bool thorough) { return gen::NHOLIDAY * 8600 * (thorough ? 8 : 1); }
void runCase(Ctx& c) {
    // every holiday spelling in every year of the calendar
    int which = static_cast<int>(c.idx % gen::NHOLIDAY);
    sut::Ref ref = gen::makeRef(c.rng);
    ref.y = 1400 + static_cast<int>(c.idx / gen::NHOLIDAY % 8600);
    ref.d = std::min(ref.d, cal::dim(ref.y, ref.mo));
    judgePhrase(c, gen::holiday(c.rng, ref, which), ref, c.rng.chance(60));
}
void finish(Ctx&) {}
