// Overlap removal against its model, on synthetic lists and on what the parsers report.
#include "refine_model.hpp"
using namespace sut;
const char* const CHECK_ID = "C19";
uint64_t caseCount(bool thorough) { return thorough ? 1500000 : 120000; }

static void judge(Ctx& c, const Results& in, const Results& got, const std::string& text, const char* how) {
    std::string d = model::diffList(model::overlap(in), got);
    // and directly, whatever the model says
    if (d.empty()) {
        for (size_t i = 1; i < got.size(); i++) if (got[i].index < model::endOf(got[i - 1])) d = "results " + gen::num(static_cast<long long>(i - 1)) + " and the next overlap";
        for (auto& x : in) {
            bool alone = true;
            for (auto& y : in) if (&x != &y && x.index < model::endOf(y) && y.index < model::endOf(x)) alone = false;
            bool kept = false;
            for (auto& y : got) if (x.index == y.index && x.len == y.len) kept = true;
            if (alone && !kept) d = "a result that overlaps no other is lost";
        }
    }
    c.count(std::string(how) + (got.size() < in.size() ? ": something dropped" : ": all kept"));
    if (in.size() - got.size() > 1) c.count(std::string(how) + ": several dropped");
    if (!d.empty()) c.fail(std::string("overlap:") + how, d + "; " + model::show(in, text) + " gave " + gen::show(got));
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    if (c.idx % 40 == 39) { // parsed
        Ref ref = gen::makeRef(r, {1410, 9990, false, false});
        std::string t;
        int n = static_cast<int>(r.range(1, 5));
        for (int i = 0; i < n; i++) t += (i ? r.pick({" ", " and ", " at ", ", ", " to "}) : "") + gen::anyPhrase(r, ref, false).text;
        if (c.describe("pipeline, text \"" + t + "\", reference " + refStr(ref))) return;
        std::string given = t;
        Stages s = pipeline(t, ref);
        judge(c, s.sorted, s.olr, t, "parsed");
        c.observed(hashStr(given + refStr(ref)), s.sorted.size() > 1);
        c.sample("\"" + given + "\": " + gen::num(static_cast<long long>(s.sorted.size())) + " -> " + gen::num(static_cast<long long>(s.olr.size())));
        return;
    }
    int n = static_cast<int>(r.below(10));
    if (r.chance(1) && r.chance(25)) { n = static_cast<int>(r.range(100, 700)); c.count("synthetic: hundreds of results"); }
    int origin = r.chance(2) ? static_cast<int>(r.pick({250, 32760, 65530, 70000, 131060, 16777210})) : 0;
    if (origin) c.count("synthetic: far into the text");
    int span = n > 10 ? n * 5 : static_cast<int>(r.range(1, 60)), maxLen = static_cast<int>(r.range(1, 15));
    std::vector<int> at;
    for (int i = 0; i < n; i++) at.push_back(origin + static_cast<int>(r.below(static_cast<uint64_t>(span))));
    std::sort(at.begin(), at.end());
    Results in;
    Ref base = gen::makeRef(r);
    for (int i = 0; i < n; i++) {
        Res x = model::synthetic(r, static_cast<model::Shape>(r.below(model::NSHAPE)), base);
        if (i && r.chance(25)) at[i] = static_cast<int>(model::endOf(in.back())); // touching
        if (i && at[i] < at[i - 1]) at[i] = at[i - 1];
        x.index = static_cast<unsigned>(at[i]);
        x.len = static_cast<size_t>(r.range(1, maxLen));
        if (i && r.chance(20)) x.len = in.back().len;
        if (r.chance(1) && r.chance(20)) x.len = static_cast<size_t>(r.pick({256, 65535, 65536, 65537, 70000}));
        in.push_back(x);
    }
    std::string text(origin < 100000 ? static_cast<size_t>(origin) + 200 : 200, 'x');
    if (c.describe(model::show(in, "x*200"))) return;
    Results got = model::refineTwice(c, OLR, in, text, "overlap");
    judge(c, in, got, "x*200", "synthetic");
    uint64_t sig = 7;
    for (auto& x : in) sig = mix(sig, x.index * 64 + x.len);
    c.observed(sig, n > 1);
    if (n > 1) c.sample(gen::num(n) + " -> " + gen::num(static_cast<long long>(got.size())));
}
void finish(Ctx&) {}
