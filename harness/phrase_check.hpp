// Judges one phrase in random case and random neutral surroundings against its oracle.
#pragma once
#include "gen.hpp"

struct Placed { std::string text; size_t at = 0; std::string where; };

inline Placed place(Rng& r, const std::string& phrase, bool alone = false) {
    Placed o;
    std::string before, after;
    int m = alone ? 0 : static_cast<int>(r.below(100));
    if (m >= 30) {
        if (m < 60 || m >= 80) {
            before = gen::filler(r, static_cast<int>(r.range(1, 3))) + r.pick({" ", " ", " ", ", ", ": ", "  ", "\t", "\n"});
        }
        if (m >= 60) after = r.pick({" ", " ", " ", ", ", "! ", "; ", "\n"}) + gen::filler(r, static_cast<int>(r.range(1, 3)));
        else if (r.chance(20)) after = r.pick({",", "!", ";", " ", "  ", ")"});
        if (before.empty() && r.chance(10)) before = r.pick({" ", "  ", "\n"});
    }
    o.where = std::string(before.empty() ? "start" : "after") + (after.empty() ? "-end" : "-before");
    o.at = before.size();
    o.text = before + phrase + after;
    return o;
}

// runs the phrase's parser on the placed phrase and judges it. extra(): further judgement of the single result
inline bool judgePhrase(Ctx& c, const gen::Phrase& p, const sut::Ref& ref, bool alone = false) {
    Placed pl = place(c.rng, p.text, alone);
    std::string text = gen::randomCase(c.rng, pl.text), given = text;
    if (c.describe("parser " + std::string(sut::KIND_NAME[p.kind]) + ", text \"" + given + "\", reference " + refStr(ref))) return true;
    sut::Results rs = sut::execute(p.kind, text, ref);
    std::string why;
    if (!p.result) { if (!rs.empty()) why = "a result was reported"; }
    else if (rs.empty()) why = "no result was reported";
    else if (rs.size() > 1) why = "more than one result was reported";
    else {
        why = gen::diffPhrase(p, rs[0]);
        if (why.empty()) why = gen::diffSpan(given, pl.at, p.text.size(), rs[0]);
    }
    c.count("class " + p.cls.substr(0, p.cls.find(':', p.cls.find(':') + 1)));
    c.count(p.result ? "results judged" : "rejections judged");
    c.count("placed " + pl.where);
    c.observed(hashStr(given + "|" + refStr(ref)));
    c.sample("\"" + given + "\" @ " + refStr(ref) + " -> " + gen::show(rs));
    if (!why.empty())
        c.fail(p.cls, "parser " + std::string(sut::KIND_NAME[p.kind]) + ", text \"" + given + "\", reference " + refStr(ref) + ": " + why +
               "; expected " + (p.result ? "start(" + gen::showComp(p.a, p.careA) + ")" + (p.end ? " end(" + gen::showComp(p.b, p.careB) + ")" : "") : "(no result)") +
               ", reported " + gen::show(rs));
    return why.empty();
}
