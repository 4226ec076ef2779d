// Models of the four refiners over result lists, and synthetic lists.
#pragma once
#include "gen.hpp"

namespace model {
using namespace sut;
inline size_t endOf(const Res& r) { return r.index + r.len; }

// what a result is, apart from its text: equal if nothing changed on the way through
inline std::string diffRes(const Res& want, const Res& got, bool tags = true) {
    if (want.index != got.index) return "position " + gen::num(got.index) + ", expected " + gen::num(want.index);
    if (want.len != got.len) return "length " + gen::num(static_cast<long long>(got.len)) + ", expected " + gen::num(static_cast<long long>(want.len));
    std::string d = gen::diffComp(want.a, got.a, 0xff, "start");
    if (!d.empty()) return d;
    if (want.end != got.end) return want.end ? "the end is missing" : "an unexpected end";
    if (want.end) { d = gen::diffComp(want.b, got.b, 0xff, "end"); if (!d.empty()) return d; }
    if (tags && want.tags != got.tags) return "tags " + gen::num(got.tags) + ", expected " + gen::num(want.tags);
    return "";
}
inline std::string diffList(const Results& want, const Results& got) {
    for (size_t i = 0; i < want.size() && i < got.size(); i++) {
        std::string d = diffRes(want[i], got[i]);
        if (!d.empty()) return "result " + gen::num(static_cast<long long>(i)) + " has " + d;
    }
    if (want.size() != got.size()) return gen::num(static_cast<long long>(got.size())) + " results, expected " + gen::num(static_cast<long long>(want.size()));
    return "";
}

inline Results overlap(const Results& in) {
    Results out;
    for (auto& r : in) {
        if (out.empty() || r.index >= endOf(out.back())) out.push_back(r);
        else if (r.len > out.back().len) out.back() = r;
    }
    return out;
}

struct Zone { const char* name; int offset; };
static const Zone ZONES[] = {
#include "tz_table.inc"
};
inline const Zone* zone(std::string name) {
    for (char& c : name) c = static_cast<char>(toupper(static_cast<unsigned char>(c)));
    for (auto& z : ZONES) if (name == z.name) return &z;
    return nullptr;
}
// the abbreviation that makes up the whole rest of the text, or null
inline const Zone* zoneAfter(const std::string& text, size_t from) {
    size_t i = from;
    while (i < text.size() && strchr(" \t\n\v\f\r", text[i]) && text[i]) i++;
    if (i < text.size() && text[i] == '(') i++;
    size_t j = i;
    while (j < text.size() && isalpha(static_cast<unsigned char>(text[j])) && j - i < 4) j++;
    if (j - i < 2) return nullptr;
    size_t k = j;
    if (k < text.size() && text[k] == ')') k++;
    return k == text.size() ? zone(text.substr(i, j - i)) : nullptr;
}
inline Results timezone(const Results& in, const std::string& text) {
    Results out = in;
    for (auto& r : out) {
        if (!(r.tags >> T_TXP & 1) || endOf(r) > text.size()) continue;
        const Zone* z = zoneAfter(text, endOf(r));
        if (!z) continue;
        if (r.a.st[TZ] != KNOWN) { r.a.st[TZ] = KNOWN; r.a.v[TZ] = z->offset; }
        if (r.end && r.b.st[TZ] != KNOWN) { r.b.st[TZ] = KNOWN; r.b.v[TZ] = z->offset; }
        r.len = text.size() - r.index;
        r.tags |= 1u << T_TZA;
    }
    return out;
}

inline bool validComp(const Comp& c) {
    return cal::valid(c.v[Y], c.v[MO], c.v[D]) && c.v[H] >= 0 && c.v[H] <= 24 && c.v[MI] >= 0 && c.v[MI] <= 59 && c.v[S] >= 0 && c.v[S] <= 59 &&
           cal::secsInCal(cal::secsOf(c));
}
inline bool dateOnly(const Res& r) { return r.a.st[H] != KNOWN; }
inline bool timeOnly(const Res& r) { return (r.a.st[H] == KNOWN || (r.tags >> T_CTP & 1)) && r.a.st[MO] != KNOWN && r.a.st[D] != KNOWN; }
inline Comp dateTime(const Comp& date, const Comp& time) {
    Comp c = date;
    auto set = [&](int f, bool known) {
        if (!known && c.st[f] == KNOWN) return;
        c.v[f] = time.v[f]; c.st[f] = known ? KNOWN : IMPLIED;
    };
    bool k = time.st[H] == KNOWN;
    set(H, k); set(MI, k);
    set(S, k && time.st[S] == KNOWN);
    if (k && time.st[TZ] == KNOWN) set(TZ, true);
    return c;
}
inline bool joined(const Res& date, const Res& time, Res& out) {
    out = date;
    out.a = dateTime(date.a, time.a);
    if (date.end || time.end) {
        out.end = true;
        out.b = dateTime(date.end ? date.b : date.a, time.end ? time.b : time.a);
        if (!date.end && cal::secsOf(out.b) < cal::secsOf(out.a)) {
            cal::i64 z = cal::secsOf(out.b);
            z = (z >= 0 ? z / 86400 : -((-z + 86399) / 86400)) + 1; // the day the end falls on (hour 24 is the next one already)
            if (!cal::inCal(z)) return false;
            cal::Date d = cal::fromDays(z);
            bool k = out.b.st[D] == KNOWN;
            for (int f : {Y, MO, D}) {
                if (!k && out.b.st[f] == KNOWN) continue;
                out.b.v[f] = f == Y ? d.y : f == MO ? d.m : d.d; out.b.st[f] = k ? KNOWN : IMPLIED;
            }
        }
    }
    size_t s = std::min(date.index, time.index), e = std::max(endOf(date), endOf(time));
    out.index = static_cast<unsigned>(s); out.len = e - s;
    out.tags = date.tags | time.tags | 1u << T_MDT;
    return validComp(out.a) && (!out.end || validComp(out.b));
}
inline Results dateAndTime(const Results& in, int* merges = nullptr) {
    Results out;
    size_t i = 0;
    while (i < in.size()) {
        Res m;
        if (i + 1 < in.size() && ((dateOnly(in[i]) && timeOnly(in[i + 1]) && joined(in[i], in[i + 1], m)) ||
                                  (dateOnly(in[i + 1]) && timeOnly(in[i]) && joined(in[i + 1], in[i], m)))) {
            out.push_back(m); i += 2;
            if (merges) ++*merges;
        } else out.push_back(in[i++]);
    }
    return out;
}

inline bool connector(const std::string& between) {
    for (const char* w : {"and", "to", "through", "-"}) if (between.find(w) != std::string::npos) return true;
    return false;
}
inline Results dateRange(const Results& in, const std::string& text, int* merges = nullptr, int* swaps = nullptr) {
    Results out;
    size_t i = 0;
    while (i < in.size()) {
        if (i + 1 < in.size() && !in[i].end && !in[i + 1].end && connector(text.substr(endOf(in[i]), in[i + 1].index - endOf(in[i])))) {
            Res f = in[i], t = in[i + 1];
            if (merges) ++*merges;
            if (cal::secsOf(f.a) > cal::secsOf(t.a)) { std::swap(f, t); if (swaps) ++*swaps; }
            Res m = f;
            m.end = true; m.b = t.a;
            m.index = in[i].index; m.len = endOf(in[i + 1]) - in[i].index;
            m.tags = f.tags | t.tags | 1u << T_MDR;
            out.push_back(m); i += 2;
        } else out.push_back(in[i++]);
    }
    return out;
}

// ---------------------------------------------------------------- synthetic results
enum Shape { DATE_CERTAIN, DATE_IMPLIED, DATE_PART, TIME, TIME_CASUAL, FULL, NSHAPE };
inline Comp dateComp(const Ref& q, Shape s, bool time) {
    Comp c;
    int v[3] = {q.y, q.mo, q.d};
    for (int k = 0; k < 3; k++) {
        c.v[k] = v[k];
        c.st[k] = s == DATE_CERTAIN || s == FULL ? KNOWN : s == DATE_PART && k == MO ? KNOWN : IMPLIED;
    }
    if (s == DATE_PART) c.v[D] = 1;
    if (time) {
        c.v[H] = q.h; c.v[MI] = q.mi; c.v[S] = q.s;
        unsigned char st = s == TIME || s == FULL ? KNOWN : IMPLIED;
        c.st[H] = c.st[MI] = st; c.st[S] = st;
    }
    return c;
}
inline Res synthetic(Rng& r, Shape s, Ref base) {
    Res o;
    Ref q = base;
    q.h = static_cast<int>(r.below(24)); q.mi = static_cast<int>(r.below(60)); q.s = static_cast<int>(r.below(60));
    if (s == TIME && r.chance(5)) { q.h = 24; q.mi = q.s = 0; }
    if (q.y == 9999 && q.mo == 12 && q.d == 31 && q.h == 24) q.h = 23;
    bool time = s == TIME || s == FULL || s == TIME_CASUAL || r.chance(20);
    o.a = dateComp(q, s, time);
    if ((s == TIME || s == FULL) && r.chance(60)) { o.a.v[S] = 0; o.a.st[S] = UNSET; }
    if (s == TIME_CASUAL) { o.a.v[S] = 0; o.a.st[S] = UNSET; }
    if (r.chance(15)) { o.a.v[WD] = static_cast<int>(r.below(7)); o.a.st[WD] = r.chance(50) ? KNOWN : IMPLIED; }
    if ((s == TIME || s == FULL) && r.chance(20)) { o.a.v[TZ] = static_cast<int>(r.range(-12, 14)) * 60; o.a.st[TZ] = KNOWN; }
    if ((s == TIME && r.chance(40)) || (s == DATE_CERTAIN && r.chance(20)) || (s == FULL && r.chance(20))) {
        o.end = true;
        o.b = o.a;
        if (r.chance(25)) // and so is what is certain about it
            for (int f = 0; f < NF; f++) if (f != TZ && r.chance(30)) o.b.st[f] = o.b.st[f] == KNOWN ? IMPLIED : o.b.st[f] == IMPLIED ? KNOWN : r.chance(50) ? KNOWN : UNSET;
        if (r.chance(20)) { // the zone of the end is its own
            bool has = r.chance(60);
            o.b.v[TZ] = has ? static_cast<int>(r.range(-12, 14)) * 60 : 0;
            o.b.st[TZ] = has ? KNOWN : UNSET;
        }
        if (s == TIME) {
            o.b.v[H] = static_cast<int>(r.below(24)); o.b.v[MI] = static_cast<int>(r.below(60)); o.b.st[H] = o.b.st[MI] = KNOWN;
            if (o.b.v[H] == 0 && r.chance(30)) { o.b.v[H] = 24; o.b.v[MI] = 0; o.b.v[S] = 0; }
            if (r.chance(10)) { o.b.v[H] = o.a.v[H]; o.b.v[MI] = o.a.v[MI]; }
            if (o.b.v[Y] == 9999 && o.b.v[MO] == 12 && o.b.v[D] == 31 && o.b.v[H] == 24) o.b.v[H] = 22;
        } else {
            cal::i64 z = cal::days(o.a.v[Y], o.a.v[MO], o.a.v[D]) + r.range(0, 40);
            if (!cal::inCal(z)) z = cal::MAX_DAY;
            cal::Date d = cal::fromDays(z);
            o.b.v[Y] = d.y; o.b.v[MO] = d.m; o.b.v[D] = d.d;
            if (r.chance(50) && s == DATE_CERTAIN) { o.b.v[H] = 23; o.b.v[MI] = 59; o.b.st[H] = o.b.st[MI] = KNOWN; }
        }
    }
    static const int T[] = {T_CDP, T_DFP, T_DOW, T_MME, T_TLP, T_MNP, T_TAP, T_ISO, T_HOL};
    if (s == TIME) o.tags = 1u << T_TXP;
    else if (s == TIME_CASUAL) o.tags = 1u << T_CTP;
    else if (s != DATE_IMPLIED || r.chance(60)) o.tags = 1u << T[r.below(9)];
    while (r.chance(20)) o.tags |= 1u << r.below(NTAG); // as after earlier merges, and anything else
    return o;
}
inline std::string show(const Results& in, const std::string& text) { return "text \"" + text + "\", results " + gen::show(in); }

// every way of entering the refiner has to leave its argument alone and give the same again
inline Results refineTwice(Ctx& c, RefinerKind k, const Results& in, const std::string& text, const std::string& key) {
    static std::shared_ptr<Refiner> kept[NREF];
    if (!kept[k]) kept[k] = makeRefiner(k);
    Results arg, a = refine(*kept[k], in, text, &arg);
    auto fresh = makeRefiner(k);
    Results b = refine(*fresh, in, text);
    std::string d = diffList(a, b);
    if (!d.empty()) c.fail(key + ":object", "a fresh refiner gives another result than a used one: " + d + "; " + show(in, text));
    d = diffList(in, arg);
    if (!d.empty()) c.fail(key + ":argument", "the list handed in was changed: " + d + "; " + show(in, text));
    return a;
}
}
