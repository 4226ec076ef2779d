#include "sut.hpp"
#include <algorithm>
#include <iostream>
#include <sstream>
#include <list>
#include <cmath>

#include "src/parsers/en/ENISOFormatParser.hpp"
#include "src/parsers/en/ENTimeLaterParser.hpp"
#include "src/parsers/en/ENMonthNameParser.hpp"
#include "src/parsers/en/ENCasualTimeParser.hpp"
#include "src/parsers/en/ENCasualDateParser.hpp"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"

namespace sut {

const char* const KIND_NAME[NKIND] = {"casualtime", "deadline", "dayofweek", "casualdate", "monthday", "later", "monthname",
    "ago", "timeexpr", "iso", "holiday", "week", "relative"};
const char* const REF_NAME[NREF] = {"overlap", "timezone", "datetime", "daterange"};
const char* const FIELD_NAME[NF] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};

bool Comp::operator==(const Comp& o) const {
    for (int i = 0; i < NF; i++)
        if (v[i] != o.v[i] || (st[i] == KNOWN) != (o.st[i] == KNOWN)) return false;
    return true;
}
static void putComp(std::ostream& o, const Comp& c) {
    for (int i = 0; i < NF; i++) o << (i ? "," : "") << c.v[i] << (c.st[i] == KNOWN ? "!" : "");
}
bool Res::same(const Res& o, bool withTags) const {
    return index == o.index && len == o.len && a == o.a && end == o.end && (!end || b == o.b) &&
           render == o.render && (!withTags || tags == o.tags);
}
std::string Res::str() const {
    std::ostringstream o; o.imbue(std::locale::classic());
    o << "[" << index << "+" << len << " start(";
    putComp(o, a);
    o << ")";
    if (end) { o << " end("; putComp(o, b); o << ")"; }
    o << " tags=" << std::hex << tags << std::dec << " '" << render << "']";
    return o.str();
}

template<class P> static std::shared_ptr<parser::Parser> mk() { return std::make_shared<P>(); }

struct Parser { std::shared_ptr<parser::Parser> p; };
struct Refiner { std::shared_ptr<refiners::Refiner> r; };

std::shared_ptr<Parser> makeParser(Kind k) {
    auto r = std::make_shared<Parser>();
    switch (k) {
        case CTP: r->p = mk<parser::ENCasualTimeParser>(); break;
        case DFP: r->p = mk<parser::ENDeadlineFormatParser>(); break;
        case DOW: r->p = mk<parser::ENDayOfWeekParser>(); break;
        case CDP: r->p = mk<parser::ENCasualDateParser>(); break;
        case MME: r->p = mk<parser::ENMonthNameMiddleEndianParser>(); break;
        case TLP: r->p = mk<parser::ENTimeLaterParser>(); break;
        case MNP: r->p = mk<parser::ENMonthNameParser>(); break;
        case TAP: r->p = mk<parser::ENTimeAgoFormatParser>(); break;
        case TXP: r->p = mk<parser::ENTimeExpressionParser>(); break;
        case ISO: r->p = mk<parser::ENISOFormatParser>(); break;
        case HOL: r->p = mk<parser::ENHolidayParser>(); break;
        case WXP: r->p = mk<parser::ENWeekExpressionParser>(); break;
        case REL: r->p = mk<parser::ENRelativeDateFormatParser>(); break;
        default: abort();
    }
    return r;
}
std::shared_ptr<Refiner> makeRefiner(RefinerKind k) {
    auto r = std::make_shared<Refiner>();
    switch (k) {
        case OLR: r->r = std::make_shared<OverlapRemover>(); break;
        case TZA: r->r = std::make_shared<ExtractTimeZoneAbbreviation>(); break;
        case MDT: r->r = std::make_shared<ENMergeDateAndTime>(); break;
        case MDR: r->r = std::make_shared<ENMergeDateRange>(); break;
        default: abort();
    }
    return r;
}

static posix_time::ptime toPtime(const Ref& r) {
    return posix_time::ptime(gregorian::date(r.y, r.mo, r.d),
        posix_time::hours(r.h) + posix_time::minutes(r.mi) + posix_time::seconds(r.s) + posix_time::microseconds(r.us));
}
static Ref fromPtime(const posix_time::ptime& p) {
    Ref r{};
    if (p.is_special()) return r;
    r.y = p.date().year(); r.mo = p.date().month(); r.d = p.date().day();
    auto t = p.time_of_day();
    r.h = t.hours(); r.mi = t.minutes(); r.s = t.seconds(); r.us = static_cast<int>(t.total_microseconds() % 1000000);
    return r;
}

static Comp readComp(parse::ParsedComponents& c) {
    Comp r;
    r.v[Y] = c.getYear(); r.v[MO] = c.getMonth(); r.v[D] = c.get_mDay(); r.v[WD] = c.get_wDay();
    r.v[H] = c.getHour(); r.v[MI] = c.getMinute(); r.v[S] = c.getSeconds(); r.v[TZ] = c.getTimeZoneOffset();
    for (int i = 0; i < NF; i++) r.st[i] = c.isCertain(FIELD_NAME[i]) ? KNOWN : UNSET;
    return r;
}
static void setOn(parse::ParsedComponents& c, int f, int v) {
    switch (f) {
        case Y: c.setYear(v); break;      case MO: c.setMonth(v); break;
        case D: c.set_mDay(v); break;     case WD: c.set_wDay(v); break;
        case H: c.setHour(v); break;      case MI: c.setMinute(v); break;
        case S: c.setSeconds(v); break;   case TZ: c.setTimeZoneOffset(v); break;
        default: abort();
    }
}
static int getOn(parse::ParsedComponents& c, int f) {
    switch (f) {
        case Y: return c.getYear();       case MO: return c.getMonth();
        case D: return c.get_mDay();      case WD: return c.get_wDay();
        case H: return c.getHour();       case MI: return c.getMinute();
        case S: return c.getSeconds();    case TZ: return c.getTimeZoneOffset();
        default: abort();
    }
}
static std::string dateOf(parse::ParsedComponents c) {
    try { return posix_time::to_iso_extended_string(c.date()); }
    catch (std::out_of_range& e) { return std::string("!") + e.what(); }
}
static std::string renderOf(parse::ParsedResult& r) {
    try { return r.toDate(); }
    catch (std::out_of_range& e) { return std::string("!") + e.what(); }
}

static Res readRes(parse::ParsedResult& r, bool detail = true) {
    Res o;
    o.index = r.getIndex();
    o.len = r.textLength();
    o.end = r.end();
    o.a = readComp(r.startDate);
    if (o.end) o.b = readComp(r.endDate);
    for (int t = 0; t < NTAG; t++) if (r.getTag(static_cast<utils::modifiers>(t))) o.tags |= 1u << t;
    o.empty = r.isEmpty();
    if (detail) {
        o.possible = r.hasPossibleDates();
        o.render = renderOf(r);
        o.adate = dateOf(r.startDate);
        if (o.end) o.bdate = dateOf(r.endDate);
    }
    return o;
}
static Results readAll(Result& rs, bool detail = true) {
    Results o;
    o.reserve(rs.size());
    for (auto& r : rs) o.push_back(readRes(r, detail));
    return o;
}
static void writeComp(parse::ParsedComponents& c, const Comp& f) {
    for (int i = 0; i < NF; i++) {
        if (f.st[i] == KNOWN) setOn(c, i, f.v[i]);
        else if (f.st[i] == IMPLIED) c.implyComponent(FIELD_NAME[i], f.v[i]);
    }
}
static parse::ParsedResult makeRes(const Res& f, const std::string& text) {
    parse::ParsedResult r(posix_time::ptime(), f.index, f.index <= text.size() ? text.substr(f.index, f.len) : std::string(f.len, '?'));
    if (r.textLength() != f.len) r.setText(std::string(f.len, '?'));
    writeComp(r.startDate, f.a);
    if (f.end) { writeComp(r.endDate, f.b); r.makeEndDateValid(); }
    for (int t = 0; t < NTAG; t++) if (f.tags >> t & 1) r.setTag(static_cast<utils::modifiers>(t));
    return r;
}

Results execute(Parser& p, std::string& text, const Ref& ref, Ref* refOut) {
    posix_time::ptime t = toPtime(ref);
    Result r = p.p->execute(text, t);
    if (refOut) *refOut = fromPtime(t);
    return readAll(r);
}
Results execute(Kind k, std::string& text, const Ref& ref) {
    static thread_local std::shared_ptr<Parser> ps[NKIND];
    if (!ps[k]) ps[k] = makeParser(k);
    return execute(*ps[k], text, ref);
}
Results refine(Refiner& rf, const Results& in, const std::string& text, Results* argOut) {
    Result v;
    for (auto& r : in) v.push_back(makeRes(r, text));
    Result o = rf.r->refine(v, text);
    if (argOut) *argOut = readAll(v);
    return readAll(o);
}
Results refine(RefinerKind k, const Results& in, const std::string& text) {
    static thread_local std::shared_ptr<Refiner> rs[NREF];
    if (!rs[k]) rs[k] = makeRefiner(k);
    return refine(*rs[k], in, text);
}

Stages pipeline(std::string& text, const Ref& ref, bool detail) {
    static thread_local std::vector<std::shared_ptr<Parser>> ps;
    static thread_local std::vector<std::shared_ptr<Refiner>> rs;
    if (ps.empty()) {
        for (int k : {CTP, DFP, DOW, CDP, MME, TLP, MNP, TAP, TXP, ISO, HOL, WXP}) ps.push_back(makeParser(static_cast<Kind>(k)));
        for (int k : {OLR, TZA, MDT, MDR}) rs.push_back(makeRefiner(static_cast<RefinerKind>(k)));
    }
    posix_time::ptime t = toPtime(ref);
    Result results;
    for (auto& p : ps) {
        Result pr = p->p->execute(text, t);
        results.insert(results.end(), pr.begin(), pr.end());
    }
    Stages st;
    if (detail) st.raw = readAll(results);
    std::sort(results.begin(), results.end(), [](const parse::ParsedResult& a, const parse::ParsedResult& b) {
        return a.getIndex() < b.getIndex(); });
    if (detail) st.sorted = readAll(results);
    Results* outs[NREF] = {&st.olr, &st.tza, &st.mdt, &st.mdr};
    for (int i = 0; i < NREF; i++) {
        results = rs[i]->r->refine(results, text);
        if (detail || i == NREF - 1) *outs[i] = readAll(results);
    }
    return st;
}

void quiet(bool q) { static std::streambuf* old = std::cerr.rdbuf(); std::cerr.rdbuf(q ? nullptr : old); std::cerr.clear(); }

struct Box { parse::ParsedComponents c; };
struct RBox { parse::ParsedResult r; };

std::shared_ptr<Box> newBox(int how, const Comp* init) {
    if (how == 0 || !init) return std::make_shared<Box>();
    Components m;
    for (int i = 0; i < NF; i++) m.insert({FIELD_NAME[i], {init->st[i] == KNOWN, init->v[i]}});
    return std::shared_ptr<Box>(new Box{parse::ParsedComponents(m)});
}
std::shared_ptr<Box> copyBox(const Box& b) { return std::shared_ptr<Box>(new Box{parse::ParsedComponents(b.c)}); }
void assignBox(Box& to, const Box& from) { to.c = from.c; }
void setField(Box& b, int f, int v) { setOn(b.c, f, v); }
void implyField(Box& b, int f, int v) { b.c.implyComponent(FIELD_NAME[f], v); }
void implyName(Box& b, const std::string& n, int v) { b.c.implyComponent(n, v); }
bool certainName(Box& b, const std::string& n) { return b.c.isCertain(n); }
int getField(Box& b, int f) { return getOn(b.c, f); }
bool certain(Box& b, int f) { return b.c.isCertain(FIELD_NAME[f]); }
bool possibleDate(Box& b) { return b.c.isPossibleDate(); }
std::string boxDate(Box& b) {
    try { return posix_time::to_iso_extended_string(b.c.date()); }
    catch (std::out_of_range& e) { return std::string("!") + e.what(); }
}
std::shared_ptr<RBox> newRBox(int how, long idx, const std::string& text) {
    if (how == 0) return std::make_shared<RBox>();
    return std::shared_ptr<RBox>(new RBox{parse::ParsedResult(posix_time::ptime(gregorian::date(2019, 1, 1)), idx, text)});
}
std::shared_ptr<RBox> copyRBox(const RBox& b) { return std::shared_ptr<RBox>(new RBox{parse::ParsedResult(b.r)}); }
void assignRBox(RBox& to, const RBox& from) { to.r = from.r; }
void swapBox(Box& a, Box& b) { std::swap(a.c, b.c); }
void swapRBox(RBox& a, RBox& b) { std::swap(a.r, b.r); }
void throughList(std::vector<std::shared_ptr<RBox>>& v, const std::vector<size_t>& perm, int how) {
    Result l;
    if (how & 1) l.reserve(v.size() + 2);
    for (auto& b : v) l.push_back(b->r);
    if (how & 2) { l.insert(l.begin(), parse::ParsedResult()); l.erase(l.begin()); }
    if (how & 4) { Result m; m.insert(m.end(), l.begin(), l.end()); l = m; }
    if (how & 8) { Result m(std::move(l)); l = std::move(m); }
    Result o(v.size());
    for (size_t i = 0; i < v.size(); i++) o[perm[i]] = how & 16 ? std::move(l[i]) : l[i];
    if (how & 32) { o.resize(v.size() + 3); o.resize(v.size()); o.shrink_to_fit(); }
    if (how & 64) { std::reverse(o.begin(), o.end()); std::reverse(o.begin(), o.end()); }
    for (size_t i = 0; i < v.size(); i++) v[i]->r = o[i];
}
void rStart(RBox& r, const Box& b) { r.r.startDate = b.c; }
void rEnd(RBox& r, const Box& b) { r.r.endDate = b.c; }
std::shared_ptr<Box> rGetStart(RBox& r) { return std::shared_ptr<Box>(new Box{r.r.startDate}); }
std::shared_ptr<Box> rGetEnd(RBox& r) { return std::shared_ptr<Box>(new Box{r.r.endDate}); }
void rMakeEnd(RBox& r) { r.r.makeEndDateValid(); }
void rSetIndex(RBox& r, int i) { r.r.setIndex(i); }
void rSetText(RBox& r, const std::string& s) { r.r.setText(s); }
void rSetTag(RBox& r, int t) { r.r.setTag(static_cast<utils::modifiers>(t)); }
Res rRead(RBox& r) { return readRes(r.r, false); }
std::string rRender(RBox& r) { return renderOf(r.r); }
bool rPossible(RBox& r) { return r.r.hasPossibleDates(); }

std::string lower(const std::string& s) { return utils::toLowerCase(s); }
}
