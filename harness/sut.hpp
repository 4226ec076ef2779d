// Plain interface to the library under test, so that the checks themselves need none of its headers.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <memory>

namespace sut {

enum Kind { CTP, DFP, DOW, CDP, MME, TLP, MNP, TAP, TXP, ISO, HOL, WXP, REL, NKIND };
extern const char* const KIND_NAME[NKIND];
enum RefinerKind { OLR, TZA, MDT, MDR, NREF };
extern const char* const REF_NAME[NREF];

// tags in the order of utils::modifiers
enum Tag { T_CTP, T_CDP, T_DFP, T_DOW, T_MME, T_TLP, T_MNP, T_TAP, T_ISO, T_TXP, T_HOL, T_REL, T_MDR, T_MDT, T_TZA, NTAG };

struct Ref { int y, mo, d, h, mi, s; int us; };

enum Field { Y, MO, D, WD, H, MI, S, TZ, NF };
extern const char* const FIELD_NAME[NF];
enum State : unsigned char { UNSET = 0, IMPLIED = 1, KNOWN = 2 };

// v: value read through the getter; st: KNOWN if certain, UNSET otherwise when read back
// (getters cannot tell an implied value from an absent one)
struct Comp {
    int v[NF] = {0, 0, 0, 0, 0, 0, 0, 0};
    unsigned char st[NF] = {0, 0, 0, 0, 0, 0, 0, 0};
    bool operator==(const Comp& o) const;
};

struct Res {
    unsigned index = 0;
    size_t len = 0;
    Comp a, b;
    bool end = false;
    unsigned tags = 0;
    bool possible = false, empty = false;
    std::string render;   // toDate(), or "!<exception>" if it threw
    std::string adate, bdate; // startDate.date() / endDate.date() as iso extended string, or "!..."
    bool same(const Res&, bool withTags = true) const;
    std::string str() const;
};
typedef std::vector<Res> Results;

struct Parser; // opaque, a parser object of the library
std::shared_ptr<Parser> makeParser(Kind);
// text is passed on by reference; refOut (if given) receives the reference after the call
Results execute(Parser&, std::string& text, const Ref& ref, Ref* refOut = nullptr);
// with one parser object per kind and thread, reused from call to call
Results execute(Kind, std::string& text, const Ref& ref);

struct Refiner;
std::shared_ptr<Refiner> makeRefiner(RefinerKind);
// builds library results from these, refines them, reads them back. argOut: the list handed in, read back after the call
Results refine(Refiner&, const Results& in, const std::string& text, Results* argOut = nullptr);
Results refine(RefinerKind, const Results& in, const std::string& text);

struct Stages { Results raw, sorted, olr, tza, mdt, mdr; };
// what the command line program does with a text and a reference, on the library's own objects throughout
Stages pipeline(std::string& text, const Ref& ref, bool detail = true);

void quiet(bool); // silence std::cerr

// one library object, for operation sequences
struct Box; // holds ParsedComponents
struct RBox; // holds ParsedResult
std::shared_ptr<Box> newBox(int how, const Comp* init = nullptr); // 0 default, 1 from a map of known components
std::shared_ptr<Box> copyBox(const Box&);
void assignBox(Box& to, const Box& from);
void setField(Box&, int field, int value);
void implyField(Box&, int field, int value);
void implyName(Box&, const std::string&, int value);
bool certainName(Box&, const std::string&);
int getField(Box&, int field);
bool certain(Box&, int field);
bool possibleDate(Box&);
std::string boxDate(Box&); // date() as extended iso string or "!..."

std::shared_ptr<RBox> newRBox(int how, long idx = 0, const std::string& text = "");
std::shared_ptr<RBox> copyRBox(const RBox&);
void assignRBox(RBox& to, const RBox& from);
void swapBox(Box&, Box&);      // std::swap
void swapRBox(RBox&, RBox&);
// result i goes through a Result list that grows, shrinks and is rearranged, and comes back as result perm[i]
void throughList(std::vector<std::shared_ptr<RBox>>&, const std::vector<size_t>& perm, int how);
void rStart(RBox&, const Box&); // startDate = box
void rEnd(RBox&, const Box&);
std::shared_ptr<Box> rGetStart(RBox&), rGetEnd(RBox&);
void rMakeEnd(RBox&);
void rSetIndex(RBox&, int);
void rSetText(RBox&, const std::string&);
void rSetTag(RBox&, int tag);
Res rRead(RBox&);
std::string rRender(RBox&);
bool rPossible(RBox&);

std::string lower(const std::string&);  // utils::toLowerCase
}
