// Arbitrary and hostile texts.
#pragma once
#include "gen.hpp"

namespace soup {
static const std::vector<std::string> TOKEN{"now", "today", "tonight", "last", "night", "tomorrow", "tmr", "yesterday", "this", "morning", "afternoon", "evening",
    "noon", "midnight", "early", "earlier", "late", "next", "past", "week", "weeks", "sunday", "mon", "tues", "wednesday", "thur", "fri", "saturday",
    "within", "in", "one", "two", "seven", "twelve", "a", "an", "few", "a few", "half", "half a", "half an", "sec", "seconds", "min", "minutes", "hr", "hours", "hour",
    "day", "days", "wk", "month", "months", "yr", "years", "year", "jan", "jan.", "february", "mar", "april", "may", "may.", "june", "jul", "aug.", "sept", "sept.", "september", "oct",
    "november", "dec.", "first", "second", "third", "fourth", "twenty first", "twenty-ninth", "thirtieth", "thirty first", "1st", "2nd", "3rd", "4th", "31st",
    "31", "30", "29", "28", "0", "00", "1", "12", "13", "24", "25", "59", "60", "99", "100", "1399", "1400", "1999", "2019", "2400", "9999", "10000", "543", "2562",
    "2147483647", "2147483648", "4294967296", "9223372036854775808", "99999999999999999999999", "000000000000000000001", "be", "ad", "bc",
    "ago", "before", "later", "after", "from now", "henceforth", "forward", "out", "from", "at", "to", "and", "through", "-", "~", "/", ",", ".", ":", "am", "pm", "a.m.", "p.m.",
    "a.m", "p", "o'clock", "o clock", "5:30", "17:45:10", "9.15", "930", "1745", "12:00am", "12 pm", "24:00", "0:00", "23:59:59.999999", "2019-05-03", "2019-02-30", "2019-12-31t23:59:59.999+05:30",
    "1400-01-01", "9999-12-31t24:00z", "2019-1-1t1:1", "0000-00-00", "t", "z", "+14", "-12:00", "independence", "new year's", "new year's eve", "veterans", "veteran's", "christmas", "eve", "mlk",
    "martin luther king", "junior", "jr", "president's", "memorial", "labor", "columbus", "thanksgiving", "black", "friday", "black friday", "pst", "(est)", "utc", "gmt", "(", ")", "chst", "acdt",
    "\xef\xbc\x9a", "\xe2\x80\x93", "\xe3\x80\x9c", "?", "hello", "meeting", "x", "on", "of", "the", "\xc3\xa9", "\xff", "'"};

inline std::string sep(Rng& r) {
    int m = static_cast<int>(r.below(20));
    if (m < 13) return " ";
    static const std::vector<std::string> S{"", "", ", ", "  ", "\t", "\n", "-", " - ", ".", "/", ":", " \xc2\xa0"};
    return r.pick(S);
}
inline std::string tokens(Rng& r, int lo, int hi) {
    std::string s;
    int n = static_cast<int>(r.range(lo, hi));
    for (int i = 0; i < n; i++) s += (i ? sep(r) : "") + r.pick(TOKEN);
    return s;
}
inline std::string bytes(Rng& r, size_t n) {
    std::string s;
    int m = static_cast<int>(r.below(4));
    static const char A[] = "0123456789 :.-/~apmt,()'onwxthekdy";
    for (size_t i = 0; i < n; i++)
        s += m == 0 ? static_cast<char>(r.below(256)) : m == 1 ? static_cast<char>(r.range(32, 126)) : m == 2 ? A[r.below(sizeof A - 1)] : static_cast<char>(r.chance(50) ? '0' + r.below(10) : r.pick({' ', ':', '-', 'a', 'm', 't', '.', '/'}));
    return s;
}
inline void mutate(Rng& r, std::string& s) {
    if (s.empty()) { s = r.pick(TOKEN); return; }
    size_t at = r.below(s.size());
    switch (r.below(10)) {
        case 0: s.erase(at, 1 + r.below(4)); break;
        case 1: s.insert(at, r.pick(TOKEN)); break;
        case 2: s[at] = static_cast<char>(r.below(256)); break;
        case 3: s.insert(at, s.substr(at, 1 + r.below(8))); break;
        case 4: s[at] = static_cast<char>('0' + r.below(10)); break;
        case 5: s.resize(at); break;
        case 6: { // another number in place of one
            size_t i = at;
            while (i < s.size() && !isdigit(static_cast<unsigned char>(s[i]))) i++;
            size_t j = i;
            while (j < s.size() && isdigit(static_cast<unsigned char>(s[j]))) j++;
            if (i < j) s.replace(i, j - i, r.pick({"0", "00", "13", "24", "25", "31", "32", "60", "99", "100", "9999", "1399", "10000", "4294967295", "2147483648", "18446744073709551616", "0000000007", "123456789012345678901234567890"}));
            break;
        }
        case 8: { // a long stretch in place of a blank
            size_t i = s.find_first_of(" \t\n", at);
            if (i == std::string::npos) i = s.find_first_of(" \t\n");
            if (i != std::string::npos) s.replace(i, 1, gen::blanks(r, r.range(2, r.chance(80) ? 60 : 300)));
            break;
        }
        case 7: s.insert(at, std::string(1 + r.below(5), r.pick({' ', '\t', '\n', '0', '-', ':', '\'', '.'}))); break;
        default: s = r.chance(50) ? s + r.pick(TOKEN) : r.pick(TOKEN) + s;
    }
}
inline std::string repeated(Rng& r) { // long runs that make pattern matching work hard
    static const std::vector<std::string> PRE{"", "may", "may 5", "may 5 to", "may 5 to 8", "may 5,", "5", "5:30", "5 -", "at", "this", "next", "next 3", "monday", "on monday", "monday,", "in", "in 3", "in a",
        "half", "3 days", "new year's", "martin luther king", "christmas", "from", "2019-01-01", "2019-01-01t10:10", "last week", "early", "last", "within", "new", "black"};
    static const std::vector<std::string> UNIT{" ", " ", "  \t", "\n", "1", "0", "5 days ", "5days", "a few days ", "half a ", "may ", "may 5 ", "monday ", "this ", "to ", "- ", "5:30 - ", "a", "t", "at ", ".", ":", "o'",
        "new ", "five ", "\xef\xbc\x9a", "?", "5 to 6 ", "may 5 to 8, ", "12 hours ago ", "pm ", "2019-", "(", "last week ", "x", "\xff"};
    static const std::vector<std::string> POST{"", " 5", " 2019", "x", " ago", " day", "am", " pm", "week", "!", "5:30", ":3", " pst"};
    std::string s = r.pick(PRE), u = r.pick(UNIT), b = r.pick(POST), mid;
    size_t limit = r.chance(12) ? 1000 : 60 + r.below(300);
    if (r.chance(40)) mid = r.pick(PRE); // two runs
    size_t half = mid.empty() ? 0 : (limit - b.size()) / 2;
    while (half && s.size() + u.size() <= half) s += u;
    s += mid;
    if (half && r.chance(30)) u = r.pick(UNIT);
    while (s.size() + u.size() + b.size() <= limit) s += u;
    return s + b;
}
inline std::string text(Rng& r, const sut::Ref& ref, std::string& cls, bool longOnes = true) {
    int m = static_cast<int>(r.below(1000));
    std::string s;
    if (longOnes && m < 6) { cls = "long runs"; return repeated(r); }
    if (longOnes && m < 10) { cls = "long bytes"; return bytes(r, 200 + r.below(801)); }
    if (longOnes && m < 14) { cls = "long tokens"; s = tokens(r, 60, 140); return s.substr(0, 1000); }
    if (m < 150) { cls = "bytes"; return bytes(r, r.below(60)); }
    if (m < 550) { cls = "tokens"; return gen::randomCase(r, tokens(r, 1, 10)); }
    cls = m < 850 ? "mutated phrases" : "phrases";
    int n = static_cast<int>(r.range(1, 4));
    for (int i = 0; i < n; i++) {
        gen::Phrase p = gen::anyPhrase(r, ref, true);
        s += (i ? (r.chance(40) ? sep(r) : r.pick({" to ", " and ", " at ", ", ", " - ", " on "})) : std::string()) + p.text;
    }
    if (m < 850) for (int i = static_cast<int>(r.range(1, 4)); i > 0; i--) mutate(r, s);
    if (r.chance(8)) s += r.pick({" pst", " (utc)", "est", " acdt", " gmt."});
    if (s.size() > 1000) s.resize(1000);
    return gen::randomCase(r, s);
}
}
