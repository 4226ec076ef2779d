// Case runner: every case is a function of (seed, case number) only, so that it can be run again alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "sut.hpp"

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t a = 1) : s(a) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    long long range(long long a, long long b) { return a + static_cast<long long>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int percent) { return below(100) < static_cast<uint64_t>(percent); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x2545F4914F6CDD1DULL + b); r.next(); return r.next() ^ b; }
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct Ctx {
    uint64_t seed = 1, idx = 0, total = 0;
    bool thorough = false, replaying = false;
    Rng rng;
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evaluations = 0, violations = 0;
    FILE* out = nullptr;
    std::map<std::string, uint64_t> perKey;
    std::vector<uint64_t> digests;
    bool describing = false;
    std::string last; // what the case said it is about to do

    void count(const std::string& what, uint64_t n = 1) { counts[what] += n; }
    // one observed, judged execution; `sig` identifies what is distinct about it, trivial ones do not count
    void observed(uint64_t sig, bool nontrivial = true) {
        evaluations++;
        if (nontrivial) distinct.insert(sig);
    }
    void sample(const std::string& s) { if (samples.size() < 12 && (samples.size() < 4 || idx % 97 == 0)) samples.push_back(s); }
    // key: stable name of what fails (for the known-findings file); detail: everything to reproduce it by hand
    void fail(const std::string& key, const std::string& detail);
    // everything this case observed, as a hash, to be compared with another run of the same cases
    void digest(uint64_t h) { digests.push_back(idx); digests.push_back(h); }
    // tells what is about to be executed; true: only that was asked for
    bool describe(const std::string& what);
};

std::string jsonStr(const std::string&);
std::string refStr(const sut::Ref&);

// provided by each check
extern const char* const CHECK_ID;
uint64_t caseCount(bool thorough);
void runCase(Ctx&);
void finish(Ctx&);        // after the last case of this worker
