// libFuzzer target of C01: reference from the first 8 bytes, text from the rest; the mutator knows the phrases.
#include "soup.hpp"
using namespace sut;
extern "C" size_t LLVMFuzzerMutate(uint8_t*, size_t, size_t);
static const size_t HEAD = 8, LIMIT = 300;

static Ref refOf(const uint8_t* d) {
    uint64_t s;
    memcpy(&s, d, 8);
    Rng r(s);
    return gen::makeRef(r, {1400, 9999, true, true});
}

extern "C" int LLVMFuzzerInitialize(int*, char***) { quiet(true); return 0; }

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* data, size_t size, size_t maxSize, unsigned seed) {
    Rng r(mix(seed, size));
    if (maxSize < HEAD + 1) return size;
    if (size < HEAD) { memset(data + size, 0, HEAD - size); size = HEAD; }
    if (r.chance(5)) { uint64_t s = r.next(); memcpy(data, &s, 8); }
    std::string t(reinterpret_cast<char*>(data) + HEAD, size - HEAD), cls;
    int m = static_cast<int>(r.below(10));
    if (m == 0 || t.empty()) t = soup::text(r, refOf(data), cls, false);
    else if (m < 5) soup::mutate(r, t);
    else if (m < 6) t.insert(r.below(t.size() + 1), " " + soup::tokens(r, 1, 3) + " ");
    else {
        size_t n = LLVMFuzzerMutate(data + HEAD, size - HEAD, std::min(maxSize, HEAD + LIMIT) - HEAD);
        return HEAD + n;
    }
    if (t.size() > std::min(maxSize, HEAD + LIMIT) - HEAD) t.resize(std::min(maxSize, HEAD + LIMIT) - HEAD);
    memcpy(data + HEAD, t.data(), t.size());
    return HEAD + t.size();
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < HEAD || size > HEAD + LIMIT) return -1;
    Ref ref = refOf(data);
    std::string text(reinterpret_cast<const char*>(data) + HEAD, size - HEAD), t2 = text, given = text;
    Stages s = pipeline(text, ref);
    for (const Results* l : {&s.raw, &s.olr, &s.tza, &s.mdt, &s.mdr})
        for (auto& x : *l)
            if (x.render[0] == '!' && !(x.tags >> T_TZA & 1)) { fprintf(stderr, "rendering fails: %s\n", x.str().c_str()); abort(); }
    execute(REL, t2, ref);
    return 0;
}
