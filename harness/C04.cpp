// The same calls in other orders, with other objects and after other calls give the same results; arguments stay as they were.
#include <cerrno>
#include "soup.hpp"
#include "refine_model.hpp"
using namespace sut;
const char* const CHECK_ID = "C04";
uint64_t caseCount(bool thorough) { return thorough ? 500000 : 40000; }

static uint64_t hashOf(const Results& rs) {
    uint64_t h = 3;
    for (auto& x : rs) h = hashStr(x.str() + x.adate + x.bdate, h);
    return h;
}
static bool freshObjects() { static bool f = getenv("VERIF_FRESH") != nullptr; return f; }

static Results run(Kind k, std::string& t, const Ref& ref, Ref* after) {
    static std::shared_ptr<Parser> kept[NKIND];
    // whatever an earlier failing call of the process left there
    static const int left = getenv("VERIF_LOCALE") ? ERANGE : freshObjects() ? EINVAL : 0;
    errno = left;
    if (freshObjects()) return execute(*makeParser(k), t, ref, after);
    if (!kept[k]) kept[k] = makeParser(k);
    return execute(*kept[k], t, ref, after);
}
void runCase(Ctx& c) {
    Rng& r = c.rng;
    Ref ref = gen::makeRef(r, {1400, 9999, true, true});
    std::string cls, given;
    int home = -1; // the parser whose form the text has
    if (r.chance(40)) given = soup::text(r, ref, cls, false);
    else {
        home = static_cast<int>(r.chance(10) ? static_cast<int>(WXP) : r.below(NKIND)); // week phrases with words that are no numbers among them
        given = gen::randomCase(r, gen::ofKind(r, gen::makeRef(r, {1402, 9997, true, true}), home, home == WXP ? 50 : 15).text);
    }
    if (r.chance(35)) { // what a caller's text may have around it
        static const std::vector<std::string> W{" ", "  ", "\t", "\n", "\r\n", "\x0b", " \t ", ".", "!", "\xc2\xa0", "'", "\"", std::string(1, '\0'), "\xc3\x89", "\xff", "-", ","};
        if (r.chance(50)) given = gen::filler(r, static_cast<int>(r.range(1, 20))) + " " + given;
        if (r.chance(30)) given += " " + gen::filler(r, static_cast<int>(r.range(1, 20)));
        for (uint64_t i = r.below(5); i > 0; i--) given = r.pick(W) + given;
        for (uint64_t i = r.below(5); i > 0; i--) given += r.pick(W);
        if (given.size() > 1000) given.resize(1000);
    }
    if (r.chance(1) && r.chance(15)) { given = gen::farFiller(r) + given; c.count("far into the text"); }
    if (c.describe("text \"" + given + "\", reference " + refStr(ref))) return;
    std::vector<int> kinds;
    for (int k = 0; k < NKIND; k++) if (k != MME || r.chance(40)) kinds.push_back(k);
    // the order of the parsers differs from process to process
    Rng order(mix(freshObjects() ? 77 : 5, c.idx));
    for (size_t i = kinds.size(); i > 1; i--) std::swap(kinds[i - 1], kinds[order.below(i)]);
    uint64_t hs[NKIND] = {0};
    size_t n = 0;
    // the same text with a reference that differs a little, before or after, depending on the process; and another text with the same reference
    Ref near = ref;
    switch (r.below(6)) {
        case 0: near.h = (near.h + 1 + static_cast<int>(r.below(23))) % 24; break;
        case 1: near.mi = (near.mi + 1 + static_cast<int>(r.below(59))) % 60; break;
        case 2: near.s = (near.s + 1 + static_cast<int>(r.below(59))) % 60; break;
        case 3: near.d = near.d > 1 ? near.d - 1 : near.d + 1; break;
        case 4: near.d = std::min(near.d, 28); near.mo = near.mo % 12 + 1; break;
        default: near.d = std::min(near.d, 28); near.y = near.y < 9000 ? near.y + static_cast<int>(r.range(1, 8)) : near.y - 1;
    }
    std::string nearText = given;
    if (r.chance(50)) { // another number or letter, the same length
        size_t at = r.below(given.size() + 1);
        while (at < given.size() && !isdigit(static_cast<unsigned char>(given[at]))) at++;
        if (at < given.size()) nearText[at] = static_cast<char>('0' + r.below(10));
        if (r.chance(50)) near = ref;
    }
    bool hasMme = std::find(kinds.begin(), kinds.end(), static_cast<int>(MME)) != kinds.end();
    uint64_t nearHash = 0;
    auto nearCall = [&] { for (int k = 0; k < NKIND; k++) if (k != MME) { std::string t = nearText; nearHash = mix(nearHash, hashOf(run(static_cast<Kind>(k), t, near, nullptr))); }
        if (hasMme) { std::string t = nearText; nearHash = mix(nearHash, hashOf(run(MME, t, near, nullptr))); }
        c.count("the same with a nearby reference or text"); };
    if (freshObjects()) nearCall();
    auto same = [](const Ref& a, const Ref& b) { return a.y == b.y && a.mo == b.mo && a.d == b.d && a.h == b.h && a.mi == b.mi && a.s == b.s && a.us == b.us; };
    for (int k : kinds) {
        std::string t = given;
        Ref after{};
        Results rs = run(static_cast<Kind>(k), t, ref, &after);
        n += rs.size();
        hs[k] = hashOf(rs);
        if (t != gen::lowered(given)) { c.fail("text", std::string("parser ") + KIND_NAME[k] + " turned the text \"" + given + "\" into \"" + t + "\""); return; }
        if (!same(after, ref)) { c.fail("reference", std::string("parser ") + KIND_NAME[k] + " changed the reference " + refStr(ref) + " to " + refStr(after) + ", text \"" + given + "\""); return; }
    }
    if (!freshObjects()) nearCall();
    // again, in another order, on other objects, after unrelated calls
    Rng q(mix(order.below(1u << 30), 11)); // not r, as what is drawn depends on the order of the parsers
    for (size_t i = 0; i < 3 && !kinds.empty(); i++) {
        Kind k = static_cast<Kind>(kinds[q.below(kinds.size())]);
        if (i == 0 && std::find(kinds.begin(), kinds.end(), home) != kinds.end()) k = static_cast<Kind>(home);
        Ref other = gen::makeRef(q, {1402, 9997, false, false});
        gen::Phrase p;
        std::string u = given, w = given;
        for (int64_t n = q.range(1, 3); n > 0; n--) {
            int of = static_cast<int>(q.chance(60) ? static_cast<uint64_t>(k) : q.below(NKIND));
            p = gen::ofKind(q, other, of, 10);
            std::string t = p.text;
            execute(q.chance(60) ? k : p.kind, t, other);
        }
        Results a = run(k, u, ref, nullptr);
        Results b = execute(*makeParser(k), w, ref);
        c.count("repeated calls", 2);
        if (hashOf(a) != hs[k] || hashOf(b) != hs[k]) {
            c.fail(std::string("history:") + KIND_NAME[k], std::string("parser ") + KIND_NAME[k] + " on \"" + given + "\", reference " + refStr(ref) + ": repeated after \"" + p.text + "\" gives " + gen::show(a) + ", a fresh object gives " + gen::show(b) + ", first results had hash " + gen::num(static_cast<long long>(hs[k])));
            return;
        }
    }
    uint64_t h = nearHash;
    { // made-up lists through refiners that are kept for the whole process, and through new ones
        static std::shared_ptr<Refiner> kept[NREF];
        Ref base = ref;
        std::string text = r.chance(50) ? gen::filler(r, 1) + " " : "";
        Results in;
        int count = static_cast<int>(r.range(1, 6));
        for (int i = 0; i < count; i++) {
            if (i && r.chance(40)) base = gen::makeRef(r);
            if (i) text += r.pick({" to ", " at ", " on ", " - ", " ", ", ", " and ", " pst ", " (est) ", " ist to ", " hello ", "", " through "});
            Res x = model::synthetic(r, static_cast<model::Shape>(r.below(model::NSHAPE)), base);
            x.index = static_cast<unsigned>(text.size());
            x.len = static_cast<size_t>(r.range(1, 10));
            if (i && r.chance(10)) x.index -= static_cast<unsigned>(r.below(std::min<size_t>(text.size(), 4)));
            text += std::string(x.len, '7');
            in.push_back(x);
        }
        static const RefinerKind RK[] = {OLR, TZA, MDT, MDR};
        size_t start = r.below(4);
        for (size_t i = 0; i < 4; i++) { // several refiners of the process one after another, in one order or the other
            RefinerKind k = RK[freshObjects() ? (start + 3 - i) % 4 : (start + i) % 4];
            if (!kept[k]) kept[k] = makeRefiner(k);
            Results a = refine(freshObjects() ? *makeRefiner(k) : *kept[k], in, text), b = refine(k, in, text);
            if (hashOf(a) != hashOf(b)) { c.fail(std::string("history:") + REF_NAME[k], std::string("refiner ") + REF_NAME[k] + ", used before, gives " + gen::show(a) + ", a new one " + gen::show(b) + " for " + model::show(in, text)); return; }
            uint64_t one = hashOf(a);
            h ^= mix(one, static_cast<uint64_t>(k)); // whatever the order
            c.count("refiner calls on made-up lists", 2);
        }
    }
    for (int k = 0; k < NKIND; k++) h = mix(h, hs[k]);
    if (c.idx % 8 == 0) { // whole pipeline, twice
        std::string t = given, u = given;
        Stages a = pipeline(t, ref), b = pipeline(u, ref);
        const Results *A[] = {&a.raw, &a.olr, &a.tza, &a.mdt, &a.mdr}, *B[] = {&b.raw, &b.olr, &b.tza, &b.mdt, &b.mdr};
        for (int i = 0; i < 5; i++) {
            if (hashOf(*A[i]) != hashOf(*B[i])) { c.fail("pipeline", "the pipeline gives " + gen::show(*A[i]) + " and then " + gen::show(*B[i]) + " for \"" + given + "\", reference " + refStr(ref)); return; }
            h = mix(h, hashOf(*A[i]));
        }
        // refiners leave their argument alone
        const std::pair<RefinerKind, const Results*> L[] = {{OLR, &a.sorted}, {TZA, &a.olr}, {MDT, &a.tza}, {MDR, &a.mdt}};
        for (auto& l : L) {
            Results in = *l.second, arg;
            for (auto& x : in) for (Comp* q : {&x.a, &x.b}) for (int f = 0; f < NF; f++) if (q->st[f] == UNSET && q->v[f]) q->st[f] = IMPLIED;
            auto rf = makeRefiner(l.first);
            Results o1 = refine(*rf, in, t, &arg), o2 = refine(l.first, in, t), o3 = refine(*rf, in, t);
            bool ok = arg.size() == in.size();
            for (size_t i = 0; ok && i < in.size(); i++) if (!(arg[i].a == in[i].a) || arg[i].end != in[i].end || (in[i].end && !(arg[i].b == in[i].b)) || arg[i].index != in[i].index || arg[i].len != in[i].len || arg[i].tags != in[i].tags) ok = false;
            if (!ok) { c.fail(std::string("argument:") + REF_NAME[l.first], std::string("refiner ") + REF_NAME[l.first] + " changed the results handed in: " + gen::show(in) + " became " + gen::show(arg)); return; }
            if (hashOf(o1) != hashOf(o2) || hashOf(o1) != hashOf(o3)) { c.fail(std::string("history:") + REF_NAME[l.first], std::string("refiner ") + REF_NAME[l.first] + " gives " + gen::show(o1) + ", another object " + gen::show(o2) + ", again " + gen::show(o3)); return; }
            c.count("refiner calls", 3);
        }
        c.count("pipelines", 2);
    }
    c.digest(h);
    c.count("calls", kinds.size());
    c.count("results", n);
    c.observed(hashStr(given + refStr(ref)), n > 0);
    if (n) c.sample("\"" + given + "\" @ " + refStr(ref) + ": " + gen::num(static_cast<long long>(n)) + " results");
}
void finish(Ctx&) {}
