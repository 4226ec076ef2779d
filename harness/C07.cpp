// Operation sequences on components and results against a plain model.
#include "gen.hpp"
using namespace sut;
const char* const CHECK_ID = "C07";
uint64_t caseCount(bool thorough) { return thorough ? 600000 : 40000; }

struct MField { int known = 0, v = 0; bool imp = false; int iv = 0; };
struct MComp {
    MField f[NF];
    int get(int i) const { return f[i].known ? f[i].v : f[i].imp ? f[i].iv : 0; }
};
// bAny: copied from a result without an end, whose end components need not be copied
struct MRes { MComp a, b; bool end = false, bAny = false; unsigned index = 0; size_t len = 0; unsigned tags = 0; };

void runCase(Ctx& c) {
    Rng& r = c.rng;
    std::string log;
    auto bad = [&](const std::string& key, const std::string& why) { c.fail("C07:" + key, why + "; operations: " + log); };
    std::vector<std::shared_ptr<Box>> box;
    std::vector<MComp> m;
    std::vector<std::shared_ptr<RBox>> rb;
    std::vector<MRes> mr;
    auto add = [&](std::shared_ptr<Box> b, const MComp& x) { box.push_back(b); m.push_back(x); };
    auto value = [&](int f) -> int {
        switch (r.below(6)) {
            case 0: return 0;
            case 1: return static_cast<int>(r.range(-100, 100));
            case 2: return static_cast<int>(r.next());
            default: break;
        }
        static const int lo[NF] = {1400, 1, 1, 0, 0, 0, 0, -720}, hi[NF] = {9999, 12, 31, 6, 24, 59, 59, 840};
        return static_cast<int>(r.range(lo[f], hi[f]));
    };
    add(newBox(0), MComp());
    rb.push_back(newRBox(0)); mr.push_back(MRes());
    int ops = static_cast<int>(r.range(5, 60));
    uint64_t sig = 0;
    auto checkBox = [&](size_t i) {
        for (int f = 0; f < NF; f++) {
            int g = getField(*box[i], f);
            if (g != m[i].get(f)) { bad("value", std::string(FIELD_NAME[f]) + " of components " + gen::num(static_cast<long long>(i)) + " reads " + gen::num(g) + ", expected " + gen::num(m[i].get(f))); return false; }
            if (certain(*box[i], f) != (m[i].f[f].known != 0)) { bad("certain", std::string(FIELD_NAME[f]) + " of components " + gen::num(static_cast<long long>(i)) + (m[i].f[f].known ? " is not certain" : " is certain")); return false; }
        }
        return true;
    };
    auto checkRes = [&](size_t i) {
        Res g = rRead(*rb[i]);
        std::string d;
        if (g.index != mr[i].index) d = "index " + gen::num(g.index) + ", expected " + gen::num(mr[i].index);
        else if (g.len != mr[i].len) d = "text length " + gen::num(static_cast<long long>(g.len)) + ", expected " + gen::num(static_cast<long long>(mr[i].len));
        else if (g.tags != mr[i].tags) d = "tags " + gen::num(g.tags) + ", expected " + gen::num(mr[i].tags);
        else if (g.end != mr[i].end) d = g.end ? "has an end" : "has lost its end";
        else if (g.empty != (mr[i].index == 0 && mr[i].len == 0)) d = "emptiness wrong";
        for (int side = 0; side < (mr[i].end && !mr[i].bAny ? 2 : 1) && d.empty(); side++) {
            const Comp& x = side ? g.b : g.a; const MComp& y = side ? mr[i].b : mr[i].a;
            for (int f = 0; f < NF && d.empty(); f++) {
                if (x.v[f] != y.get(f)) d = std::string(side ? "end " : "start ") + FIELD_NAME[f] + " reads " + gen::num(x.v[f]) + ", expected " + gen::num(y.get(f));
                else if ((x.st[f] == KNOWN) != (y.f[f].known != 0)) d = std::string(side ? "end " : "start ") + FIELD_NAME[f] + " certainty wrong";
            }
        }
        if (!d.empty()) { bad("result", "result " + gen::num(static_cast<long long>(i)) + ": " + d); return false; }
        return true;
    };
    for (int o = 0; o < ops; o++) {
        size_t i = r.below(box.size());
        int f = static_cast<int>(r.below(NF));
        int kind = static_cast<int>(r.below(100));
        sig = mix(sig, static_cast<uint64_t>(kind) * 64 + static_cast<uint64_t>(f) * 8 + i);
        std::string I = gen::num(static_cast<long long>(i));
        if (kind < 22) { int v = value(f); log += "c" + I + ".set(" + FIELD_NAME[f] + "," + gen::num(v) + ") "; setField(*box[i], f, v); m[i].f[f] = MField{1, v, false, 0}; c.count("set"); }
        else if (kind < 46) {
            int v = value(f); log += "c" + I + ".imply(" + FIELD_NAME[f] + "," + gen::num(v) + ") ";
            implyField(*box[i], f, v);
            c.count(m[i].f[f].known ? "imply on known" : m[i].f[f].imp ? "imply again" : "imply");
            if (!m[i].f[f].known) { m[i].f[f].imp = true; m[i].f[f].iv = v; }
        }
        else if (kind < 48) { log += "c" + I + ".imply(unknown name) "; implyName(*box[i], r.pick({"years", "", "dow", "timezone", "Hour"}), 7); c.count("imply unknown name"); }
        else if (kind < 50) { log += "c" + I + ".isCertain(unknown name) "; if (certainName(*box[i], r.pick({"years", "", "dow", "Hour"}))) { bad("certain", "unknown component is certain"); return; } }
        else if (kind < 56 && box.size() < 6) { log += "c" + gen::num(static_cast<long long>(box.size())) + "=copy(c" + I + ") "; add(copyBox(*box[i]), m[i]); c.count("copy components"); }
        else if (kind < 58 && box.size() < 6) {
            Comp init; MComp x;
            for (int k = 0; k < NF; k++) if (r.chance(50)) { init.v[k] = value(k); init.st[k] = KNOWN; x.f[k] = MField{1, init.v[k], false, 0}; }
            log += "c" + gen::num(static_cast<long long>(box.size())) + "=from known values(" + gen::showComp(init) + ") ";
            add(newBox(1, &init), x); c.count("components from values");
        }
        else if (kind < 66) { size_t j = r.below(box.size()); log += "c" + I + "=c" + gen::num(static_cast<long long>(j)) + " "; assignBox(*box[i], *box[j]); m[i] = MComp(m[j]); c.count(i == j ? "self assign components" : "assign components"); }
        else {
            size_t j = r.below(rb.size());
            std::string J = gen::num(static_cast<long long>(j));
            int k = static_cast<int>(r.below(14));
            switch (k) {
                case 0: log += "r" + J + ".start=c" + I + " "; rStart(*rb[j], *box[i]); mr[j].a = m[i]; c.count("set start"); break;
                case 1: log += "r" + J + ".end=c" + I + " "; rEnd(*rb[j], *box[i]); mr[j].b = m[i]; mr[j].bAny = false; c.count("set end"); break;
                case 2: log += "r" + J + ".makeEnd "; rMakeEnd(*rb[j]); mr[j].end = true; c.count("make end valid"); break;
                case 3: { int x = static_cast<int>(r.chance(30) ? r.pick({255, 256, 32767, 32768, 65535, 65536, 100000, 2147483647}) : static_cast<int>(r.below(2000))); log += "r" + J + ".index=" + gen::num(x) + " "; rSetIndex(*rb[j], x); mr[j].index = static_cast<unsigned>(x); break; }
                case 4: { std::string t(r.chance(3) ? r.pick({255, 256, 65535, 65536, 65537, 100000}) : static_cast<int>(r.below(40)), 'x'); if (!t.empty() && r.chance(10)) t[r.below(t.size())] = r.pick({'\0', ' ', '\n', '\xff'}); log += "r" + J + ".text(" + gen::num(static_cast<long long>(t.size())) + ") "; rSetText(*rb[j], t); mr[j].len = t.size(); break; }
                case 5: { int t = static_cast<int>(r.below(NTAG)); log += "r" + J + ".tag" + gen::num(t) + " "; rSetTag(*rb[j], t); mr[j].tags |= 1u << t; c.count("set tag"); break; }
                case 6: case 7: if (rb.size() < 6) { log += "r" + gen::num(static_cast<long long>(rb.size())) + "=copy(r" + J + ") "; rb.push_back(copyRBox(*rb[j])); MRes x = mr[j]; if (!x.end) x.bAny = true; mr.push_back(x); c.count("copy result"); } break;
                case 8: { size_t l = r.below(rb.size()); log += "r" + J + "=r" + gen::num(static_cast<long long>(l)) + " "; assignRBox(*rb[j], *rb[l]); MRes x = mr[l]; if (!x.end) x.bAny = true; mr[j] = x; c.count(j == l ? "self assign result" : "assign result"); break; }
                case 9: if (rb.size() < 6) { int x = static_cast<int>(r.chance(20) ? r.pick({255, 256, 32768, 65536, 100000, 2147483647}) : static_cast<int>(r.below(500))); std::string t(r.below(20), 'y'); log += "r" + gen::num(static_cast<long long>(rb.size())) + "=new(" + gen::num(x) + "," + gen::num(static_cast<long long>(t.size())) + ") "; rb.push_back(newRBox(1, x, t)); MRes y; y.index = static_cast<unsigned>(x); y.len = t.size(); mr.push_back(y); } break;
                case 10: { size_t l = r.below(box.size()); log += "swap(c" + I + ",c" + gen::num(static_cast<long long>(l)) + ") "; if (l != i) { swapBox(*box[i], *box[l]); std::swap(m[i], m[l]); c.count("swap components"); } break; }
                case 11: { size_t l = r.below(rb.size()); log += "swap(r" + J + ",r" + gen::num(static_cast<long long>(l)) + ") "; if (l != j) { swapRBox(*rb[j], *rb[l]); std::swap(mr[j], mr[l]); for (size_t q : {j, l}) if (!mr[q].end) mr[q].bAny = true; c.count("swap results"); } break; }
                case 12: {
                    std::vector<size_t> perm(rb.size());
                    for (size_t q = 0; q < perm.size(); q++) perm[q] = q;
                    for (size_t q = perm.size(); q > 1; q--) std::swap(perm[q - 1], perm[r.below(q)]);
                    int how = static_cast<int>(r.below(128));
                    log += "list(" + gen::num(how) + ":"; for (size_t q : perm) log += gen::num(static_cast<long long>(q)); log += ") ";
                    throughList(rb, perm, how);
                    std::vector<MRes> n(mr.size());
                    for (size_t q = 0; q < perm.size(); q++) { n[perm[q]] = mr[q]; if (!mr[q].end) n[perm[q]].bAny = true; }
                    mr = n; c.count("results through a list");
                    break;
                }
                default: if (box.size() < 6) { bool e = mr[j].end && !mr[j].bAny && r.chance(50); log += "c" + gen::num(static_cast<long long>(box.size())) + "=r" + J + (e ? ".end " : ".start "); add(e ? rGetEnd(*rb[j]) : rGetStart(*rb[j]), e ? mr[j].b : mr[j].a); c.count("take components"); }
            }
        }
        // every object after every operation: a change must not reach any other
        for (size_t k = 0; k < box.size(); k++) if (!checkBox(k)) return;
        for (size_t k = 0; k < rb.size(); k++) if (!checkRes(k)) return;
        c.count("states compared", box.size() + rb.size());
    }
    c.count("operations", static_cast<uint64_t>(ops));
    c.observed(sig, ops > 8);
    c.sample(log.substr(0, 400));
}
void finish(Ctx&) {}
