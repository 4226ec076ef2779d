// Concurrent calls in a process that has not used the library yet, under the race detector, compared with the same calls made one after another.
#include "soup.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <locale>
#include <mutex>
#include <thread>
#include <sys/wait.h>
#include <fcntl.h>
#include <sched.h>
#include <unistd.h>
#include <clocale>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
using namespace sut;

#ifdef __SANITIZE_THREAD__
// Functions of the C library that keep their result or their position in a hidden static object, which the race
// detector does not see: each of these writes an object that it does see, then calls the real one.
#define HIDDEN_STATE(type, name, params, args) \
    extern "C" type name params { \
        static int hiddenStateOf_##name; \
        static auto real = reinterpret_cast<type (*) params>(dlsym(RTLD_NEXT, #name)); \
        hiddenStateOf_##name++; \
        return real args; \
    }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wnonnull-compare"
HIDDEN_STATE(char*, strtok, (char* a, const char* b) noexcept, (a, b))
HIDDEN_STATE(struct tm*, gmtime, (const time_t* t) noexcept, (t))
HIDDEN_STATE(struct tm*, localtime, (const time_t* t) noexcept, (t))
HIDDEN_STATE(char*, asctime, (const struct tm* t) noexcept, (t))
HIDDEN_STATE(char*, ctime, (const time_t* t) noexcept, (t))
HIDDEN_STATE(int, mblen, (const char* p, size_t n) noexcept, (p, n))
HIDDEN_STATE(int, mbtowc, (wchar_t* w, const char* p, size_t n) noexcept, (w, p, n))
HIDDEN_STATE(int, wctomb, (char* p, wchar_t w) noexcept, (p, w))
HIDDEN_STATE(char*, tmpnam, (char* p) noexcept, (p))
HIDDEN_STATE(char*, ecvt, (double d, int n, int* a, int* b) noexcept, (d, n, a, b))
HIDDEN_STATE(char*, fcvt, (double d, int n, int* a, int* b) noexcept, (d, n, a, b))
HIDDEN_STATE(double, drand48, (void) noexcept, ())
#pragma GCC diagnostic pop
#endif
const char* const CHECK_ID = "C05";
uint64_t caseCount(bool thorough) { return thorough ? 6000 : 240; }

namespace {
struct Call { int what; /* 0 parser, 1 pipeline, 2 refiner */ int kind; bool shared, fresh; std::string text; Ref ref; Results in; int spin; };

uint64_t hashOf(const Results& rs) {
    uint64_t h = 3;
    for (auto& x : rs) h = hashStr(x.str() + x.adate + x.bdate + x.render, h);
    return h;
}
Comp asImplied(Comp c) { for (int f = 0; f < NF; f++) if (c.st[f] == UNSET && c.v[f]) c.st[f] = IMPLIED; return c; }

std::shared_ptr<Parser> sharedP[NKIND];
std::shared_ptr<Refiner> sharedR[NREF];

std::string perform(const Call& k) {
    std::string t = k.text;
    if (k.what == 0) {
        Results r;
        if (k.shared) r = execute(*sharedP[k.kind], t, k.ref);
        else if (k.fresh) r = execute(*makeParser(static_cast<Kind>(k.kind)), t, k.ref);
        else r = execute(static_cast<Kind>(k.kind), t, k.ref);
        return gen::show(r) + "#" + gen::num(static_cast<long long>(hashOf(r) >> 1));
    }
    if (k.what == 1) {
        Stages s = pipeline(t, k.ref);
        uint64_t h = 1;
        for (auto* l : {&s.raw, &s.olr, &s.tza, &s.mdt, &s.mdr}) h = mix(h, hashOf(*l));
        return gen::show(s.mdr) + "#" + gen::num(static_cast<long long>(h >> 1));
    }
    Results r = k.shared ? refine(*sharedR[k.kind], k.in, k.text) : refine(static_cast<RefinerKind>(k.kind), k.in, k.text);
    return gen::show(r) + "#" + gen::num(static_cast<long long>(hashOf(r) >> 1));
}
struct Barrier {
    std::mutex m; std::condition_variable cv; int left;
    explicit Barrier(int n) : left(n) {}
    void wait() { std::unique_lock<std::mutex> l(m); if (--left == 0) cv.notify_all(); else cv.wait(l, [&] { return left == 0; }); }
};
// pieces of results for the refiners, without using the library
Results synthetic(Rng& r, std::string& text) {
    Results rs;
    size_t at = 0;
    text.clear();
    int n = static_cast<int>(r.range(1, 5));
    for (int i = 0; i < n; i++) {
        Res x;
        text += std::string(r.below(3), ' ');
        at = text.size();
        x.index = static_cast<unsigned>(at);
        x.len = 3 + r.below(8);
        text += std::string(x.len, 'q');
        bool time = r.chance(50);
        auto put = [&](Comp& c) {
            int y = static_cast<int>(r.range(1990, 2030)), mo = static_cast<int>(r.range(1, 12)), d = static_cast<int>(r.range(1, 28));
            int v[NF] = {y, mo, d, 0, static_cast<int>(r.range(0, 23)), static_cast<int>(r.range(0, 59)), 0, 0};
            for (int f = 0; f < NF; f++) { c.v[f] = v[f]; c.st[f] = f < 3 ? (time ? IMPLIED : KNOWN) : (f == H || f == MI) ? (time ? KNOWN : UNSET) : UNSET; }
            for (int f = 0; f < NF; f++) if (c.st[f] == UNSET) c.v[f] = 0;
        };
        put(x.a);
        if (r.chance(20)) { x.end = true; put(x.b); }
        x.tags = time ? 1u << T_TXP : 1u << T_CDP;
        rs.push_back(x);
        text += r.pick({" ", " at ", " to ", " - ", " est", " (pst)", ", ", " and "});
    }
    return rs;
}
}

// Threads that make their calls over and over, each call compared at once with the result it had alone: what one thread leaves behind in a
// place that it shares with the others shows even where the race detector cannot look.
static void stress(Ctx& c) {
    Rng& r = c.rng;
    const size_t T = r.chance(80) ? 8 : static_cast<size_t>(r.range(2, 16));
    const int NK = NKIND + NREF + 1, a = static_cast<int>(c.idx % static_cast<uint64_t>(NK)), b = r.chance(60) ? a : static_cast<int>(r.below(static_cast<uint64_t>(NK)));
    std::vector<std::vector<Call>> plan(T);
    std::string what = gen::num(static_cast<long long>(T)) + " threads:";
    for (size_t t = 0; t < T; t++) for (int i = 0; i < 6; i++) {
        Call k;
        k.ref = gen::makeRef(r, {1402, 9997, false, true});
        k.shared = r.chance(50); k.fresh = r.chance(50); k.spin = 0;
        int sel = r.chance(50) ? a : b;
        if (sel < NKIND) { // several phrases, so that most of the time is spent on what they mean
            k.what = 0; k.kind = sel;
            int n = static_cast<int>(r.range(1, 6));
            for (int q = 0; q < n; q++) {
                gen::Phrase p = gen::ofKind(r, k.ref, sel);
                k.text += (q ? std::string(" and then ") : std::string()) + p.text;
            }
            k.text = gen::randomCase(r, k.text);
        } else if (sel == NKIND) {
            k.what = 1; k.kind = 0;
            gen::Phrase p = gen::anyPhrase(r, k.ref, false), q = gen::anyPhrase(r, k.ref, false);
            k.text = p.text + (r.chance(50) ? " at " : " to ") + q.text;
        } else { k.what = 2; k.kind = sel - NKIND - 1; k.in = synthetic(r, k.text); }
        if (i == 0 && t < 3) what += " [" + std::string(k.what == 0 ? KIND_NAME[k.kind] : k.what == 1 ? "pipeline" : REF_NAME[k.kind]) + "] \"" + k.text + "\"";
        plan[t].push_back(k);
    }
    if (c.describe(what)) return;
    for (int k = 0; k < NKIND; k++) if (!sharedP[k]) sharedP[k] = makeParser(static_cast<Kind>(k));
    for (int k = 0; k < NREF; k++) if (!sharedR[k]) sharedR[k] = makeRefiner(static_cast<RefinerKind>(k));
    auto make = [](const Call& k) { try { return perform(k); } catch (std::exception& e) { return std::string("exception ") + e.what(); } };
    std::vector<std::vector<std::string>> alone(T);
    for (size_t t = 0; t < T; t++) for (auto& k : plan[t]) alone[t].push_back(make(k));
    Barrier bar(static_cast<int>(T));
    std::atomic<uint64_t> calls{0};
    std::atomic<bool> stop{false};
    std::mutex m;
    std::string bad;
    std::vector<std::thread> th;
    const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(c.thorough ? 1000 : 300);
    for (size_t t = 0; t < T; t++) th.emplace_back([&, t] {
        bar.wait();
        uint64_t n = 0;
        do for (size_t i = 0; i < plan[t].size() && !stop; i++) {
            std::string o = make(plan[t][i]);
            n++;
            if (o != alone[t][i]) {
                std::lock_guard<std::mutex> l(m);
                if (bad.empty()) bad = "thread " + gen::num(static_cast<long long>(t)) + " call " + gen::num(static_cast<long long>(i)) + " on \"" + plan[t][i].text + "\", reference " + refStr(plan[t][i].ref) + ": concurrently " + o + ", alone " + alone[t][i];
                stop = true;
            }
        } while (!stop && std::chrono::steady_clock::now() < end);
        calls += n;
    });
    for (auto& t : th) t.join();
    c.count("calls compared with the same calls made alone", calls.load());
    c.count("mixes of calls");
    c.observed(hashStr(what, mix(c.seed, c.idx)));
    if (!bad.empty()) c.fail("result", bad + "\n" + what);
}

void runCase(Ctx& c) {
    static const bool STRESS = getenv("VERIF_STRESS");
    if (STRESS) return stress(c);
    Rng& r = c.rng;
    const int T = static_cast<int>(r.chance(70) ? 8 : r.range(2, 16));
    // how the first uses collide: everybody starts with the same kind, or each with another
    // or many calls of one kind, so that its rare branches are taken by several threads
    bool many = c.idx % 4 == 3;
    int mode = many ? 0 : static_cast<int>(r.below(4));
    int first = static_cast<int>((many ? c.idx / 4 : c.idx) % (NKIND + NREF + 1));
    std::vector<std::vector<Call>> plan(static_cast<size_t>(T));
    std::string what = "mode " + gen::num(mode) + ", " + gen::num(T) + " threads:";
    Ref common = gen::makeRef(r, {1402, 9997, false, true});
    const int rounds = static_cast<int>(r.range(40, 70));
    std::vector<std::string> same; // what all threads parse in a round; the references differ
    std::map<std::string, int> used;
    std::vector<Results> sameIn;
    if (many) for (int i = 0; i < rounds; i++) {
        if (first > NKIND) { Results in; std::string text; in = synthetic(r, text); sameIn.push_back(in); same.push_back(r.chance(75) ? text : std::string()); continue; }
        if (first == NKIND) {
            gen::Phrase p = gen::anyPhrase(r, common, false), q = gen::anyPhrase(r, common, false);
            same.push_back(r.chance(75) ? p.text + r.pick({" at ", " to ", " ", ", "}) + q.text : std::string());
            continue;
        }
        gen::Phrase p = r.chance(50) ? gen::rareOfKind(r, common, first, used) : gen::ofKind(r, common, first);
        same.push_back(r.chance(75) ? p.text : std::string());
    }
    for (int t = 0; t < T; t++) {
        int n = static_cast<int>(many ? rounds : r.range(4, 8));
        for (int i = 0; i < n; i++) {
            Call k;
            k.spin = many ? static_cast<int>(r.below(r.chance(50) ? 10 : 2000)) : r.chance(40) ? static_cast<int>(r.below(20000)) : 0;
            k.ref = r.chance(50) ? common : gen::makeRef(r, {1402, 9997, false, true});
            k.shared = r.chance(50); k.fresh = r.chance(50);
            int sel = i == 0 && mode != 3 ? first : static_cast<int>(r.below(NKIND + NREF + 1));
            if (many) sel = first;
            if (i == 0 && mode == 2) sel = static_cast<int>((c.idx + static_cast<uint64_t>(t)) % (NKIND + NREF + 1));
            if (sel < NKIND) {
                k.what = 0; k.kind = sel;
                gen::Phrase p = gen::ofKind(r, k.ref, sel);
                k.text = gen::randomCase(r, p.text);
                if (many && !same[static_cast<size_t>(i)].empty()) k.text = same[static_cast<size_t>(i)];
                else if (r.chance(30)) k.text = "hello " + k.text + " and more";
                else if (r.chance(15)) { std::string cl; k.text = soup::text(r, k.ref, cl, false); }
            } else if (sel == NKIND) {
                k.what = 1; k.kind = 0;
                gen::Phrase p = gen::anyPhrase(r, k.ref, false), q = gen::anyPhrase(r, k.ref, false);
                k.text = p.text + (r.chance(50) ? " at " : " to ") + q.text;
                if (many && !same[static_cast<size_t>(i)].empty()) k.text = same[static_cast<size_t>(i)];
            } else {
                k.what = 2; k.kind = sel - NKIND - 1; k.in = synthetic(r, k.text);
                if (many && !same[static_cast<size_t>(i)].empty()) { k.in = sameIn[static_cast<size_t>(i)]; k.text = same[static_cast<size_t>(i)]; }
            }
            if (i == 0 && t < 3) what += " [" + std::string(k.what == 0 ? KIND_NAME[k.kind] : k.what == 1 ? "pipeline" : REF_NAME[k.kind]) + "] \"" + k.text + "\"";
            plan[static_cast<size_t>(t)].push_back(k);
        }
    }
    if (c.describe(what)) return;
    static std::string dir = [] { const char* d = getenv("VERIF_TMP"); return std::string(d ? d : "/tmp"); }();
    std::string log = dir + "/c05-" + gen::num(getpid()) + "-" + gen::num(static_cast<long long>(c.idx));
    // libstdc++ fills the narrow/widen cache of the locale's ctype facet lazily (every thread would store the same bytes):
    // filled here, so that the race detector sees the library's own accesses only
    static bool warm = [] {
        auto& f = std::use_facet<std::ctype<char>>(std::locale());
        for (int i = 1; i < 256; i++) { f.narrow(static_cast<char>(i), '\0'); f.widen(static_cast<char>(i)); }
        return true;
    }();
    (void)warm;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        for (int k = 0; k < NKIND; k++) sharedP[k] = makeParser(static_cast<Kind>(k));
        for (int k = 0; k < NREF; k++) sharedR[k] = makeRefiner(static_cast<RefinerKind>(k));
        std::vector<std::vector<std::string>> got(plan.size());
        Barrier bar(T);
        std::atomic<uint64_t> inside{0}, most{0}, arrived{0};
        std::vector<std::thread> th;
        for (size_t t = 0; t < plan.size(); t++) th.emplace_back([&, t] {
            bar.wait();
            uint64_t round = 0;
            for (auto& k : plan[t]) {
                if (many) { // all threads make their calls at the same time; relaxed, so that this orders nothing for the race detector
                    arrived.fetch_add(1, std::memory_order_relaxed);
                    round++;
                    for (int turn = 0; arrived.load(std::memory_order_relaxed) < round * plan.size(); turn++) if (turn > 200) sched_yield();
                }
                for (volatile int s = 0; s < k.spin; s = s + 1) {}
                uint64_t n = inside.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed);
                while (n > m && !most.compare_exchange_weak(m, n, std::memory_order_relaxed)) {}
                std::string o;
                try { o = perform(k); } catch (std::exception& e) { o = std::string("exception ") + e.what(); }
                inside.fetch_sub(1, std::memory_order_relaxed);
                got[t].push_back(o);
            }
        });
        for (auto& t : th) t.join();
        int rc = 0;
        for (size_t t = 0; t < plan.size() && !rc; t++) for (size_t i = 0; i < plan[t].size(); i++) {
            std::string o;
            try { o = perform(plan[t][i]); } catch (std::exception& e) { o = std::string("exception ") + e.what(); }
            if (o != got[t][i]) {
                dprintf(2, "\nDIFFERS thread %d call %d on \"%s\", reference %s: concurrently %s, alone %s\n", static_cast<int>(t), static_cast<int>(i), plan[t][i].text.c_str(), refStr(plan[t][i].ref).c_str(), got[t][i].c_str(), o.c_str());
                rc = 3;
                break;
            }
        }
        dprintf(2, "\nMOST %d\n", static_cast<int>(most.load()));
        _exit(rc);
    }
    int st = 0;
    time_t end = time(nullptr) + 240;
    bool hung = false;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (time(nullptr) > end) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(2000);
    }
    std::string text;
    if (FILE* f = fopen(log.c_str(), "rb")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && text.size() < (1u << 20)) text.append(b, n); fclose(f); }
    unlink(log.c_str());
    size_t calls = 0;
    for (auto& p : plan) calls += p.size();
    size_t m = text.rfind("MOST ");
    int most = m == std::string::npos ? 0 : atoi(text.c_str() + m + 5);
    c.count(many ? "processes with many calls of one kind" : "processes");
    c.count("threads", static_cast<uint64_t>(T));
    c.count("concurrent calls compared with the same calls made alone", calls);
    c.count(std::string("first use: ") + (mode == 3 ? "mixed" : mode == 2 ? "a different parser in each thread" : std::string("all threads ") + (first < NKIND ? KIND_NAME[first] : first == NKIND ? "pipeline" : REF_NAME[first - NKIND - 1])));
    if (most > 1) c.count("processes with calls observed overlapping");
    if (most > 3) c.count("processes with four or more calls observed overlapping");
    c.observed(hashStr(what, mix(c.seed, c.idx)), most > 1);
    c.sample(what + " -> at most " + gen::num(most) + " calls at once, all equal to the sequential results");
    if (hung) c.fail("hang", "the threads do not finish: " + what);
    else if (text.find("WARNING: ThreadSanitizer") != std::string::npos) {
        size_t p = text.find("WARNING: ThreadSanitizer");
        std::string kind = text.substr(p + 26, text.find('\n', p) - p - 26);
        kind = kind.substr(0, kind.find(" (pid"));
        c.fail("race: " + kind, what + "\n" + text.substr(p, 5000));
    }
    else if (size_t d = text.find("DIFFERS"); d != std::string::npos) c.fail("result", text.substr(d, 2000) + what);
    else if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("crash", "the process ended with status " + gen::num(st) + ": " + what + "\n" + text.substr(0, 3000));
}
void finish(Ctx&) {}
