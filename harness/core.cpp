#include <locale>
#include "core.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <exception>
#include <stdexcept>
#include <cstdlib>
#include <typeinfo>

std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } // bytes as latin-1
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
std::string refStr(const sut::Ref& r) {
    char b[96];
    snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", r.y, r.mo, r.d, r.h, r.mi, r.s);
    std::string s = b;
    if (r.us) { snprintf(b, sizeof b, ".%06d", r.us); s += b; }
    return s;
}
void Ctx::fail(const std::string& key, const std::string& detail) {
    violations++;
    if (perKey[key]++ >= 3) return; // a few of each kind
    std::string shortened = detail;
    if (shortened.size() > 6000) shortened = detail.substr(0, 2500) + " [...] " + detail.substr(detail.size() - 3000);
    fprintf(out, "{\"type\":\"violation\",\"case\":%llu,\"key\":%s,\"detail\":%s}\n", static_cast<unsigned long long>(idx),
            jsonStr(key).c_str(), jsonStr(shortened).c_str());
    fflush(out);
}

bool Ctx::describe(const std::string& what) {
    last = what;
    if (!describing) return false;
    fprintf(out, "{\"type\":\"describe\",\"detail\":%s}\n", jsonStr(what).c_str());
    fflush(out);
    return true;
}

static volatile uint64_t* progress; // [0] current case + 1, [1] cases done

// a global locale of the kind an application may install: grouped digits, other words for true and false
struct AppNumbers : std::numpunct<char> {
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
};
int main(int argc, char** argv) {
    if (getenv("VERIF_LOCALE")) std::locale::global(std::locale(std::locale(), new AppNumbers));
    Ctx c;
    uint64_t worker = 0, workers = 1;
    long long only = -1, upto = -1;
    const char* outPath = nullptr;
    const char* progPath = nullptr;
    const char* digPath = nullptr;
    bool reverse = false;
    double scale = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return argv[++i]; };
        if (a == "--seed") c.seed = strtoull(val(), nullptr, 10);
        else if (a == "--worker") worker = strtoull(val(), nullptr, 10);
        else if (a == "--workers") workers = strtoull(val(), nullptr, 10);
        else if (a == "--case") only = strtoll(val(), nullptr, 10);
        else if (a == "--upto") upto = strtoll(val(), nullptr, 10);
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--out") outPath = val();
        else if (a == "--progress") progPath = val();
        else if (a == "--describe") c.describing = true;
        else if (a == "--reverse") reverse = true;
        else if (a == "--digest") digPath = val();
        else if (a == "--scale") scale = atof(val());
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    c.out = outPath ? fopen(outPath, "w") : stdout;
    if (!c.out) { perror("out"); return 2; }
    static uint64_t dummy[2];
    progress = dummy;
    if (progPath) {
        int fd = open(progPath, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096) != 0) { perror("progress"); return 2; }
        void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { perror("mmap"); return 2; }
        progress = static_cast<uint64_t*>(m);
    }
    sut::quiet(true);
    c.total = static_cast<uint64_t>(static_cast<double>(caseCount(c.thorough)) * scale);
    c.replaying = only >= 0;
    auto one = [&](uint64_t i) {
        c.idx = i;
        c.rng = Rng(mix(c.seed, i));
        c.last.clear();
        progress[0] = i + 1;
        try { runCase(c); }
        catch (std::exception& e) { // the harness itself throws nothing: this comes from the code under test
            c.fail(std::string("exception:") + typeid(e).name(), std::string("exception escaped from the library: ") + e.what() + "; " + c.last);
        }
        progress[1] = progress[1] + 1;
    };
    if (only >= 0) one(static_cast<uint64_t>(only));
    else if (reverse) {
        uint64_t n = c.total > worker ? (c.total - worker + workers - 1) / workers : 0;
        while (n-- > 0) {
            uint64_t i = worker + n * workers;
            one(i);
            if (upto >= 0 && i <= static_cast<uint64_t>(upto)) break;
        }
    }
    else for (uint64_t i = worker; i < c.total; i += workers) {
        if (upto >= 0 && i > static_cast<uint64_t>(upto)) break;
        one(i);
    }
    if (only < 0) finish(c);
    fprintf(c.out, "{\"type\":\"summary\",\"evaluations\":%llu,\"violations\":%llu,\"counts\":{",
            static_cast<unsigned long long>(c.evaluations), static_cast<unsigned long long>(c.violations));
    bool first = true;
    for (auto& k : c.counts) { fprintf(c.out, "%s%s:%llu", first ? "" : ",", jsonStr(k.first).c_str(), static_cast<unsigned long long>(k.second)); first = false; }
    fprintf(c.out, "},\"samples\":[");
    first = true;
    for (auto& s : c.samples) { fprintf(c.out, "%s%s", first ? "" : ",", jsonStr(s).c_str()); first = false; }
    fprintf(c.out, "]}\n");
    fflush(c.out);
    if (outPath) {
        std::string h = std::string(outPath) + ".sig";
        FILE* f = fopen(h.c_str(), "wb");
        if (!f) { perror("sig"); return 2; }
        for (uint64_t s : c.distinct) fwrite(&s, 8, 1, f);
        fclose(f);
        fclose(c.out);
    }
    if (digPath) {
        FILE* f = fopen(digPath, "wb");
        if (!f) { perror("digest"); return 2; }
        fwrite(c.digests.data(), 8, c.digests.size(), f);
        fclose(f);
    }
    return c.violations ? 1 : 0;
}
