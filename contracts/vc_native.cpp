// Runtime of the native build of the contracts: replay of a recorded input, or search over
// enumerated small values and pseudo-random ones (VERIF_SEED).
//   prog list | prog replay <driver> <file> | prog search <driver> <seed> <runs> <millis> <out-file>
#include "vc.h"
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <csignal>
#include <fstream>
#include <map>
#include <unistd.h>

namespace vc {
double tol = 1e-7;
struct Entry { std::string id; void (*f)(); std::string fns, bound; int kind; };
static std::vector<Entry>& table() { static std::vector<Entry> t; return t; }
void reg(const char* id, void (*f)(), const char* fns, const char* bound, int kind) {
    Entry e = {id, f, fns, bound, kind};
    table().push_back(e);
}
struct Failure { std::string what; };
static bool replaying = false;
static std::vector<std::string> script;
static size_t pos = 0;
static std::vector<std::string> trace;      // values given to this run
static uint64_t rs = 1;
static int scale = 0;
static std::vector<double> recent;
static unsigned long checks = 0;
static long budgetChecks = 0;

static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }

static bool next(std::string& v) {
    if (!replaying) return false;
    if (pos < script.size()) { v = script[pos++]; return true; }
    v = "0";
    return true;
}
static std::string fmt(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }

double real(const char* n) {
    std::string s;
    double x;
    if (next(s)) x = strtod(s.c_str(), 0);
    else {
        uint64_t k = below(12);
        if (!recent.empty() && k < 3) {
            x = recent[below(recent.size())];
            if (below(6) == 0) x = -x;
        } else if (k < 8) {
            static const double pool[] = {0, 1, -1, 2, 0.5, -0.5, 3, -2, 0.25, 1.5, -3, 4, 10, -1.5, 5, 7};
            x = pool[below(sizeof pool / sizeof *pool)];
        } else if (k < 10) x = ((double)below(65) - 32.0) / 8.0;
        else if (k < 11) x = ((double)below(2000001) - 1000000.0) / 65536.0;
        else { static const double far[] = {100, -100, 1000, 0.001, -0.001, 1e-3, 64, 12.75}; x = far[below(8)]; }
    }
    recent.push_back(x);
    if (recent.size() > 12) recent.erase(recent.begin());
    trace.push_back(std::string(n) + "=" + fmt(x));
    return x;
}
double real_in(const char* n, double lo, double hi) {
    std::string s;
    double x;
    if (next(s)) x = strtod(s.c_str(), 0);
    else {
        uint64_t k = below(8);
        if (k == 0) x = lo; else if (k == 1) x = hi; else if (k == 2) x = (lo + hi) / 2;
        else x = lo + (hi - lo) * (double)below(4097) / 4096.0;
    }
    assume(lo <= x && x <= hi);
    trace.push_back(std::string(n) + "=" + fmt(x));
    return x;
}
long integer(const char* n, long lo, long hi) {
    std::string s;
    long x;
    if (next(s)) { x = strtol(s.c_str(), 0, 10); assume(lo <= x && x <= hi); }
    else {
        uint64_t span = (uint64_t)(hi - lo) + 1;
        uint64_t k = below(8);
        if (span == 0) x = (long)below(64) - 32;
        else if (k == 0) x = lo;
        else if (k == 1) x = hi;
        else if (k < 7 && span > 16) { long c = (lo <= 0 && hi >= 0) ? 0 : lo; x = c + (long)below(12) - (lo < c ? 5 : 0); if (x < lo) x = lo; if (x > hi) x = hi; }
        else x = lo + (long)below(span);
    }
    char b[32]; snprintf(b, sizeof b, "%ld", x);
    trace.push_back(std::string(n) + "=" + b);
    return x;
}
bool boolean(const char* n) {
    std::string s;
    bool x;
    if (next(s)) x = s == "1" || s == "true";
    else x = below(2);
    trace.push_back(std::string(n) + "=" + (x ? "1" : "0"));
    return x;
}
std::string str(const char* n) {
    std::string s;
    static const char* pool[] = {"", "a", "pec", "layer one", "x2"};
    long k;
    if (next(s)) k = strtol(s.c_str(), 0, 10); else k = below(5);
    char b[32]; snprintf(b, sizeof b, "%ld", k);
    trace.push_back(std::string(n) + "=" + b);
    if (k >= 0 && k < 5) return pool[k];
    return std::string("s") + b;
}
size_t length(const char* n) {
    std::string s;
    size_t l;
    if (next(s)) l = strtoul(s.c_str(), 0, 10);
    else { static const size_t pool[] = {0, 1, 2, 2, 3, 3, 4, 5, 6, 8}; l = pool[below(10)]; }
    if (l > 100000) throw Discard();
    trace.push_back(std::string(n) + ".size=" + std::to_string(l));
    return l;
}
std::vector<double> increasing(const char* n, size_t atLeast) {
    static const double steps[] = {1, 1, 1, 0.5, 2, 0.25, 3, 1.5, 0.125, 10, 0.1};
    std::vector<double> v;
    if (replaying) {
        size_t l = length(n);
        for (size_t i = 0; i < l; i++) v.push_back(real(n));
        for (size_t i = 1; i < l; i++) assume(v[i - 1] < v[i]);
        assume(l >= atLeast);
        return v;
    }
    size_t l = atLeast + below(6);
    trace.push_back(std::string(n) + ".size=" + std::to_string(l));
    bool even = below(3) == 0;
    static const double starts[] = {0, 0, -1, 1, -2.5, 0.75, -10, 100};
    double x = starts[below(8)], h = steps[below(11)];
    for (size_t i = 0; i < l; i++) {
        v.push_back(x);
        trace.push_back(std::string(n) + "=" + fmt(x));
        recent.push_back(x);
        x += even ? h : steps[below(11)];
    }
    if (recent.size() > 12) recent.erase(recent.begin(), recent.end() - 12);
    return v;
}
void assume(bool b) { if (!b) throw Discard(); }
void check(const char* name, bool ok, const char* file, int line) {
    checks++;
    if (!ok) { Failure f; f.what = std::string(name); throw f; }
}
static const char* outFile = 0;
static std::string curDriver;
static void dump(const std::string& what) {
    if (!outFile) return;
    FILE* f = fopen(outFile, "w");
    if (!f) return;
    fprintf(f, "driver %s\nfailed %s\n", curDriver.c_str(), what.c_str());
    for (size_t i = 0; i < trace.size(); i++) fprintf(f, "%s\n", trace[i].c_str());
    fclose(f);
}
static void onsig(int s) {
    char b[64]; snprintf(b, sizeof b, "crash: signal %d", s);
    dump(b);
    printf("FAIL %s %s\n", curDriver.c_str(), b);
    fflush(stdout);
    _exit(3);
}
// 0 ok, 1 discard, 2 failure
static int run1(const Entry& e, std::string& what) {
    trace.clear(); pos = 0; recent.clear();
    try { e.f(); return 0; }
    catch (const Discard&) { return 1; }
    catch (const Failure& f) { what = f.what; return 2; }
    catch (const std::exception& x) { what = std::string("unexpected exception: ") + x.what(); return 2; }
    catch (...) { what = "unexpected exception"; return 2; }
}
}
extern "C" void __asan_on_error() __attribute__((weak));
extern "C" void __asan_on_error() { vc::dump("memory error reported by AddressSanitizer"); }

int main(int argc, char** argv) {
    using namespace vc;
    std::string mode = argc > 1 ? argv[1] : "list";
    if (mode == "list") {
        for (size_t i = 0; i < table().size(); i++)
            printf("%s|%d|%s|%s\n", table()[i].id.c_str(), table()[i].kind, table()[i].fns.c_str(), table()[i].bound.c_str());
        return 0;
    }
    curDriver = argv[2];
    const Entry* e = 0;
    for (size_t i = 0; i < table().size(); i++) if (table()[i].id == curDriver) e = &table()[i];
    if (!e) { printf("no driver %s\n", argv[2]); return 4; }
    signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig);
    int devnull = dup(1);
    (void)devnull;
    std::string what;
    if (mode == "replay") {
        replaying = true;
        if (argc > 4) outFile = argv[4];
        std::ifstream f(argv[3]);
        std::string l;
        while (std::getline(f, l)) {
            if (l.compare(0, 7, "driver ") == 0 || l.compare(0, 7, "failed ") == 0 || l.empty() || l[0] == '#') continue;
            size_t q = l.rfind('=');
            script.push_back(q == std::string::npos ? l : l.substr(q + 1));
        }
        int r = run1(*e, what);
        if (r == 2) { dump(what); printf("FAIL %s %s\n", curDriver.c_str(), what.c_str()); return 1; }
        printf(r == 1 ? "DISCARD\n" : "PASS\n");
        return r == 1 ? 5 : 0;
    }
    uint64_t seed = strtoull(argv[3], 0, 10);
    unsigned long runs = strtoul(argv[4], 0, 10);
    long ms = atol(argv[5]);
    outFile = argv[6];
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    unsigned long done = 0, disc = 0;
    uint64_t h = 0;
    std::map<uint64_t, int> seen;
    std::string sample;
    for (unsigned long i = 0; i < runs; i++) {
        rs = (seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull) | 1;
        for (int k = 0; k < 4; k++) rnd();
        int r = run1(*e, what);
        if (r == 2) {
            dump(what);
            printf("FAIL %s %s\n", curDriver.c_str(), what.c_str());
            return 1;
        }
        if (r == 1) disc++;
        else {
            done++;
            h = 1469598103934665603ull;
            for (size_t q = 0; q < trace.size(); q++) for (size_t z = 0; z < trace[q].size(); z++) h = (h ^ (unsigned char)trace[q][z]) * 1099511628211ull;
            if (seen.size() < 200000) seen[h] = 1;
            if (sample.empty() || (done == 17)) { sample.clear(); for (size_t q = 0; q < trace.size() && q < 24; q++) sample += trace[q] + " "; }
        }
        if ((i & 15) == 15 && std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count() > ms) break;
    }
    printf("OK %s runs=%lu discarded=%lu distinct=%zu checks=%lu sample=%s\n", curDriver.c_str(), done, disc, seen.size(), checks, sample.c_str());
    return 0;
}
