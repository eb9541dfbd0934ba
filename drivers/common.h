// Replay / conformance drivers: compiled against /repo's current sources on every run.
// They search for a concrete failing input of a property and replay it; see DESIGN.md.
#pragma once
#include "prelude.h"
struct Fail { std::string what; };

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    unsigned below(unsigned n) { return next() % n; }
    int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
};

static bool vc_verbose = false;
static long vc_evals = 0;
static std::set<uint64_t> vc_distinct;
static std::string vc_trace;
static std::vector<std::string> vc_samples;

inline std::string fmt(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline void note(const std::string& s) {
    if (vc_trace.size() < 200000) vc_trace += s + "\n";
    if (vc_verbose) { fputs((s + "\n").c_str(), stdout); fflush(stdout); }
}
// count one evaluation of the property's oracle
inline void evaluated(long n = 1) { vc_evals += n; }
inline void distinct(uint64_t h) { vc_distinct.insert(h); }
inline uint64_t hashmix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t hashd(uint64_t h, double d) { uint64_t x; memcpy(&x, &d, 8); return hashmix(h, x); }

#define CHECK(cond, ...) do { evaluated(); if (!(cond)) throw Fail{fmt(__VA_ARGS__)}; } while (0)
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

// ---- supplied by each driver
void runcase(int k, Rng& r);
extern const int quick_cases, thorough_cases;

int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    bool thorough = argc > 2 && !strcmp(argv[2], "thorough");
    const char* casefile = argc > 3 ? argv[3] : "";
    int only = argc > 4 ? atoi(argv[4]) : -1;
    double limit = argc > 5 ? atof(argv[5]) : 1e9;
    vc_verbose = only >= 0;
    int n = thorough ? thorough_cases : quick_cases;
    FILE* cf = (*casefile && only < 0) ? fopen(casefile, "w") : nullptr;
    if (only < 0) { if (!freopen("/dev/null", "w", stderr)) {} }
    time_t t0 = time(0);
    int done = 0;
    for (int k = only >= 0 ? only : 0; k < (only >= 0 ? only + 1 : n); k++) {
        if (cf) { rewind(cf); fprintf(cf, "%d\n", k); fflush(cf); }
        Rng r(seed * 1000003ull + k * 7919ull);
        r.next();
        vc_trace.clear();
        std::string why;
        try { runcase(k, r); }
        catch (Fail& f) { why = f.what; }
        catch (ExitCalled& e) { why = fmt("the code under test called exit(%d)", e.code); }
        catch (std::exception& e) { why = std::string("exception: ") + e.what(); }
        if (!why.empty()) {
            printf("FAIL case %d: %s\n", k, why.c_str());
            if (!vc_verbose) printf("%s", vc_trace.c_str());
            return 1;
        }
        if (vc_samples.size() < 3) vc_samples.push_back(vc_trace.substr(0, 400));
        done++;
        if (difftime(time(0), t0) > limit) break;
    }
    printf("OK cases=%d evaluations=%ld distinct=%zu\n", done, vc_evals, vc_distinct.size());
    for (auto& s : vc_samples) { std::string q = s; for (auto& c : q) if (c == '\n') c = ';'; printf("SAMPLE %s\n", q.c_str()); }
    fflush(stdout);
    _exit(0);
}
