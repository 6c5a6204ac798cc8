// Deterministic simulation core: one seed -> one program (workload + schedule + faults)
// -> one exactly repeatable execution.  No wall clock, no OS randomness, no pointers in the log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <stdexcept>

namespace sim {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0xabcdef1234567ULL)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    // inclusive
    int64_t range(int64_t lo, int64_t hi) { if (hi <= lo) return lo; return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    bool chance(double p) { return u01() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)range(0, (int64_t)v.size() - 1)]; }
    int weighted(std::initializer_list<double> w) {
        double t = 0; for (double x : w) t += x;
        double r = uni(0, t); int i = 0, last = 0;
        for (double x : w) { if (x > 0) { last = i; if (r < x) return i; } r -= x; ++i; }
        return last;
    }
};

// One step of a program: an operation of one simulated task, or a fault.  Bulk numeric values come
// from the step's own seed, so that dropping a step never changes another one.
struct Step {
    std::string op;
    std::vector<int64_t> a;
    uint64_t seed = 0;
};

struct Program {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Step> steps;
    int64_t c(const char* k, int64_t def = 0) const { auto i = cfg.find(k); return i == cfg.end() ? def : i->second; }
    void add(const std::string& op, std::vector<int64_t> a, uint64_t seed) { Step s; s.op = op; s.a = std::move(a); s.seed = seed; steps.push_back(std::move(s)); }
    std::string serialise() const;
    static bool parse(const std::string& text, Program& out);
};

struct Violation {
    std::string cls;  // stable class: what kind of promise was broken
    std::string msg;
};

struct Stats {
    std::map<std::string, uint64_t> n;      // counters: fault:..., op:..., probe:...
    std::set<uint64_t> states;              // distinct abstract states / interleavings
    double sim_time = 0;
};

// Value source for one step (pure function of the step's seed).
struct Draw : Rng {
    bool simple;
    Draw(uint64_t seed, bool simple_) : Rng(seed), simple(simple_) {}
    double val(double a, double b) {
        double v = uni(a, b);
        if (simple && std::fabs(b - a) > 0.3) { double r = std::round(v * 8) / 8; if (r >= a && r <= b) return r; }
        return v;
    }
};

class Ctx {
public:
    uint64_t hash = 1469598103934665603ULL;
    uint64_t sched = 1469598103934665603ULL;  // hash of the schedule and fault sequence only
    Stats* stats = nullptr;
    bool verbose = false;
    bool simple = false;
    std::string trace;
    int step_no = -1;
    bool muted = false;     // suppress stats (second run of a pair)
    bool nontrivial = false; // set by the scenario when a fault fired or tasks interleaved

    void mixin(uint64_t v) { for (int i = 0; i < 8; ++i) { hash ^= (v >> (8 * i)) & 0xff; hash *= 1099511628211ULL; } }
    void d(double x) { if (x == 0) x = 0; uint64_t b; if (std::isnan(x)) b = 0x7ff8000000000000ULL; else std::memcpy(&b, &x, 8); mixin(b); if (verbose) note(" %.17g", x); }
    void i(int64_t x) { mixin((uint64_t)x); if (verbose) note(" %lld", (long long)x); }
    void s(const std::string& x) { for (unsigned char c : x) { hash ^= c; hash *= 1099511628211ULL; } if (verbose) note(" '%s'", x.c_str()); }
    void ev(const char* tag) { s_quiet(tag); if (verbose) note("\n[%d] %s", step_no, tag); for (const char* p = tag; *p; ++p) { sched ^= (unsigned char)*p; sched *= 1099511628211ULL; } }
    void s_quiet(const char* p) { for (; *p; ++p) { hash ^= (unsigned char)*p; hash *= 1099511628211ULL; } }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void fault(const char* kind) { ev(kind); bump(std::string("fault:") + kind); }
    void probe(const char* name) { bump(std::string("probe:") + name); }
    void op(const char* name) { bump(std::string("op:") + name); }
    void bump(const std::string& k, uint64_t by = 1);
    void cover(uint64_t sig);
    void time(double dt) { if (stats && !muted) stats->sim_time += dt; }
    [[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    Draw draw(const Step& st, uint64_t salt = 0) const { return Draw(st.seed ^ mix64(salt + 77), simple); }
};

struct Scenario {
    const char* id;
    const char* title;
    const char* level;
    void (*generate)(Rng&, Program&, bool thorough);
    void (*execute)(const Program&, Ctx&);
    // coverage texts for the evidence file
    const char* rule;
    std::vector<std::string> real_components, stub_components, assumptions;
    uint64_t quick_runs, thorough_runs;
    double quick_wall, thorough_wall;
    std::vector<std::string> required_probes;   // a probe stuck at zero is an error of the check
    bool leak_check = false;
    bool fill_pair = true;                      // run a sample twice under different fresh-memory fill
    // Deterministic witness programs of defects listed in KNOWN_FINDINGS (key -> program text).
    std::vector<std::pair<std::string, std::function<Program()>>> witnesses;
};

int sim_main(int argc, char** argv, const Scenario& sc);
int sim_dispatch(int argc, char** argv, const std::vector<const Scenario*>& all);

// ---- allocation seam -------------------------------------------------------------------------
namespace mem {
enum Fill { ZERO = 0, NANS = 1, BIG = 2, ONES = 3 };
void set_fill(int f);
void track_begin();                 // start counting live blocks
int64_t track_live();               // live blocks allocated since track_begin
int64_t track_bytes();
std::string track_describe();
void track_end();
void arm_failure(int64_t nth);      // nth allocation from now (0 = the next) fails; -1 disarms
bool fired();                       // whether an armed failure was delivered
int64_t allocations();              // number of allocations seen so far while armed/tracked
void arm_always(bool on);           // every allocation fails while on
struct NoTrack { bool old; NoTrack(); ~NoTrack(); };
}

// ---- crash note: the worker writes the pending crash class here before it dies ----------------
void crash_note(const char* cls, const char* msg);

// ---- tolerances -------------------------------------------------------------------------------
inline bool near_eq(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

}  // namespace sim
