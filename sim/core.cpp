#include "core.hpp"
#include <atomic>
#include <new>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <typeinfo>
#include <cxxabi.h>

// =============================== allocation seam ==============================================
// Every operator new, and every malloc/realloc/free/posix_memalign made by code linked into this
// program from the library under test (Eigen's included), goes through here (ld --wrap).
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
#define SIM_ASAN 1
#endif
#endif
#ifndef SIM_ASAN
#include <malloc.h>
#endif

namespace sim { namespace mem {
static int g_fill = ZERO;
static bool g_track = false;
static int64_t g_fail_at = -1;
static bool g_always = false;
static bool g_fired = false;
static int64_t g_count = 0;
static int g_notrack = 0;
static const size_t TABLE = 1 << 20;
struct Ent { void* p; uint32_t sz; uint32_t serial; };
static Ent* g_tab = nullptr;      // open addressing, tombstones = (void*)1
static int64_t g_live = 0, g_bytes = 0;
static uint32_t g_serial = 0;

static void tab_init() {
    if (!g_tab) g_tab = (Ent*)mmap(0, TABLE * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static size_t hp(void* p) { return (size_t)(mix64((uint64_t)p) & (TABLE - 1)); }
static void tab_add(void* p, size_t n) {
    size_t h = hp(p);
    while (g_tab[h].p && g_tab[h].p != (void*)1) h = (h + 1) & (TABLE - 1);
    g_tab[h].p = p; g_tab[h].sz = (uint32_t)n; g_tab[h].serial = ++g_serial;
    ++g_live; g_bytes += n;
}
static void tab_del(void* p) {
    if (!g_tab || g_live == 0) return;
    size_t h = hp(p);
    while (g_tab[h].p) { if (g_tab[h].p == p) { g_tab[h].p = (void*)1; --g_live; g_bytes -= g_tab[h].sz; return; } h = (h + 1) & (TABLE - 1); }
}
void set_fill(int f) { g_fill = f; }
void track_begin() { tab_init(); memset(g_tab, 0, TABLE * sizeof(Ent)); g_live = g_bytes = 0; g_serial = 0; g_count = 0; g_track = true; }
int64_t track_live() { return g_live; }
int64_t track_bytes() { return g_bytes; }
std::string track_describe() {
    std::vector<std::pair<uint32_t, uint32_t>> v;
    for (size_t i = 0; i < TABLE; ++i) if (g_tab[i].p && g_tab[i].p != (void*)1) v.push_back({g_tab[i].serial, g_tab[i].sz});
    std::sort(v.begin(), v.end());
    std::string r;
    for (size_t i = 0; i < v.size() && i < 6; ++i) r += " #" + std::to_string(v[i].first) + ":" + std::to_string(v[i].second) + "B";
    return r;
}
void track_end() { g_track = false; }
void arm_failure(int64_t nth) { g_fail_at = nth; g_fired = false; }
void arm_always(bool on) { g_always = on; }
bool fired() { return g_fired; }
int64_t allocations() { return g_count; }
NoTrack::NoTrack() { old = g_notrack > 0; ++g_notrack; }
NoTrack::~NoTrack() { --g_notrack; }

static void fill(void* p, size_t n) {
    if (!p || g_notrack) return;
    switch (g_fill) {
    case ZERO: memset(p, 0, n); break;
    case NANS: memset(p, 0xff, n); break;
    case BIG: memset(p, 0x61, n); break;
    case ONES: { double one = 1.0; size_t i = 0; for (; i + 8 <= n; i += 8) memcpy((char*)p + i, &one, 8); for (; i < n; ++i) ((char*)p)[i] = 1; break; }
    }
}
static bool should_fail() {
    if (g_notrack) return false;
    ++g_count;
    if (g_always) { g_fired = true; return true; }
    if (g_fail_at >= 0) { if (g_fail_at-- == 0) { g_fired = true; return true; } }
    return false;
}
static void* do_alloc(size_t n, size_t al) {
    if (should_fail()) return nullptr;
    void* p = nullptr;
    if (al > 16) { if (__real_posix_memalign(&p, al, n ? n : 1)) p = nullptr; }
    else p = __real_malloc(n ? n : 1);
    if (p) { fill(p, n); if (g_track && !g_notrack) tab_add(p, n); }
    return p;
}
static void do_free(void* p) { if (!p) return; tab_del(p); __real_free(p); }
}}  // namespace sim::mem

using sim::mem::do_alloc; using sim::mem::do_free;
extern "C" {
void* __wrap_malloc(size_t n) { return do_alloc(n, 0); }
void* __wrap_calloc(size_t a, size_t b) { if (sim::mem::should_fail()) return nullptr; void* p = __real_calloc(a ? a : 1, b ? b : 1); if (p && sim::mem::g_track && !sim::mem::g_notrack) sim::mem::tab_add(p, a * b); return p; }
void __wrap_free(void* p) { do_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return do_alloc(n, 0);
    if (n == 0) { do_free(p); return nullptr; }
    if (sim::mem::should_fail()) return nullptr;
#ifdef SIM_ASAN
    size_t old = __sanitizer_get_allocated_size(p);
#else
    size_t old = malloc_usable_size(p);
#endif
    sim::mem::tab_del(p);
    void* q = __real_realloc(p, n);
    if (q) { if (n > old) sim::mem::fill((char*)q + old, n - old); if (sim::mem::g_track && !sim::mem::g_notrack) sim::mem::tab_add(q, n); }
    return q;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) { void* p = do_alloc(n, al < 32 ? 32 : al); if (!p) return ENOMEM; *out = p; return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
}
static void* new_or_throw(size_t n, size_t al = 0) { void* p = do_alloc(n, al); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return new_or_throw(n); }
void* operator new[](size_t n) { return new_or_throw(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, size_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t) noexcept { do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p); }

// =============================== crash handling ===============================================
namespace sim {
struct Shared {
    volatile uint64_t cur;
    volatile uint64_t done;
    volatile int has_note;
    char cls[160];
    char msg[600];
    char err[240];   // name of the sanitizer log
};
static Shared* g_shared = nullptr;

void crash_note(const char* cls, const char* msg) {
    if (!g_shared || g_shared->has_note) return;
    snprintf(g_shared->cls, sizeof g_shared->cls, "%s", cls);
    snprintf(g_shared->msg, sizeof g_shared->msg, "%s", msg);
    g_shared->has_note = 1;
}
}
extern "C" void sim_assert_failed(const char* expr, const char* file, int line) {
    const char* b = strrchr(file, '/');
    char cls[160], msg[600];
    snprintf(cls, sizeof cls, "crash:assertion");
    snprintf(msg, sizeof msg, "assertion failed: %.300s at %s:%d", expr, b ? b + 1 : file, line);
    sim::crash_note(cls, msg);
    _exit(97);
}
extern "C" void __assert_fail(const char* e, const char* f, unsigned int l, const char*) noexcept { sim_assert_failed(e, f, (int)l); _exit(97); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=0:handle_segv=1:detect_stack_use_after_return=0:symbolize=1:print_summary=1:color=never:malloc_context_size=6:quarantine_size_mb=8"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=99:print_stacktrace=0:color=never"; }

namespace sim {
// =============================== program text ==================================================
std::string Program::serialise() const {
    std::ostringstream o;
    o << "# deterministic simulation replay: replay with  sim/run.py --replay <this file>\n";
    o << "property " << prop << "\nseed " << seed << "\n";
    for (auto& k : cfg) o << "cfg " << k.first << " " << k.second << "\n";
    for (auto& s : steps) { o << "step " << s.op << " " << s.seed; for (auto x : s.a) o << " " << x; o << "\n"; }
    return o.str();
}
bool Program::parse(const std::string& text, Program& out) {
    std::istringstream in(text); std::string line;
    out = Program();
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if (k == "property") l >> out.prop;
        else if (k == "seed") l >> out.seed;
        else if (k == "cfg") { std::string n; int64_t v; l >> n >> v; out.cfg[n] = v; }
        else if (k == "step") { Step s; l >> s.op >> s.seed; int64_t v; while (l >> v) s.a.push_back(v); out.steps.push_back(s); }
        else if (k == "expect") {}
        else return false;
    }
    return !out.prop.empty();
}

void Ctx::note(const char* fmt, ...) {
    if (!verbose) return;
    mem::NoTrack nt;
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (trace.size() < (1 << 20)) trace += b;
}
void Ctx::bump(const std::string& k, uint64_t by) {
    if (!stats || muted) return;
    mem::NoTrack nt;
    stats->n[std::string(k.c_str())] += by;
}
void Ctx::cover(uint64_t sig) {
    if (!stats || muted) return;
    mem::NoTrack nt;
    if (stats->states.size() < 400000) stats->states.insert(sig);
}
void Ctx::fail(const std::string& cls, const char* fmt, ...) {
    mem::NoTrack nt;
    char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (verbose) note("\n[%d] VIOLATION %s: %s\n", step_no, cls.c_str(), b);
    Violation v; v.cls = cls.c_str();
    char c[1000]; snprintf(c, sizeof c, "step %d: %s", step_no, b); v.msg = c;
    throw v;
}

// =============================== running one program ===========================================
struct Outcome { bool ok = true; std::string cls, msg; uint64_t hash = 0, sched = 0; bool nontrivial = false; std::string trace; int64_t live = 0; };

static Outcome run_once(const Scenario& sc, const Program& p, int fill, Stats* st, bool muted, bool verbose) {
    Outcome o;
    Ctx c; c.stats = st; c.muted = muted; c.verbose = verbose; c.simple = p.c("simple", 0) != 0;
    mem::set_fill(fill);
    mem::arm_failure(-1); mem::arm_always(false);
    if (sc.leak_check) mem::track_begin();
    try { sc.execute(p, c); }
    catch (Violation& v) { o.ok = false; o.cls = v.cls; o.msg = v.msg; }
    catch (std::exception& e) { int s; mem::NoTrack nt; mem::arm_failure(-1); mem::arm_always(false); char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &s); o.ok = false; o.cls = std::string("unexpected-exception:") + (n ? n : "?"); o.msg = std::string(e.what()) + " at step " + std::to_string(c.step_no); free(n); }
    catch (...) { mem::NoTrack nt; mem::arm_failure(-1); mem::arm_always(false); o.ok = false; std::type_info* t = abi::__cxa_current_exception_type(); int s; char* n = t ? abi::__cxa_demangle(t->name(), 0, 0, &s) : 0; o.cls = std::string("unexpected-exception:") + (n ? n : "?"); o.msg = "at step " + std::to_string(c.step_no); free(n); }
    mem::arm_failure(-1); mem::arm_always(false);
    if (sc.leak_check) { o.live = mem::track_live(); mem::track_end(); }
    mem::set_fill(mem::ZERO);
    o.hash = c.hash; o.sched = c.sched; o.nontrivial = c.nontrivial; o.trace = c.trace;
    return o;
}

// The full verdict on one program: one run, plus (when asked) a second run under a different
// fresh-memory content, plus the leak verdict (a leak must repeat, so that lazily made statics are not one).
static Outcome verdict(const Scenario& sc, const Program& p, Stats* st, bool pair, bool verbose) {
    int f1 = (int)(mix64(p.seed ^ 0x5151) % 4), f2 = (f1 + 1 + (int)(mix64(p.seed ^ 0x77) % 3)) % 4;
    Outcome a = run_once(sc, p, f1, st, false, verbose);
    if (!a.ok) return a;
    if (pair) {
        Outcome b = run_once(sc, p, f2, st, true, verbose);
        if (!b.ok) return b;
        if (a.hash != b.hash) { Outcome a2 = run_once(sc, p, f1, st, true, false);
            if (a2.ok && a2.hash != a.hash) { a.ok = false; a.cls = "nondeterminism"; a.msg = "the same program run twice in one process gave different logs"; return a; }
            a.ok = false; a.cls = "uninitialised-memory"; a.msg = "the observable results change with the content of freshly allocated memory"; return a; }
    }
    if (sc.leak_check && a.live > 0) {
        Outcome b = run_once(sc, p, f1, st, true, false);
        if (b.ok && b.live > 0) {
            mem::track_begin(); mem::track_end();
            Outcome d = run_once(sc, p, f1, st, true, false);
            if (d.ok && d.live > 0) { a.ok = false; a.cls = "leak"; a.msg = std::to_string(d.live) + " blocks still allocated after every object was destroyed:" + mem::track_describe(); }
        }
    }
    return a;
}

static std::string read_file(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static void crash_from_log(const std::string& log, int status, std::string& cls, std::string& msg) {
    std::string l = log;
    size_t k = l.find("ERROR: AddressSanitizer: ");
    if (k != std::string::npos) {
        size_t e = l.find_first_of(" \n", k + 25); std::string kind = l.substr(k + 25, e - k - 25);
        cls = "crash:asan:" + kind;
        msg = "AddressSanitizer " + kind;
        // first frame that belongs to the library
        size_t q = k;
        for (int i = 0; i < 12; ++i) { q = l.find("\n    #", q + 1); if (q == std::string::npos) break; size_t e2 = l.find('\n', q + 1); std::string fr = l.substr(q, e2 - q); if (fr.find("KDL::") != std::string::npos || fr.find("/orocos_kdl/") != std::string::npos) { size_t in = fr.find(" in "); std::string f = in == std::string::npos ? fr : fr.substr(in + 4); msg += " in " + f.substr(0, 200); break; } }
        return;
    }
    k = l.find("runtime error: ");
    if (k != std::string::npos) {
        size_t e = l.find('\n', k); size_t b = l.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1;
        cls = "crash:ubsan"; msg = l.substr(b, e - b); if (msg.size() > 300) msg.resize(300); return;
    }
    if (WIFSIGNALED(status)) { cls = "crash:signal-" + std::to_string(WTERMSIG(status)); msg = "the process died of signal " + std::to_string(WTERMSIG(status)); if (l.size()) { size_t e = l.find('\n'); msg += ": " + l.substr(0, std::min<size_t>(e == std::string::npos ? l.size() : e, 200)); } if (WTERMSIG(status) == SIGVTALRM || WTERMSIG(status) == SIGXCPU) { cls = "hang"; msg = "no progress: the run used its whole CPU budget"; } return; }
    cls = "crash:exit-" + std::to_string(WEXITSTATUS(status)); msg = l.substr(0, 200);
}

static void cpu_guard(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, nullptr); signal(SIGVTALRM, SIG_DFL); }
static void redirect_stderr(const std::string& path) { int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); } int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); close(n); } }

static std::string g_scratch;
static Shared* new_shared() { return (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

// run a program in a child process; crashes become outcomes
static Outcome run_isolated(const Scenario& sc, const Program& p, bool pair, bool verbose = false) {
    static int serial = 0;
    std::string base = g_scratch + "/iso" + std::to_string(getpid()) + "_" + std::to_string(serial++);
    Shared* sh = new_shared(); memset(sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_shared = sh; redirect_stderr(base + ".err"); cpu_guard(20);
        Outcome o = verdict(sc, p, nullptr, pair, verbose);
        std::ofstream f(base + ".out");
        f << (o.ok ? 1 : 0) << "\n" << o.cls << "\n" << o.hash << "\n" << o.sched << "\n" << o.msg.size() << "\n" << o.msg << o.trace;
        f.close(); _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        std::string t = read_file(base + ".out"); std::istringstream in(t); int ok; size_t n = 0; std::string line;
        in >> ok; std::getline(in, line); std::getline(in, o.cls); in >> o.hash >> o.sched >> n; std::getline(in, line);
        std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        o.msg = rest.substr(0, n); o.trace = rest.size() > n ? rest.substr(n) : ""; o.ok = ok != 0;
    } else {
        o.ok = false;
        if (sh->has_note) { o.cls = sh->cls; o.msg = sh->msg; }
        else crash_from_log(read_file(base + ".err"), st, o.cls, o.msg);
    }
    unlink((base + ".out").c_str()); unlink((base + ".err").c_str());
    munmap(sh, sizeof *sh);
    return o;
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// =============================== minimisation ===================================================
static Program minimise(const Scenario& sc, Program p, const std::string& cls, bool pair, double budget_s, int& tries) {
    double t0 = now_s();
    auto still = [&](const Program& q) { ++tries; Outcome o = run_isolated(sc, q, pair); return !o.ok && o.cls == cls; };
    // chunks of steps
    for (size_t n = std::max<size_t>(1, p.steps.size() / 2); n >= 1; n /= 2) {
        bool again = true;
        while (again && now_s() - t0 < budget_s) {
            again = false;
            for (size_t i = 0; i + n <= p.steps.size() && now_s() - t0 < budget_s;) {
                Program q = p; q.steps.erase(q.steps.begin() + i, q.steps.begin() + i + n);
                if (still(q)) { p = q; again = true; } else i += n;
            }
        }
        if (n == 1) break;
    }
    // simpler configuration and arguments
    if (now_s() - t0 < budget_s) { Program q = p; q.cfg["simple"] = 1; if (still(q)) p = q; }
    for (auto& kv : std::map<std::string, int64_t>(p.cfg)) {
        if (kv.first == "simple") continue;
        for (int64_t cand : {int64_t(0), int64_t(1), kv.second / 2, kv.second - 1}) {
            if (now_s() - t0 > budget_s) break;
            if (cand < 0 || cand >= p.cfg[kv.first]) continue;
            Program q = p; q.cfg[kv.first] = cand; if (still(q)) { p = q; break; }
        }
    }
    for (size_t i = 0; i < p.steps.size(); ++i) for (size_t j = 0; j < p.steps[i].a.size(); ++j)
        for (int64_t cand : {int64_t(0), int64_t(1)}) {
            if (now_s() - t0 > budget_s) break;
            if (p.steps[i].a[j] == cand || p.steps[i].a[j] < cand) continue;
            Program q = p; q.steps[i].a[j] = cand; if (still(q)) { p = q; break; }
        }
    return p;
}

static std::string json_escape(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

struct Found { uint64_t index; std::string cls, msg; };

static int report(const Scenario& sc, const Program& orig, const Found& f, bool pair, const std::string& self, const std::string& replay_dir, double min_budget) {
    // gate 1: same seed twice in fresh processes -> same outcome
    Outcome a = run_isolated(sc, orig, pair), b = run_isolated(sc, orig, pair);
    if (a.ok || b.ok || a.cls != b.cls || a.hash != b.hash || a.cls == "nondeterminism") {
        printf("ERROR: seed %llu does not reproduce (%s / %s): %s\n", (unsigned long long)orig.seed, a.ok ? "ok" : a.cls.c_str(), b.ok ? "ok" : b.cls.c_str(), f.cls.c_str());
        return 2;
    }
    int tries = 0;
    Program m = minimise(sc, orig, a.cls, pair, min_budget, tries);
    Outcome v = run_isolated(sc, m, pair, true);
    if (v.ok || v.cls != a.cls) { m = orig; v = run_isolated(sc, m, pair, true); }
    mkdir(replay_dir.c_str(), 0755);
    char name[256]; snprintf(name, sizeof name, "%s/%s-%016llx.replay", replay_dir.c_str(), sc.id, (unsigned long long)orig.seed);
    { std::ofstream o(name); o << m.serialise() << "expect " << v.cls << " " << v.hash << "\n";
      std::string msg = v.msg; for (char& ch : msg) if (ch == '\n' || ch == '\r') ch = ' ';
      o << "# violation: " << v.cls << "\n# " << msg << "\n# minimised from " << orig.steps.size() << " to " << m.steps.size() << " steps in " << tries << " simulated runs; original seed " << orig.seed << "\n";
      std::istringstream t(v.trace); std::string line; while (std::getline(t, line)) o << "# " << line << "\n"; }
    // gate 2: a fresh process replays the file
    std::string cmd = "'" + self + "' --prop " + sc.id + " --replay '" + name + "' --quiet >/dev/null 2>&1";
    int rc = system(cmd.c_str());
    if (!(WIFEXITED(rc) && WEXITSTATUS(rc) == 1)) { printf("ERROR: replay of %s in a fresh process did not reproduce (rc=%d)\n", name, rc); return 2; }
    printf("violation class: %s\n  %s\n", v.cls.c_str(), v.msg.c_str());
    printf("  seed %llu, minimised %zu -> %zu steps\n", (unsigned long long)orig.seed, orig.steps.size(), m.steps.size());
    printf("VIOLATION property=%s replay=%s\n", sc.id, name);
    return 1;
}

// Callers ask for the same thing again: in some runs a later step takes over the seed of an earlier one, and often
// all of it, so that a call is repeated with the same arguments after the world has changed in between.
static void repeat_steps(Program& p) {
    Rng r(mix64(p.seed ^ 0x5eedULL)); if (!r.chance(0.35)) return; double rate = r.uni(0.1, 0.6); size_t n = p.steps.size();
    for (size_t i = 1; i < n; ++i) {
        Step& s = p.steps[i]; if (!r.chance(rate)) continue; bool any = r.chance(0.2), whole = r.chance(0.5); int64_t back = r.weighted({4, 2, 1, 1});
        for (size_t j = i; j-- > 0;) { const Step& e = p.steps[j]; if (!any && e.op != s.op) continue; if (back-- > 0) continue; s.seed = e.seed; if (whole && e.op == s.op) s.a = e.a; break; }
    }
}
int sim_main(int argc, char** argv, const Scenario& sc) {
    std::map<std::string, std::string> o;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a.substr(0, 2) == "--") { if (i + 1 < argc && std::string(argv[i + 1]).substr(0, 2) != "--") { o[a.substr(2)] = argv[i + 1]; ++i; } else o[a.substr(2)] = "1"; } }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    { char t[] = "/tmp/kdlsimXXXXXX"; char* d = mkdtemp(t); if (!d) { perror("mkdtemp"); return 2; } g_scratch = d; }
    struct Cleaner { ~Cleaner() { rmdir(g_scratch.c_str()); } } cleaner;

    if (o.count("replay")) {
        std::string text = read_file(o["replay"]); Program p;
        if (!Program::parse(text, p) || p.prop != sc.id) { fprintf(stderr, "bad replay file\n"); return 2; }
        std::string ecls; uint64_t ehash = 0; { std::istringstream in(text); std::string l; while (std::getline(in, l)) if (l.compare(0, 7, "expect ") == 0) { std::istringstream q(l.substr(7)); std::string w; std::vector<std::string> ws; while (q >> w) ws.push_back(w); if (ws.size() >= 2) { ehash = strtoull(ws.back().c_str(), 0, 10); for (size_t i = 0; i + 1 < ws.size(); ++i) ecls += (i ? " " : "") + ws[i]; } } }
        Outcome v = run_isolated(sc, p, sc.fill_pair, !o.count("quiet"));
        if (!o.count("quiet")) printf("%s\n", v.trace.c_str());
        if (v.ok) { printf("replay: the property held\n"); return 0; }
        printf("replay: %s: %s\n", v.cls.c_str(), v.msg.c_str());
        if (!ecls.empty() && (ecls != v.cls || ehash != v.hash)) { printf("replay: differs from the recorded outcome (%s hash %llu, now %llu)\n", ecls.c_str(), (unsigned long long)ehash, (unsigned long long)v.hash); return o.count("strict") ? 2 : (ecls == v.cls ? 1 : 2); }
        printf("VIOLATION property=%s replay=%s\n", sc.id, o["replay"].c_str());
        return 1;
    }

    bool thorough = o.count("tier") && o["tier"] == "thorough";
    uint64_t base_seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : 1;
    uint64_t runs = o.count("runs") ? strtoull(o["runs"].c_str(), 0, 10) : (thorough ? sc.thorough_runs : sc.quick_runs);
    double wall = o.count("wall") ? atof(o["wall"].c_str()) : (thorough ? sc.thorough_wall : sc.quick_wall);
    int W = o.count("workers") ? atoi(o["workers"].c_str()) : (int)std::max(1L, std::min(8L, sysconf(_SC_NPROCESSORS_ONLN)));
    std::string evidence = o.count("evidence") ? o["evidence"] : "";
    std::string replay_dir = o.count("replay-dir") ? o["replay-dir"] : "/verif/evidence/replays";
    auto seed_of = [&](uint64_t i) { return mix64(base_seed * 1000003ULL ^ mix64(i) ^ mix64((uint64_t)sc.id[0] * 131 + (uint64_t)atoi(sc.id + 1))); };
    auto gen = [&](uint64_t i) { Program p; p.prop = sc.id; p.seed = seed_of(i); Rng r(p.seed); sc.generate(r, p, thorough); repeat_steps(p); return p; };
    auto is_pair = [&](uint64_t i) { return sc.fill_pair && (i % 4 == 0); };
    printf("%s: simulation, tier %s, VERIF_SEED=%llu, up to %llu runs or %.0f s, %d workers\n", sc.id, thorough ? "thorough" : "quick", (unsigned long long)base_seed, (unsigned long long)runs, wall, W);
    if (o.count("direct")) { Program p; if (o.count("file")) Program::parse(read_file(o["file"]), p); else p = gen(strtoull(o["direct"].c_str(), 0, 10)); Outcome v = verdict(sc, p, nullptr, true, true); printf("%s\n%s %s\n", v.trace.c_str(), v.ok ? "ok" : v.cls.c_str(), v.msg.c_str()); return 0; }
    if (o.count("dump")) { Program p = gen(strtoull(o["dump"].c_str(), 0, 10)); printf("%s", p.serialise().c_str()); Outcome v = run_isolated(sc, p, true, true); printf("%s\n%s %s\n", v.trace.c_str(), v.ok ? "ok" : v.cls.c_str(), v.msg.c_str()); return 0; }

    double t0 = now_s();
    std::vector<Found> found; Stats total; uint64_t done = 0, nontrivial_runs = 0; std::set<uint64_t> distinct; uint64_t logdigest = 0;
    int crashes_err = 0;
    bool keep_going = o.count("survey") != 0;
    struct Wk { pid_t pid = 0; Shared* sh = nullptr; std::string out; uint64_t next; double last_t = 0; uint64_t last_done = 0; bool over = false; };
    std::vector<Wk> ws(W);
    auto start = [&](int w) {
        Wk& k = ws[w];
        static int serial = 0; k.out = g_scratch + "/w" + std::to_string(w) + "_" + std::to_string(serial++);
        if (!k.sh) k.sh = new_shared();
        memset(k.sh, 0, sizeof *k.sh); k.sh->cur = k.next;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_shared = k.sh; redirect_stderr(k.out + ".err");
            Stats st; std::set<uint64_t> dist; uint64_t cnt = 0, ntr = 0, dig = 0; std::vector<Found> fv;
            auto flush = [&](bool last) {
                std::ofstream f(k.out + ".tmp");
                f << "cnt " << cnt << "\nntr " << ntr << "\ndig " << dig << "\n"; f.precision(17); f << "time " << st.sim_time << "\n";
                for (auto& x : st.n) f << "n " << x.second << " " << x.first << "\n";
                for (auto x : st.states) f << "s " << x << "\n";
                for (auto x : dist) f << "d " << x << "\n";
                for (auto& x : fv) { std::string m = x.msg; for (auto& ch : m) if (ch == '\n') ch = ' '; f << "v " << x.index << "\t" << x.cls << "\t" << m << "\n"; }
                f.close(); rename((k.out + ".tmp").c_str(), (k.out + ".out").c_str()); (void)last;
            };
            double tw = now_s();
            for (uint64_t i = k.next; i < runs; i += W) {
                k.sh->cur = i; k.sh->has_note = 0; cpu_guard(25);
                Program p = gen(i);
                Outcome v = verdict(sc, p, &st, is_pair(i), false);
                ++cnt; k.sh->done = cnt;
                dig ^= mix64(v.hash ^ mix64(i));
                if (v.nontrivial && v.ok) { ++ntr; if (dist.size() < 400000) dist.insert(v.sched); }
                if (!v.ok) { fv.push_back({i, v.cls, v.msg}); if (!keep_going) break; }
                if (now_s() - t0 > wall) break;
                if (now_s() - tw > 5) { tw = now_s(); cpu_guard(0); flush(false); }
            }
            cpu_guard(0); flush(true); _exit(0);
        }
        k.pid = pid;
    };
    auto absorb = [&](Wk& k) {
        std::ifstream f(k.out + ".out"); std::string line;
        while (std::getline(f, line)) {
            std::istringstream l(line); std::string t; l >> t;
            if (t == "cnt") { uint64_t x; l >> x; done += x; } else if (t == "ntr") { uint64_t x; l >> x; nontrivial_runs += x; }
            else if (t == "dig") { uint64_t x; l >> x; logdigest ^= x; }
            else if (t == "time") { double x; l >> x; total.sim_time += x; }
            else if (t == "n") { uint64_t x; std::string r; l >> x; l.get(); std::getline(l, r); total.n[r] += x; }
            else if (t == "s") { uint64_t x; l >> x; total.states.insert(x); } else if (t == "d") { uint64_t x; l >> x; distinct.insert(x); }
            else if (t == "v") { std::string rest = line.substr(2); size_t a = rest.find('\t'), b = rest.find('\t', a + 1); found.push_back({strtoull(rest.c_str(), 0, 10), rest.substr(a + 1, b - a - 1), rest.substr(b + 1)}); }
        }
        unlink((k.out + ".out").c_str()); unlink((k.out + ".err").c_str()); unlink((k.out + ".tmp").c_str());
    };
    for (int w = 0; w < W; ++w) { ws[w].next = w; start(w); }
    int alive = W; bool stop = false;
    while (alive > 0) {
        int st; pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) break;
        for (int w = 0; w < W; ++w) if (ws[w].pid == pid) {
            Wk& k = ws[w]; k.pid = 0; size_t before = found.size();
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { absorb(k); --alive; if (found.size() > before && !keep_going) stop = true; }
            else if (stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { absorb(k); --alive; }
            else {
                Found f; f.index = k.sh->cur;
                if (k.sh->has_note) { f.cls = k.sh->cls; f.msg = k.sh->msg; } else crash_from_log(read_file(k.out + ".err"), st, f.cls, f.msg);
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++crashes_err; f.cls = ""; }
                absorb(k); if (!f.cls.empty()) found.push_back(f);
                if (keep_going && found.size() < 4000 && now_s() - t0 < wall && k.sh->cur + W < runs) { k.next = k.sh->cur + W; start(w); }
                else { --alive; stop = stop || !keep_going; }
            }
            if (stop) for (auto& q : ws) if (q.pid) kill(q.pid, SIGKILL);
        }
    }
    double t_explore = now_s() - t0;
    std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.index < b.index; });

    if (keep_going) {
        std::map<std::string, std::pair<int, Found>> by;
        for (auto& f : found) { auto& e = by[f.cls]; if (!e.first++) e.second = f; }
        printf("survey: %llu runs, %zu failing\n", (unsigned long long)done, found.size());
        for (auto& e : by) printf("  %6d x %s\n      e.g. run %llu: %s\n", e.second.first, e.first.c_str(), (unsigned long long)e.second.second.index, e.second.second.msg.c_str());
        for (auto& n : total.n) printf("    %-44s %llu\n", n.first.c_str(), (unsigned long long)n.second);
        return found.empty() ? 0 : 1;
    }

    int rc = 0;
    // determinism: re-run a sample of runs in fresh processes and compare log hashes
    uint64_t det_checked = 0, det_bad = 0;
    if (found.empty()) {
        uint64_t nsamp = thorough ? 64 : 16;
        for (uint64_t j = 0; j < nsamp && j < done; ++j) {
            uint64_t i = mix64(base_seed ^ j) % std::max<uint64_t>(1, done);
            Program p = gen(i); Outcome a = run_isolated(sc, p, false), b = run_isolated(sc, p, false); ++det_checked;
            if (a.hash != b.hash || a.ok != b.ok) { ++det_bad; printf("ERROR: run %llu is not deterministic\n", (unsigned long long)i); }
        }
        if (det_bad) rc = 2;
    }
    std::vector<std::string> samples;
    for (uint64_t i : {uint64_t(0), uint64_t(1)}) if (i < runs) { Program p = gen(i); std::string s = p.serialise(); if (s.size() > 1500) s = s.substr(0, 1500) + "..."; samples.push_back(s); }

    // witnesses of known findings
    std::string known_path = o.count("known") ? o["known"] : "";
    std::map<std::string, std::string> known;
    if (!known_path.empty()) { std::ifstream f(known_path); std::string line; while (std::getline(f, line)) { if (line.compare(0, 6, "known:")) continue; std::istringstream l(line.substr(6)); std::string a, b, rest; l >> a >> b; std::getline(l, rest); if (a == std::string("property=") + sc.id && b.compare(0, 4, "key=") == 0) known[b.substr(4)] = rest; } }
    for (auto& w : sc.witnesses) {
        Program p = w.second(); p.prop = sc.id;
        Outcome v = run_isolated(sc, p, sc.fill_pair);
        if (v.ok) { printf("note: known finding %s no longer occurs\n", w.first.c_str()); continue; }
        if (known.count(w.first)) printf("KNOWN-FINDING: property=%s %s:%s\n", sc.id, w.first.c_str(), known[w.first].c_str());
        else { found.push_back({~0ULL, v.cls, v.msg}); int r = report(sc, p, found.back(), sc.fill_pair, argv[0], replay_dir, 30); rc = std::max(rc, r == 2 ? 2 : 1); if (r == 1) rc = 1; }
    }
    if (!found.empty() && rc == 0) {
        const Found& f = found[0];
        Program p = gen(f.index);
        rc = report(sc, p, f, is_pair(f.index) || f.cls == "uninitialised-memory", argv[0], replay_dir, thorough ? 90 : 45);
    }
    if (found.empty() && crashes_err) { printf("ERROR: %d workers were killed from outside\n", crashes_err); rc = 2; }
    if (rc == 0 && done == 0) { printf("ERROR: no run completed\n"); rc = 2; }
    std::vector<std::string> stuck;
    if (rc == 0) for (auto& p : sc.required_probes) if (!total.n.count(p)) stuck.push_back(p);

    double wall_s = now_s() - t0;
    uint64_t faults = 0; for (auto& n : total.n) if (n.first.compare(0, 6, "fault:") == 0) faults += n.second;
    printf("%s: %llu runs (%.0f runs/h), %zu distinct non-trivial schedules, %zu distinct states, %llu faults injected, simulated time %.1f s, %llu determinism re-runs, wall %.1f s\n", sc.id, (unsigned long long)done, done / std::max(1e-9, t_explore) * 3600, distinct.size(), total.states.size(), (unsigned long long)faults, total.sim_time, (unsigned long long)det_checked, wall_s);
    for (auto& p : stuck) printf("note: probe %s was never hit in this run\n", p.c_str());
    if (!evidence.empty()) {
        std::ofstream e(evidence + ".tmp");
        auto list = [&](const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + ("\"" + json_escape(v[i]) + "\""); return r + "]"; };
        auto counters = [&](const char* prefix) { std::string r = "{"; bool first = true; size_t n = strlen(prefix); for (auto& x : total.n) if (x.first.compare(0, n, prefix) == 0) { r += (first ? "" : ", ") + ("\"" + json_escape(x.first.substr(n)) + "\": ") + std::to_string(x.second); first = false; } return r + "}"; };
        e << "{\n \"property\": \"" << sc.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << base_seed << ",\n \"level\": \"" << sc.level << "\",\n";
        e << " \"coverage\": {\n  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": \"" << json_escape(sc.rule) << "\",\n";
        e << "  \"nontrivial_runs\": " << nontrivial_runs << ",\n  \"distinct_states\": " << total.states.size() << ",\n";
        e << "  \"simulated_runs_per_hour\": " << (uint64_t)(done / std::max(1e-9, t_explore) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(done / std::max(1e-9, t_explore) * 3600) << ",\n";
        e << "  \"simulated_time_s\": " << total.sim_time << ",\n  \"faults_injected\": " << counters("fault:") << ",\n  \"operations\": " << counters("op:") << ",\n  \"probes\": " << counters("probe:") << ",\n";
        e << "  \"determinism\": {\"runs_repeated_in_fresh_processes\": " << det_checked << ", \"log_hash_mismatches\": " << det_bad << ", \"log_digest\": \"" << std::hex << logdigest << std::dec << "\"},\n";
        e << "  \"ran_real_code\": " << list(sc.real_components) << ",\n  \"ran_stub\": " << list(sc.stub_components) << ",\n  \"probes_never_hit\": " << list(stuck) << ",\n  \"samples\": " << list(samples) << "\n },\n";
        e << " \"assumptions\": " << list(sc.assumptions) << ",\n \"wall_s\": " << wall_s << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
        e.close(); rename((evidence + ".tmp").c_str(), evidence.c_str());
    }
    return rc;
}
int sim_dispatch(int argc, char** argv, const std::vector<const Scenario*>& all) {
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--prop")) for (auto* s : all) if (!strcmp(argv[i + 1], s->id)) return sim_main(argc, argv, *s);
    fprintf(stderr, "unknown property\n"); return 2;
}
}  // namespace sim
