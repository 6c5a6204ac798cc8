// C01: callers in different threads.  Real threads, of which exactly one runs at a time: a baton passes between
// them at seeded memory accesses and branches of the library (compiler callbacks), so one seed is one interleaving.
// Every phase (all callers together, then each caller alone) runs in a fresh process in which the library has not
// run before; the verdict compares results bit by bit and never looks at the accesses themselves.
#include "motgen.hpp"
#include "treegen.hpp"
#include "zoo.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "kinfam_io.hpp"
#include "frames_io.hpp"
#include "utilities/error_stack.h"
#include "utilities/svd_HH.hpp"
#include "utilities/svd_eigen_HH.hpp"
#include "utilities/svd_eigen_Macie.hpp"
#include "utilities/ldl_solver_eigen.hpp"
#include <sstream>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#define RAW __attribute__((no_sanitize("coverage"), noinline))
using namespace gen; using namespace KDL;
extern "C" char __data_start, end;
namespace {
const int MAXT = 4, CAP = 6000, HOTS = 4096, PLAN = 512;
struct Result { int64_t n; uint64_t hash; int done; int threw; double v[CAP]; };
struct Shm {
    Result r[MAXT]; uintptr_t hot[HOTS]; int nhot; int64_t ticks, hot_ticks; int64_t switches, hot_switches, blocked, rotations; uint64_t order; int stuck; int started;
};
// ---- the baton.  Plain data only: this code is called from inside the library at every memory access.
struct Plan { int64_t gap; int target; };
struct Sched {
    bool active, record; int tasks, live; bool alive[MAXT]; int cur; sem_t go[MAXT], done; Plan plan[PLAN], hots[PLAN]; int nplan, nhots, iplan, ihot; int64_t left, hot_left, spin; uintptr_t heap_lo, heap_hi; Shm* shm;
} G;
__thread int g_me = -1; __thread bool g_in = false;
RAW bool shared_memory(uintptr_t a) { return (a >= (uintptr_t)&__data_start && a < (uintptr_t)&end) || (a >= G.heap_lo && a < G.heap_hi); }
RAW size_t slot(uintptr_t a) { uint64_t z = (uint64_t)(a >> 3) * 0x9e3779b97f4a7c15ULL; return (size_t)(z >> 52) & (HOTS - 1); }
RAW bool is_hot(uintptr_t a) { if (!G.shm->nhot) return false; a >>= 3; size_t h = slot(a << 3); for (int k = 0; k < HOTS && G.shm->hot[h]; ++k, h = (h + 1) & (HOTS - 1)) if (G.shm->hot[h] == a) return true; return false; }
RAW void add_hot(uintptr_t a) { if (G.shm->nhot > HOTS / 2) return; a >>= 3; size_t h = slot(a << 3); while (G.shm->hot[h]) { if (G.shm->hot[h] == a) return; h = (h + 1) & (HOTS - 1); } G.shm->hot[h] = a; ++G.shm->nhot; }
RAW int next_live(int from, int n) { for (int k = 0; k < MAXT * 2 && n >= 0; ++k) { from = (from + 1) % G.tasks; if (G.alive[from] && n-- == 0) return from; } return from; }
RAW void pass(int to, uint64_t where) {
    if (to == g_me) return; G.cur = to; G.shm->order = (G.shm->order ^ (where * 8 + (uint64_t)to)) * 1099511628211ULL; sem_post(&G.go[to]); while (sem_wait(&G.go[g_me])) {}
}
RAW int pick_other(int target) { if (G.live < 2) return g_me; int t = next_live(g_me, target % (G.live - 1)); return t; }
RAW void tick(uintptr_t addr, bool store, uint64_t where) {
    if (g_me < 0 || g_in || !G.active) return; g_in = true; Shm& s = *G.shm; ++s.ticks;
    if (G.record) { if (store && addr && shared_memory(addr)) add_hot(addr); g_in = false; return; }
    if (addr && is_hot(addr)) { ++s.hot_ticks; if (G.ihot < G.nhots && G.hot_left-- <= 0) { int t = pick_other(G.hots[G.ihot].target); ++G.ihot; if (G.ihot < G.nhots) G.hot_left = G.hots[G.ihot].gap; if (t != g_me) { ++s.hot_switches; pass(t, where); } } }
    if (G.iplan < G.nplan) { if (G.left-- <= 0) { int t = pick_other(G.plan[G.iplan].target); ++G.iplan; if (G.iplan < G.nplan) G.left = G.plan[G.iplan].gap; if (t != g_me) { ++s.switches; pass(t, where); } } }
    else if (++G.spin >= 400000) { G.spin = 0; int t = pick_other(0); if (t != g_me) { ++s.rotations; pass(t, where); } }      // a caller that waits for another by polling gets on
    g_in = false;
}
// a caller that must wait (lock, initialisation by another) lets the others run
RAW void wait_turn() { bool was = g_in; g_in = true; ++G.shm->blocked; if (G.live < 2 || G.shm->blocked > 2000000) { G.shm->stuck = 1; _exit(7); } pass(pick_other(0), 1); g_in = was; }
bool managed() { return g_me >= 0 && G.active; }
}
extern "C" {
RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { static uint32_t n = 0; if (a == b || *a) return; for (; a < b; ++a) *a = ++n; }
RAW void __sanitizer_cov_trace_pc_guard(uint32_t* g) { tick(0, false, *g); }
RAW void __sanitizer_cov_load1(uint8_t* p) { tick((uintptr_t)p, false, 2); } RAW void __sanitizer_cov_load2(uint16_t* p) { tick((uintptr_t)p, false, 2); } RAW void __sanitizer_cov_load4(uint32_t* p) { tick((uintptr_t)p, false, 2); } RAW void __sanitizer_cov_load8(uint64_t* p) { tick((uintptr_t)p, false, 2); } RAW void __sanitizer_cov_load16(__uint128_t* p) { tick((uintptr_t)p, false, 2); }
RAW void __sanitizer_cov_store1(uint8_t* p) { tick((uintptr_t)p, true, 3); } RAW void __sanitizer_cov_store2(uint16_t* p) { tick((uintptr_t)p, true, 3); } RAW void __sanitizer_cov_store4(uint32_t* p) { tick((uintptr_t)p, true, 3); } RAW void __sanitizer_cov_store8(uint64_t* p) { tick((uintptr_t)p, true, 3); } RAW void __sanitizer_cov_store16(__uint128_t* p) { tick((uintptr_t)p, true, 3); }
// synchronisation the library may use: correct, and visible to the scheduler
RAW int __cxa_guard_acquire(uint64_t* g) { volatile char* b = (char*)g; for (;;) { if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } if (managed()) wait_turn(); else sched_yield(); } }
RAW void __cxa_guard_release(uint64_t* g) { volatile char* b = (char*)g; b[1] = 0; b[0] = 1; }
RAW void __cxa_guard_abort(uint64_t* g) { volatile char* b = (char*)g; b[1] = 0; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void (*)()); int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
RAW int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!managed()) return __real_pthread_mutex_lock(m); for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; wait_turn(); } }
RAW int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_rdlock(m); for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; wait_turn(); } }
RAW int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!managed()) return __real_pthread_rwlock_wrlock(m); for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; wait_turn(); } }
RAW int __wrap_pthread_once(pthread_once_t* c, void (*f)()) { if (!managed()) return __real_pthread_once(c, f); volatile int* v = (volatile int*)c; for (;;) { if (*v == 2) return 0; if (*v == 0) { *v = 1; struct Undo { volatile int* v; bool ok = false; ~Undo() { *v = ok ? 2 : 0; } } u{v}; f(); u.ok = true; return 0; } wait_turn(); } }
}
namespace {
// ---- what the callers share, and never change once they run
struct World {
    Chain chain, small; std::unique_ptr<Tree> tree; std::vector<std::string> names, ends; std::vector<std::unique_ptr<Path>> paths; std::vector<std::unique_ptr<VelocityProfile>> profs; std::vector<std::unique_ptr<Trajectory>> trajs; std::vector<std::unique_ptr<RotationalInterpolation>> rots; std::vector<std::string> texts; JntArray q, lo, hi; Jacobian J; JntSpaceInertiaMatrix H;
};
RotationalInterpolation* sa() { return new RotationalInterpolation_SingleAxis(); }
Path* rpath(Draw& d, int k, int depth) {
    mot::Pose a = mot::rpose(d, 2), b = mot::rpose(d, 2); b.R = a.R * ref::rodrigues(runit(d), d.uni(0.1, 2.5)); double eqr = d.uni(0.05, 1); Vector c = toK(a.p) + Vector(0.3, 1, 0.2);
    switch (k) {
    case 0: return new Path_Line(toK(a), toK(b), sa(), eqr); case 1: return new Path_Circle(toK(a), c, c + Vector(1, 0, 0.3), toK(b).M, d.uni(0.2, 3), sa(), eqr); case 2: return new Path_Point(toK(a));
    case 3: { Path_RoundedComposite* p = new Path_RoundedComposite(0.05, eqr, sa()); mot::Pose at = a; int n = (int)d.range(3, 6); for (int i = 0; i < n; ++i) { try { p->Add(toK(at)); } catch (const Error&) {} at.p = at.p + ref::v3(d.uni(0.4, 1), d.uni(-1, 1), d.uni(-1, 1)); at.R = at.R * ref::rodrigues(runit(d), d.uni(0.1, 1)); } p->Finish(); return p; }
    case 4: { Path_Composite* p = new Path_Composite(); int n = (int)d.range(1, 4); for (int i = 0; i < n; ++i) p->Add(rpath(d, depth ? (int)d.range(0, 4) : (int)d.range(0, 1), depth - 1 < 0 ? 0 : depth - 1)); return p; }
    default: return new Path_Cyclic_Closed(rpath(d, (int)d.range(0, 1), 0), (int)d.range(1, 4)); }
}
VelocityProfile* rprof(Draw& d, int k, double L) {
    VelocityProfile* p; double v = d.uni(0.2, 2), a = d.uni(0.2, 2), T = d.uni(1, 8); switch (k) { case 0: p = new VelocityProfile_Rectangular(v); break; case 1: p = new VelocityProfile_Trap(v, a); break; case 2: p = new VelocityProfile_TrapHalf(v, a, d.chance(0.5)); break; case 3: p = new VelocityProfile_Spline(); break; default: p = new VelocityProfile_Dirac(); }
    if (k == 3) p->SetProfileDuration(0, L, T); else p->SetProfile(0, L); return p;
}
void setup(World& w, const Program& p, const Ctx& x) {
    Draw d((uint64_t)p.c("world"), x.simple); SegOpts o; o.p_fixed = 0.12; o.p_massless = 0; int n = (int)d.range(2, 7); bool moving = false;
    for (int i = 0; i < n; ++i) { Seg g = rseg(d, o, "s" + std::to_string(i)); moving |= g.moving(); w.chain.addSegment(toKs(g)); } { SegOpts m = o; m.p_fixed = 0; w.chain.addSegment(toKs(rseg(d, m, "tool"))); w.small.addSegment(toKs(rseg(d, m, "x0"))); w.small.addSegment(toKs(rseg(d, m, "a_name_that_does_not_fit_into_the_string"))); }
    std::string root = "root"; w.tree.reset(new Tree(root)); w.names.push_back(root); int m = (int)d.range(2, 9); for (int i = 0; i < m; ++i) { SegOpts s = o; if (i == 0) s.p_fixed = 0; Seg g = rseg(d, s, (i % 3 ? "t" : "a_long_name_of_a_branch_of_the_tree_") + std::to_string(i)); std::string hook = d.pick(w.names); w.tree->addSegment(toKs(g), hook); w.names.push_back(g.name); }
    for (int i = 0; i < 2; ++i) { std::string e = w.names[(size_t)d.range(1, (int64_t)w.names.size() - 1)]; if (w.ends.empty() || w.ends[0] != e) w.ends.push_back(e); }
    for (int k = 0; k < 6; ++k) w.paths.emplace_back(rpath(d, k, 1)); for (int k = 0; k < 5; ++k) w.profs.emplace_back(rprof(d, k, d.uni(0.3, 4)));
    for (int k = 0; k < 2; ++k) { Path* q = rpath(d, (int)d.range(0, 5), 1); VelocityProfile* v = rprof(d, (int)d.range(0, 3), q->PathLength()); w.trajs.emplace_back(new Trajectory_Segment(q, v)); } { Trajectory_Composite* c = new Trajectory_Composite(); c->Add(w.trajs[0]->Clone()); c->Add(new Trajectory_Stationary(d.uni(0.2, 2), Frame::Identity())); c->Add(w.trajs[1]->Clone()); w.trajs.emplace_back(c); }
    for (int k = 0; k < 2; ++k) { w.rots.emplace_back(sa()); w.rots[k]->SetStartEnd(toK(rrot(d)), toK(rrot(d))); }
    for (int k = 0; k < 6; ++k) { std::ostringstream os; os.precision(17); w.paths[k]->Write(os); w.texts.push_back(os.str()); } for (int k = 0; k < 4; ++k) if (k != 3) { std::ostringstream os; os.precision(17); w.profs[k]->Write(os); w.texts.push_back(os.str()); }
    unsigned nj = w.chain.getNrOfJoints(); w.q = rq(d, nj, 1); w.lo = JntArray(w.tree->getNrOfJoints()); w.hi = w.lo; for (unsigned i = 0; i < w.lo.rows(); ++i) { w.lo(i) = -3; w.hi(i) = 3; } w.J = Jacobian(nj); for (unsigned i = 0; i < nj; ++i) w.J.setColumn(i, zoo::tw(d)); w.H = JntSpaceInertiaMatrix(nj); for (unsigned i = 0; i < nj; ++i) for (unsigned j = 0; j < nj; ++j) w.H(i, j) = i == j ? 2 : 0.1;
}
// ---- the work of a caller: results go to its own part of the shared page
struct Sink { Result& r; void d(double v) { uint64_t b; std::memcpy(&b, &v, 8); if (std::isnan(v)) b = 0x7ff8000000000000ULL; r.hash = mix64(r.hash ^ b) + 1; if (r.n < CAP) std::memcpy(&r.v[r.n], &b, 8); ++r.n; } void all(const zoo::Out& o) { for (double v : o) d(v); } void f(const Frame& q) { zoo::Out o; zoo::put(o, q); all(o); } void t(const Twist& q) { zoo::Out o; zoo::put(o, q); all(o); } void j(const JntArray& q) { zoo::Out o; zoo::put(o, q); all(o); } void s(const std::string& q) { uint64_t h = 7; for (unsigned char c : q) h = mix64(h ^ c); d((double)(h >> 12)); } };
enum { W_TFK = 17, W_TJAC, W_TIKV, W_TID, W_TIKP, W_TONL, W_PATH, W_PCLONE, W_PROF, W_VCLONE, W_TRAJ, W_TCLONE, W_CCOPY, W_TCOPY, W_GETCHAIN, W_SUBTREE, W_OWNPATH, W_OWNPROF, W_READPATH, W_BADREAD, W_FRAMES, W_WRITE, W_ROTINT, W_ALGEBRA, W_ARRAY, W_SVD, W_SEGMENT, W_ROUNDERR, WORKS };
const char* const WNAME[] = {"tree-fk", "tree-jacobian", "tree-ik-velocity", "tree-id", "tree-ik-position", "tree-ik-online", "shared-path", "shared-path-clone", "shared-profile", "shared-profile-clone", "shared-trajectory", "shared-trajectory-clone", "chain-copy", "tree-copy", "get-chain", "get-subtree", "own-path", "own-profile", "own-read", "own-failing-read", "own-frame-text", "write-shared", "shared-orientation", "frame-algebra", "joint-arrays", "decomposition", "shared-segment", "own-rounding-error"};
const char* name(int k) { return k < 17 ? zoo::NAME[k] : WNAME[k - 17]; }
void evalpath(Sink& o, const Path& q, Draw& d, int n) { double L = const_cast<Path&>(q).PathLength(); o.d(L); for (int i = 0; i < n; ++i) { double s = d.u01() * L; o.f(q.Pos(s)); o.t(q.Vel(s, 0.7)); o.t(q.Acc(s, 0.7, -0.3)); } o.d(const_cast<Path&>(q).LengthToS(0.3)); }
void evalprof(Sink& o, const VelocityProfile& q, Draw& d, int n) { double T = q.Duration(); o.d(T); for (int i = 0; i < n; ++i) { double t = d.uni(-0.1, 1.1) * T; o.d(q.Pos(t)); o.d(q.Vel(t)); o.d(q.Acc(t)); } }
void evaltraj(Sink& o, const Trajectory& q, Draw& d, int n) { double T = q.Duration(); o.d(T); for (int i = 0; i < n; ++i) { double t = d.u01() * T; o.f(q.Pos(t)); o.t(q.Vel(t)); o.t(q.Acc(t)); } }
void evalchain(Sink& o, const Chain& c) { o.d(c.getNrOfJoints()); for (unsigned k = 0; k < c.getNrOfSegments(); ++k) { const Segment& s = c.getSegment(k); o.s(s.getName()); o.s(s.getJoint().getName()); o.s(s.getJoint().getTypeName()); o.f(s.pose(0.4)); o.t(s.twist(0.4, 0.3)); o.d(s.getInertia().getMass()); } }
void evaltree(Sink& o, const Tree& t) { o.d(t.getNrOfJoints()); for (auto& e : t.getSegments()) { o.s(e.first); const Segment& s = GetTreeElementSegment(e.second); o.s(s.getJoint().getName()); o.f(s.pose(0.4)); o.d(GetTreeElementQNr(e.second)); } }
std::string rest(std::istream& is) { std::string s; is.clear(); std::getline(is, s); return s; }
void work(World& w, int kind, Draw d, Sink& o) {
    const Tree& T = *w.tree; unsigned tn = T.getNrOfJoints();
    if (kind < 17) { zoo::SutP s = zoo::make(kind, w.chain); int n = (int)d.range(1, 3); for (int i = 0; i < n; ++i) { zoo::Out r; int m = i == 0 ? 0 : (int)d.range(0, s->methods() - 1); int rc = s->call(m, d, zoo::Bad(), r); o.d(rc); o.all(r); if (s->base()) o.s(s->base()->strError(rc)); } return; }
    switch (kind) {
    case W_TFK: { TreeFkSolverPos_recursive s(T); for (int i = 0; i < 2; ++i) { Frame f; o.d(s.JntToCart(zoo::arr(d, tn, 2), f, d.pick(w.names))); o.f(f); } break; }
    case W_TJAC: { TreeJntToJacSolver s(T); Jacobian J(tn); SetToZero(J); o.d(s.JntToJac(zoo::arr(d, tn, 2), J, d.pick(w.names))); zoo::Out r; zoo::put(r, J); o.all(r); break; }
    case W_TIKV: { TreeIkSolverVel_wdls s(T, w.ends); s.setLambda(0.1); Twists v; for (auto& e : w.ends) v[e] = zoo::tw(d); JntArray r(tn); o.d(s.CartToJnt(zoo::arr(d, tn, 2), v, r)); o.j(r); break; }
    case W_TID: { TreeIdSolver_RNE s(T, Vector(0.2, -0.3, -9.8)); JntArray q = zoo::arr(d, tn, 2), v = zoo::arr(d, tn, 2), a = zoo::arr(d, tn, 2), r(tn); WrenchMap m; m[w.ends[0]] = zoo::wr(d, 1)[0]; o.d(s.CartToJnt(q, v, a, m, r)); o.j(r); break; }
    case W_TIKP: { TreeFkSolverPos_recursive f(T); TreeIkSolverVel_wdls v(T, w.ends); v.setLambda(0.1); TreeIkSolverPos_NR_JL s(T, w.ends, w.lo, w.hi, f, v, 8, 1e-4); JntArray q = zoo::arr(d, tn, 1), g = zoo::arr(d, tn, 1), r(tn); Frames F; for (auto& e : w.ends) { Frame p; f.JntToCart(g, p, e); F[e] = p; } o.d(s.CartToJnt(q, F, r)); o.j(r); break; }
    case W_TONL: { TreeFkSolverPos_recursive f(T); TreeIkSolverVel_wdls v(T, w.ends); v.setLambda(0.1); JntArray qd(tn); for (unsigned i = 0; i < tn; ++i) qd(i) = 0.5; TreeIkSolverPos_Online s(tn, w.ends, w.lo, w.hi, qd, 0.3, 0.3, f, v); JntArray q = zoo::arr(d, tn, 1), g = zoo::arr(d, tn, 1), r(tn); Frames F; for (auto& e : w.ends) { Frame p; f.JntToCart(g, p, e); F[e] = p; } for (int i = 0; i < 2; ++i) { o.d(s.CartToJnt(q, F, r)); o.j(r); q = r; } break; }
    case W_PATH: evalpath(o, *w.paths[(size_t)d.range(0, 5)], d, (int)d.range(1, 5)); break;
    case W_PCLONE: { std::unique_ptr<Path> c(w.paths[(size_t)d.range(0, 5)]->Clone()); evalpath(o, *c, d, 2); break; }
    case W_PROF: evalprof(o, *w.profs[(size_t)d.range(0, 4)], d, (int)d.range(1, 6)); break;
    case W_VCLONE: { std::unique_ptr<VelocityProfile> c(w.profs[(size_t)d.range(0, 4)]->Clone()); evalprof(o, *c, d, 2); break; }
    case W_TRAJ: evaltraj(o, *w.trajs[(size_t)d.range(0, 2)], d, (int)d.range(1, 5)); break;
    case W_TCLONE: { std::unique_ptr<Trajectory> c(w.trajs[(size_t)d.range(0, 2)]->Clone()); evaltraj(o, *c, d, 2); break; }
    case W_CCOPY: { Chain c(w.chain), e; e = w.small; c.addChain(e); c.addSegment(w.small.getSegment(0)); evalchain(o, c); break; }
    case W_TCOPY: { Tree t(T); t.addChain(w.small, d.pick(w.names)); Tree u("other"); u = t; u.addSegment(w.chain.getSegment(0), d.pick(w.names)); evaltree(o, u); break; }
    case W_GETCHAIN: { Chain c; std::string a = d.pick(w.names), b = d.pick(w.names); o.d(T.getChain(a, b, c)); evalchain(o, c); break; }
    case W_SUBTREE: { Tree t; o.d(T.getSubTree(d.pick(w.names), t)); evaltree(o, t); break; }
    case W_OWNPATH: { std::unique_ptr<Path> c(rpath(d, (int)d.range(0, 5), 1)); evalpath(o, *c, d, 2); break; }
    case W_OWNPROF: { std::unique_ptr<VelocityProfile> c(rprof(d, (int)d.range(0, 3), d.uni(0.4, 3))); evalprof(o, *c, d, 3); break; }
    case W_READPATH: { size_t k = (size_t)d.range(0, (int64_t)w.texts.size() - 1); std::istringstream is(w.texts[k]); if (k < 6) { std::unique_ptr<Path> c(Path::Read(is)); evalpath(o, *c, d, 2); } else { std::unique_ptr<VelocityProfile> c(VelocityProfile::Read(is)); std::ostringstream os; os.precision(17); c->Write(os); o.s(os.str()); } break; }
    case W_BADREAD: { int n = (int)d.range(1, 3); for (int i = 0; i < n; ++i) { std::string t = d.pick(w.texts); size_t at = (size_t)d.range(0, (int64_t)t.size() - 1); if (d.chance(0.5)) t.resize(at); else t[at] = (char)d.range(32, 126); std::istringstream is(t); try { if (t[0] == 'L' || t[0] == 'C' || t[0] == 'P' || t[0] == 'c' || t[0] == 'R') { std::unique_ptr<Path> c(Path::Read(is)); o.d(1); } else { std::unique_ptr<VelocityProfile> c(VelocityProfile::Read(is)); o.d(2); } std::ostringstream os; IOTraceOutput(os); o.s(os.str()); } catch (const Error& e) { std::ostringstream os; IOTraceOutput(os); o.s(os.str()); o.d(e.GetType()); o.s(e.Description()); } o.s(rest(is)); } break; }
    case W_FRAMES: { int n = (int)d.range(1, 3); for (int i = 0; i < n; ++i) { Frame f = toK(mot::rpose(d, 2)), g; Wrench a(toK(rvec(d, 1)), toK(rvec(d, 2))), b; std::ostringstream os; os.precision(17); os << f << a; o.s(os.str()); std::istringstream is(os.str()); is >> g >> b; o.f(g); zoo::Out r; zoo::put(r, b); o.all(r); std::istringstream bad("[1,2;3]"); Vector v; try { bad >> v; o.d(1); } catch (const Error& e) { o.d(e.GetType()); char buf[80]; IOTracePopStr(buf, 80); o.s(buf); std::ostringstream t; IOTraceOutput(t); o.s(t.str()); } } break; }
    case W_WRITE: { std::ostringstream os; os.precision(17); os << w.chain << T << w.q << w.J << w.H; for (auto& q : w.paths) if (d.chance(0.5)) q->Write(os); for (size_t k = 0; k < 3; ++k) w.profs[k]->Write(os); w.trajs[0]->Write(os); w.rots[0]->Write(os); o.s(os.str()); break; }
    case W_ROTINT: { const RotationalInterpolation& r = *w.rots[(size_t)d.range(0, 1)]; for (int i = 0; i < 3; ++i) { double th = d.u01() * const_cast<RotationalInterpolation&>(r).Angle(); Frame f(r.Pos(th)); o.f(f); o.t(Twist(r.Vel(th, 0.5), r.Acc(th, 0.5, 0.2))); } break; }
    case W_ALGEBRA: { for (int i = 0; i < 3; ++i) { Frame a = toK(mot::rpose(d, 2)), b = toK(mot::rpose(d, 2)); o.t(diff(a, b, 0.3)); o.f(addDelta(a, Twist(toK(rvec(d, 1)), toK(rvec(d, 1))), 0.2)); double r, p, y, q[4]; a.M.GetRPY(r, p, y); o.d(r); o.d(p); o.d(y); a.M.GetEulerZYZ(r, p, y); o.d(r); o.d(p); o.d(y); a.M.GetQuaternion(q[0], q[1], q[2], q[3]); for (double v : q) o.d(v); Vector ax; o.d(b.M.GetRotAngle(ax)); o.f(Frame(Rotation::RPY(r, p, y), ax)); o.f(a.Inverse() * b); RigidBodyInertia I(1.5, toK(rvec(d, 1)), RotationalInertia(1, 2, 3)), K = a * I; o.d(K.getMass()); Wrench h = K * Twist(ax, ax); zoo::Out z; zoo::put(z, h); o.all(z); } break; }
    case W_ARRAY: { JntArray a = w.q, b(a.rows()), c(a.rows()); b = zoo::arr(d, a.rows(), 1); Add(a, b, c); o.j(c); Subtract(w.q, b, c); o.j(c); Multiply(w.q, 2.5, c); o.j(c); Multiply(w.H, b, c); o.j(c); Twist t; MultiplyJacobian(w.J, b, t); o.t(t); Jacobian J(w.J); Frame f = toK(mot::rpose(d, 1)); changeBase(w.J, f.M, J); zoo::Out r; zoo::put(r, J); changeRefFrame(w.J, f, J); zoo::put(r, J); o.all(r); JntArrayVel v(a, b), u(a.rows()); Add(v, v, u); o.j(u.deriv()); o.d(Equal(a, w.q)); break; }
    case W_SVD: { SVD_HH s(w.J); int n = (int)w.J.columns(); std::vector<JntArray> U(6, JntArray(n)), V(n, JntArray(n)); JntArray S(n); o.d(s.calculate(w.J, U, S, V, 60)); o.j(S); Eigen::MatrixXd A = w.J.data, u = A, v(n, n); Eigen::VectorXd sv(n), tmp(n); o.d(svd_eigen_HH(A, u, sv, v, tmp, 60)); for (int i = 0; i < n; ++i) o.d(sv(i)); Eigen::VectorXd b = Eigen::VectorXd::Ones(n), vt(n), q(n), D(n); Eigen::MatrixXd L(n, n); o.d(ldl_solver_eigen(w.H.data, b, L, D, vt, q)); for (int i = 0; i < n; ++i) o.d(q(i)); break; }
    case W_SEGMENT: { unsigned k = (unsigned)d.range(0, w.chain.getNrOfSegments() - 1); const Segment& s = w.chain.getSegment(k); for (int i = 0; i < 4; ++i) { double q = d.uni(-2, 2); o.f(s.pose(q)); o.t(s.twist(q, 0.4)); o.f(s.getJoint().pose(q)); o.t(s.getJoint().twist(0.6)); Vector v = s.getJoint().JointAxis(); o.t(Twist(v, s.getJoint().JointOrigin())); o.f(s.getFrameToTip()); o.s(s.getJoint().getTypeName()); } Segment c(s); c.setFrameToTip(toK(mot::rpose(d, 1))); o.f(c.pose(0.3)); break; }
    case W_ROUNDERR: { Path_RoundedComposite p(0.4, 0.2, sa()); Vector at = toK(rvec(d, 1)); int bad = 0; for (int i = 0; i < 5; ++i) { try { p.Add(Frame(at)); } catch (const Error& e) { ++bad; o.d(e.GetType()); o.s(e.Description()); } at = at + Vector(d.uni(0.02, 1), d.uni(-0.5, 0.5), 0.2); } p.Finish(); o.d(bad); o.d(p.PathLength()); break; }
    }
}
struct Caller { const Program* p; World* w; int id; bool simple; };
void task_body(Caller& c, Result& r) {
    Sink o{r}; for (auto& st : c.p->steps) { if (st.op != "work" || st.a[0] != c.id) continue; o.d(-12345); try { work(*c.w, (int)st.a[1], Draw(st.seed, c.simple), o); } catch (const Error& e) { o.d(e.GetType()); } catch (const std::exception& e) { r.threw = 1; o.s(e.what()); } { std::ostringstream t; IOTraceOutput(t); o.s(t.str()); } }
    r.done = 1;
}
RAW void task_end(int me) { g_in = true; G.alive[me] = false; --G.live; if (G.live > 0) { int t = next_live(me, 0); G.cur = t; G.shm->order = (G.shm->order ^ (4 * 8 + (uint64_t)t)) * 1099511628211ULL; sem_post(&G.go[t]); } else sem_post(&G.done); g_me = -1; g_in = false; }
RAW void* task_main(void* a) { Caller& c = *(Caller*)a; while (sem_wait(&G.go[c.id])) {} g_me = c.id; ++G.shm->started; task_body(c, G.shm->r[c.id]); task_end(c.id); return nullptr; }
// one phase in this (fresh) process: the callers of `mask` run
[[noreturn]] void phase(const Program& p, const Ctx& x, Shm* shm, unsigned mask, bool record) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 8; setitimer(ITIMER_VIRTUAL, &it, nullptr); signal(SIGVTALRM, SIG_DFL);
    mem::set_fill(mem::ZERO); World* w = new World; setup(*w, p, x);
    memset(&G, 0, sizeof G); G.shm = shm; G.record = record; G.tasks = MAXT; G.heap_hi = (uintptr_t)sbrk(0); G.heap_lo = (uintptr_t)&end;
    for (auto& st : p.steps) { if (st.op == "switch" && G.nplan < PLAN) { G.plan[G.nplan].gap = st.a[0]; G.plan[G.nplan++].target = (int)st.a[1]; } if (st.op == "hot" && G.nhots < PLAN) { G.hots[G.nhots].gap = st.a[0]; G.hots[G.nhots++].target = (int)st.a[1]; } }
    G.left = G.nplan ? G.plan[0].gap : 0; G.hot_left = G.nhots ? G.hots[0].gap : 0; sem_init(&G.done, 0, 0); Caller c[MAXT]; pthread_t th[MAXT]; int first = -1; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
    for (int i = 0; i < MAXT; ++i) { sem_init(&G.go[i], 0, 0); if (mask >> i & 1) { G.alive[i] = true; ++G.live; if (first < 0) first = i; } }
    for (int i = 0; i < MAXT; ++i) if (G.alive[i]) { c[i] = Caller{&p, w, i, x.simple}; if (pthread_create(&th[i], &at, task_main, &c[i])) _exit(8); }
    G.cur = first; G.active = true; sem_post(&G.go[first]); while (sem_wait(&G.done)) {} _exit(0);
}
Shm* page() { static Shm* s = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
int run_phase(const Program& p, const Ctx& x, Shm* s, unsigned mask, bool record) { fflush(nullptr); pid_t pid = fork(); if (pid == 0) phase(p, x, s, mask, record); int st = 0; waitpid(pid, &st, 0); return st; }
void execute(const Program& p, Ctx& x) {
    static Shm* keep = (Shm*)calloc(1, sizeof(Shm)); Shm* s = page(); memset(s, 0, sizeof *s); unsigned mask = 0; std::vector<std::vector<int>> kinds(MAXT);
    for (auto& st : p.steps) if (st.op == "work" && st.a[0] >= 0 && st.a[0] < MAXT && st.a[1] >= 0 && st.a[1] < WORKS) { mask |= 1u << st.a[0]; kinds[st.a[0]].push_back((int)st.a[1]); x.op(name((int)st.a[1])); }
    int n = __builtin_popcount(mask); if (n < 2) return;
    // alone
    for (int i = 0; i < MAXT; ++i) if (mask >> i & 1) { int st = run_phase(p, x, s, 1u << i, true); if (st != 0 || !s->r[i].done) { x.ev("alone-failed"); return; } }   // not a matter of this property
    int64_t alone = s->ticks; for (int i = 0; i < MAXT; ++i) { keep->r[i] = s->r[i]; memset(&s->r[i], 0, sizeof s->r[i]); } s->ticks = 0;
    int nhot = s->nhot; if (nhot) x.probe("shared-memory-written"); x.ev("together"); int st = run_phase(p, x, s, mask, false);
    if (s->stuck) x.fail("deadlock", "the callers wait for each other for ever"); if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGVTALRM) x.fail("hang", "the callers together do not finish; each one alone does"); x.fail("crash", "the callers together die of signal %d; each one alone finishes", WTERMSIG(st)); } if (WEXITSTATUS(st)) x.fail("crash", "the callers together end with status %d; each one alone finishes", WEXITSTATUS(st));
    for (int64_t k = 0; k < s->switches; ++k) x.bump("fault:preemption"); for (int64_t k = 0; k < s->hot_switches; ++k) x.bump("fault:preemption-at-shared-write"); if (s->blocked) x.probe("waited-for-another-caller");
    x.i(s->switches); x.i(s->hot_switches); x.i(s->ticks); x.mixin(s->order); x.sched = mix64(x.sched ^ s->order); x.cover(s->order); x.time((double)s->ticks * 1e-9); if (s->switches + s->hot_switches) { x.nontrivial = true; x.probe("interleaved"); } (void)alone;
    for (int i = 0; i < MAXT; ++i) if (mask >> i & 1) {
        Result &a = keep->r[i], &b = s->r[i]; x.mixin(b.hash); if (!b.done) x.fail("unfinished", "caller %d did not finish", i);
        if (a.n == b.n && a.hash == b.hash) continue; int64_t k = 0, item = -1; for (; k < a.n && k < b.n && k < CAP; ++k) { if (std::memcmp(&a.v[k], &b.v[k], 8)) break; if (a.v[k] == -12345) ++item; } if (k < a.n && k < CAP && a.v[k] == -12345) ++item;
        std::string what = item >= 0 && item < (int64_t)kinds[i].size() ? name(kinds[i][item]) : "?"; x.fail("result-differs", "caller %d, %s: result %lld is %.17g when the callers are interleaved and %.17g alone (%lld and %lld results)", i, what.c_str(), (long long)k, k < b.n && k < CAP ? b.v[k] : NAN, k < a.n && k < CAP ? a.v[k] : NAN, (long long)b.n, (long long)a.n);
    }
}
void generate(Rng& r, Program& p, bool thorough) {
    p.cfg["world"] = (int64_t)(r.next() >> 2); int tasks = r.weighted({5, 2, 1}) + 2; int theme = (int)r.range(0, 2); static const std::vector<int> IO = {W_READPATH, W_BADREAD, W_FRAMES, W_WRITE, W_BADREAD, W_ROUNDERR}, MOT = {W_PATH, W_PCLONE, W_PROF, W_VCLONE, W_TRAJ, W_TCLONE, W_OWNPATH, W_OWNPROF, W_ROTINT}; int same = (int)r.range(0, WORKS - 1), fam = (int)r.range(0, 3);
    for (int t = 0; t < tasks; ++t) { int n = (int)r.range(1, thorough ? 4 : 3); for (int i = 0; i < n; ++i) { int k = (int)r.range(0, WORKS - 1); if (theme == 0) k = same; if (theme == 1) { if (fam == 0) k = (int)r.range(0, 16); if (fam == 1) k = r.pick(IO); if (fam == 2) k = r.pick(MOT); if (fam == 3) k = (int)r.range(W_CCOPY, W_SUBTREE); } p.add("work", {t, k}, r.next()); } }
    int n = (int)r.range(5, thorough ? 300 : 120); double top = r.uni(1, 3.7); for (int i = 0; i < n; ++i) p.add("switch", {(int64_t)std::pow(10.0, r.uni(0, top)), r.range(0, 5)}, 0);
    int h = (int)r.range(0, 40); double ht = r.uni(0.3, 2); for (int i = 0; i < h; ++i) p.add("hot", {(int64_t)std::pow(10.0, r.uni(0, ht)) - 1, r.range(0, 5)}, 0);
}
Scenario S{"C01", "callers in different threads", "exploration", generate, execute,
    "A run is 2-4 callers, each with 1-4 pieces of work (any chain or tree solver of its own on the shared chain or tree; evaluating, copying or writing shared paths, profiles, trajectories, chains and trees; building, reading and failing to read its own), interleaved by 5-300 seeded switches at memory accesses and branches, plus switches at accesses to memory that a caller writes and that existed before it started; every caller also runs alone in a fresh process. Non-trivial: a caller was preempted inside the library; distinct by the sequence of switch places and targets.",
    {"every chain and tree solver, Chain, Tree, Segment, Joint", "paths, profiles, trajectories, orientation interpolation and their text forms", "the trace of reading errors, decompositions, joint arrays, frames"}, {"thread scheduler (one thread runs at a time, switches at seeded accesses)", "static-initialisation guards, mutexes, read-write locks, pthread_once (same meaning, visible to the scheduler)", "heap (zeroed)"},
    {"accesses of the library take effect in program order (interleaving semantics)", "no access inside precompiled libraries (C++ runtime, libm) is a switch point"},
    200000, 10000000, 90, 500, {"fault:preemption", "probe:interleaved", "op:ik-pos-lma", "op:wrench-estimator", "op:tree-ik-position", "op:shared-path", "op:shared-profile", "op:shared-trajectory", "op:own-failing-read", "op:tree-copy", "op:get-chain", "op:shared-segment"}, false, false};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S}); }
