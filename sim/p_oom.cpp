// A01: an allocation fails at a seeded point of a seeded operation; nothing may be lost, torn or released twice.
// Two worlds live the same history. In one memory never runs out: it counts the allocations of each operation and
// gives the expected state. In the other the operation first fails, then is repeated.
#include "motgen.hpp"
#include "zoo.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "kinfam_io.hpp"
#include "frames_io.hpp"
#include "utilities/error_stack.h"
#include <sstream>
using namespace gen; using namespace KDL;
namespace {
enum { CHAIN, TREE, ARRAY, SOLVER, TSOLVER, ORIENT, PATH, PROF, TRAJ, KINDS };
const char* const NAME[] = {"chain", "tree", "array", "chain-solver", "tree-solver", "orientation", "path", "profile", "trajectory"};
struct TreeSolvers { TreeFkSolverPos_recursive fk; TreeJntToJacSolver jac; TreeIkSolverVel_wdls ik; TreeIdSolver_RNE id; std::vector<std::string> ends; TreeSolvers(const Tree& t, const std::vector<std::string>& e) : fk(t), jac(t), ik(t, e), id(t, Vector(0.2, -0.3, -9.8)), ends(e) {} };
struct Obj {
    int kind; std::vector<int> needs; Chain chain; std::unique_ptr<Tree> tree; JntArray q; Jacobian J; JntSpaceInertiaMatrix H; JntArrayVel qv; JntArrayAcc qa; zoo::SutP sut; int sk = 0; std::unique_ptr<TreeSolvers> ts; std::unique_ptr<RotationalInterpolation> orient; std::unique_ptr<Path> path; int pk = 0, points = 0; Frame at; std::unique_ptr<VelocityProfile> prof; std::unique_ptr<Trajectory> traj; int serial = 0; bool used = false;
    explicit Obj(int k) : kind(k) {}
};
typedef std::vector<double> Print;
void put(Print& o, const Frame& f) { zoo::put(o, f); } void put(Print& o, const std::string& s) { uint64_t h = 7; for (unsigned char c : s) h = mix64(h ^ c); o.push_back((double)(h >> 12)); }
struct World {
    std::vector<std::unique_ptr<Obj>> v; int64_t fail_at = -1, count = 0; int written = -1; bool fired = false; bool whole = true; Print out;    // whole: the operation happens completely or not at all
    World() { v.reserve(400); } ~World() { while (!v.empty()) v.pop_back(); }
    Obj& add(int kind) { v.emplace_back(new Obj(kind)); written = (int)v.size() - 1; return *v.back(); }
    int pick(Draw& d, int kind) const { std::vector<int> c; for (size_t i = 0; i < v.size(); ++i) if (v[i] && v[i]->kind == kind) c.push_back((int)i); int r = (int)d.range(0, 1 << 20); return c.empty() ? -1 : c[(size_t)r % c.size()]; }
    bool needed(int i) const { for (auto& o : v) if (o) for (int n : o->needs) if (n == i) return true; return false; }
};
struct Arm { World& w; int64_t c0; explicit Arm(World& x) : w(x) { w.fired = false; c0 = mem::allocations(); mem::arm_failure(w.fail_at); } void off() { if (c0 < 0) return; w.fired = mem::fired(); mem::arm_failure(-1); w.count = mem::allocations() - c0; c0 = -1; } ~Arm() { off(); } };
// ---- what an object looks like from outside
void print(const World& w, int i, Print& o) {
    const Obj& b = *w.v[i]; o.push_back(b.kind);
    switch (b.kind) {
    case CHAIN: o.push_back(b.chain.getNrOfJoints()); o.push_back(b.chain.getNrOfSegments()); for (unsigned k = 0; k < b.chain.getNrOfSegments(); ++k) { const Segment& s = b.chain.getSegment(k); put(o, s.getName()); put(o, s.getJoint().getName()); put(o, s.pose(0.3)); o.push_back(s.getInertia().getMass()); } break;
    case TREE: { o.push_back(b.tree->getNrOfJoints()); o.push_back(b.tree->getNrOfSegments()); for (auto& e : b.tree->getSegments()) { put(o, e.first); const Segment& s = GetTreeElementSegment(e.second); put(o, s.getName()); put(o, s.getJoint().getName()); put(o, s.pose(0.3)); o.push_back(GetTreeElementQNr(e.second)); if (e.first != b.tree->getRootSegment()->first) put(o, GetTreeElementParent(e.second)->first); for (auto& c : GetTreeElementChildren(e.second)) put(o, c->first); } break; }
    case ARRAY: zoo::put(o, b.q); zoo::put(o, b.J); for (unsigned r = 0; r < b.H.rows(); ++r) for (unsigned c = 0; c < b.H.columns(); ++c) o.push_back(b.H(r, c)); zoo::put(o, b.qv.q); zoo::put(o, b.qv.qdot); zoo::put(o, b.qa.q); zoo::put(o, b.qa.qdot); zoo::put(o, b.qa.qdotdot); break;
    case PATH: { if (b.pk == 4 && !b.points) break; if (b.pk == 5 && static_cast<Path_Composite*>(b.path.get())->GetNrOfSegments() == 0) break; if (b.pk == 4 && static_cast<Path_RoundedComposite*>(b.path.get())->GetNrOfSegments() == 0) break; double L = b.path->PathLength(); o.push_back(L); if (L > 1e-9 && L < 1e9) for (int k = 0; k < 5; ++k) { double s = L * (k + 0.3) / 5; put(o, b.path->Pos(s)); zoo::put(o, b.path->Vel(s, 1)); } break; }
    case PROF: { double T = b.prof->Duration(); o.push_back(T); for (int k = 0; k < 4; ++k) { o.push_back(b.prof->Pos(T * k / 3)); } break; }
    case TRAJ: { double T = b.traj->Duration(); o.push_back(T); if (T > 0 && T < 1e9) for (int k = 0; k < 4; ++k) put(o, b.traj->Pos(T * (k + 0.2) / 4)); break; }
    default: break; }
}
Print printed(const World& w, int i) { Print o; if (w.v[i]) print(w, i, o); return o; }
bool same(const Print& a, const Print& b, double tol = 1e-10) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i])) && !(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(a[i])))) return false; return true; }
// ---- operations. Arguments are made first; only what the library does may run out of memory.
enum { C_NEW, C_COPY, C_ASSIGN, C_SEG, C_ADD, T_NEW, T_COPY, T_ASSIGN, T_SEG, T_CHAIN, T_TREE, T_GETCHAIN, T_SUB, A_NEW, A_COPY, A_ASSIGN, A_RESIZE, A_MATH, S_NEW, S_CALL, S_UPDATE, TS_NEW, TS_CALL, P_NEW, P_CLONE, P_ADD, P_POINT, P_FINISH, P_TEXT, V_NEW, V_CLONE, J_NEW, J_CLONE, J_ADD, DESTROY, OPS };
const char* const OP[OPS] = {"build-chain", "copy-chain", "assign-chain", "add-segment", "add-chain", "build-tree", "copy-tree", "assign-tree", "tree-add-segment", "tree-add-chain", "tree-add-tree", "get-chain", "get-subtree", "build-arrays", "copy-arrays", "assign-arrays", "resize-arrays", "array-arithmetic", "build-solver", "solve", "update-solver", "build-tree-solvers", "tree-solve", "build-path", "clone-path", "composite-add", "rounded-add", "rounded-finish", "path-text", "build-profile", "clone-profile", "build-trajectory", "clone-trajectory", "trajectory-add", "destroy"};
SegOpts opts() { SegOpts o; o.p_fixed = 0.12; return o; }
std::vector<Segment> segs(Draw& d, int n, const std::string& pre) { std::vector<Segment> v; for (int i = 0; i < n; ++i) v.push_back(toKs(rseg(d, opts(), pre + (d.chance(0.3) ? "a_name_that_does_not_fit_into_the_string_" : "s") + std::to_string(i)))); return v; }
Frame rframe(Draw& d) { return toK(mot::rpose(d, 2)); }
void run(World& w, int op, Draw d, Ctx& x) {
    w.written = -1; w.whole = true; w.out.clear(); w.count = 0; std::string uniq = "u" + std::to_string(w.v.size()) + "_";
    switch (op) {
    case C_NEW: { auto s = segs(d, (int)d.range(1, 7), uniq); Obj& o = w.add(CHAIN); Arm a(w); Chain c; for (auto& q : s) c.addSegment(q); a.off(); o.chain = c; break; }
    case C_COPY: { int i = w.pick(d, CHAIN); if (i < 0) return; std::unique_ptr<Obj> o(new Obj(CHAIN)); { Arm a(w); Chain c(w.v[i]->chain); a.off(); o->chain = c; } w.v.push_back(std::move(o)); break; }
    case C_ASSIGN: { int i = w.pick(d, CHAIN), j = w.pick(d, CHAIN); if (i < 0) return; w.written = i; w.whole = false; Arm a(w); w.v[i]->chain = w.v[j]->chain; break; }
    case C_SEG: { int i = w.pick(d, CHAIN); if (i < 0) return; w.written = i; Obj& o = *w.v[i]; auto s = segs(d, 1, uniq + std::to_string(o.chain.getNrOfSegments())); if (o.chain.getNrOfSegments() > 12) return; Arm a(w); o.chain.addSegment(s[0]); break; }
    case C_ADD: { int i = w.pick(d, CHAIN), j = w.pick(d, CHAIN); if (i < 0 || w.v[i]->chain.getNrOfSegments() + w.v[j]->chain.getNrOfSegments() > 14) return; w.written = i; w.whole = false; Arm a(w); w.v[i]->chain.addChain(w.v[j]->chain); break; }
    case T_NEW: { int n = (int)d.range(1, 8); auto s = segs(d, n, uniq); std::vector<int> hook; for (int k = 0; k < n; ++k) hook.push_back((int)d.range(-1, k - 1)); std::string root = d.chance(0.5) ? "root" : "a_root_with_a_long_name_that_must_be_allocated"; std::unique_ptr<Obj> o(new Obj(TREE)); { Arm a(w); Tree t(root); for (int k = 0; k < n; ++k) t.addSegment(s[k], hook[k] < 0 ? root : s[hook[k]].getName()); a.off(); o->tree.reset(new Tree(t)); } o->serial = n; w.v.push_back(std::move(o)); break; }
    case T_COPY: { int i = w.pick(d, TREE); if (i < 0) return; std::unique_ptr<Obj> o(new Obj(TREE)); { Arm a(w); o->tree.reset(new Tree(*w.v[i]->tree)); } w.v.push_back(std::move(o)); break; }
    case T_ASSIGN: { int i = w.pick(d, TREE), j = w.pick(d, TREE); if (i < 0 || w.needed(i)) return; w.written = i; w.whole = false; Arm a(w); *w.v[i]->tree = *w.v[j]->tree; break; }
    case T_SEG: { int i = w.pick(d, TREE); if (i < 0 || w.needed(i)) return; Tree& t = *w.v[i]->tree; if (t.getNrOfSegments() > 14) return; auto s = segs(d, 1, uniq + std::to_string(t.getNrOfSegments())); std::vector<std::string> names; for (auto& e : t.getSegments()) names.push_back(e.first); std::string hook = d.pick(names); w.written = i; Arm a(w); bool ok = t.addSegment(s[0], hook); a.off(); w.out.push_back(ok); break; }
    case T_CHAIN: { int i = w.pick(d, TREE), j = w.pick(d, CHAIN); if (i < 0 || j < 0 || w.needed(i)) return; Tree& t = *w.v[i]->tree; if (t.getNrOfSegments() > 14) return; std::string hook = t.getRootSegment()->first; w.written = i; w.whole = false; Arm a(w); bool ok = t.addChain(w.v[j]->chain, hook); a.off(); w.out.push_back(ok); break; }
    case T_TREE: { int i = w.pick(d, TREE), j = w.pick(d, TREE); if (i < 0 || i == j || w.needed(i)) return; Tree& t = *w.v[i]->tree; if (t.getNrOfSegments() > 14) return; std::string hook = t.getRootSegment()->first; w.written = i; w.whole = false; Arm a(w); bool ok = t.addTree(*w.v[j]->tree, hook); a.off(); w.out.push_back(ok); break; }
    case T_GETCHAIN: { int i = w.pick(d, TREE), j = w.pick(d, CHAIN); if (i < 0 || j < 0) return; const Tree& t = *w.v[i]->tree; std::vector<std::string> names; for (auto& e : t.getSegments()) names.push_back(e.first); std::string p = d.pick(names), q = d.pick(names); w.written = j; w.whole = false; Arm a(w); bool ok = t.getChain(p, q, w.v[j]->chain); a.off(); w.out.push_back(ok); break; }
    case T_SUB: { int i = w.pick(d, TREE), j = w.pick(d, TREE); if (i < 0 || w.needed(j)) return; const Tree& t = *w.v[i]->tree; std::vector<std::string> names; for (auto& e : t.getSegments()) names.push_back(e.first); std::string p = d.pick(names); w.written = j; w.whole = false; Arm a(w); bool ok = t.getSubTree(p, *w.v[j]->tree); a.off(); w.out.push_back(ok); break; }
    case A_NEW: { unsigned n = (unsigned)d.range(1, 8); std::unique_ptr<Obj> o(new Obj(ARRAY)); std::vector<double> r; for (unsigned k = 0; k < n; ++k) r.push_back(d.uni(-2, 2)); { Arm a(w); JntArray q(n); JntArrayVel qv(n); JntArrayAcc qa(n); Jacobian J(n); JntSpaceInertiaMatrix H(n); for (unsigned k = 0; k < n; ++k) { q(k) = qv.q(k) = qa.q(k) = r[k]; qv.qdot(k) = qa.qdot(k) = 2 * r[k]; qa.qdotdot(k) = 3 * r[k]; J.setColumn(k, Twist(Vector(r[k], 1, 2), Vector(k, 3, r[k]))); for (unsigned m = 0; m < n; ++m) H(k, m) = r[k] * r[m]; } a.off(); o->q = q; o->qv = qv; o->qa = qa; o->J = J; o->H = H; } w.v.push_back(std::move(o)); break; }
    case A_COPY: { int i = w.pick(d, ARRAY); if (i < 0) return; const Obj& s = *w.v[i]; std::unique_ptr<Obj> o(new Obj(ARRAY)); { Arm a(w); JntArray q(s.q); JntArrayVel qv(s.qv); JntArrayAcc qa(s.qa); Jacobian J(s.J); JntSpaceInertiaMatrix H(s.H); a.off(); o->q = q; o->qv = qv; o->qa = qa; o->J = J; o->H = H; } w.v.push_back(std::move(o)); break; }
    case A_ASSIGN: { int i = w.pick(d, ARRAY), j = w.pick(d, ARRAY); if (i < 0) return; Obj &t = *w.v[i], &s = *w.v[j]; int k = (int)d.range(0, 4); w.written = i; w.whole = false; Arm a(w); switch (k) { case 0: t.q = s.q; break; case 1: t.qv = s.qv; break; case 2: t.qa = s.qa; break; case 3: t.J = s.J; break; default: t.H = s.H; } break; }
    case A_RESIZE: { int i = w.pick(d, ARRAY); if (i < 0) return; Obj& t = *w.v[i]; int k = (int)d.range(0, 4); unsigned n = (unsigned)d.range(1, 8); w.written = i; w.whole = false; Arm a(w); switch (k) { case 0: t.q.resize(n); SetToZero(t.q); break; case 1: t.qv.resize(n); SetToZero(t.qv); break; case 2: t.qa.resize(n); SetToZero(t.qa); break; case 3: t.J.resize(n); SetToZero(t.J); break; default: t.H.resize(n); SetToZero(t.H); } break; }
    case A_MATH: { int i = w.pick(d, ARRAY); if (i < 0) return; Obj& s = *w.v[i]; unsigned n = s.q.rows(); JntArray r(n), z(n); if (s.H.rows() != n || s.qv.q.rows() != n) return; Arm a(w); Add(s.q, s.qv.q, r); Multiply(s.H, s.q, z); a.off(); zoo::put(w.out, r); zoo::put(w.out, z); break; }
    case S_NEW: { int i = w.pick(d, CHAIN); if (i < 0 || w.v[i]->chain.getNrOfJoints() < 1) return; int k = (int)d.range(0, zoo::KINDS - 1); std::unique_ptr<Obj> o(new Obj(SOLVER)); o->needs.push_back(i); o->sk = k; { Arm a(w); o->sut = zoo::make(k, w.v[i]->chain); } if (k == zoo::KINDS - 1) static_cast<zoo::EstS*>(o->sut.get())->hist.reserve(64); w.v.push_back(std::move(o)); x.op(zoo::NAME[k]); break; }
    case S_UPDATE: { int i = w.pick(d, SOLVER); if (i < 0 || w.v[i]->chain.getNrOfJoints() + w.v[w.v[i]->needs[0]]->chain.getNrOfJoints() < 1) return; w.written = i; w.whole = false; Arm a(w); w.v[i]->sut->update(); break; }
    case S_CALL: { int i = w.pick(d, SOLVER); if (i < 0) return; zoo::Sut& s = *w.v[i]->sut; if (w.v[w.v[i]->needs[0]]->chain.getNrOfJoints() < 1) return; if (s.stale()) s.update(); w.written = i; int m = d.chance(0.7) ? 0 : (int)d.range(0, s.methods() - 1); w.v[i]->used = true;
        if (w.v[i]->sk == zoo::KINDS - 1) { zoo::EstS& e = static_cast<zoo::EstS&>(s); unsigned n = s.nj(); JntArray q = zoo::arr(d, n, 2), v = zoo::arr(d, n, 1), t = zoo::arr(d, n, 5), r(n); Wrench f; Arm a(w); int rc = e.s.setInitialMomentum(q, v); if (rc == 0) rc = e.s.JntToExtWrench(q, v, t, f); a.off(); w.out.push_back(rc); zoo::put(w.out, f); break; }
        zoo::Out o; o.reserve(512); { Arm a(w); int rc = s.call(m, d, zoo::Bad(), o); a.off(); w.out.push_back(rc); } if (s.comparable(o)) w.out.insert(w.out.end(), o.begin(), o.end()); break; }
    case TS_NEW: { int i = w.pick(d, TREE); if (i < 0 || w.v[i]->tree->getNrOfJoints() < 1) return; const Tree& t = *w.v[i]->tree; std::vector<std::string> names, ends; for (auto& e : t.getSegments()) if (e.first != t.getRootSegment()->first) names.push_back(e.first); int n = (int)d.range(1, 3); for (int k = 0; k < n; ++k) { std::string q = d.pick(names); if (std::find(ends.begin(), ends.end(), q) == ends.end()) ends.push_back(q); } std::unique_ptr<Obj> o(new Obj(TSOLVER)); o->needs.push_back(i); { Arm a(w); o->ts.reset(new TreeSolvers(t, ends)); } w.v.push_back(std::move(o)); break; }
    case TS_CALL: { int i = w.pick(d, TSOLVER); if (i < 0) return; TreeSolvers& s = *w.v[i]->ts; const Tree& t = *w.v[w.v[i]->needs[0]]->tree; unsigned n = t.getNrOfJoints(); JntArray q = zoo::arr(d, n, 2), v = zoo::arr(d, n, 1), a2 = zoo::arr(d, n, 1), r(n); Frame f; Jacobian J(n); std::string e = d.pick(s.ends); int m = (int)d.range(0, 3); Twists tw; for (auto& q : s.ends) tw[q] = zoo::tw(d); WrenchMap wm; if (d.chance(0.5)) wm[e] = zoo::wr(d, 1)[0]; SetToZero(J); w.written = i; int rc = 0; Arm a(w);
        if (m == 0) { rc = s.fk.JntToCart(q, f, e); } if (m == 1) rc = s.jac.JntToJac(q, J, e); double res = 0; if (m == 2) res = s.ik.CartToJnt(q, tw, r); if (m == 3) rc = s.id.CartToJnt(q, v, a2, wm, r); a.off(); w.out.push_back(rc); if (m == 0) put(w.out, f); if (m == 1) zoo::put(w.out, J); if (m >= 2) zoo::put(w.out, r); w.out.push_back(res); break; }
    case P_NEW: { int k = (int)d.range(0, 5); Frame A = rframe(d), B = rframe(d); double eqr = d.uni(0.1, 1), al = d.uni(0.2, 3); Vector c = A.p + Vector(1, 0.3, 0), q = c + Vector(0.2, 1, 0.4); std::unique_ptr<Obj> o(new Obj(PATH)); o->pk = k; if (k < 2 || k == 4) { Obj& r = w.add(ORIENT); r.orient.reset(new RotationalInterpolation_SingleAxis()); o->needs.push_back(w.written); }
        if (k == 3) { int i = w.pick(d, PATH); if (i < 0 || w.v[i]->pk >= 3) { o->pk = k = 2; } else o->needs.push_back(i); } w.written = -1; RotationalInterpolation* r = o->needs.empty() ? nullptr : w.v[o->needs[0]]->orient.get(); int times = (int)d.range(1, 3);
        struct Back { World& w; size_t n; bool ok = false; ~Back() { if (!ok) w.v.resize(n); } } back{w, w.v.size() - (r ? 1 : 0)};
        { Arm a(w); switch (k) { case 0: o->path.reset(new Path_Line(A, B, r, eqr, false)); break; case 1: o->path.reset(new Path_Circle(A, c, q, B.M, al, r, eqr, false)); break; case 2: o->path.reset(new Path_Point(A)); break; case 3: o->path.reset(new Path_Cyclic_Closed(w.v[o->needs[0]]->path.get(), times, false)); break; case 4: o->path.reset(new Path_RoundedComposite(0.05, eqr, r, false)); break; default: o->path.reset(new Path_Composite()); } } o->at = A; back.ok = true; w.v.push_back(std::move(o)); break; }
    case P_CLONE: { int i = w.pick(d, PATH); if (i < 0 || (w.v[i]->pk == 4 && !w.v[i]->used)) return; Obj& s = *w.v[i]; std::unique_ptr<Obj> o(new Obj(PATH)); o->pk = s.pk; o->points = s.points; o->at = s.at; o->used = s.used; { Arm a(w); o->path.reset(s.path->Clone()); } w.v.push_back(std::move(o)); break; }
    case P_ADD: { int i = -1; for (int t = 0; t < 4 && (i < 0 || w.v[i]->pk != 5); ++t) i = w.pick(d, PATH); int j = w.pick(d, PATH); if (i < 0 || i == j || w.v[i]->pk != 5 || w.v[j]->pk >= 4) return; bool own = d.chance(0.4); w.written = i; if (own) { std::unique_ptr<Path> p(w.v[j]->path->Clone()); Arm a(w); static_cast<Path_Composite*>(w.v[i]->path.get())->Add(p.get(), true); a.off(); p.release(); } else { Arm a(w); static_cast<Path_Composite*>(w.v[i]->path.get())->Add(w.v[j]->path.get(), false); a.off(); w.v[i]->needs.push_back(j); } break; }
    case P_POINT: { int i = -1; for (int t = 0; t < 6 && (i < 0 || w.v[i]->pk != 4 || w.v[i]->used); ++t) i = w.pick(d, PATH); if (i < 0 || w.v[i]->pk != 4 || w.v[i]->used) return; Obj& o = *w.v[i]; Frame f = o.at; f.p = f.p + Vector(d.uni(0.3, 1), d.uni(-1, 1), d.uni(-1, 1)); f.M = f.M * toK(Pose{ref::rodrigues(runit(d), d.uni(0.1, 1)), ref::v3(0, 0, 0)}).M; w.written = i; bool ok = true; { Arm a(w); try { static_cast<Path_RoundedComposite*>(o.path.get())->Add(f); } catch (const Error&) { ok = false; } } w.out.push_back(ok); if (ok) { o.at = f; ++o.points; } break; }
    case P_FINISH: { int i = -1; for (int t = 0; t < 6 && (i < 0 || w.v[i]->pk != 4 || w.v[i]->used); ++t) i = w.pick(d, PATH); if (i < 0 || w.v[i]->pk != 4 || w.v[i]->used || !w.v[i]->points) return; w.written = i; { Arm a(w); static_cast<Path_RoundedComposite*>(w.v[i]->path.get())->Finish(); } w.v[i]->used = true; break; }
    case P_TEXT: { int i = w.pick(d, PATH); if (i < 0 || (w.v[i]->pk == 4 && !w.v[i]->used)) return; std::ostringstream os; os.precision(17); w.v[i]->path->Write(os); std::istringstream is(os.str()); std::unique_ptr<Obj> o(new Obj(PATH)); o->pk = 6; { std::ostringstream t; IOTraceOutput(t); } { Arm a(w); o->path.reset(Path::Read(is)); } if (o->path && dynamic_cast<Path_Composite*>(o->path.get())) o->pk = 5; w.v.push_back(std::move(o)); break; }
    case V_NEW: { int k = (int)d.range(0, 4); double v = d.uni(0.1, 2), ac = d.uni(0.1, 2), l = d.uni(0.1, 5), T = d.uni(1, 9); std::unique_ptr<Obj> o(new Obj(PROF)); { Arm a(w); switch (k) { case 0: o->prof.reset(new VelocityProfile_Rectangular(v)); break; case 1: o->prof.reset(new VelocityProfile_Trap(v, ac)); break; case 2: o->prof.reset(new VelocityProfile_TrapHalf(v, ac)); break; case 3: o->prof.reset(new VelocityProfile_Spline()); break; default: o->prof.reset(new VelocityProfile_Dirac()); } if (k == 3) o->prof->SetProfileDuration(0, l, T); else o->prof->SetProfile(0, l); } w.v.push_back(std::move(o)); break; }
    case V_CLONE: { int i = w.pick(d, PROF); if (i < 0) return; std::unique_ptr<Obj> o(new Obj(PROF)); { Arm a(w); o->prof.reset(w.v[i]->prof->Clone()); } w.v.push_back(std::move(o)); break; }
    case J_NEW: { int k = (int)d.range(0, 3), i = w.pick(d, PATH), j = w.pick(d, PROF); double T = d.uni(0.5, 4); Frame F = rframe(d); std::unique_ptr<Obj> o(new Obj(TRAJ)); if (k < 2 && (i < 0 || j < 0 || w.v[i]->pk >= 3)) k = 2; if (k < 2) o->needs = {i, j}; o->pk = k; { Arm a(w); if (k < 2) o->traj.reset(new Trajectory_Segment(w.v[i]->path.get(), w.v[j]->prof.get(), false)); else if (k == 2) o->traj.reset(new Trajectory_Stationary(T, F)); else o->traj.reset(new Trajectory_Composite()); } if (k < 2) w.v[j]->prof->SetProfileDuration(0, w.v[i]->path->PathLength(), T); w.v.push_back(std::move(o)); break; }
    case J_CLONE: { int i = w.pick(d, TRAJ); if (i < 0) return; std::unique_ptr<Obj> o(new Obj(TRAJ)); o->needs = w.v[i]->needs; o->pk = w.v[i]->pk; { Arm a(w); o->traj.reset(w.v[i]->traj->Clone()); } w.v.push_back(std::move(o)); break; }
    case J_ADD: { int i = -1; for (int t = 0; t < 4 && (i < 0 || w.v[i]->pk != 3); ++t) i = w.pick(d, TRAJ); int j = w.pick(d, TRAJ); if (i < 0 || i == j || w.v[i]->pk != 3) return; Frame F = rframe(d); std::unique_ptr<Trajectory> t(w.v[j]->traj->Clone()); w.written = i; { Arm a(w); static_cast<Trajectory_Composite*>(w.v[i]->traj.get())->Add(t.get()); } t.release(); for (int n : w.v[j]->needs) w.v[i]->needs.push_back(n); break; }
    case DESTROY: { if (w.v.empty()) return; int i = (int)d.range(0, (int64_t)w.v.size() - 1); if (!w.v[i] || w.needed(i)) return; w.v[i].reset(); break; }
    }
}
// brings an object that was caught half-way in a change to the state of `from`, by assigning it
void settle(Obj& o, const Obj& from) { switch (o.kind) { case CHAIN: o.chain = from.chain; break; case TREE: *o.tree = *from.tree; break; case ARRAY: o.q = from.q; o.J = from.J; o.H = from.H; o.qv = from.qv; o.qa = from.qa; break; default: break; } }
void execute(const Program& p, Ctx& x) {
    World ref, sut; int k = 0; uint64_t sig = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; int op = (int)st.a[0]; Draw d = x.draw(st); x.ev(OP[op]); size_t n0 = ref.v.size(); std::vector<Print> before; for (size_t i = 0; i < n0; ++i) before.push_back(printed(ref, (int)i));
        // the object that will be written, as it is now
        if (op == DESTROY) { mem::arm_always(false); run(ref, op, d, x); struct Empty { Empty() { mem::arm_failure(-1); } ~Empty() { mem::arm_always(false); } } e; size_t live = sut.v.size(); int idx = -1; { Draw q = d; if (live) { idx = (int)q.range(0, (int64_t)live - 1); if (!sut.v[idx] || sut.needed(idx)) idx = -1; } } if (idx >= 0) { mem::arm_always(true); sut.v[idx].reset(); mem::arm_always(false); x.fault("no-memory-while-destroying"); x.probe("destroyed-without-memory"); } continue; }
        std::vector<std::unique_ptr<Obj>> copies; { for (auto& o : ref.v) { copies.emplace_back(); if (o && (o->kind == CHAIN || o->kind == TREE || o->kind == ARRAY)) { std::unique_ptr<Obj> c(new Obj(o->kind)); if (o->kind == CHAIN) c->chain = o->chain; else if (o->kind == TREE) c->tree.reset(new Tree(*o->tree)); else { c->q = o->q; c->J = o->J; c->H = o->H; c->qv = o->qv; c->qa = o->qa; } copies.back() = std::move(c); } } }
        ref.fail_at = -1; run(ref, op, d, x); int64_t K = ref.count; x.i(K); x.op(OP[op]);
        int tries = (int)st.a[2];
        for (int t = 0; t < tries && K > 0; ++t) {
            int64_t at = (st.a[1] + t * 7919) % K; sut.fail_at = at; bool failed = false, reported = false; size_t size0 = sut.v.size();
            try { run(sut, op, d, x); } catch (const std::bad_alloc&) { failed = reported = true; } catch (const Error&) { failed = true; reported = op == P_TEXT; if (!reported) { mem::arm_failure(-1); x.fail("wrong-report", "%s: running out of memory at allocation %lld of %lld is reported as one of the library's own errors", OP[op], (long long)at, (long long)K); } }
            bool fired = sut.fired; sut.fail_at = -1;
            if (!failed) { if (fired) x.fail("not-reported", "%s: allocation %lld of %lld failed, and nothing was reported", OP[op], (long long)at, (long long)K); goto done; }
            x.fault("allocation-failed"); x.nontrivial = true; sig = mix64(sig ^ (uint64_t)(op * 4096 + at)); x.cover((uint64_t)(op * 65536 + at * 16 + (t > 0)));
            int wr = sut.written; while (sut.v.size() > size0) { sut.v.pop_back(); wr = -1; }
            for (size_t i = 0; i < size0; ++i) { if (!sut.v[i]) continue; if ((int)i == wr && !sut.whole) continue; Print now = printed(sut, (int)i); if (!same(now, before[i])) x.fail((int)i == wr ? "half-done" : "other-object-changed", "%s: allocation %lld of %lld failed, and %s %zu is not what it was", OP[op], (long long)at, (long long)K, NAME[sut.v[i]->kind], i); }
            if (wr >= 0 && !sut.whole && copies[wr]) { settle(*sut.v[wr], *copies[wr]); if (!same(printed(sut, wr), before[wr])) x.fail("not-assignable", "%s: allocation %lld of %lld failed, and assigning the %s afresh does not restore it", OP[op], (long long)at, (long long)K, NAME[sut.v[wr]->kind]); x.probe("assigned-afresh"); }
            x.probe("failure-reported");
        }
        sut.fail_at = -1; run(sut, op, d, x);
    done:
        if (!same(ref.out, sut.out, op == S_CALL ? 1e-6 : 1e-10)) x.fail("repeat-differs", "%s%s%s, repeated with memory available, gives another result than without the failure", OP[op], op == S_CALL ? " " : "", op == S_CALL ? zoo::NAME[ref.v[ref.written]->sk] : ""); for (double q : ref.out) x.d(q);
        if (ref.v.size() != sut.v.size()) x.fail("harness", "worlds differ after %s", OP[op]); for (size_t i = 0; i < ref.v.size(); ++i) if (!same(printed(ref, (int)i), printed(sut, (int)i))) x.fail("repeat-differs", "after %s, repeated with memory available, %s %zu differs from the world without failures", OP[op], NAME[ref.v[i]->kind], i);
    }
    x.cover(sig); { mem::arm_always(true); while (!sut.v.empty()) sut.v.pop_back(); mem::arm_always(false); } x.probe("all-destroyed");
}
void generate(Rng& r, Program& p, bool thorough) {
    int n = (int)r.range(3, thorough ? 26 : 16), focus = (int)r.range(0, 3); static const int START[4][4] = {{C_NEW, C_NEW, S_NEW, A_NEW}, {T_NEW, C_NEW, T_NEW, TS_NEW}, {P_NEW, P_NEW, V_NEW, J_NEW}, {A_NEW, A_NEW, C_NEW, S_NEW}};
    for (int i = 0; i < n; ++i) { int op; if (i < 4) op = START[focus][i]; else if (focus == 0) op = r.weighted({1, 1, 1, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0.3, 0, 0, 0, 0, 4, 8, 2}); else if (focus == 1) op = T_NEW + r.weighted({1, 1.5, 1.5, 3, 1.5, 1.5, 2, 2}); else if (focus == 2) op = P_NEW + r.weighted({4, 2, 3, 4, 1.5, 2, 2, 1, 3, 2, 3}); else op = A_NEW + r.weighted({1, 1, 2, 2, 1, 1, 1}); if (focus == 1 && i >= 4 && r.chance(0.3)) op = r.chance(0.4) ? TS_NEW : TS_CALL; if (i >= 4 && r.chance(0.06)) op = DESTROY; p.add("do", {op, r.range(0, 100000), r.weighted({1, 5, 2})}, r.next()); }
}
Scenario S{"A01", "memory runs out", "exploration", generate, execute,
    "A run is 3-26 operations (build, copy, assign, edit, solve, read, destroy) on chains, trees, arrays, solvers, paths, profiles and trajectories; before an operation succeeds it fails up to twice at a seeded one of its allocations, counted in a twin world without failures. Non-trivial: an allocation failed; distinct by the sequence of operations and failing allocations.",
    {"Chain, Tree, JntArray and relatives, Jacobian", "all chain solvers of the library, tree solvers", "paths, profiles, trajectories, Path::Read"}, {"heap (counted, fails at a chosen allocation, seeded content)"},
    {"an operation on one segment, point or part happens completely or not at all; an object caught half-way in a larger change can be assigned or destroyed", "parts handed over when a composition fails to add them stay the caller's", "a read may report exhaustion as a stream error, as the standard streams do"},
    60000, 3000000, 60, 500, {"fault:allocation-failed", "fault:no-memory-while-destroying", "probe:assigned-afresh", "probe:failure-reported", "probe:all-destroyed", "op:build-chain", "op:add-segment", "op:tree-add-segment", "op:solve", "op:rounded-add", "op:composite-add", "op:trajectory-add", "op:clone-path", "op:path-text"}, true};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S}); }
