// T04: tree inverse kinematics (velocity and limited position solver).  T05: the online controller.
#include "treegen.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
using namespace gen; using namespace KDL;
namespace {
typedef std::vector<ld> VL; typedef std::vector<VL> ML;
V3 rotdiff(const M3& a, const M3& b) { M3 R = b * ref::tr(a); V3 s = ref::v3((R.m[2][1] - R.m[1][2]) / 2, (R.m[0][2] - R.m[2][0]) / 2, (R.m[1][0] - R.m[0][1]) / 2); ld n = ref::norm(s), c = (R.m[0][0] + R.m[1][1] + R.m[2][2] - 1) / 2, ang = std::atan2(n, c); if (n < 1e-12L) { if (c > 0) return s; return ref::v3(3.14159265358979L, 0, 0); } return (ang / n) * s; }
Tw pdiff(const Pose& a, const Pose& b) { Tw t; t.v = b.p - a.p; t.w = rotdiff(a.R, b.R); return t; }
// injected inner solvers: the real ones behind a fault seam
struct Seam { Ctx* x; int fk_calls = 0, ik_calls = 0, fk_fail_at = -1, ik_fail_at = -1, ik_slow_at = -1; double code = -1; bool failed = false, slowed = false; std::vector<Twists> asked; std::vector<JntArray> q_at; JntArray delta; void reset() { Ctx* k = x; *this = Seam(); x = k; } Seam() : x(nullptr) {} };
struct FkStub : TreeFkSolverPos { TreeFkSolverPos_recursive real; Seam& s; FkStub(const Tree& t, Seam& q) : real(t), s(q) {}
    int JntToCart(const JntArray& q, Frame& f, std::string n) override { int k = s.fk_calls++; if (s.failed) s.x->fail("continues-after-failure", "position solver called again after a failure was reported"); if (k == s.fk_fail_at) { s.failed = true; s.x->fault("inner-pose-solver-failed"); return (int)s.code; } return real.JntToCart(q, f, n); } };
struct IkStub : TreeIkSolverVel { TreeIkSolverVel_wdls real; Seam& s; IkStub(const Tree& t, const std::vector<std::string>& e, Seam& q) : real(t, e), s(q) {}
    double CartToJnt(const JntArray& q, const Twists& v, JntArray& o) override { int k = s.ik_calls++; if (s.failed) s.x->fail("continues-after-failure", "velocity solver called again after a failure was reported"); s.asked.push_back(v); s.q_at.push_back(q);
        if (k == s.ik_fail_at) { s.failed = true; s.x->fault("inner-velocity-solver-failed"); for (unsigned i = 0; i < o.rows(); ++i) o(i) = 1000; return s.code; }
        double r = real.CartToJnt(q, v, o); if (s.ik_slow_at >= 0 && k >= s.ik_slow_at && k < s.ik_slow_at + 3) { s.slowed = true; s.x->fault("inner-velocity-wrong"); for (unsigned i = 0; i < o.rows(); ++i) o(i) = -0.7 * o(i) + 0.1; } s.delta = o; if (r < 0) s.failed = true; return r; } };
struct Caller {
    Seam seam; std::unique_ptr<FkStub> fk; std::unique_ptr<IkStub> ik; std::unique_ptr<TreeIkSolverPos_NR_JL> jl; std::unique_ptr<TreeIkSolverPos_Online> on; std::unique_ptr<TreeIkSolverVel_wdls> vel;
    std::vector<std::string> ends; JntArray lo, hi, qdmax; double vt = 1, vr = 1, eps = 1e-6; unsigned maxiter = 100; ML Wq, Wy; double lambda = 0; bool badw = false, dirty = false, lim = true; JntArray q; Frames goals; bool started = false; JntArray out; TreeIkSolverVel_wdls& w() { return vel ? *vel : ik->real; }
};
struct World { std::unique_ptr<Tree> t; TModel m; std::map<std::string, int> idx; ref::Model rm; std::vector<std::unique_ptr<Caller>> v; };
ML ident(size_t n) { ML a(n, VL(n, 0)); for (size_t i = 0; i < n; ++i) a[i][i] = 1; return a; }
Eigen::MatrixXd toE(const ML& a) { Eigen::MatrixXd m(a.size(), a.empty() ? 0 : a[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) m(i, j) = (double)a[i][j]; return m; }
Pose pose_of(World& w, const VL& q, const std::string& n) { int i = w.idx.at(n); return i < 0 ? Pose() : w.rm.fk(q)[i]; }
// endpoints in the order of the solver's task vector
std::vector<std::string> order(const Caller& c) { std::set<std::string> s(c.ends.begin(), c.ends.end()); return std::vector<std::string>(s.begin(), s.end()); }
ML mulM(const ML& A, const ML& B) { size_t n = A.size(), k = B.size(), m = k ? B[0].size() : 0; ML R(n, VL(m, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) if (A[i][j] != 0) for (size_t l = 0; l < m; ++l) R[i][l] += A[i][j] * B[j][l]; return R; }
VL mulV(const ML& A, const VL& x) { VL r(A.size(), 0); for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < x.size(); ++j) r[i] += A[i][j] * x[j]; return r; }
ML weighted(World& w, Caller& c, const VL& q) { // Wy J Wq
    size_t R = 6 * c.ends.size(), n = (size_t)w.m.nj; ML J(R, VL(n, 0)); auto o = order(c); for (size_t k = 0; k < o.size(); ++k) { std::vector<Tw> T = w.rm.jac(q, w.idx.at(o[k])); for (size_t j = 0; j < n; ++j) for (int i = 0; i < 3; ++i) { J[6 * k + i][j] = T[j].v[i]; J[6 * k + 3 + i][j] = T[j].w[i]; } }
    return mulM(mulM(c.Wy, J), c.Wq);
}
VL stack(Caller& c, const std::map<std::string, Tw>& t) { VL b(6 * c.ends.size(), 0); auto o = order(c); for (size_t k = 0; k < o.size(); ++k) { auto it = t.find(o[k]); if (it == t.end()) continue; for (int i = 0; i < 3; ++i) { b[6 * k + i] = it->second.v[i]; b[6 * k + 3 + i] = it->second.w[i]; } } return b; }
ld norm2(const VL& v) { ld s = 0; for (ld x : v) s += x * x; return std::sqrt(s); }
// the weighted damped least-squares velocities; false when a singular value is too close to the threshold to tell
bool wdls(const ML& A, const ML& Wq, const VL& b, ld lambda, VL& x, ld& low, ld& top, size_t& rank) {
    size_t n = Wq.size(), R = A.size(); ML S(n, VL(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < R; ++k) S[i][j] += A[k][i] * A[k][j];
    VL ev; ML V; ref::sym_eig(S, ev, V); top = 0; for (ld e : ev) top = std::max(top, std::sqrt(std::max<ld>(e, 0))); low = top; rank = 0; VL y(n, 0), Ab(n, 0); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < R; ++k) Ab[i] += A[k][i] * b[k];
    for (size_t j = 0; j < n; ++j) { ld s = std::sqrt(std::max<ld>(ev[j], 0)); if (s <= 1e-8L * top) { if (s > 1e-11L * top && lambda < 1e-3L) return false; continue; } if (s < 1e-5L * top && lambda < 1e-3L) return false; low = std::min(low, s); ++rank; ld t = 0; for (size_t i = 0; i < n; ++i) t += V[i][j] * Ab[i]; for (size_t i = 0; i < n; ++i) y[i] += V[i][j] * t / (ev[j] + lambda * lambda); }
    x = mulV(Wq, y); return true;
}
double smin(const ML& A, size_t n) { size_t R = A.size(), k = std::min(R, n); ML S(k, VL(k, 0)); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) { if (R <= n) for (size_t l = 0; l < n; ++l) S[i][j] += A[i][l] * A[j][l]; else for (size_t l = 0; l < R; ++l) S[i][j] += A[l][i] * A[l][j]; } VL ev; ML V; ref::sym_eig(S, ev, V); ld m = 1e30L; for (ld e : ev) m = std::min(m, e); return (double)std::sqrt(std::max<ld>(m, 0)); }
void build(World& w, const Program& p) {
    Draw d(p.seed ^ 0x7e57, false); int arms = (int)p.c("arms"), n = (int)p.c("n"), serial = 0; SegOpts o; o.inertia = o.rotor = false; o.p_fixed = p.c("fixed") ? 0.3 : 0.05; w.m.root = "base"; w.t.reset(new Tree("base")); std::vector<std::string> names{"base"}; std::string trunk = "base";
    for (int a = 0; a < arms; ++a) { std::string at = a == 0 ? "base" : names[(size_t)d.range(0, (int64_t)names.size() - 1)]; int len = (int)d.range(n, n + 2); for (int i = 0; i < len; ++i) { Seg g = rseg(d, o, "s" + std::to_string(serial++)); w.m.add(g, at); w.t->addSegment(toKs(g), at); at = g.name; names.push_back(at); } }
    if (!w.m.nj) { SegOpts o2 = o; o2.p_fixed = 0; Seg g = rseg(d, o2, "only"); w.m.add(g, "base"); w.t->addSegment(toKs(g), "base"); }   // (Eigen blocks of matrices without columns are not this library's affair)
    w.rm = w.m.model(w.idx);
}
void boot(World& w, const Program& p, const Step& st, Ctx& x, bool online) {
    Draw d = x.draw(st); x.ev("boot"); std::unique_ptr<Caller> c(new Caller); c->seam.x = &x; unsigned n = (unsigned)w.m.nj; int ne = (int)p.c("ends"); auto names = w.m.names(); std::vector<std::string> tips; for (auto& k : names) { bool leaf = k != w.m.root; for (auto& z : w.m.n) if (z.second.parent == k) leaf = false; if (leaf) tips.push_back(k); }
    for (int i = 0; i < ne; ++i) { std::string e = d.chance(0.7) ? tips[(size_t)d.range(0, (int64_t)tips.size() - 1)] : names[(size_t)d.range(0, (int64_t)names.size() - 1)]; bool dup = false; for (auto& k : c->ends) if (k == e) dup = true; if (!dup || d.chance(0.1)) c->ends.push_back(e); else if (dup) continue; }
    c->lim = p.c("limits"); c->lo.resize(n); c->hi.resize(n); c->qdmax.resize(n); c->q.resize(n); for (unsigned i = 0; i < n; ++i) { if (c->lim) { c->lo(i) = d.val(-2, 0.3); c->hi(i) = c->lo(i) + d.val(0, 3); double u = d.uni(0, 1); if (u < 0.1) c->hi(i) = c->lo(i); else if (u < 0.16) c->lo(i) = -100; else if (u < 0.22) c->hi(i) = 100; } else { c->lo(i) = -100; c->hi(i) = 100; } c->qdmax(i) = d.chance(0.05) ? 0 : d.uni(0.01, 0.6); c->q(i) = d.uni(std::max(c->lo(i), -3.0), std::min(c->hi(i), 3.0)); }
    c->vt = d.uni(0.02, 1); c->vr = d.chance(0.2) ? c->vt : d.uni(0.02, 1); if (d.chance(0.1)) c->vt = 5; if (d.chance(0.1)) c->vr = 5; c->eps = d.chance(0.5) ? 1e-6 : std::pow(10.0, -d.uni(2, 9)); c->maxiter = d.chance(0.5) ? 100 : (unsigned)d.range(0, 12); if (c->maxiter < 3) { x.fault("iteration-limit-small"); }
    c->Wq = ident(n); c->Wy = ident(6 * c->ends.size()); c->vel.reset(online ? nullptr : new TreeIkSolverVel_wdls(*w.t, c->ends)); c->fk.reset(new FkStub(*w.t, c->seam)); c->ik.reset(new IkStub(*w.t, c->ends, c->seam));
    if (online) c->on.reset(new TreeIkSolverPos_Online((double)n, c->ends, c->lo, c->hi, c->qdmax, c->vt, c->vr, *c->fk, *c->ik)); else c->jl.reset(new TreeIkSolverPos_NR_JL(*w.t, c->ends, c->lo, c->hi, *c->fk, *c->ik, c->maxiter, c->eps));
    if (d.chance(0.4)) { c->lambda = d.uni(0.001, 0.1); c->ik->real.setLambda(c->lambda); if (c->vel) c->vel->setLambda(c->lambda); }
    w.v.push_back(std::move(c)); if (w.v.size() > 1) x.nontrivial = true;
}
void weights(World& w, Caller& c, const Step& st, Ctx& x, bool allow_bad) {
    Draw d = x.draw(st); size_t n = (size_t)w.m.nj, R = 6 * c.ends.size(); bool js = d.chance(0.5); x.ev("weights"); auto put = [&](const Eigen::MatrixXd& E) { if (js) { c.ik->real.setWeightJS(E); if (c.vel) c.vel->setWeightJS(E); } else { c.ik->real.setWeightTS(E); if (c.vel) c.vel->setWeightTS(E); } };
    if (allow_bad && st.a[2] == 1) { x.fault("wrong-size-weights"); x.nontrivial = true; size_t k = (js ? n : R) + 1; put(Eigen::MatrixXd::Identity(k, k)); c.badw = true; c.Wq = ident(n); c.Wy = ident(R); return; }
    if (c.badw) { c.ik->real.setWeightJS(toE(ident(n))); c.ik->real.setWeightTS(toE(ident(R))); if (c.vel) { c.vel->setWeightJS(toE(ident(n))); c.vel->setWeightTS(toE(ident(R))); } c.Wq = ident(n); c.Wy = ident(R); c.badw = false; x.op("weights-repaired"); }
    size_t k = js ? n : R; ML M = ident(k); bool full = d.chance(0.3); for (size_t i = 0; i < k; ++i) M[i][i] = d.chance(st.a[2] == 2 ? 0.15 : 0) ? 0 : d.uni(0.5, 2);
    if (full) for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < i; ++j) if (M[i][i] != 0 && M[j][j] != 0) M[i][j] = M[j][i] = d.uni(-0.05, 0.05);
    for (auto& r : M) for (auto& e : r) e = (double)e; (js ? c.Wq : c.Wy) = M; put(toE(M)); x.op("weights");
    if (d.chance(0.3)) { c.lambda = d.chance(0.4) ? 0 : d.uni(0.001, 0.3); c.ik->real.setLambda(c.lambda); if (c.vel) c.vel->setLambda(c.lambda); }
}
void settings(Caller& c, Ctx& x) {
    if (c.badw) return; for (auto* k : {&c.ik->real, c.vel.get()}) if (k && (k->getLambda() != c.lambda || k->getWeightJS() != toE(c.Wq) || k->getWeightTS() != toE(c.Wy))) x.fail("setting-lost", "the damping %g and the weights of a velocity solver are not those given (damping %g)", k->getLambda(), c.lambda);
}
std::string who(Draw& d, Caller& c) { return c.ends[(size_t)d.range(0, (int64_t)c.ends.size() - 1)]; }
void vel_call(World& w, Caller& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); unsigned n = (unsigned)w.m.nj; int bad = (int)st.a[1]; JntArray q = rq(d, n, d.chance(0.15) ? 0 : 3), out(n); VL Q = toL(q); Twists v; std::map<std::string, Tw> t; for (auto& e : c.ends) { Tw a; a.v = rvec(d, 1); a.w = rvec(d, 1); for (int i = 0; i < 3; ++i) { a.v.x[i] = (double)a.v[i]; a.w.x[i] = (double)a.w[i]; } v[e] = toKt(a); t[e] = a; }
    bool refuse = c.badw, nan = false; if (bad) x.nontrivial = true;
    if (bad == 1) { x.fault("unknown-endpoint"); v["nobody"] = Twist::Zero(); refuse = true; } if (bad == 2) { x.fault("endpoint-left-out"); std::string k = who(d, c); v.erase(k); t.erase(k); }
    if (bad == 3) { x.fault("wrong-size-input"); q = rq(d, d.chance(0.5) || !n ? n + 1 : n - 1, 1); refuse = true; } if (bad == 4) { x.fault("nan-input"); nan = true; if (d.chance(0.5) && n) q(0) = NAN; else v[who(d, c)].vel(1) = d.chance(0.5) ? NAN : INFINITY; }
    x.ev("velocity"); x.i(bad); double r = c.w().CartToJnt(q, v, out); x.d(r); x.op("velocity");
    settings(c, x);
    if (refuse) { if (!(r < 0)) x.fail("bad-input-accepted", "tree velocity solver returned %g (%s)", r, c.badw ? "weights of the wrong size" : bad == 1 ? "unknown endpoint" : "wrong size"); c.dirty = true; return; }
    if (nan) { c.dirty = true; return; } if (bad == 2 && r < 0) { x.probe("partial-twists-refused"); return; }
    if (!(r >= 0)) x.fail("valid-call-refused", "tree velocity solver returned %g", r);
    ML A = weighted(w, c, Q); VL b = mulV(c.Wy, stack(c, t)), R; ld low, top; size_t rank = 0; if (!near(r, norm2(b), 1e-10)) x.fail("distance-wrong", "returned %.12g, the weighted norm of the twists is %.12g", r, (double)norm2(b));
    if (out.rows() != n) x.fail("result-size-wrong", "%u joint velocities for %u joints", out.rows(), n);
    for (unsigned i = 0; i < n; ++i) if (!(std::fabs(out(i)) < 1e200)) x.fail("not-finite", "joint velocity %u is %g (damping %g, %zu endpoints, %u joints)", i, out(i), c.lambda, c.ends.size(), n);
    if (!wdls(A, c.Wq, b, c.lambda, R, low, top, rank)) { x.probe("singular-value-at-threshold"); return; }
    ld amp = norm2(b) / std::max<ld>(1e-300L, std::max<ld>(low, (ld)c.lambda)) * (top / std::max<ld>(1e-300L, std::max<ld>(low, (ld)c.lambda))); for (unsigned i = 0; i < n; ++i) { x.d(out(i)); if (!(std::fabs(out(i) - R[i]) <= 1e-9L * (1 + amp))) x.fail("velocity-wrong", "joint velocity %u is %.10g, the weighted damped least-squares solution %.10g (damping %g, singular values %.3g..%.3g%s)", i, out(i), (double)R[i], c.lambda, (double)low, (double)top, c.dirty ? ", after a fault" : ""); }
    x.probe(c.dirty ? "velocity-checked-after-fault" : "velocity-checked"); if (n > 6 * c.ends.size()) x.probe("velocity-redundant"); if (rank < std::min<size_t>(n, 6 * c.ends.size())) x.probe("velocity-singular"); if (c.lambda == 0) x.probe("velocity-undamped");
}
struct Ask { Frames goals; std::map<std::string, Pose> ref; bool unknown = false, nan = false, partial = false; };
Ask ask(World& w, Caller& c, Draw& d, Ctx& x, int goal, const VL& qg) {
    Ask a; int leave = goal == 4 ? (int)d.range(1, 2) : 0; std::vector<std::string> o = order(c);
    for (auto& e : o) { if (leave && (leave == 2 || d.chance(0.5))) { a.partial = true; continue; } Pose P = pose_of(w, qg, e); if (goal == 2) P.p = P.p + rvec(d, 3); if (goal == 6) { P.R = rodrigues(runit(d), 3.1L); } Frame F = toK(P); if (goal == 3 && d.chance(0.6)) { a.nan = true; if (d.chance(0.5)) F.p(0) = d.chance(0.5) ? NAN : INFINITY; else F.M(1, 1) = NAN; } a.goals[e] = F; a.ref[e] = fromK(F); }
    if (a.partial) x.fault("goal-left-out"); if (a.nan) x.fault("nan-goal"); if (goal == 2) x.fault("goal-unreachable"); if (goal == 5) { a.goals["nobody"] = Frame::Identity(); a.unknown = true; x.fault("unknown-endpoint"); } return a;
}
bool inside(const Caller& c, const JntArray& q, double tol) { for (unsigned i = 0; i < q.rows(); ++i) if (!(q(i) >= c.lo(i) - tol && q(i) <= c.hi(i) + tol)) return false; return true; }
// every twist the inner solver was asked for: towards the goal for the endpoints named, none for the others
void check_asked(World& w, Caller& c, const Ask& a, Ctx& x, bool scaled) {
    for (size_t k = 0; k < c.seam.asked.size(); ++k) { VL Q = toL(c.seam.q_at[k]); if (is_nan(c.seam.q_at[k])) continue;
        for (auto& t : c.seam.asked[k]) { Tw T = fromK(t.second); auto g = a.ref.find(t.first); if (g == a.ref.end()) { if (tnorm(T) != 0) x.fail("unnamed-endpoint-moved", "endpoint '%s' is moved at %.3g although no goal was given for it", t.first.c_str(), tnorm(T)); continue; }
            if (scaled && !a.nan) { if (!((double)ref::norm(T.v) <= c.vt * (1 + 1e-9) + 1e-12 && (double)ref::norm(T.w) <= c.vr * (1 + 1e-9) + 1e-12)) x.fail("task-limit-exceeded", "twist asked for '%s' moves at %.9g and turns at %.9g, limits %.9g and %.9g", t.first.c_str(), (double)ref::norm(T.v), (double)ref::norm(T.w), c.vt, c.vr); }
            if (a.nan) continue; Tw D = pdiff(pose_of(w, Q, t.first), g->second); ld nv = ref::norm(D.v), nw = ref::norm(D.w), s = 1; if (nw > 3.0L || nv > 1e6L) continue; if (scaled) { if (nv > c.vt) s = std::min(s, c.vt / nv); if (nw > c.vr) s = std::min(s, c.vr / nw); }
            Tw E; E.v = T.v - s * D.v; E.w = T.w - s * D.w; if (!(tnorm(E) <= 1e-6 * (1 + tnorm(D)))) x.fail("twist-not-towards-goal", "twist asked for '%s' is off by %.3g from the way to its goal%s", t.first.c_str(), tnorm(E), scaled ? ", scaled to the limits" : ""); } }
}
void pos_call(World& w, Caller& c, const Step& st, Ctx& x, bool progress) {
    Draw d = x.draw(st); unsigned n = (unsigned)w.m.nj; int goal = progress ? 0 : (int)st.a[1], fault = progress ? 0 : (int)st.a[2], at = (int)st.a[3]; JntArray q0(n), qg(n), out(d.chance(0.2) ? n + 1 : n); bool in = progress || d.chance(0.7); double spread = progress ? 0.02 : goal == 1 ? 0 : 0.5;
    for (unsigned i = 0; i < n; ++i) { q0(i) = in ? d.uni(std::max(c.lo(i), -3.0), std::min(c.hi(i), 3.0)) : d.uni(-5, 5); qg(i) = q0(i) + d.uni(-spread, spread); }
    Ask a = ask(w, c, d, x, goal, toL(qg)); if (goal >= 2) x.nontrivial = true; c.seam.reset(); c.seam.code = -(double)d.range(1, 9); bool size_bad = false; if (fault) x.nontrivial = true;
    if (fault == 1) c.seam.fk_fail_at = at; if (fault == 2) c.seam.ik_fail_at = at; if (fault == 3) c.seam.ik_slow_at = at; if (fault == 4) { x.fault("wrong-size-input"); q0 = rq(d, d.chance(0.5) || !n ? n + 1 : n - 1, 1); size_bad = true; }
    if (progress) { bool ok = c.maxiter >= 100 && !c.badw && c.eps >= 1e-7; if (!ok) return; for (unsigned i = 0; i < n; ++i) if (q0(i) - c.lo(i) < 0.3 || c.hi(i) - q0(i) < 0.3) return; if (c.lambda > 0.05) return; ML A = weighted(w, c, toL(q0)); if (n == 0 || smin(A, n) < 0.15) return; for (size_t i = 0; i < c.Wq.size(); ++i) if (c.Wq[i][i] == 0) return; for (size_t i = 0; i < c.Wy.size(); ++i) if (c.Wy[i][i] == 0) return; }
    bool alias = !size_bad && d.chance(0.15); if (alias) { out = q0; x.probe("one-array-in-and-out"); }
    x.ev("position"); x.i(goal); x.i(fault); double r = c.jl->CartToJnt(alias ? out : q0, a.goals, out); x.d(r); x.i(c.seam.ik_calls); x.op("position"); bool inner = c.seam.failed;
    if (std::isnan(r)) x.fail("result-not-a-number", "the position solver returned NaN");
    if (size_bad || a.unknown || c.badw) { if (!(r < 0) && (c.maxiter > 0)) x.fail("bad-input-accepted", "position solver returned %g (%s)", r, size_bad ? "wrong size" : a.unknown ? "unknown endpoint" : "velocity solver refuses"); c.dirty = true; if (size_bad || a.unknown) return; }
    if ((unsigned)c.seam.ik_calls > c.maxiter) x.fail("iteration-limit-exceeded", "%d iterations, limit %u", c.seam.ik_calls, c.maxiter);
    if (inner && r != c.seam.code && !c.badw) { if (!(r < 0)) x.fail("failure-reported-as-success", "an inner solver failed with %g, the position solver returned %g", c.seam.code, r); }
    if (out.rows() != n) x.fail("result-size-wrong", "%u joint positions for %u joints", out.rows(), n);
    if (!inside(c, out, 0)) { for (unsigned i = 0; i < n; ++i) if (!(out(i) >= c.lo(i) && out(i) <= c.hi(i))) x.fail("limits-violated", "joint %u is at %.12g, limits %.12g..%.12g (result %g, start %.6g)", i, out(i), c.lo(i), c.hi(i), r, q0(i)); }
    log(x, out); check_asked(w, c, a, x, false); x.cover(mix64((uint64_t)goal * 8 + (uint64_t)fault) ^ mix64((uint64_t)(r >= 0) * 100 + (uint64_t)std::min(c.seam.ik_calls, 20)));
    if (r >= 0) {
        if (a.nan) x.fail("non-finite-goal-reached", "a goal that is not finite is reported as reached (%g)", r);
        std::map<std::string, Tw> t; VL Q = toL(out); for (auto& g : a.ref) t[g.first] = pdiff(pose_of(w, Q, g.first), g.second); VL b = mulV(c.Wy, stack(c, t)); ld e = norm2(b);
        if (!(r < c.eps)) x.fail("accuracy-missed", "returned distance %g is not below the accuracy %g", r, c.eps); ld loose = 0; for (auto& g : t) loose = std::max(loose, (ld)tnorm(g.second)); if (!(std::fabs(r - e) <= 1e-9L * (1 + 0 * loose) + 1e-6L * e) && loose < 1) x.fail("distance-wrong", "returned distance %.9g, at the joint positions given it is %.9g", r, (double)e);
        if (!(e < c.eps + 1e-9L) && loose < 1) x.fail("goal-not-reached", "success, but the goals are %.6g away (accuracy %g)", (double)e, c.eps); x.probe(a.partial ? "reached-partial-goal" : "reached"); if (c.dirty) x.probe("reached-after-fault");
    } else { if (!inner && !c.badw && !a.nan) x.probe("too-many-iterations"); }
    if (progress) { if (!(r >= 0)) x.fail("no-progress", "a goal %.3g away from a well-conditioned start was not reached in %u iterations (result %g%s)", spread, c.maxiter, r, c.dirty ? ", after a fault" : ""); x.probe(c.dirty ? "progress-after-fault" : "progress"); }
    // nothing of earlier calls enters: a new solver of the same settings answers the same
    if (!fault && !c.badw && d.chance(0.3)) {
        Seam s2; s2.x = &x; FkStub f2(*w.t, s2); IkStub i2(*w.t, c.ends, s2); i2.real.setLambda(c.lambda); i2.real.setWeightJS(toE(c.Wq)); i2.real.setWeightTS(toE(c.Wy)); TreeIkSolverPos_NR_JL twin(*w.t, c.ends, c.lo, c.hi, f2, i2, c.maxiter, c.eps); JntArray o2(n); double r2 = twin.CartToJnt(q0, a.goals, o2);
        if (!a.nan) { if ((r < 0) != (r2 < 0) || (r >= 0 && !near(r, r2, 1e-9))) x.fail("history-dependent", "result %g, a new solver gives %g", r, r2); for (unsigned i = 0; i < n; ++i) if (!near(out(i), o2(i), 1e-9)) x.fail("history-dependent", "joint %u at %.12g, a new solver gives %.12g", i, out(i), o2(i)); x.probe("twin-compared"); } }
    if (fault || goal >= 2) c.dirty = true;
}
void exec_t04(const Program& p, Ctx& x) {
    World w; build(w, p); int k = 0;
    for (auto& st : p.steps) { x.step_no = k++; if (st.op == "boot") { boot(w, p, st, x, false); continue; } if (w.v.empty()) continue; Caller& c = *w.v[(size_t)(st.a[0] % (int64_t)w.v.size())]; if (st.op == "vel") vel_call(w, c, st, x); if (st.op == "pos") pos_call(w, c, st, x, false); if (st.op == "progress") pos_call(w, c, st, x, true); if (st.op == "weights") weights(w, c, st, x, true); }
}
void cfg(Rng& r, Program& p) { bool big = r.chance(0.3); p.cfg["arms"] = r.range(1, 3); p.cfg["n"] = big ? r.range(5, 7) : r.range(1, 4); p.cfg["ends"] = r.weighted({0, 5, 3, 1}); p.cfg["fixed"] = r.chance(0.3); p.cfg["limits"] = r.chance(0.6); }
void gen_t04(Rng& r, Program& p, bool th) {
    cfg(r, p); int nb = (int)r.range(1, 2); for (int i = 0; i < nb; ++i) p.add("boot", {}, r.next()); int steps = (int)r.range(4, th ? 40 : 20); double pb = r.chance(0.25) ? 0 : r.uni(0.1, 0.5);
    for (int i = 0; i < steps; ++i) { if (r.chance(0.12)) p.add("weights", {r.range(0, 1), 0, r.chance(0.15) ? 1 : r.range(0, 2)}, r.next()); else if (r.chance(0.35)) p.add("vel", {r.range(0, 1), r.chance(pb) ? r.range(1, 4) : 0}, r.next()); else if (r.chance(0.25)) p.add("progress", {r.range(0, 1), 0, 0, 0}, r.next()); else p.add("pos", {r.range(0, 1), r.chance(pb) ? r.range(1, 6) : 0, r.chance(pb) ? r.range(1, 4) : 0, r.chance(0.7) ? r.range(0, 4) : r.range(0, 60)}, r.next()); }
}
// ---- T05 -------------------------------------------------------------------------------------------------------
double cycle(World& w, Caller& c, const Ask& a, const JntArray& q, Ctx& x, bool nan_q, bool size_bad, bool alias = false) {
    // (a control loop may keep one array for what is measured and what is commanded)
    unsigned n = (unsigned)w.m.nj; JntArray out(n); if (alias && !size_bad) { out = q; x.probe("one-array-in-and-out"); } double r = c.on->CartToJnt(alias && !size_bad ? out : q, a.goals, out); x.d(r); x.op("cycle"); x.time(0.01); if (std::isnan(r)) x.fail("result-not-a-number", "the cycle returned NaN");
    if (size_bad || a.unknown) { if (!(r < 0)) x.fail("bad-input-accepted", "cycle returned %g (%s)", r, size_bad ? "wrong size" : "unknown endpoint"); return r; }
    if (c.seam.failed && !(r < 0)) x.fail("failure-reported-as-success", "an inner solver failed, the cycle returned %g", r);
    if (nan_q) return r; check_asked(w, c, a, x, true);
    if (r < 0) { if (!c.seam.failed && !a.nan && !c.badw) x.fail("valid-call-refused", "cycle returned %g", r); for (unsigned i = 0; i < n; ++i) if (out(i) != q(i)) x.fail("failed-cycle-moves", "a cycle that failed (%g) moves joint %u from %.9g to %.9g", r, i, q(i), out(i)); return r; }
    if (a.nan && !a.goals.empty()) x.fail("non-finite-goal-accepted", "the cycle returned %g for a goal that is not finite", r);
    log(x, out); if (c.seam.ik_calls != 1) x.fail("not-one-iteration", "the velocity solver was asked %d times in one cycle", c.seam.ik_calls);
    double s = 1; const JntArray& D = c.seam.delta; for (unsigned i = 0; i < n; ++i) if (std::fabs(D(i)) > c.qdmax(i)) s = std::min(s, c.qdmax(i) / std::fabs(D(i)));
    for (unsigned i = 0; i < n; ++i) {
        if (!(out(i) >= c.lo(i) && out(i) <= c.hi(i))) x.fail("limits-violated", "joint %u is commanded to %.12g, limits %.12g..%.12g", i, out(i), c.lo(i), c.hi(i));
        bool in = q(i) >= c.lo(i) && q(i) <= c.hi(i); if (in && !(std::fabs(out(i) - q(i)) <= c.qdmax(i) * (1 + 1e-9) + 1e-12)) x.fail("joint-speed-exceeded", "joint %u moves by %.9g in a cycle, limit %.9g", i, out(i) - q(i), c.qdmax(i));
        double want = std::min(std::max(q(i) + s * D(i), c.lo(i)), c.hi(i)); if (!(std::fabs(out(i) - want) <= 1e-9 * (1 + std::fabs(D(i))))) x.fail("joint-direction-lost", "joint %u is commanded to %.9g; the joint velocities asked for, scaled to the limits together, give %.9g", i, out(i), want);
    }
    if (s < 1) x.probe("joint-speed-limited"); for (auto& t : c.seam.asked[0]) { Tw T = fromK(t.second); if (std::fabs((double)ref::norm(T.v) - c.vt) < 1e-9 * c.vt) x.probe("translation-limited"); if (std::fabs((double)ref::norm(T.w) - c.vr) < 1e-9 * c.vr) x.probe("rotation-limited"); }
    c.out = out; return r;
}
void online(World& w, Caller& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); unsigned n = (unsigned)w.m.nj; int goal = (int)st.a[1], fault = (int)st.a[2]; JntArray q = c.q; bool nan_q = false, size_bad = false; if (goal >= 2 || fault) x.nontrivial = true;
    c.seam.reset(); c.seam.code = -(double)d.range(1, 9); if (fault == 1) c.seam.fk_fail_at = (int)d.range(0, 1); if (fault == 2) c.seam.ik_fail_at = 0; if (fault == 3) c.seam.ik_slow_at = 0; if (fault == 4) { x.fault("measurement-jumped"); for (unsigned i = 0; i < n; ++i) q(i) += d.uni(-3, 3); } if (fault == 5) { x.fault("wrong-size-input"); size_bad = true; q = rq(d, d.chance(0.5) || !n ? n + 1 : n - 1, 1); } if (fault == 6 && n) { x.fault("nan-measurement"); nan_q = true; q(0) = NAN; }
    if (fault == 7) { x.fault("measurement-lags"); for (unsigned i = 0; i < n; ++i) q(i) = 0.5 * (q(i) + c.q(i)) + d.uni(-0.02, 0.02); }
    JntArray qg(n); for (unsigned i = 0; i < n; ++i) qg(i) = c.q(i) + d.uni(-0.5, 0.5); if (goal == 7) { if (!c.started) goal = 0; } x.ev("cycle"); x.i(goal); x.i(fault); Ask a = goal == 7 ? Ask() : ask(w, c, d, x, goal, toL(qg)); if (goal == 7) { a.goals = c.goals; for (auto& g : c.goals) a.ref[g.first] = fromK(g.second); x.probe("goal-kept"); } else if (!a.nan && !a.unknown) { c.goals = a.goals; c.started = true; }
    double r = cycle(w, c, a, q, x, nan_q, size_bad, d.chance(0.2)); x.cover(mix64((uint64_t)goal * 16 + (uint64_t)fault) ^ (r >= 0)); if (fault || goal >= 2) c.dirty = true; if (r >= 0 && !size_bad && !nan_q && !a.unknown) c.q = c.out;
}
void settle(World& w, Caller& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); unsigned n = (unsigned)w.m.nj; if (!n || c.badw || c.lambda > 0.05) return; JntArray q = c.q, qg(n), qm(n); for (size_t i = 0; i < c.Wq.size(); ++i) if (c.Wq[i][i] == 0) return; for (size_t i = 0; i < c.Wy.size(); ++i) if (c.Wy[i][i] == 0) return;
    for (unsigned i = 0; i < n; ++i) { qg(i) = q(i) + d.uni(-0.1, 0.1); if (std::min(q(i), qg(i)) - c.lo(i) < 0.4 || c.hi(i) - std::max(q(i), qg(i)) < 0.4 || c.qdmax(i) < 0.01) return; qm(i) = 0.5 * (q(i) + qg(i)); }
    for (auto* z : {&q, &qg, &qm}) if (smin(weighted(w, c, toL(*z)), n) < 0.25) return;
    Ask a = ask(w, c, d, x, 0, toL(qg)); x.ev("settle"); JntArray cur = q; double dist = 1e9; int N = 400, k = 0; bool lost = false;
    for (; k < N; ++k) { c.seam.reset(); double r = cycle(w, c, a, cur, x, false, false, k % 3 == 1); if (r < 0) x.fail("valid-call-refused", "cycle returned %g", r); cur = c.out; for (unsigned i = 0; i < n; ++i) if (std::fabs(cur(i) - qg(i)) > 1) lost = true; }
    dist = 0; VL Q = toL(cur); for (auto& g : a.ref) dist = std::max(dist, tnorm(pdiff(pose_of(w, Q, g.first), g.second))); c.q = cur; if (lost) { x.probe("settle-left-neighbourhood"); return; }
    if (!(dist < 1e-5)) x.fail("not-settled", "%d cycles after goals 0.1 rad away stood still they are %.6g away%s", N, dist, c.dirty ? ", after faults" : ""); x.probe(c.dirty ? "settled-after-faults" : "settled");
}
void exec_t05(const Program& p, Ctx& x) {
    World w; build(w, p); int k = 0;
    for (auto& st : p.steps) { x.step_no = k++; if (st.op == "boot") { boot(w, p, st, x, true); continue; } if (w.v.empty()) continue; Caller& c = *w.v[(size_t)(st.a[0] % (int64_t)w.v.size())]; if (st.op == "cycle") online(w, c, st, x); if (st.op == "settle") settle(w, c, st, x); if (st.op == "weights") weights(w, c, st, x, false); }
}
void gen_t05(Rng& r, Program& p, bool th) {
    cfg(r, p); if (r.chance(0.5)) p.cfg["limits"] = 0; int nb = (int)r.range(1, 2); for (int i = 0; i < nb; ++i) p.add("boot", {}, r.next()); int steps = (int)r.range(5, th ? 80 : 40); double pb = r.chance(0.25) ? 0 : r.uni(0.05, 0.4); bool st = r.chance(0.4); int at = (int)r.range(0, steps - 1);
    for (int i = 0; i < steps; ++i) { if (r.chance(0.04)) p.add("weights", {r.range(0, 1), 0, r.range(0, 2)}, r.next()); p.add("cycle", {r.range(0, 1), r.chance(0.4) ? 7 : r.chance(pb) ? r.range(2, 6) : r.range(0, 1), r.chance(pb) ? r.range(1, 7) : 0}, r.next()); if (st && i >= at && r.chance(0.3)) p.add("settle", {r.range(0, 1)}, r.next()); }
}
Scenario T04{"T04", "tree inverse kinematics", "exploration", gen_t04, exec_t04,
    "A run drives 1-2 tree velocity and limited position solvers over one tree of 1-3 branches with 1-3 endpoints: weights and damping change; goals are partial, unknown, unreachable or not finite; the inner position and velocity solvers fail or mislead at seeded calls; requests near well-conditioned starts in between must be solved. Non-trivial: a fault or two callers; distinct by the sequence of calls and faults.",
    {"TreeIkSolverVel_wdls, TreeIkSolverPos_NR_JL, TreeJntToJacSolver, TreeFkSolverPos_recursive, svd_eigen_HH"}, {"inner solvers (real ones behind a fault seam)", "heap (seeded content of fresh memory)"},
    {"velocities compared with the long-double least-squares solution unless a singular value is between 1e-11 and 1e-5 of the largest without damping", "results below 1e-9 in task distance count as equal", "whether twists that leave out an endpoint are refused or taken as zero is left open"}, 30000, 1500000, 50, 600,
    {"fault:unknown-endpoint", "fault:endpoint-left-out", "fault:goal-left-out", "fault:nan-goal", "fault:goal-unreachable", "fault:inner-pose-solver-failed", "fault:inner-velocity-solver-failed", "fault:wrong-size-weights", "probe:velocity-checked", "probe:velocity-checked-after-fault", "probe:velocity-redundant", "probe:velocity-singular", "probe:velocity-undamped", "probe:reached", "probe:reached-partial-goal", "probe:reached-after-fault", "probe:progress-after-fault", "probe:too-many-iterations", "probe:twin-compared"}};
Scenario T05{"T05", "online tree controller", "exploration", gen_t05, exec_t05,
    "A run plays cycles of 1-2 online controllers under a simulated clock: goals stand still, jump, vanish, become unreachable or not finite; measurements lag, jump or are unusable; inner solvers fail or mislead. Every cycle is checked against position, joint-speed and task-speed limits; in some runs the goals then stand still at a reachable pose and the commands must converge. Non-trivial: a fault or two controllers; distinct by the sequence of cycles and faults.",
    {"TreeIkSolverPos_Online, TreeIkSolverVel_wdls, TreeFkSolverPos_recursive"}, {"clock and joint measurements", "inner solvers (real ones behind a fault seam)", "heap (seeded content of fresh memory)"},
    {"a cycle that reports failure must give back the measured positions; otherwise limits hold exactly (positions) or to 1e-9 (speeds)", "convergence judged for goals up to 0.1 rad away in every joint, smallest singular value 0.25, damping up to 0.05, 400 cycles"}, 30000, 1500000, 50, 600,
    {"fault:goal-left-out", "fault:nan-goal", "fault:goal-unreachable", "fault:unknown-endpoint", "fault:inner-pose-solver-failed", "fault:inner-velocity-solver-failed", "fault:inner-velocity-wrong", "fault:measurement-jumped", "fault:nan-measurement", "probe:joint-speed-limited", "probe:translation-limited", "probe:rotation-limited", "probe:goal-kept", "probe:settled", "probe:settled-after-faults"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&T04, &T05}); }
