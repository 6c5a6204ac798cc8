// I01: position inverse kinematics never claims a solution it does not have.
// I02: it makes progress once faults stop.
#include "kdlgen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include <Eigen/SVD>
using namespace gen; using namespace KDL;
namespace {
// ---- injected inner solvers: real solvers behind a fault seam -------------------------------------------
struct Seam { int fk_calls = 0, ik_calls = 0, fk_fail_at = -1, ik_fail_at = -1, ik_degrade_at = -1, ik_garbage_at = -1, garbage_kind = 0, fk_code = -1, ik_code = -1; bool failed_fk = false, failed_ik = false, degraded = false, garbage = false, nan = false, ran = false; Ctx* x = nullptr; uint64_t seed = 0;
    void reset() { Ctx* k = x; *this = Seam(); x = k; } };
struct FkStub : ChainFkSolverPos { ChainFkSolverPos_recursive real; Seam& s; FkStub(const Chain& c, Seam& q) : real(c), s(q) {}
    int JntToCart(const JntArray& q, Frame& f, int n = -1) override { int k = s.fk_calls++; if (s.failed_ik || s.failed_fk) s.x->fail("continues-after-failure", "pose solver called again after a failure was reported"); if (k == s.fk_fail_at) { s.failed_fk = true; s.x->fault("inner-pose-solver-failed"); return s.fk_code; } return real.JntToCart(q, f, n); }
    int JntToCart(const JntArray& q, std::vector<Frame>& f, int n = -1) override { return real.JntToCart(q, f, n); }
    void updateInternalDataStructures() override { real.updateInternalDataStructures(); } };
struct IkStub : ChainIkSolverVel { std::unique_ptr<ChainIkSolverVel> real; Seam& s; IkStub(const Chain& c, int kind, Seam& q) : s(q) { if (kind == 0) real.reset(new ChainIkSolverVel_pinv(c)); else if (kind == 1) real.reset(new ChainIkSolverVel_wdls(c)); else real.reset(new ChainIkSolverVel_pinv_givens(c)); }
    int CartToJnt(const JntArray& q, const Twist& v, JntArray& o) override { int k = s.ik_calls++; if (s.failed_ik || s.failed_fk) s.x->fail("continues-after-failure", "velocity solver called again after a failure was reported");
        if (k == s.ik_fail_at) { s.failed_ik = true; s.x->fault("inner-velocity-solver-failed"); for (unsigned i = 0; i < o.rows(); ++i) o(i) = 1000; return s.ik_code; }
        int rc = real->CartToJnt(q, v, o); for (unsigned i = 0; i < q.rows(); ++i) if (std::fabs(q(i)) > 1e60 || (i < o.rows() && std::fabs(o(i)) > 1e60)) s.ran = true;     // unlimited joints have run away so far that the poses overflow
        if (k == s.ik_garbage_at) { s.x->fault("inner-velocity-wrong"); s.garbage = true; Draw d(s.seed, false); for (unsigned i = 0; i < o.rows(); ++i) o(i) = s.garbage_kind == 0 ? d.val(-2, 2) : s.garbage_kind == 1 ? 0 : s.garbage_kind == 2 ? o(i) * 1.7 : s.garbage_kind == 3 ? -o(i) : NAN; if (s.garbage_kind == 4) s.nan = true; rc = rc < 0 ? 0 : rc; }
        if (k == s.ik_degrade_at && rc >= 0) { s.x->fault("inner-velocity-degraded"); rc = 1; }
        if (rc > 0) s.degraded = true; if (rc < 0) s.failed_ik = true; return rc; }
    int CartToJnt(const JntArray&, const FrameVel&, JntArrayVel&) override { return -8; }
    void updateInternalDataStructures() override { real->updateInternalDataStructures(); } };
struct Caller { int kind, inner; unsigned maxiter; double eps; Seam seam; std::unique_ptr<FkStub> fk; std::unique_ptr<IkStub> ik; std::unique_ptr<ChainIkSolverPos_NR> nr; std::unique_ptr<ChainIkSolverPos_NR_JL> jl; std::unique_ptr<ChainIkSolverPos_LMA> lma; std::vector<double> lo, hi; Eigen::Matrix<double, 6, 1> L; bool limits = false, defaults = false, dirty = false;
    ChainIkSolverPos& s() { return kind == 0 ? (ChainIkSolverPos&)*nr : kind == 1 ? (ChainIkSolverPos&)*jl : (ChainIkSolverPos&)*lma; } };
const char* const NM[] = {"Newton", "limited Newton", "damped"};
struct World { ChainPair cp; std::vector<std::unique_ptr<Caller>> v; };
JntArray toJ(const std::vector<double>& v) { JntArray a((unsigned)v.size()); for (size_t i = 0; i < v.size(); ++i) a((unsigned)i) = v[i]; return a; }
// rotation vector taking a to b, in the base frame
V3 rotdiff(const M3& a, const M3& b) { M3 R = b * ref::tr(a); V3 s = ref::v3((R.m[2][1] - R.m[1][2]) / 2, (R.m[0][2] - R.m[2][0]) / 2, (R.m[1][0] - R.m[0][1]) / 2); ld n = ref::norm(s), c = (R.m[0][0] + R.m[1][1] + R.m[2][2] - 1) / 2, ang = std::atan2(n, c); if (n < 1e-12L) { if (c > 0) return s; return ref::v3(3.14159265358979L, 0, 0); } return (ang / n) * s; }
Pose fkref(World& w, const JntArray& q) { if (w.cp.m.s.empty()) return Pose(); return w.cp.m.fk(toL(q)).back(); }

void setlimits(Caller& c, Draw& d, unsigned n, bool progress) {
    for (unsigned i = 0; i < n; ++i) {
        c.lo[i] = d.val(-2, 0.5); c.hi[i] = c.lo[i] + (progress ? d.val(1.5, 3) : d.val(0, 3)); double u = d.uni(0, 1);
        if (u < 0.12) c.hi[i] = c.lo[i]; else if (u < 0.2) c.lo[i] = -1e308; else if (u < 0.28) c.hi[i] = 1e308; else if (u < 0.32) { c.lo[i] = -1e308; c.hi[i] = 1e308; }      // locked, one-sided, free
    }
}
void boot(World& w, Ctx& x, const Step& st, bool defaults) {
    Draw d = x.draw(st); unsigned n = w.cp.chain.getNrOfJoints(); std::unique_ptr<Caller> c(new Caller); c->kind = (int)(st.a[0] % 3); c->inner = (int)(st.a[1] % 3); c->seam.x = &x; c->defaults = defaults;
    c->maxiter = (unsigned)st.a[2]; c->eps = std::pow(10.0, -d.uni(3, 8)); if (defaults) { c->maxiter = c->kind == 2 ? 500 : 100; c->eps = c->kind == 2 ? 1e-5 : 1e-6; }
    c->fk.reset(new FkStub(w.cp.chain, c->seam)); c->ik.reset(new IkStub(w.cp.chain, c->inner, c->seam));
    c->lo.assign(n, -1e308); c->hi.assign(n, 1e308); c->L << 1, 1, 1, 0.01, 0.01, 0.01;
    if (c->kind == 0) { if (defaults) c->nr.reset(new ChainIkSolverPos_NR(w.cp.chain, *c->fk, *c->ik)); else c->nr.reset(new ChainIkSolverPos_NR(w.cp.chain, *c->fk, *c->ik, c->maxiter, c->eps)); }
    if (c->kind == 1) {
        if (!defaults && d.chance(0.6)) { c->limits = true; setlimits(*c, d, n, false); c->jl.reset(new ChainIkSolverPos_NR_JL(w.cp.chain, toJ(c->lo), toJ(c->hi), *c->fk, *c->ik, c->maxiter, c->eps)); }
        else if (defaults) c->jl.reset(new ChainIkSolverPos_NR_JL(w.cp.chain, *c->fk, *c->ik)); else c->jl.reset(new ChainIkSolverPos_NR_JL(w.cp.chain, *c->fk, *c->ik, c->maxiter, c->eps));
    }
    if (c->kind == 2) { if (defaults) c->lma.reset(new ChainIkSolverPos_LMA(w.cp.chain)); else if (d.chance(0.4)) c->lma.reset(new ChainIkSolverPos_LMA(w.cp.chain, c->eps, (int)c->maxiter)); else { for (int i = 0; i < 6; ++i) c->L(i) = d.chance(0.1) ? 0 : d.uni(0.05, 2); c->lma.reset(new ChainIkSolverPos_LMA(w.cp.chain, c->L, c->eps, (int)c->maxiter)); } }
    if (c->maxiter < 3) { x.fault("iteration-limit-small"); x.nontrivial = true; }
    w.v.push_back(std::move(c)); if (w.v.size() > 1) x.nontrivial = true; x.ev("boot");
}
void call(World& w, Caller& c, const Step& st, Ctx& x, bool progress) {
    unsigned n = w.cp.chain.getNrOfJoints(); Draw d = x.draw(st); int goal = (int)st.a[1], fault = (int)st.a[2], at = (int)st.a[3]; std::string pre = std::string(NM[c.kind]) + ": ";
    JntArray q0(n), qg(n); double m = progress ? 2 : d.chance(0.2) ? 8 : 2; double spread = progress ? 0.02 : goal == 0 ? 0.1 : goal == 1 ? 0 : goal == 2 ? 2 : 0.5;
    bool inside = c.limits && (progress || d.chance(0.7));
    for (unsigned i = 0; i < n; ++i) { q0(i) = inside && (c.hi[i] < 1e300 || c.lo[i] > -1e300) ? d.uni(c.lo[i] > -1e300 ? c.lo[i] : c.hi[i] - 4, c.hi[i] < 1e300 ? c.hi[i] : c.lo[i] + 4) : d.val(-m, m); qg(i) = q0(i) + d.uni(-spread, spread); if (!progress && goal == 1 && d.chance(0.3)) qg(i) = q0(i); }
    ChainFkSolverPos_recursive k(w.cp.chain); Frame G; k.JntToCart(qg, G); Pose GR = fkref(w, qg);
    if (!progress) {
        if (goal == 3) { V3 off = rvec(d, 3); G.p = G.p + toK(off); }                                            // most likely out of reach
        if (goal == 4) { x.fault("unreachable-goal"); G.p = Vector(100, -50, 30); }
        if (goal == 5) { x.fault("nan-goal"); x.nontrivial = true; if (d.chance(0.5)) G.p((int)d.range(0, 2)) = NAN; else G.M(0, (int)d.range(0, 2)) = NAN; }
        GR = fromK(G);
    }
    c.seam.reset();
    if (!progress && fault && c.kind != 2) { x.nontrivial = true; if (fault == 1) c.seam.fk_fail_at = at; if (fault == 2) c.seam.ik_fail_at = at; if (fault == 3) c.seam.ik_degrade_at = at; if (fault == 4) { c.seam.ik_garbage_at = at; c.seam.garbage_kind = (int)d.range(0, 4); } c.seam.fk_code = -(int)d.range(1, 120); c.seam.ik_code = -(int)d.range(1, 120); c.seam.seed = d.next(); }
    double cond = 0; if (progress) { ChainJntToJacSolver js(w.cp.chain); Jacobian J(n); js.JntToJac(q0, J); Eigen::JacobiSVD<Eigen::MatrixXd> sv(J.data); cond = sv.singularValues().minCoeff(); if (!(cond > 0.15 && sv.singularValues().maxCoeff() < 20 * cond)) return; }
    if (progress && c.limits) for (unsigned i = 0; i < n; ++i) if (q0(i) - c.lo[i] < 0.5 || c.hi[i] - q0(i) < 0.5) return;
    bool alias = d.chance(0.15), badsize = !progress && fault == 5; JntArray out(n); for (unsigned i = 0; i < n; ++i) out(i) = d.chance(0.5) ? NAN : 7; JntArray start = q0;
    if (badsize) { x.fault("wrong-size-array"); out = JntArray(n + 1); alias = false; }
    x.ev("call"); x.i(c.kind); x.i(goal); x.i(fault);
    int rc = c.s().CartToJnt(alias ? out = q0, out : q0, G, out); x.i(rc);
    x.op(NM[c.kind]); Seam& s = c.seam; x.cover(mix64((uint64_t)c.kind * 64 + (uint64_t)goal * 8 + (uint64_t)fault) ^ mix64((uint64_t)(rc + 200) * 31 + std::min(s.ik_calls, 12)) ^ mix64(n + (c.dirty ? 100 : 0)));
    if (badsize) { if (rc >= 0) x.fail("bad-input-accepted", "%sreturned %d for an output of the wrong size", pre.c_str(), rc); return; }
    x.i(s.fk_calls); x.i(s.ik_calls); log(x, out);
    if (c.kind != 2) {
        if (s.fk_calls > (int)c.maxiter || s.ik_calls > (int)c.maxiter) x.fail("iteration-limit-exceeded", "%sused the inner solvers %d/%d times, the iteration limit is %u", pre.c_str(), s.fk_calls, s.ik_calls, c.maxiter);
        if (s.failed_fk && rc != -101) x.fail("failure-misreported", "%sthe inner pose solver failed at iteration %d, the call returned %d", pre.c_str(), s.fk_calls, rc);
        if (s.failed_ik && rc != -100) x.fail("failure-misreported", "%sthe inner velocity solver failed at iteration %d, the call returned %d", pre.c_str(), s.ik_calls, rc);
        if (!s.failed_fk && !s.failed_ik && rc < 0 && rc != SolverI::E_MAX_ITERATIONS_EXCEEDED) x.fail("failure-misreported", "%sreturned %d although no inner solver failed", pre.c_str(), rc);
        if (rc == SolverI::E_MAX_ITERATIONS_EXCEEDED && s.ik_calls < (int)c.maxiter) x.fail("gave-up-early", "%sgave up after %d of %u iterations", pre.c_str(), s.ik_calls, c.maxiter);
        if (rc > 0 && !s.degraded) x.fail("failure-misreported", "%sreturned %d although no inner solver reported a degraded solution", pre.c_str(), rc);
    } else if (rc > 0 || (rc < 0 && rc != -100 && rc != -101 && rc != SolverI::E_MAX_ITERATIONS_EXCEEDED)) x.fail("failure-misreported", "%sreturned %d", pre.c_str(), rc);
    bool nan = goal == 5 && !progress; bool poisoned = nan || s.nan || (s.ran && is_nan(out)); if (s.ran) x.probe("ran-away");
    if (rc < 0) c.dirty = true;
    if (c.limits && !poisoned) for (unsigned i = 0; i < n; ++i) if (!(out(i) >= c.lo[i] && out(i) <= c.hi[i])) x.fail("limit-violated", "%sreturned %d with joint %u at %.17g, its limits are %g and %g", pre.c_str(), rc, i, out(i), c.lo[i], c.hi[i]);
    if (nan) { if (rc >= 0) x.fail("claimed-solution-wrong", "%sreturned %d for a goal that is not a pose", pre.c_str(), rc); return; }
    if (poisoned && rc < 0) return;
    Pose P = fkref(w, out); V3 dp = GR.p - P.p, dr = rotdiff(P.R, GR.R); ld E = 0; for (int i = 0; i < 3; ++i) { E += c.L(i) * c.L(i) * dp[i] * dp[i] + c.L(i + 3) * c.L(i + 3) * dr[i] * dr[i]; } E = std::sqrt(E);
    ld huge = 0; for (unsigned i = 0; i < n; ++i) huge = std::max<ld>(huge, std::fabs((ld)out(i))); if (huge > 1e4L) { x.probe("wound-up"); return; }      // the rounding of the joint angles themselves exceeds the accuracies asked for
    if (rc >= 0) {
        if (c.kind == 2) { if (!(E <= c.eps * (1 + 1e-6) + 1e-12)) x.fail("claimed-solution-wrong", "%sreturned %d, the weighted error of its answer is %.3Lg, the accuracy %.3g", pre.c_str(), rc, E, c.eps); }
        else for (int i = 0; i < 3; ++i) if (!(std::fabs(dp[i]) <= c.eps * (1 + 1e-6) + 1e-12 && std::fabs(dr[i]) <= c.eps * (1 + 1e-6) + 1e-12)) x.fail("claimed-solution-wrong", "%sreturned %d, its answer misses the goal by %.3Lg / %.3Lg, the accuracy is %.3g", pre.c_str(), rc, ref::norm(dp), ref::norm(dr), c.eps);
        x.probe("solution-verified"); if (c.dirty) x.probe("solved-after-failure");
    }
    if (c.kind == 2) {
        for (unsigned i = 0; i < n; ++i) if (!(std::fabs(out(i)) < 1e300)) x.fail("answer-not-finite", "%sreturned %d with joint %u = %g", pre.c_str(), rc, i, out(i));
        Pose P0 = fkref(w, start); V3 a = GR.p - P0.p, b = rotdiff(P0.R, GR.R); ld E0 = 0; for (int i = 0; i < 3; ++i) E0 += c.L(i) * c.L(i) * a[i] * a[i] + c.L(i + 3) * c.L(i + 3) * b[i] * b[i]; E0 = std::sqrt(E0);
        bool edge = ref::norm(dr) > 3.13L || ref::norm(b) > 3.13L;
        if (!edge) {
            if (E > E0 * (1 + 1e-6L) + 1e-9L) x.fail("got-worse", "%sreturned %d further from the goal (%.6Lg) than the start (%.6Lg)", pre.c_str(), rc, E, E0);
            if (!near(c.lma->lastTransDiff, ref::norm(dp), 1e-6) || !near(c.lma->lastRotDiff, ref::norm(dr), 1e-6)) x.fail("residual-misreported", "%sreturned %d and reports errors %.9g / %.9g, they are %.9Lg / %.9Lg", pre.c_str(), rc, c.lma->lastTransDiff, c.lma->lastRotDiff, ref::norm(dp), ref::norm(dr));
            if (!near(c.lma->lastDifference, E, 1e-6)) x.fail("residual-misreported", "%sreturned %d and reports a weighted error of %.9g, it is %.9Lg", pre.c_str(), rc, c.lma->lastDifference, E);
        }
        if (c.lma->lastNrOfIter < 0 || c.lma->lastNrOfIter > (int)c.maxiter) x.fail("iteration-limit-exceeded", "%s%d iterations reported, the limit is %u", pre.c_str(), c.lma->lastNrOfIter, c.maxiter);
    }
    if (progress) { x.probe(c.dirty ? "progress-after-failure" : "progress"); if (rc < 0) x.fail("no-progress", "%sreturned %d for a goal %.3Lg / %.3Lg from a well-conditioned start (smallest singular value %.3g, %u joints%s)", pre.c_str(), rc, ref::norm(fkref(w, start).p - GR.p), ref::norm(rotdiff(fkref(w, start).R, GR.R)), cond, n, c.dirty ? ", after failures" : ""); }
}
void execute(const Program& p, Ctx& x, bool progress) {
    World w; int k = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { x.ev("seg"); SegOpts o; o.inertia = o.rotor = false; o.p_fixed = 0.12; o.p_trans = 0.15; w.cp.add(rseg(d, o, "s" + std::to_string(w.cp.serial++))); if (!w.v.empty()) { x.fault("chain-grown"); x.nontrivial = true; unsigned n = w.cp.chain.getNrOfJoints(); for (auto& c : w.v) { c->s().updateInternalDataStructures(); c->lo.resize(n, -1e308); c->hi.resize(n, 1e308); } } continue; }
        if (st.op == "cut") { if (!w.v.empty() && w.cp.cut(d)) { x.ev("cut"); x.fault("chain-cut"); x.nontrivial = true; unsigned n = w.cp.chain.getNrOfJoints(); for (auto& c : w.v) { unsigned had = (unsigned)c->lo.size(); c->s().updateInternalDataStructures(); c->lo.resize(n, -1e308); c->hi.resize(n, 1e308); (void)had; } } continue; }
        if (!w.cp.chain.getNrOfJoints()) continue;
        if (st.op == "boot") { boot(w, x, st, progress); continue; }
        if (w.v.empty()) continue; Caller& c = *w.v[(size_t)(st.a[0] % (int64_t)w.v.size())];
        if (st.op == "call") call(w, c, st, x, false);
        if (st.op == "near") call(w, c, st, x, true);
        if (st.op == "retip") { Pose t; t.R = rrot(d); t.p = rvec(d, 0.5); w.cp.retip((size_t)d.range(0, (int64_t)w.cp.m.s.size() - 1), t); x.fault("geometry-recalibrated"); x.nontrivial = true; }
        if (st.op == "limits" && c.kind == 1) { unsigned n = w.cp.chain.getNrOfJoints(); setlimits(c, d, n, progress); int rc = c.jl->setJointLimits(toJ(c.lo), toJ(c.hi)); if (rc) x.fail("valid-call-refused", "joint limits refused: %d", rc); c.limits = true; x.op("limits-set"); }
        if (st.op == "badlimits" && c.kind == 1) { unsigned n = w.cp.chain.getNrOfJoints(); x.fault("wrong-size-array"); x.nontrivial = true; std::vector<double> z(n, 0), y(n + 1, 0); bool first = d.chance(0.5); int rc = c.jl->setJointLimits(toJ(first ? y : z), toJ(first ? z : y)); if (rc >= 0) x.fail("bad-input-accepted", "joint limits of the wrong size accepted"); }
    }
}
void generate(Rng& r, Program& p, bool thorough, bool progress) {
    int ns = (int)r.range(1, 9); if (progress && r.chance(0.6)) ns = (int)r.range(5, 10); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next());
    int nb = (int)r.range(1, 3), k0 = (int)r.range(0, 2); for (int i = 0; i < nb; ++i) p.add("boot", {k0 + i, r.range(0, 2), r.chance(0.25) ? r.range(0, 3) : r.range(4, 40)}, r.next());
    int steps = (int)r.range(4, thorough ? 30 : 14); double pf = r.chance(0.25) ? 0 : r.uni(0.1, 0.7);
    for (int i = 0; i < steps; ++i) {
        if (r.chance(0.06)) p.add("retip", {0}, r.next()); else if (r.chance(0.04)) p.add(r.chance(0.5) ? "seg" : "cut", {}, r.next()); else if (r.chance(progress ? 0.03 : 0.08)) p.add(r.chance(0.8) ? "limits" : "badlimits", {r.range(0, 2)}, r.next());
        else if (progress && r.chance(0.55)) p.add("near", {r.range(0, 2), 0, 0, 0}, r.next());
        else { int g = r.weighted({4, 2, 2, 2, 0.6, 0.5}); int f = r.chance(pf) ? r.weighted({0, 3, 3, 2, 4, 1}) : 0; p.add("call", {r.range(0, 2), g, f, r.chance(0.5) ? r.range(0, 2) : r.range(0, 9)}, r.next()); }
    }
}
void g1(Rng& r, Program& p, bool t) { generate(r, p, t, false); }
void g2(Rng& r, Program& p, bool t) { generate(r, p, t, true); }
void e1(const Program& p, Ctx& x) { execute(p, x, false); }
void e2(const Program& p, Ctx& x) { execute(p, x, true); }
Scenario I01{"I01", "position inverse kinematics", "exploration", g1, e1,
    "A run is a seeded history of requests to 1-3 position solvers of different kinds on one chain; the pose and velocity solvers they use are real ones behind a seam that fails, degrades or corrupts them at a chosen iteration. Goals near, far, out of reach, at the start, not finite; iteration limits 0-40; limits set and re-set; chain edits. Non-trivial: several solvers or a fault; distinct by the sequence of calls and faults.",
    {"ChainIkSolverPos_NR, ChainIkSolverPos_NR_JL, ChainIkSolverPos_LMA, and the real pose and velocity solvers inside"}, {"fault seam around the inner solvers", "callers", "heap (seeded content of fresh memory)"},
    {"answers verified against the long double reference kinematics with a slack of 1e-12", "limits are not judged in calls in which an inner solver returned or a goal contained NaN"}, 300000, 12000000, 60, 600,
    {"fault:inner-pose-solver-failed", "fault:inner-velocity-solver-failed", "fault:inner-velocity-wrong", "fault:nan-goal", "probe:solution-verified", "probe:solved-after-failure"}};
Scenario I02{"I02", "progress of position inverse kinematics", "exploration", g2, e2,
    "As I01 with default accuracy and iteration limits; between the faulty requests come requests without faults for goals within 0.02 per joint of a well-conditioned start, which must be solved. Non-trivial: several solvers or a fault; distinct by the sequence of calls and faults.",
    {"ChainIkSolverPos_NR, ChainIkSolverPos_NR_JL, ChainIkSolverPos_LMA, and the real pose and velocity solvers inside"}, {"fault seam around the inner solvers", "callers", "heap (seeded content of fresh memory)"},
    {"well-conditioned: smallest singular value above 0.15 and above 5% of the largest; half a unit from set joint limits"}, 300000, 12000000, 60, 600,
    {"fault:inner-pose-solver-failed", "fault:unreachable-goal", "probe:progress", "probe:progress-after-failure"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&I01, &I02}); }
