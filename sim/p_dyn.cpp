// D01: dynamics solvers against first principles after any history.  D02: closed-loop simulation of a robot under
// a simulated clock.  H01: acceleration-constrained dynamics against the constrained equations of motion.
#include "kdlgen.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chaindynparam.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
#include "chainhdsolver_vereshchagin.hpp"
using namespace gen; using namespace KDL;
namespace {
typedef std::vector<ld> VL; typedef std::vector<VL> ML;
VL toV(const JntArray& a) { return toL(a); }
ld vmax(const VL& v) { ld m = 0; for (ld x : v) m = std::max(m, std::fabs(x)); return m; }
ld mmax(const ML& v) { ld m = 0; for (auto& r : v) m = std::max(m, vmax(r)); return m; }
Tw rtw(Draw& d, double m) { Tw t; t.v = rvec(d, m); t.w = rvec(d, m); for (int i = 0; i < 3; ++i) { t.v.x[i] = (double)t.v[i]; t.w.x[i] = (double)t.w[i]; } return t; }
V3 rgrav(Draw& d) { if (d.chance(0.4)) return ref::v3(0, 0, (ld)-9.81); if (d.chance(0.2)) return ref::v3(0, 0, 0); V3 g = rvec(d, 10); for (int i = 0; i < 3; ++i) g.x[i] = (double)g[i]; return g; }
// smallest pivot of the inertia matrix relative to its largest entry
ld condish(ML H) { int n = (int)H.size(); ld top = mmax(H), low = top; for (int k = 0; k < n; ++k) { low = std::min(low, H[k][k]); if (H[k][k] <= 1e-12L * top) return 0; for (int i = k + 1; i < n; ++i) { ld f = H[i][k] / H[k][k]; for (int j = k; j < n; ++j) H[i][j] -= f * H[k][j]; } } return top > 0 ? low / top : 0; }
struct Caller { int kind; V3 g; std::unique_ptr<ChainIdSolver_RNE> id; std::unique_ptr<ChainDynParam> dp; std::unique_ptr<ChainFdSolver_RNE> fd; size_t ns, nj; bool dirty = false; };
struct World { ChainPair cp; std::vector<std::unique_ptr<Caller>> v; };
const char* const NM[] = {"inverse dynamics", "dynamic parameters", "forward dynamics"};
void cmp(Ctx& x, const char* what, const JntArray& got, const VL& want, ld scale, bool dirty) {
    for (unsigned i = 0; i < got.rows(); ++i) { x.d(got(i)); if (!(std::fabs((ld)got(i) - want[i]) <= 1e-9L * scale)) x.fail("dynamics-wrong", "%s: entry %u is %.12g, mechanics gives %.12g (%u joints%s)", what, i, got(i), (double)want[i], got.rows(), dirty ? ", after a fault" : ""); }
}
void call(World& w, Caller& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); unsigned n = w.cp.chain.getNrOfJoints(), ns = w.cp.chain.getNrOfSegments(); int op = (int)st.a[1], bad = (int)st.a[2];
    double m = d.chance(0.15) ? 9 : 3; JntArray q = rq(d, n, m), qd = rq(d, n, 2), qdd = rq(d, n, 4), out(n); for (unsigned i = 0; i < n; ++i) out(i) = NAN; if (d.chance(0.15)) { SetToZero(qd); } if (d.chance(0.1)) SetToZero(q);
    std::vector<Tw> fe(ns); Wrenches f(ns); bool push = d.chance(0.6); for (unsigned i = 0; i < ns; ++i) { Tw t = rtw(d, 5); if (push && d.chance(0.5)) fe[i] = t; f[i] = toKw(fe[i]); }
    JntArray q0 = q, qd0 = qd; Wrenches f0 = f; bool stale = c.ns != ns || c.nj != n; bool rest = false;
    x.ev("call"); x.i(c.kind); x.i(op); x.i(bad); x.op(NM[c.kind]);
    if (bad) x.nontrivial = true;
    if (bad == 1 && n) { x.fault("nan-position"); q((unsigned)d.range(0, n - 1)) = d.chance(0.5) ? NAN : INFINITY; }
    if (bad == 2 && n) { x.fault("nan-velocity"); qd((unsigned)d.range(0, n - 1)) = NAN; }
    if (bad == 3) { x.fault("nan-wrench"); f[(size_t)d.range(0, ns - 1)].force(1) = NAN; }
    if (bad == 4) { x.fault("wrong-size-array"); q = JntArray(n + 1); }
    if (bad == 5 && c.kind != 1) { x.fault("wrong-size-array"); f.resize(ns + 1, Wrench::Zero()); bad = 4; } else if (bad == 5) { x.fault("wrong-size-array"); out = JntArray(n + 2); bad = 4; if (op % 3 == 0) { q = JntArray(n + 1); } }
    x.cover(mix64((uint64_t)c.kind * 64 + (uint64_t)(op % 3) * 16 + (uint64_t)bad + (c.dirty ? 8 : 0)) ^ mix64(n * 131 + ns));
    int rc; JntSpaceInertiaMatrix H(n); H.data.setConstant(NAN);
    if (c.kind == 0) rc = c.id->CartToJnt(q, qd, qdd, f, out);
    else if (c.kind == 1) { op %= 3; rc = op == 0 ? c.dp->JntToMass(q, H) : op == 1 ? c.dp->JntToCoriolis(q, qd, out) : c.dp->JntToGravity(q, out); }
    else rc = c.fd->CartToJnt(q, qd, qdd, f, out);           // qdd plays the torques
    x.i(rc);
    if (stale) { x.fault("stale-solver-called"); x.nontrivial = true; if (rc >= 0) x.fail("stale-accepted", "%s: returned %d although the chain has changed", NM[c.kind], rc); c.dirty = true; return; }
    if (bad == 4) { if (rc >= 0) x.fail("bad-input-accepted", "%s: returned %d for arrays of the wrong size", NM[c.kind], rc); c.dirty = true; return; }
    if (bad) { c.dirty = true; return; }
    if (rc < 0) { x.fail("valid-call-refused", "%s: returned %d for a valid call", NM[c.kind], rc); }
    for (unsigned i = 0; i < n; ++i) if (q(i) != q0(i) || qd(i) != qd0(i)) x.fail("input-changed", "%s: changed its input", NM[c.kind]);
    const ref::Model& M = w.cp.m; VL z(n, 0), Q = toV(q), QD = toV(qd), A = toV(qdd); std::vector<Tw> none(ns); V3 g0 = ref::v3(0, 0, 0);
    ML Hr = M.mass(Q); VL grav = M.inverse_dynamics(Q, z, z, c.g, none), cor = M.inverse_dynamics(Q, QD, z, g0, none);
    ld sc = 1 + mmax(Hr) * (1 + vmax(A) + vmax(QD) * vmax(QD)) + vmax(grav) + vmax(cor);
    if (c.kind == 0) { VL t = M.inverse_dynamics(Q, QD, A, c.g, fe); cmp(x, "inverse dynamics torque", out, t, sc + vmax(t), c.dirty); rest = true; }
    if (c.kind == 1 && op == 0) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { x.d(H(i, j)); if (!(std::fabs(H(i, j) - Hr[i][j]) <= 1e-9L * (1 + mmax(Hr)))) x.fail("dynamics-wrong", "inertia matrix entry %u,%u is %.12g, mechanics gives %.12g", i, j, H(i, j), (double)Hr[i][j]); if (!near_eq(H(i, j), H(j, i), 1e-12)) x.fail("dynamics-wrong", "inertia matrix not symmetric at %u,%u", i, j); }
    if (c.kind == 1 && op == 1) cmp(x, "Coriolis vector", out, cor, sc, c.dirty);
    if (c.kind == 1 && op == 2) cmp(x, "gravity vector", out, grav, sc, c.dirty);
    if (c.kind == 2) {
        ld k = n ? condish(Hr) : 1; if (k < 1e-7L) { x.probe("inertia-singular"); c.dirty = true; return; }
        for (unsigned i = 0; i < n; ++i) { x.d(out(i)); if (!(std::fabs(out(i)) < 1e300)) x.fail("dynamics-wrong", "forward dynamics: acceleration %u is %g", i, out(i)); }
        VL O = toV(out), t = M.inverse_dynamics(Q, QD, O, c.g, fe); ld s2 = sc + mmax(Hr) * vmax(O) * n + vmax(t);
        for (unsigned i = 0; i < n; ++i) if (!(std::fabs(t[i] - A[i]) <= 1e-9L * s2)) x.fail("dynamics-wrong", "forward dynamics: its accelerations need torque %.12g at joint %u, %.12g was applied (%u joints%s)", (double)t[i], i, (double)A[i], n, c.dirty ? ", after a fault" : "");
        x.probe("forward-checked");
    }
    (void)rest; x.probe(c.dirty ? "checked-after-fault" : "checked"); if (push) x.probe("checked-with-wrenches"); if (n != ns) x.probe("checked-fixed-joints");
}
void execute(const Program& p, Ctx& x) {
    World w; int k = 0; SegOpts o; o.p_fixed = p.c("fixed") ? 0.35 : 0.1;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { x.ev("seg"); if (!w.v.empty()) { x.fault("chain-grown"); x.nontrivial = true; } w.cp.add(rseg(d, o, "s" + std::to_string(w.cp.serial++))); continue; }
        size_t ns = w.cp.m.s.size(); if (!ns) continue;
        if (st.op == "boot") { x.ev("boot"); std::unique_ptr<Caller> c(new Caller); c->kind = (int)(st.a[0] % 3); c->g = rgrav(d); c->ns = ns; c->nj = w.cp.chain.getNrOfJoints(); Vector g = toK(c->g); if (c->kind == 0) c->id.reset(new ChainIdSolver_RNE(w.cp.chain, g)); else if (c->kind == 1) c->dp.reset(new ChainDynParam(w.cp.chain, g)); else c->fd.reset(new ChainFdSolver_RNE(w.cp.chain, g)); w.v.push_back(std::move(c)); if (w.v.size() > 1) x.nontrivial = true; continue; }
        if (st.op == "cut") { if (w.cp.cut(d, false)) { x.ev("cut"); x.fault("chain-cut"); x.nontrivial = true; } continue; }
        if (st.op == "retip") { Pose t; t.R = rrot(d); t.p = rvec(d, 0.5); w.cp.retip((size_t)d.range(0, (int64_t)ns - 1), t); x.fault("geometry-recalibrated"); x.nontrivial = true; continue; }
        if (st.op == "payload") { SegOpts so; so.p_massless = 0.2; w.cp.payload((size_t)d.range(0, (int64_t)ns - 1), rseg(d, so, "load")); x.fault("payload-changed"); x.nontrivial = true; continue; }
        if (w.v.empty()) continue; Caller& c = *w.v[(size_t)(st.a[0] % (int64_t)w.v.size())];
        if (st.op == "call") call(w, c, st, x);
        if (st.op == "update") { x.ev("update"); if (c.id) c.id->updateInternalDataStructures(); if (c.dp) c.dp->updateInternalDataStructures(); if (c.fd) c.fd->updateInternalDataStructures(); c.ns = ns; c.nj = w.cp.chain.getNrOfJoints(); x.op("update"); }
    }
}
void generate(Rng& r, Program& p, bool thorough) {
    p.cfg["fixed"] = r.chance(0.4); int ns = (int)r.range(1, thorough ? 9 : 7); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next());
    int nb = (int)r.range(1, 4), k0 = (int)r.range(0, 2); for (int i = 0; i < nb; ++i) p.add("boot", {k0 + i}, r.next());
    int steps = (int)r.range(5, thorough ? 40 : 18); double pb = r.chance(0.3) ? 0 : r.uni(0.05, 0.4), pe = r.chance(0.5) ? 0.15 : 0.02;
    for (int i = 0; i < steps; ++i) {
        if (r.chance(pe)) { int e = r.weighted({3, 3, 2, 2}); static const char* const E[] = {"payload", "retip", "seg", "cut"}; p.add(E[e], {}, r.next()); if (e > 1 && r.chance(0.7)) for (int u = 0; u < 4; ++u) p.add("update", {u}, r.next()); }
        else if (r.chance(pe * 1.5)) p.add("update", {r.range(0, 3)}, r.next());
        else p.add("call", {r.range(0, 3), r.range(0, 2), r.chance(pb) ? r.range(1, 5) : 0}, r.next());
    }
}
Scenario D01{"D01", "rigid-body dynamics", "exploration", generate, execute,
    "A run is a seeded history of inverse dynamics, inertia, Coriolis, gravity and forward dynamics requests by 1-4 callers with their own gravity on one chain of 1-9 segments; payloads and geometry are edited between calls, the chain grows or is cut, calls carry non-finite values or wrong sizes. Non-trivial: several callers, an edit or a fault; distinct by the sequence of calls and faults.",
    {"ChainIdSolver_RNE, ChainDynParam, ChainFdSolver_RNE, ldl_solver_eigen, Chain, Segment, Joint, RigidBodyInertia"}, {"callers", "heap (seeded content of fresh memory)"},
    {"compared with virtual work in the world frame (long double), relative 1e-9", "forward dynamics judged by the torques its accelerations need, where the inertia matrix is not singular (smallest pivot above 1e-7 of the largest entry)"},
    150000, 8000000, 45, 600, {"fault:nan-position", "fault:nan-wrench", "fault:payload-changed", "fault:chain-cut", "fault:stale-solver-called", "probe:checked-after-fault", "probe:checked-with-wrenches", "probe:checked-fixed-joints", "probe:forward-checked"}};

// ---------------------------------------------------------------- D02
struct Plant { ChainPair cp; V3 g; std::unique_ptr<ChainFdSolver_RNE> fd; JntArray q, qd, qdd, dq, dqd, qt, qdt; };
void ref_fd(const ref::Model& M, const VL& q, const VL& qd, const VL& tau, V3 g, const std::vector<Tw>& fe, VL& out) { VL z(q.size(), 0), b = M.inverse_dynamics(q, qd, z, g, fe); for (size_t i = 0; i < b.size(); ++i) b[i] = tau[i] - b[i]; if (!ref::solve(M.mass(q), b, out)) out.assign(q.size(), NAN); }
void ref_rk4(const ref::Model& M, VL& q, VL& qd, const VL& tau, V3 g, const std::vector<Tw>& fe, ld h, VL& dq, VL& dqd) {
    size_t n = q.size(); VL k1, k2, k3, k4, a(n), b(n), v2(n), v3(n), v4(n);
    ref_fd(M, q, qd, tau, g, fe, k1); for (size_t i = 0; i < n; ++i) { a[i] = q[i] + qd[i] * h / 2; v2[i] = qd[i] + k1[i] * h / 2; }
    ref_fd(M, a, v2, tau, g, fe, k2); for (size_t i = 0; i < n; ++i) { a[i] = q[i] + v2[i] * h / 2; v3[i] = qd[i] + k2[i] * h / 2; }
    ref_fd(M, a, v3, tau, g, fe, k3); for (size_t i = 0; i < n; ++i) { a[i] = q[i] + v3[i] * h; v4[i] = qd[i] + k3[i] * h; }
    ref_fd(M, a, v4, tau, g, fe, k4); dq.resize(n); dqd.resize(n);
    for (size_t i = 0; i < n; ++i) { dq[i] = (qd[i] + 2 * v2[i] + 2 * v3[i] + v4[i]) * h / 6; dqd[i] = (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) * h / 6; q[i] += dq[i]; qd[i] += dqd[i]; }
}
void lib_step(Plant& w, double h, JntArray& tau, Wrenches& f) { unsigned n = w.cp.chain.getNrOfJoints(); double t = 0; w.fd->RK4Integrator(n, t, h, w.q, w.qd, tau, f, *w.fd, w.qdd, w.dq, w.dqd, w.qt, w.qdt); }
void d2_exec(const Program& p, Ctx& x) {
    Plant w; int k = 0; SegOpts o; o.p_massless = 0; unsigned n = 0, ns = 0; bool live = false; std::vector<double> hs; std::vector<JntArray> taus; JntArray qs, qds; ld E0 = 0; bool edited = false, pushed = false; double t = 0;
    auto start = [&](Draw& d) { n = w.cp.chain.getNrOfJoints(); ns = w.cp.chain.getNrOfSegments(); w.q = rq(d, n, 2); w.qd = rq(d, n, 1); w.qdd = w.dq = w.dqd = w.qt = w.qdt = JntArray(n); for (unsigned i = 0; i < n; ++i) w.qdd(i) = w.dq(i) = w.dqd(i) = w.qt(i) = w.qdt(i) = NAN; };
    auto mark = [&]() { hs.clear(); taus.clear(); qs = w.q; qds = w.qd; E0 = w.cp.m.energy(toV(w.q), toV(w.qd), w.g); edited = pushed = false; };
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { x.ev("seg"); if (live) { x.fault("chain-grown"); x.nontrivial = true; } w.cp.add(rseg(d, o, "s" + std::to_string(w.cp.serial++))); if (live) { w.fd->updateInternalDataStructures(); start(d); mark(); } continue; }
        if (st.op == "boot") { w.g = rgrav(d); if (!w.cp.chain.getNrOfJoints()) continue; w.fd.reset(new ChainFdSolver_RNE(w.cp.chain, toK(w.g))); start(d); live = true; mark(); x.ev("boot"); continue; }
        if (!live) continue;
        if (st.op == "cut") { if (w.cp.cut(d)) { x.ev("cut"); x.fault("chain-cut"); x.nontrivial = true; w.fd->updateInternalDataStructures(); start(d); mark(); } continue; }
        if (st.op == "payload") { SegOpts so; so.p_massless = 0; w.cp.payload((size_t)d.range(0, ns - 1), rseg(d, so, "load")); x.fault("payload-changed"); x.nontrivial = true; mark(); continue; }
        if (st.op == "refused") { x.fault("wrong-size-array"); x.nontrivial = true; JntArray big(n + 1), out(n); Wrenches f(ns); if (w.fd->CartToJnt(big, w.qd, w.qd, f, out) >= 0) x.fail("bad-input-accepted", "forward dynamics accepted a position array of the wrong size"); continue; }
        if (st.op == "nan") { x.fault("nan-torque"); x.nontrivial = true; JntArray a(n), b(n), c(n), e(n), f1(n), f2(n), ta(n); Wrenches f(ns); double h = 0.01, tt = 0; a(0) = NAN; ta(n - 1) = NAN; w.fd->RK4Integrator(n, tt, h, a, b, ta, f, *w.fd, c, e, f1, f2, ta); continue; }
        if (st.op == "run") {           // some steps of the clock, with jitter, stalls and long steps
            int cnt = (int)st.a[0], mode = (int)st.a[1]; double base = std::pow(10.0, -d.uni(1.7, 3)); bool push = st.a[2] == 1, torque = st.a[2] >= 1;
            JntArray tau(n); for (unsigned i = 0; i < n; ++i) tau(i) = torque ? d.val(-3, 3) : 0; std::vector<Tw> fe(ns); Wrenches f(ns); if (push) { pushed = true; size_t at = (size_t)d.range(0, ns - 1); fe[at] = rtw(d, 3); for (unsigned i = 0; i < ns; ++i) f[i] = toKw(fe[i]); }
            x.ev("run"); x.i(cnt); x.i(mode);
            for (int s = 0; s < cnt; ++s) {
                double h = base; if (mode == 1) h = base * d.uni(0.2, 1.8); if (mode >= 2 && d.chance(0.2)) { h = d.chance(0.5) ? 0 : base * 5; x.fault(h == 0 ? "stalled-clock" : "late-tick"); x.nontrivial = true; } if (mode == 1) { x.bump("fault:clock-jitter"); x.nontrivial = true; }
                if (mode == 3 && d.chance(0.1)) { h = -h; x.fault("clock-ran-backwards"); }
                if (vmax(toV(w.qd)) > 50) { w.qd = JntArray(n); x.probe("braked"); mark(); pushed = push; }
                if (condish(w.cp.m.mass(toV(w.q))) < 1e-4L) { start(d); mark(); pushed = push; if (condish(w.cp.m.mass(toV(w.q))) < 1e-4L) return; }
                VL q = toV(w.q), qd = toV(w.qd), dq, dqd, T = toV(tau); JntArray q0 = w.q, qd0 = w.qd; bool check = d.chance(0.3) || s == cnt - 1;
                if (check) ref_rk4(w.cp.m, q, qd, T, w.g, fe, h, dq, dqd);
                lib_step(w, h, tau, f); t += h; x.time(std::fabs(h)); hs.push_back(h); taus.push_back(tau); log(x, w.q); log(x, w.qd); x.op("step");
                if (check) { ld sq = 1 + vmax(q) + vmax(dq), sv = 1 + vmax(qd) + vmax(dqd); ld kk = condish(w.cp.m.mass(toV(q0))); if (kk < 1e-4L) break; ld tol = 1e-9L + 1e-13L / kk;
                    for (unsigned i = 0; i < n; ++i) {
                        if (!(std::fabs(w.q(i) - q[i]) <= tol * sq && std::fabs(w.qd(i) - qd[i]) <= tol * sv * 10)) x.fail("step-wrong", "a step of %g s ends at position %.12g, velocity %.12g of joint %u; a fourth-order Runge-Kutta step ends at %.12g, %.12g", h, w.q(i), w.qd(i), i, (double)q[i], (double)qd[i]);
                        if (!near_eq(w.dq(i), w.q(i) - q0(i), 1e-9) || !near_eq(w.dqd(i), w.qd(i) - qd0(i), 1e-9)) x.fail("increment-misreported", "step reports increments %.12g, %.12g of joint %u, it moved by %.12g, %.12g", w.dq(i), w.dqd(i), i, w.q(i) - q0(i), w.qd(i) - qd0(i));
                        if (h == 0 && (w.q(i) != q0(i) || w.qd(i) != qd0(i))) x.fail("stalled-clock-moved", "a step of no time moved joint %u", i);
                    }
                    x.probe("step-checked"); if (push) x.probe("step-checked-with-wrench");
                }
            }
            x.cover(mix64((uint64_t)mode * 8 + (uint64_t)st.a[2]) ^ mix64(n * 7 + ns) ^ mix64((uint64_t)(edited ? 1 : 0)));
        }
        if (st.op == "audit" && !hs.empty() && hs.size() < 400) {   // energy balance, and convergence under refinement of the same history
            if (pushed) { mark(); continue; }
            JntArray q1 = w.q, qd1 = w.qd; ld W = 0; auto replay = [&](int split, ld& work, JntArray& q, JntArray& qd) { Plant& v = w; v.q = qs; v.qd = qds; work = 0; Wrenches f(ns, Wrench::Zero()); for (size_t s = 0; s < hs.size(); ++s) for (int j = 0; j < split; ++j) { JntArray q0 = v.q; lib_step(v, hs[s] / split, taus[s], f); for (unsigned i = 0; i < n; ++i) work += (ld)taus[s](i) * ((ld)v.q(i) - q0(i)); } q = v.q; qd = v.qd; };
            ld Wd, W8; JntArray qa, qda, qb, qdb, qc, qdc; replay(1, W, qa, qda); for (unsigned i = 0; i < n; ++i) if (qa(i) != q1(i) || qda(i) != qd1(i)) x.fail("not-repeatable", "repeating the same steps from the same state ends elsewhere (joint %u: %.17g and %.17g)", i, q1(i), qa(i));
            replay(2, Wd, qb, qdb); replay(8, W8, qc, qdc); w.q = q1; w.qd = qd1;
            ld e1 = 0, e2 = 0; for (unsigned i = 0; i < n; ++i) { e1 = std::max(e1, std::max(std::fabs((ld)qa(i) - qc(i)), std::fabs((ld)qda(i) - qdc(i)))); e2 = std::max(e2, std::max(std::fabs((ld)qb(i) - qc(i)), std::fabs((ld)qdb(i) - qdc(i)))); }
            ld Ec = w.cp.m.energy(toV(qc), toV(qdc), w.g), sc = 1 + std::fabs(E0) + std::fabs(W8), v = 1; v = std::max(v, vmax(toV(qdc)));
            if (e1 < 1e-4L) {
                if (e1 < 1e-5L && e2 > e1 / 2.5L + 1e-10L * v) x.fail("not-fourth-order", "halving the steps changes the error from %.3Lg to %.3Lg", e1, e2);
                if (std::fabs(Ec - E0 - W8) > 1e-4L * sc) x.fail("energy-not-conserved", "energy went from %.12Lg to %.12Lg, work done %.12Lg", E0, Ec, W8);
                x.probe(std::fabs(W8) > 0 ? "work-balance-checked" : "energy-checked"); if (e1 > 1e-8L * v) x.probe("order-checked");
            }
            x.op("audit"); mark();
        }
    }
}
void d2_gen(Rng& r, Program& p, bool thorough) {
    int ns = (int)r.range(1, 5); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next()); p.add("boot", {}, r.next());
    int c = (int)r.range(2, thorough ? 14 : 7);
    for (int i = 0; i < c; ++i) {
        int u = r.weighted({6, 1, 1, 0.6, 0.4, 0.4}); if (u == 5) p.add("cut", {}, r.next()); if (u == 0) { p.add("run", {r.range(1, 30), r.range(0, 3), r.weighted({4, 1.5, 4})}, r.next()); if (r.chance(0.6)) p.add("audit", {}, r.next()); }
        if (u == 1) p.add("payload", {}, r.next()); if (u == 2) p.add("refused", {}, r.next()); if (u == 3) p.add("nan", {}, r.next()); if (u == 4) p.add("seg", {}, r.next());
    }
}
Scenario D02{"D02", "simulated robot under a simulated clock", "exploration", d2_gen, d2_exec,
    "A run drives one simulated robot with the supplied integrator under a seeded clock that jitters, stalls, is late or runs backwards; torques and wrenches change between runs of steps, payloads change, the chain grows or is cut, refused and non-finite calls hit the same solver. Non-trivial: clock faults, edits or refused calls; distinct by the sequence of steps and faults.",
    {"ChainFdSolver_RNE::RK4Integrator, ChainFdSolver_RNE, ChainDynParam, ChainIdSolver_RNE"}, {"clock", "load on the robot", "heap (seeded content of fresh memory)"},
    {"a sample of steps is compared with a fourth-order Runge-Kutta step of the reference mechanics (long double)", "order and energy judged where the error of the coarse run is below 1e-4; robots whose inertia matrix is near singular are restarted"},
    40000, 800000, 75, 600, {"fault:stalled-clock", "fault:clock-jitter", "fault:clock-ran-backwards", "fault:payload-changed", "fault:chain-cut", "probe:step-checked", "probe:step-checked-with-wrench", "probe:energy-checked", "probe:work-balance-checked", "probe:order-checked"}};

// ---------------------------------------------------------------- H01
struct HD { std::unique_ptr<ChainHdSolver_Vereshchagin> s; unsigned nc; Tw root; size_t ns, nj; bool dirty = false; };
void h_call(ChainPair& cp, HD& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); unsigned n = cp.chain.getNrOfJoints(), ns = cp.chain.getNrOfSegments(); int mode = (int)st.a[1], bad = (int)st.a[2];
    JntArray q = rq(d, n, 3), qd = rq(d, n, 2), ff = rq(d, n, 5), beta = rq(d, c.nc, 5), out(n), ct(n); for (unsigned i = 0; i < n; ++i) out(i) = ct(i) = NAN; if (d.chance(0.2)) SetToZero(qd); if (d.chance(0.2)) SetToZero(ff);
    Jacobian al(c.nc); std::vector<Tw> a(c.nc); bool none = true;
    for (unsigned j = 0; j < c.nc; ++j) { Tw t; if (mode == 1) { int kk = (int)d.range(0, 5); (kk < 3 ? t.v : t.w).x[kk % 3] = 1; } else if (mode == 2) { if (j < 3) t.v.x[j] = 1; else t.w.x[j - 3] = 1; } else if (mode == 3) { t = rtw(d, 1); }
        if (mode == 4) { t = Tw(); }                                                   // every constraint switched off
        if (d.chance(0.15) && mode != 2) t = Tw(); a[j] = t; al.setColumn(j, toKt(t)); if (ref::norm(t.v) + ref::norm(t.w) > 0) none = false; }
    std::vector<Tw> fb(ns); Wrenches f(ns); bool push = d.chance(0.5); for (unsigned i = 0; i < ns; ++i) { Tw t = rtw(d, 5); if (push && d.chance(0.5)) fb[i] = t; f[i] = toKw(fb[i]); }
    bool stale = c.ns != ns || c.nj != n; x.ev("call"); x.i(mode); x.i(bad); x.i(c.nc); x.op("call"); JntArray q1 = q, qd1 = qd;
    if (bad) x.nontrivial = true;
    if (bad == 1 && n) { x.fault("nan-position"); q1((unsigned)d.range(0, n - 1)) = NAN; } if (bad == 2 && n) { x.fault("nan-velocity"); qd1(0) = INFINITY; } if (bad == 3) { x.fault("nan-wrench"); f[(size_t)d.range(0, ns - 1)].torque(2) = NAN; }
    if (bad == 4) { x.fault("wrong-size-array"); if (d.chance(0.5)) q1 = JntArray(n + 1); else f.resize(ns + 1, Wrench::Zero()); } if (bad == 5) { x.fault("wrong-size-array"); al = Jacobian(c.nc + 1); } if (bad == 6 && c.nc) { x.fault("nan-constraint"); beta(0) = NAN; }
    x.cover(mix64((uint64_t)mode * 16 + (uint64_t)bad + (c.dirty ? 8 : 0)) ^ mix64(n * 77 + ns * 13 + c.nc));
    int rc = c.s->CartToJnt(q1, qd1, out, al, beta, f, ff, ct); x.i(rc);
    if (stale) { x.fault("stale-solver-called"); x.nontrivial = true; if (rc >= 0) x.fail("stale-accepted", "returned %d although the chain has changed", rc); c.dirty = true; return; }
    if (bad == 4 || bad == 5) { if (rc >= 0) x.fail("bad-input-accepted", "returned %d for arrays of the wrong size", rc); c.dirty = true; return; }
    if (bad) { c.dirty = true; return; }
    const ref::Model& M = cp.m; VL Q = toV(q), QD = toV(qd), z(n, 0); if (!n) return; ref::Model::Kin K = M.motion(Q, QD, z); ML H = M.mass(Q); ld hc = condish(H); if (hc < 1e-6L) { x.probe("inertia-singular"); c.dirty = true; return; }
    if (rc < 0) x.fail("valid-call-refused", "returned %d for a valid call", rc);
    // bias torques; the root acceleration acts as gravity of the opposite sign (its rotational part is zero)
    std::vector<Tw> fl(ns); for (unsigned i = 0; i < ns; ++i) { fl[i].v = ref::tr(K.P[i].R) * fb[i].v; fl[i].w = ref::tr(K.P[i].R) * fb[i].w; }
    VL h = M.inverse_dynamics(Q, QD, z, ld(-1) * c.root.v, fl); int e = (int)ns - 1; std::vector<Tw> J = M.jac_from(K.P, e); unsigned m = c.nc;
    for (unsigned i = 0; i < n; ++i) { x.d(out(i)); x.d(ct(i)); if (!(std::fabs(out(i)) < 1e300 && std::fabs(ct(i)) < 1e300)) x.fail("answer-not-finite", "joint %u: acceleration %g, constraint torque %g (%u constraints)", i, out(i), ct(i), m); }
    VL O = toV(out), C = toV(ct); ld top = 1 + mmax(H) * (vmax(O) + 1) * n + vmax(h) + vmax(toV(ff)) + vmax(C);
    // 1. equations of motion under the torques it reports
    VL t = M.inverse_dynamics(Q, QD, O, ld(-1) * c.root.v, fl); for (unsigned i = 0; i < n; ++i) if (!(std::fabs(t[i] - ff(i) - C[i]) <= (1e-9L + 1e-14L / hc) * top)) x.fail("motion-wrong", "its accelerations need torque %.12g at joint %u; feed-forward and constraint torques add up to %.12g (%u constraints%s)", (double)t[i], i, (double)(ff(i) + C[i]), m, c.dirty ? ", after a fault" : "");
    if (none) { for (unsigned i = 0; i < n; ++i) if (!(std::fabs(C[i]) <= 1e-9L * top)) x.fail("constraint-wrong", "constraint torque %.12g at joint %u without a constraint", (double)C[i], i); x.probe(c.dirty ? "free-after-fault" : "free"); }
    // 2. constraint torques are the image of the constraint forces it reports
    Eigen::VectorXd nu(m); c.s->getContraintForceMagnitude(nu); ld numax = 0; for (unsigned j = 0; j < m; ++j) { x.d(nu(j)); numax = std::max(numax, std::fabs((ld)nu(j))); }
    for (unsigned i = 0; i < n; ++i) { ld s = 0, ab = 0; for (unsigned j = 0; j < m; ++j) { ld g = dot(a[j].v, J[i].v) + dot(a[j].w, J[i].w); s -= g * nu(j); ab += std::fabs(g * nu(j)); } if (!(std::fabs(s - C[i]) <= 1e-9L * (1 + ab) + 1e-12L * numax)) x.fail("constraint-wrong", "constraint torque %.12g at joint %u, the reported constraint forces give %.12g", (double)C[i], i, (double)s); }
    JntArray tot(n); c.s->getTotalTorque(tot);      // total torque = articulated inertia outward of the joint times acceleration
    for (unsigned i = 0; i < n; ++i) { unsigned r = n - i - 1; ML Hd(r, VL(r)); VL col(r), s; for (unsigned a1 = 0; a1 < r; ++a1) { col[a1] = H[i + 1 + a1][i]; for (unsigned b1 = 0; b1 < r; ++b1) Hd[a1][b1] = H[i + 1 + a1][i + 1 + b1]; } ld D = H[i][i]; if (r) { if (!ref::solve(Hd, col, s)) continue; for (unsigned a1 = 0; a1 < r; ++a1) D -= col[a1] * s[a1]; } if (!(std::fabs(tot(i) - D * O[i]) <= (1e-9L + 1e-14L / hc) * top)) x.fail("total-torque-misreported", "total torque of joint %u reported %.12g, its acceleration takes %.12g", i, tot(i), (double)(D * O[i])); }
    // 3. the constraints hold; constraints that the pose cannot fulfil are given up in the least-squares sense
    ML Hi(n, VL(n)); for (unsigned j = 0; j < n; ++j) { VL b(n, 0), s; b[j] = 1; if (!ref::solve(H, b, s)) return; for (unsigned i = 0; i < n; ++i) Hi[i][j] = s[i]; }
    ML G(m, VL(n)), S(m, VL(m, 0)); for (unsigned j = 0; j < m; ++j) for (unsigned i = 0; i < n; ++i) G[j][i] = dot(a[j].v, J[i].v) + dot(a[j].w, J[i].w);
    for (unsigned j = 0; j < m; ++j) for (unsigned k = 0; k < m; ++k) for (unsigned i = 0; i < n; ++i) for (unsigned l = 0; l < n; ++l) S[j][k] += G[j][i] * Hi[i][l] * G[k][l];
    VL ev; ML V; if (m) ref::sym_eig(S, ev, V); ld big = vmax(ev), low = big; bool gray = false; for (ld s : ev) { if (s > 1e-14L * big && s < 1e-7L * big) gray = true; if (s >= 1e-7L * big) low = std::min(low, s); }
    // spatial acceleration of the tip (fixed observation point), root acceleration included
    ref::Model::Kin A = M.motion(Q, QD, O); V3 lin = A.a[e] - cross(A.w[e], A.v[e]) + c.root.v, ang = A.al[e];
    std::vector<KDL::Twist> xd(ns + 1); c.s->getTransformedLinkAcceleration(xd); double dist = std::max(vdist(xd[ns].vel, lin), vdist(xd[ns].rot, ang)); if (!(dist <= 1e-8 * (double)(1 + ref::norm(lin) + ref::norm(ang) + vmax(O) * n))) x.fail("acceleration-misreported", "tip acceleration reported %.3g off", dist);
    for (unsigned i = 0; i < ns; ++i) { V3 l = A.a[i] - cross(A.w[i], A.v[i]) + c.root.v; double dd = std::max(vdist(xd[i + 1].vel, l), vdist(xd[i + 1].rot, A.al[i])); if (!(dd <= 1e-8 * (double)(1 + ref::norm(l) + vmax(O) * n))) x.fail("acceleration-misreported", "acceleration of segment %u reported %.3g off", i, dd); }
    if (none || gray || !(big > 1e-9L)) { c.dirty = true; return; }
    VL r(m); ld rs = 1; for (unsigned j = 0; j < m; ++j) { ld s = dot(a[j].v, lin) + dot(a[j].w, ang); r[j] = s - beta(j); rs = std::max(rs, std::max(std::fabs(s), std::fabs((ld)beta(j)))); }
    bool def = false; for (unsigned j = 0; j < m; ++j) { if (ev[j] < 1e-7L * big) { if (ev[j] < 1e-14L * big) def = true; continue; } ld s = 0; for (unsigned k = 0; k < m; ++k) s += V[k][j] * r[k]; if (!(std::fabs(s) <= (1e-8L + 1e-12L * big / low + 1e-13L / hc) * rs * (1 + vmax(O)))) x.fail("constraint-violated", "a constraint of the tip acceleration is missed by %.6g (%u constraints, %u joints, eigenvalues %.3g..%.3g%s)", (double)s, m, n, (double)low, (double)big, c.dirty ? ", after a fault" : ""); }
    x.probe(def ? "checked-deficient" : c.dirty ? "checked-after-fault" : "checked"); if (n != ns) x.probe("checked-fixed-joints"); c.dirty = c.dirty || def;
}
void h_exec(const Program& p, Ctx& x) {
    ChainPair cp; std::vector<std::unique_ptr<HD>> v; int k = 0; SegOpts o; o.p_fixed = p.c("fixed") ? 0.25 : 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { x.ev("seg"); if (!v.empty()) { x.fault("chain-grown"); x.nontrivial = true; } cp.add(rseg(d, o, "s" + std::to_string(cp.serial++))); continue; }
        size_t ns = cp.m.s.size(); if (!ns) continue;
        if (st.op == "boot") { x.ev("boot"); std::unique_ptr<HD> c(new HD); c->nc = (unsigned)st.a[1]; c->root.v = ld(-1) * rgrav(d); c->ns = ns; c->nj = cp.chain.getNrOfJoints(); c->s.reset(new ChainHdSolver_Vereshchagin(cp.chain, toKt(c->root), c->nc)); v.push_back(std::move(c)); if (v.size() > 1) x.nontrivial = true; continue; }
        if (st.op == "cut") { if (cp.cut(d, false)) { x.ev("cut"); x.fault("chain-cut"); x.nontrivial = true; } continue; }
        if (st.op == "retip") { Pose t; t.R = rrot(d); t.p = rvec(d, 0.5); cp.retip((size_t)d.range(0, (int64_t)ns - 1), t); x.fault("geometry-recalibrated"); x.nontrivial = true; continue; }
        if (st.op == "payload") { SegOpts so; so.p_massless = 0.1; cp.payload((size_t)d.range(0, (int64_t)ns - 1), rseg(d, so, "load")); x.fault("payload-changed"); x.nontrivial = true; continue; }
        if (v.empty()) continue; HD& c = *v[(size_t)(st.a[0] % (int64_t)v.size())];
        if (st.op == "call") h_call(cp, c, st, x);
        if (st.op == "update") { x.ev("update"); c.s->updateInternalDataStructures(); c.ns = ns; c.nj = cp.chain.getNrOfJoints(); x.op("update"); }
    }
}
void h_gen(Rng& r, Program& p, bool thorough) {
    p.cfg["fixed"] = r.chance(0.4); int ns = (int)r.range(1, 8); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next());
    int nb = (int)r.range(1, 3); for (int i = 0; i < nb; ++i) p.add("boot", {0, r.chance(0.05) ? 0 : r.range(1, 6)}, r.next());
    int steps = (int)r.range(4, thorough ? 40 : 16); double pb = r.chance(0.3) ? 0 : r.uni(0.05, 0.4), pe = r.chance(0.4) ? 0.15 : 0.02;
    for (int i = 0; i < steps; ++i) {
        if (r.chance(pe)) { int e = r.weighted({3, 3, 2, 2}); static const char* const E[] = {"payload", "retip", "seg", "cut"}; p.add(E[e], {}, r.next()); if (e > 1 && r.chance(0.7)) for (int u = 0; u < 4; ++u) p.add("update", {u}, r.next()); }
        else if (r.chance(pe * 1.5)) p.add("update", {r.range(0, 3)}, r.next());
        else p.add("call", {r.range(0, 3), r.weighted({0, 3, 3, 3, 1}), r.chance(pb) ? r.range(1, 6) : 0}, r.next());
    }
}
Scenario H01{"H01", "acceleration-constrained dynamics", "exploration", h_gen, h_exec,
    "A run is a seeded history of requests to 1-3 constrained dynamics solvers with 0-6 constraints on one chain of 1-8 segments, with payload and geometry edits, growth, cuts, updates, non-finite values and wrong sizes in between; constraints are axis-aligned, complete, oblique, repeated or switched off. Non-trivial: several solvers, an edit or a fault; distinct by the sequence of calls and faults.",
    {"ChainHdSolver_Vereshchagin, ArticulatedBodyInertia, svd_eigen_HH, Chain, Segment, Joint"}, {"callers", "heap (seeded content of fresh memory)"},
    {"compared with the constrained equations of motion of the reference mechanics (long double)", "poses where a constraint is almost but not exactly lost (eigenvalue of the constraint coupling between 1e-14 and 1e-7 of the largest) are not judged on that constraint", "root acceleration translational, as gravity is"},
    200000, 6000000, 75, 600, {"fault:nan-position", "fault:nan-constraint", "fault:payload-changed", "fault:chain-cut", "fault:stale-solver-called", "probe:checked", "probe:checked-after-fault", "probe:checked-deficient", "probe:free", "probe:checked-fixed-joints"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&D01, &D02, &H01}); }
