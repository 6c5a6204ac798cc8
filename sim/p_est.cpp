// E01: the external wrench estimator against its observer law, open loop under every sample fault and closed loop
// with a simulated robot.
#include "kdlgen.hpp"
#include "chainexternalwrenchestimator.hpp"
using namespace gen; using namespace KDL;
namespace {
typedef std::vector<ld> VL; typedef std::vector<VL> ML;
ld vmax(const VL& v) { ld m = 0; for (ld x : v) m = std::max(m, std::fabs(x)); return m; }
bool finite(const VL& v) { for (ld x : v) if (!(std::fabs(x) < 1e200L)) return false; return true; }
V3 rgrav(Draw& d) { if (d.chance(0.4)) return ref::v3(0, 0, (ld)-9.81); if (d.chance(0.2)) return ref::v3(0, 0, 0); V3 g = rvec(d, 10); for (int i = 0; i < 3; ++i) g.x[i] = (double)g[i]; return g; }
VL mul(const ML& A, const VL& x) { VL r(A.size(), 0); for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < x.size(); ++j) r[i] += A[i][j] * x[j]; return r; }
struct Obs { VL p0, I, rf; ML Mp; ld scale = 0; void clear(size_t n) { p0.assign(n, 0); I.assign(n, 0); rf.assign(n, 0); Mp.assign(n, VL(n, 0)); scale = 0; } };
struct Est { std::unique_ptr<ChainExternalWrenchEstimator> e; V3 g; double dt, gain, filt, eps; Obs o; size_t ns, nj; int maxit = 150; bool dirty = false, diverged = false; VL hq, hqd, ht; };
struct World { ChainPair cp; std::vector<std::unique_ptr<Est>> v; };
void reset_model(World& w, Est& c, const VL& Q, const VL& QD) { c.o.clear(c.nj); ML H = w.cp.m.mass(Q); c.o.p0 = mul(H, QD); c.o.Mp = H; c.o.scale = 1 + vmax(c.o.p0); }
// the documented law on one sample
void law(World& w, Est& c, const VL& Q, const VL& QD, const VL& T) {
    size_t n = c.nj; VL z(n, 0); std::vector<Tw> none(w.cp.m.s.size()); ML H = w.cp.m.mass(Q); VL g = w.cp.m.inverse_dynamics(Q, z, z, c.g, none, true), cor = w.cp.m.inverse_dynamics(Q, QD, z, ref::v3(0, 0, 0), none, true); ld dt = (ld)c.dt;
    VL p = mul(H, QD), pd = mul(c.o.Mp, QD); ld s = vmax(p) + vmax(pd) + (vmax(T) + vmax(g) + vmax(cor)) * dt;
    for (size_t i = 0; i < n; ++i) {
        ld tot = T[i] - g[i] - cor[i] + (p[i] - pd[i]) / dt; c.o.I[i] += (tot + c.o.rf[i]) * dt;
        ld r = (ld)c.gain * (p[i] - c.o.I[i] - c.o.p0[i]); c.o.rf[i] = (ld)c.filt * c.o.rf[i] + (1 - (ld)c.filt) * r;
    }
    c.o.Mp = H; c.o.scale = std::max(c.o.scale, (s + vmax(c.o.I) + vmax(c.o.p0)) * (1 + c.gain) + vmax(c.o.rf));
}
// wrench in the tip frame from the joint torques: pseudo-inverse of the transposed Jacobian; false when a singular value is at the threshold
bool wrench(World& w, Est& c, const VL& Q, Tw& out, ld& top, ld& low) {
    int e = (int)w.cp.m.s.size() - 1; std::vector<Pose> P = w.cp.m.fk(Q); std::vector<Tw> J = w.cp.m.jac_from(P, e); M3 Rt = ref::tr(P[e].R); size_t n = c.nj;
    std::vector<VL> R(6, VL(n)); for (size_t j = 0; j < n; ++j) { V3 a = Rt * J[j].v, b = Rt * J[j].w; for (int i = 0; i < 3; ++i) { R[i][j] = a[i]; R[i + 3][j] = b[i]; } }
    ML A(6, VL(6, 0)); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) for (size_t k = 0; k < n; ++k) A[i][j] += R[i][k] * R[j][k];
    VL ev; ML V; ref::sym_eig(A, ev, V); top = vmax(ev); low = top; VL b(6, 0), r(6, 0); for (int i = 0; i < 6; ++i) for (size_t k = 0; k < n; ++k) b[i] += R[i][k] * c.o.rf[k];
    for (int j = 0; j < 6; ++j) { ld s = std::sqrt(std::max<ld>(ev[j], 0)); if (s < c.eps) { if (s > c.eps * 0.5L || (s > 1e-9L && c.eps < 1e-7)) return false; continue; } if (s < c.eps * 2) return false; low = std::min(low, ev[j]); ld t = 0; for (int i = 0; i < 6; ++i) t += V[i][j] * b[i]; for (int i = 0; i < 6; ++i) r[i] += V[i][j] * t / ev[j]; }
    for (int i = 0; i < 3; ++i) { out.v.x[i] = r[i]; out.w.x[i] = r[i + 3]; } return true;
}
void sample(World& w, Est& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); unsigned n = w.cp.chain.getNrOfJoints(); size_t ns = w.cp.m.s.size(); int bad = (int)st.a[1]; bool set = st.op == "reset";
    if (c.hq.size() != n) { c.hq = toL(rq(d, n, 3)); c.hqd = VL(n, 0); c.ht = VL(n, 0); }
    // the robot moves on a little between samples, sometimes jumps
    bool jump = d.chance(0.15); JntArray q(n), qd(n), t(n), dq = rq(d, n, 0.1), nq = rq(d, n, 3), nqd = rq(d, n, 2), nt = rq(d, n, 10);
    bool repeat = bad == 6, drop = bad == 7;
    if (drop) { x.fault("sample-dropped"); x.nontrivial = true; for (unsigned i = 0; i < n; ++i) c.hq[i] = (double)(c.hq[i] + dq(i)); return; }
    if (repeat) { x.fault("sample-repeated"); x.nontrivial = true; } else for (unsigned i = 0; i < n; ++i) { c.hq[i] = jump ? nq(i) : (double)(c.hq[i] + dq(i)); c.hqd[i] = nqd(i); c.ht[i] = nt(i); }
    for (unsigned i = 0; i < n; ++i) { q(i) = (double)c.hq[i]; qd(i) = (double)c.hqd[i]; t(i) = (double)c.ht[i]; }
    bool stale = c.ns != ns || c.nj != n; x.ev(set ? "reset" : "sample"); x.i(bad); if (bad) x.nontrivial = true;
    int size_bad = 0; if (bad == 1 && n) { x.fault("nan-position"); q((unsigned)d.range(0, n - 1)) = NAN; } if (bad == 2 && n) { x.fault("nan-velocity"); qd(0) = d.chance(0.5) ? NAN : INFINITY; } if (bad == 3 && n && !set) { x.fault("nan-torque"); t(n - 1) = NAN; }
    if (bad == 4) { x.fault("wrong-size-sample"); size_bad = 1; int k = (int)d.range(0, set ? 1 : 2); (k == 0 ? q : k == 1 ? qd : t) = JntArray(d.chance(0.5) || !n ? n + 1 : n - 1); }
    bool starve = bad == 5 && !set; if (starve) { x.fault("decomposition-starved"); c.e->setSVDMaxIter((int)d.range(0, 2)); }
    JntArray before(c.nj), after(c.nj); c.e->getEstimatedJntTorque(before);
    Wrench f(Vector(NAN, NAN, NAN), Vector(NAN, NAN, NAN)); int rc = set ? c.e->setInitialMomentum(q, qd) : c.e->JntToExtWrench(q, qd, t, f); x.i(rc); x.op(set ? "reset" : "sample");
    if (starve) c.e->setSVDMaxIter(c.maxit);
    if (c.e->getError() != rc) x.fail("error-code-differs", "the last-error query gives %d after a call that returned %d", c.e->getError(), rc);
    c.e->getEstimatedJntTorque(after);
    if (stale || size_bad) {
        if (stale) { x.fault("stale-estimator-called"); x.nontrivial = true; }
        if (rc >= 0) x.fail("bad-input-accepted", "returned %d for %s", rc, stale ? "a chain it is not up to date with" : "arrays of the wrong size");
        for (unsigned i = 0; i < c.nj; ++i) if (before(i) != after(i) && !(std::isnan(before(i)) && std::isnan(after(i)))) x.fail("refused-sample-counted", "a refused %s changed the estimate of joint %u from %.12g to %.12g", set ? "reset" : "sample", i, before(i), after(i));
        c.dirty = true; return;
    }
    VL Q = toL(q), QD = toL(qd), T = toL(t);
    if (set) { if (rc != 0) { if (!bad) x.fail("valid-call-refused", "reset returned %d", rc); c.dirty = true; c.diverged = true; return; } reset_model(w, c, Q, QD); c.diverged = bad == 1 || bad == 2; if (!c.diverged) { for (unsigned i = 0; i < n; ++i) if (after(i) != 0) x.fail("reset-incomplete", "estimate of joint %u is %g right after a reset", i, after(i)); if (c.dirty) x.probe("reset-after-fault"); } else c.dirty = true; return; }
    if (bad >= 1 && bad <= 3) { c.dirty = true; c.diverged = true; return; }
    if (c.diverged) return;
    law(w, c, Q, QD, T); if (!finite(c.o.rf) || c.o.scale > 1e12L) { c.diverged = true; return; }
    x.cover(mix64((uint64_t)bad * 2 + (c.dirty ? 1 : 0)) ^ mix64(n * 31 + ns));
    ld sc = c.o.scale; for (unsigned i = 0; i < n; ++i) { x.d(after(i)); if (!(std::fabs(after(i) - c.o.rf[i]) <= 1e-9L * (1 + sc))) x.fail("estimate-wrong", "estimated torque of joint %u is %.12g, the observer law gives %.12g (gain %g, filter %g, %g s%s)", i, after(i), (double)c.o.rf[i], c.gain, c.filt, c.dt, c.dirty ? ", after a fault" : ""); }
    if (starve && rc < 0) { x.probe("starved-sample-failed"); c.dirty = true; return; }
    Tw r; ld top, low; bool clear = wrench(w, c, Q, r, top, low);
    if (rc < 0) x.fail("valid-call-refused", "sample returned %d", rc);
    if (!clear) { x.probe("singular-value-at-threshold"); return; }
    log(x, f); ld amp = (1 + sc) / std::sqrt(low > 0 ? low : 1);
    if (!(wdist(f, r) <= 1e-8 * (double)(amp * (1 + std::sqrt(top / (low > 0 ? low : 1)))))) x.fail("wrench-wrong", "wrench is off by %.6g from the pseudo-inverse of the estimated torques (singular values %.3g..%.3g, threshold %.3g%s)", wdist(f, r), (double)std::sqrt(low), (double)std::sqrt(top), c.eps, c.dirty ? ", after a fault" : "");
    x.probe(c.dirty ? "checked-after-fault" : "checked"); if (n < 6 || low < top * 1e-10L) x.probe("checked-rank-deficient");
}
// a simulated robot under a constant wrench; sensor faults, then silence of faults; convergence
void closed_loop(World& w, Est& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); size_t n = w.cp.m.nj, ns = w.cp.m.s.size(); if (!n || c.nj != n || c.ns != ns) return; int e = (int)ns - 1; const ref::Model& M = w.cp.m;
    ld kd_ = (ld)c.gain * c.dt, a = c.filt; if (!(kd_ > 0.02L && (1 - a) * kd_ < 1.2L * (1 + a) && a < 0.95L)) return;         // observers that are stable with a margin
    ML tm{{1, -kd_}, {1 - a, a - (1 - a) * kd_}}; (void)tm;
    VL q = toL(rq(d, n, 2)), qd = toL(rq(d, n, 0.5)), z(n, 0), q0 = q; Tw we; we.v = rvec(d, 1); we.w = rvec(d, 1); bool reset_first = d.chance(0.5) || c.diverged || c.o.scale > 1e6L; int faults = (int)st.a[1]; ld h = (ld)c.dt;
    { ML H = M.mass(q); VL t, b(n, 0); std::vector<Pose> P = M.fk(q); std::vector<Tw> J = M.jac_from(P, e); V3 F = P[e].R * we.v, N = P[e].R * we.w; for (size_t i = 0; i < n; ++i) b[i] = dot(J[i].v, F) + dot(J[i].w, N); if (!ref::solve(H, b, t)) return; ld m = vmax(t); if (!(m < 1e9L)) return; if (m > 1) { we = (1 / m) * we; } }
    x.ev("loop"); x.i(faults); x.op("closed-loop"); JntArray kq(n), kqd(n), kt(n); Wrench f; std::vector<Tw> fx(ns); fx[e] = we; bool poisoned = false; if (reset_first) { for (size_t i = 0; i < n; ++i) { kq(i) = (double)q[i]; kqd(i) = (double)qd[i]; } c.e->setInitialMomentum(kq, kqd); }
    // slowest mode of the observer
    ld trc = 1 + a - (1 - a) * kd_, det = a, disc = trc * trc - 4 * det, rho = disc >= 0 ? std::max(std::fabs((trc + std::sqrt(disc)) / 2), std::fabs((trc - std::sqrt(disc)) / 2)) : std::sqrt(det); if (!(rho < 0.985L)) return;
    int fault_steps = (int)d.range(5, 40), need = (int)std::ceil(std::log(1e-9) / std::log((double)rho)) + 20, settle = (int)std::ceil(6.0 / (double)h); if (settle > 800) { h = 6.0L / 800; } settle = std::min(settle, 800);
    ld kp = 25, kv = 10; JntArray lq(n), lqd(n), lt(n); bool have_old = false; int total = fault_steps + settle + need;
    for (int s = 0; s < total; ++s) {
        ML H = M.mass(q); VL des(n), bias = M.inverse_dynamics(q, qd, z, c.g, {}, true), tau(n), acc; for (size_t i = 0; i < n; ++i) des[i] = -kp * (q[i] - q0[i]) - kv * qd[i]; VL Hd = mul(H, des); for (size_t i = 0; i < n; ++i) tau[i] = bias[i] + Hd[i];
        VL b2 = M.inverse_dynamics(q, qd, z, c.g, fx, true); VL rhs(n); for (size_t i = 0; i < n; ++i) rhs[i] = tau[i] - b2[i]; if (!ref::solve(H, rhs, acc) || !finite(acc)) { c.e->setInitialMomentum(kq, kqd); c.diverged = c.dirty = true; return; }
        for (size_t i = 0; i < n; ++i) { kq(i) = (double)q[i]; kqd(i) = (double)qd[i]; kt(i) = (double)tau[i]; }
        bool faulty = s < fault_steps && faults; int k = faulty && d.chance(0.4) ? (int)d.range(1, 6) : 0;
        if (s == fault_steps && (poisoned || faults > 1)) { c.e->setInitialMomentum(kq, kqd); x.probe("loop-reset"); }
        if (k == 1) { x.fault("loop-sample-dropped"); } else if (k == 2) { x.fault("loop-sample-repeated"); c.e->JntToExtWrench(kq, kqd, kt, f); c.e->JntToExtWrench(kq, kqd, kt, f); }
        else if (k == 3 && have_old) { x.fault("loop-sample-delayed"); c.e->JntToExtWrench(lq, lqd, lt, f); }
        else if (k == 4) { x.fault("loop-nan-sample"); JntArray bad = kqd; bad(0) = NAN; c.e->JntToExtWrench(kq, bad, kt, f); poisoned = true; }
        else if (k == 5) { x.fault("loop-torque-spike"); JntArray bad = kt; bad(0) += 50; c.e->JntToExtWrench(kq, kqd, bad, f); }
        else { if (k == 6) { x.fault("loop-wrong-size-sample"); JntArray bad(n + 1); c.e->JntToExtWrench(bad, kqd, kt, f); } int rc = c.e->JntToExtWrench(kq, kqd, kt, f); if (rc != 0 && !poisoned) { x.fail("valid-call-refused", "sample of the simulated robot returned %d", rc); } }
        if (k) x.nontrivial = true; if (d.chance(0.1)) { lq = kq; lqd = kqd; lt = kt; have_old = true; }
        for (size_t i = 0; i < n; ++i) { qd[i] += acc[i] * h; q[i] += qd[i] * h; } x.time((double)h);
    }
    if (vmax(qd) > 1e-6L) { reset_model(w, c, q, qd); c.e->setInitialMomentum(kq, kqd); reset_model(w, c, toL(kq), toL(kqd)); return; }
    std::vector<Pose> P = M.fk(q); std::vector<Tw> J = M.jac_from(P, e); V3 F = P[e].R * we.v, N = P[e].R * we.w; JntArray est(n); c.e->getEstimatedJntTorque(est); ld tmax = 0; VL want(n); for (size_t i = 0; i < n; ++i) { want[i] = dot(J[i].v, F) + dot(J[i].w, N); tmax = std::max(tmax, std::fabs(want[i])); }
    for (size_t i = 0; i < n; ++i) { x.d(est(i)); if (!(std::fabs(est(i) - want[i]) <= 1e-4L * (1 + tmax))) x.fail("not-converged", "%d samples after the last fault the torque estimate of joint %zu is %.9g, the wrench causes %.9g", settle + need, i, est(i), (double)want[i]); }
    Obs keep = c.o; c.o.rf = want; Tw r; ld top, low; VL Q = toL(kq); if (wrench(w, c, Q, r, top, low) && low > 1e-3L) { if (!(wdist(f, r) <= 1e-3 * (double)(1 + tmax) / std::sqrt((double)low))) x.fail("not-converged", "wrench estimate off by %.6g after convergence", wdist(f, r)); if (n >= 6 && top / low < 1e4L && c.eps < 1e-2) { Tw dd; dd.v = r.v - we.v; dd.w = r.w - we.w; if (tnorm(dd) < 1e-6) { if (!(wdist(f, we) <= 1e-2)) x.fail("not-converged", "wrench estimate off by %.6g from the wrench applied", wdist(f, we)); x.probe("full-wrench-recovered"); } } }
    c.o = keep; c.e->setInitialMomentum(kq, kqd); reset_model(w, c, toL(kq), toL(kqd)); c.diverged = false; x.probe(faults ? "converged-after-faults" : "converged");
}
void execute(const Program& p, Ctx& x) {
    World w; int k = 0; SegOpts o; o.p_fixed = p.c("fixed") ? 0.25 : 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { x.ev("seg"); if (!w.v.empty()) { x.fault("chain-grown"); x.nontrivial = true; } w.cp.add(rseg(d, o, "s" + std::to_string(w.cp.serial++))); continue; }
        size_t ns = w.cp.m.s.size(); if (!ns || !w.cp.m.nj) continue;
        if (st.op == "boot") {
            x.ev("boot"); std::unique_ptr<Est> c(new Est); c->g = rgrav(d); double fs = std::pow(10.0, d.uni(1, 3)); c->dt = 1.0 / fs; c->gain = d.chance(0.7) ? d.uni(0.03, 0.9) * fs : d.chance(0.3) ? 0 : d.uni(0, 60); c->filt = d.chance(0.3) ? 0 : d.chance(0.05) ? 1 : d.uni(0, 0.95); c->eps = d.chance(0.6) ? 1e-5 : std::pow(10.0, -d.uni(0.5, 6));
            c->ns = ns; c->nj = (size_t)w.cp.m.nj; c->e.reset(new ChainExternalWrenchEstimator(w.cp.chain, toK(c->g), fs, c->gain, c->filt, c->eps)); c->o.clear(c->nj); w.v.push_back(std::move(c)); if (w.v.size() > 1) x.nontrivial = true; continue; }
        if (st.op == "cut") { if (w.cp.cut(d)) { x.ev("cut"); x.fault("chain-cut"); x.nontrivial = true; } continue; }
        if (st.op == "payload") { SegOpts so; w.cp.payload((size_t)d.range(0, (int64_t)ns - 1), rseg(d, so, "load")); x.fault("payload-changed"); x.nontrivial = true; continue; }
        if (w.v.empty()) continue; Est& c = *w.v[(size_t)(st.a[0] % (int64_t)w.v.size())];
        if (st.op == "sample" || st.op == "reset") sample(w, c, st, x);
        if (st.op == "loop") closed_loop(w, c, st, x);
        if (st.op == "eps") { x.ev("eps"); c.eps = std::pow(10.0, -d.uni(0.5, 6)); c.e->setSVDEps(c.eps); x.op("threshold"); }
        if (st.op == "update") { x.ev("update"); bool changed = c.ns != ns || c.nj != (size_t)w.cp.m.nj; c.ns = ns; c.nj = (size_t)w.cp.m.nj; c.e->updateInternalDataStructures(); x.op("update"); c.hq.clear(); (void)changed; c.o.clear(c.nj); c.diverged = false; JntArray t((unsigned)c.nj); c.e->getEstimatedJntTorque(t); for (unsigned i = 0; i < c.nj; ++i) if (t(i) != 0) x.fail("update-incomplete", "estimate of joint %u is %g right after an update", i, t(i)); }
    }
}
void generate(Rng& r, Program& p, bool thorough) {
    p.cfg["fixed"] = r.chance(0.3); int ns = (int)r.weighted({0, 1, 1, 1, 1, 1, 2, 3, 1}); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next());
    int nb = (int)r.range(1, 2); for (int i = 0; i < nb; ++i) p.add("boot", {}, r.next());
    int steps = (int)r.range(6, thorough ? 60 : 30); double pb = r.chance(0.25) ? 0 : r.uni(0.05, 0.5), pe = r.chance(0.6) ? 0.02 : 0.08; bool loop = r.chance(0.06); int at = (int)r.range(0, steps);
    for (int i = 0; i < steps; ++i) {
        if (r.chance(pe)) { int e = r.weighted({5, 2, 2}); static const char* const E[] = {"payload", "seg", "cut"}; p.add(E[e], {}, r.next()); if (e && r.chance(0.6)) { p.add("update", {0}, r.next()); p.add("update", {1}, r.next()); } }
        else if (r.chance(pe)) p.add(r.chance(0.6) ? "update" : "eps", {r.range(0, 1)}, r.next());
        else if (r.chance(0.15)) p.add("reset", {r.range(0, 1), r.chance(pb * 0.5) ? r.range(1, 4) : 0}, r.next());
        else p.add("sample", {r.range(0, 1), r.chance(pb) ? r.range(1, 7) : 0}, r.next());
        if (loop && i == at) p.add("loop", {r.range(0, 1), r.range(0, 2)}, r.next());
    }
}
Scenario E01{"E01", "external wrench estimation", "exploration", generate, execute,
    "A run feeds 1-2 estimators with a seeded stream of samples of one chain of 1-8 segments: dropped, repeated, wrong-size and non-finite samples, starved decompositions, resets, payload edits and growth, with gains, filters, rates and thresholds of their own. Some runs close the loop with a simulated robot under a constant wrench and let it settle after the faults. Non-trivial: a fault, an edit or two estimators; distinct by the sequence of samples and faults.",
    {"ChainExternalWrenchEstimator, ChainDynParam, ChainJntToJacSolver, ChainFkSolverPos_recursive, svd_eigen_HH"}, {"robot, sensors and sample clock (reference mechanics in the closed loop)", "heap (seeded content of fresh memory)"},
    {"after every accepted sample compared with the documented observer recursion in long double, relative 1e-9 of the largest term so far", "wrenches judged unless a singular value is within a factor two of the threshold", "a sample whose decomposition was starved reports failure and still counts in the observer", "convergence judged for observers whose slowest mode is below 0.985 per sample"},
    100000, 3000000, 75, 600, {"fault:sample-dropped", "fault:nan-position", "fault:decomposition-starved", "fault:stale-estimator-called", "fault:loop-nan-sample", "fault:loop-sample-delayed", "probe:checked", "probe:checked-after-fault", "probe:reset-after-fault", "probe:checked-rank-deficient", "probe:converged", "probe:converged-after-faults", "probe:full-wrench-recovered"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&E01}); }
