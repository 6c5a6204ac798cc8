// K01: chain pose/velocity kinematics and Jacobian under call histories with faults.
// K02: Jacobian time derivative under call histories with faults.
#include "kdlgen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainjnttojacdotsolver.hpp"
using namespace gen;
using namespace KDL;

namespace {
struct Task {   // one caller: its own solver objects over the shared chain, and its own reused outputs
    std::unique_ptr<ChainFkSolverPos_recursive> fk; std::unique_ptr<ChainFkSolverVel_recursive> fkv; std::unique_ptr<ChainJntToJacSolver> jac; std::unique_ptr<ChainJntToJacDotSolver> jd;
    unsigned jac_nj = 0, jd_nj = 0;
    std::vector<bool> lock, jdlock; int rep = 0;
    Frame p_out; std::vector<Frame> ps; FrameVel v_out; std::vector<FrameVel> vs; Jacobian J, JD; Twist t;
};
void seg_of(const Step& st, size_t ns, int& arg, size_t& k, bool& bad) {
    int64_t sel = st.a[1];
    bad = false;
    if (sel <= 0) { arg = -1; k = ns; } else { k = (size_t)((sel - 1) % (int64_t)(ns + 1)); arg = (int)k; }
    if (st.a[2] == 3) { arg = (int)ns + 1 + (int)(sel % 3); bad = true; }
}
double qrange(Draw& d) { int w = (int)d.range(0, 9); return w < 7 ? 3.2 : w < 8 ? 0.0 : w < 9 ? 30 : 0.05; }

void apply_bad_q(int64_t bad, JntArray& q, Draw& d, Ctx& c) {
    unsigned n = q.rows();
    if (bad == 1) { c.fault("wrong-size-input"); q = rq(d, n + 1 + (unsigned)d.range(0, 2), 1); }
    if (bad == 2) { c.fault("wrong-size-input"); q = rq(d, n ? n - 1 : n + 1, 1); }
    if (bad == 4 && n) { c.fault("nan-input"); q((unsigned)d.range(0, n - 1)) = d.chance(0.5) ? NAN : INFINITY; }
}

struct World {
    ChainPair cp; std::vector<Task> tasks;
    void boot(int n) {
        tasks.clear(); tasks.resize(n);
        for (auto& t : tasks) fresh(t);
    }
    void fresh(Task& t) {
        t.fk.reset(new ChainFkSolverPos_recursive(cp.chain)); t.fkv.reset(new ChainFkSolverVel_recursive(cp.chain));
        t.jac.reset(new ChainJntToJacSolver(cp.chain)); t.jd.reset(new ChainJntToJacDotSolver(cp.chain));
        t.jac_nj = t.jd_nj = cp.chain.getNrOfJoints(); t.lock.assign(t.jac_nj, false); t.jdlock = t.lock; t.rep = 0;
    }
};

// the chain changes while the callers live on
bool world_event(World& w, const Step& st, Ctx& c) {
    Draw d = c.draw(st);
    if (st.op == "seg") {
        c.ev("seg"); SegOpts o; if (st.a[0] == 1) o.p_fixed = 0.7; Seg g = rseg(d, o, "s" + std::to_string(w.cp.m.s.size())); w.cp.add(g);
        if (!w.tasks.empty()) { c.fault("chain-grown-under-callers"); c.nontrivial = true; }
        return true;
    }
    size_t ns = w.cp.m.s.size();
    if ((st.op == "retip" || st.op == "rebuild") && !ns) return true;
    if (st.op == "retip") { c.fault("geometry-recalibrated"); size_t i = (size_t)(st.a[0] % (int64_t)ns); Pose p; p.R = rrot(d); p.p = rvec(d, 0.5); w.cp.retip(i, p); c.nontrivial = true; return true; }
    if (st.op == "rebuild") { // the chain object is assigned a shorter or reordered chain: same object, new contents
        c.fault("chain-replaced"); c.nontrivial = true; size_t cut = (size_t)(st.a[0] % (int64_t)ns); ref::Model m2; Chain k2; size_t start = d.range(0, (int64_t)cut);
        for (size_t i = start; i < ns; ++i) { m2.add(w.cp.m.s[i]); k2.addSegment(w.cp.chain.getSegment((unsigned)i)); }
        w.cp.m = m2; w.cp.chain = k2; return true;
    }
    return false;
}

template <class F> void check_cols(Ctx& c, const char* what, const Jacobian& J, const std::vector<Tw>& R, double tol, F tag) {
    for (unsigned i = 0; i < J.columns(); ++i) { Tw r = i < R.size() ? R[i] : Tw(); Twist t = J.getColumn(i); double e = tdist(t, r); if (!(e <= tol * std::max(1.0, tnorm(r)))) c.fail(std::string(what) + "-wrong", "%s column %u differs from the reference by %.3g (%s)", what, i, e, tag().c_str()); }
}

void kin_op(World& w, const Step& st, Ctx& c) {
    if (w.tasks.empty()) return;
    size_t ns = w.cp.m.s.size(); unsigned nj = (unsigned)w.cp.m.nj;
    Task& t = w.tasks[(size_t)(st.a[0] % (int64_t)w.tasks.size())];
    Draw d = c.draw(st); int64_t bad = st.a[2];
    int arg; size_t k; bool range_bad; seg_of(st, ns, arg, k, range_bad);
    double m = qrange(d);
    JntArray q = rq(d, nj, m); JntArrayVel qv(q, rq(d, nj, 2.0));
    std::vector<ld> ql = toL(qv.q), qdl = toL(qv.qdot), z(nj, 0);
    double scale = std::max(1.0, m);
    const double tol = 1e-10 * scale;
    auto tag = [&] { return "segments " + std::to_string(k) + "/" + std::to_string(ns) + " joints " + std::to_string(nj); };
    if (range_bad) c.fault("segment-out-of-range");
    if (bad) c.nontrivial = true;
    c.ev(st.op.c_str()); c.i(st.a[0]); c.i(arg);
    bool qbad = bad == 1 || bad == 2 || bad == 4;
    JntArray qin = q; apply_bad_q(bad, qin, d, c); JntArrayVel qvin; qvin.q = qin; qvin.qdot = qv.qdot;
    if (bad == 6) { c.fault("wrong-size-input"); qvin.qdot = rq(d, nj + 1, 1); }
    auto expect_refused = [&](int rc, const char* who) { if (bad != 4 && rc >= 0) c.fail("bad-input-accepted", "%s returned %d for an input it must refuse (fault %d)", who, rc, (int)bad); };
    if (st.op == "fk" || st.op == "fkvec") {
        if (bad == 6) { qin = qv.q; bad = 0; }
        if (st.op == "fk") {
            int rc = t.fk->JntToCart(qin, t.p_out, arg); c.i(rc);
            if (qbad || range_bad) { expect_refused(rc, "pose kinematics"); return; }
            if (rc != 0) c.fail("valid-call-refused", "pose kinematics returned %d for a valid call (%s)", rc, tag().c_str());
            Pose r = k ? w.cp.m.fk(ql)[k - 1] : Pose(); log(c, t.p_out);
            double e = pdist(t.p_out, r); if (!(e <= tol * 3)) c.fail("pose-wrong", "pose differs from the reference by %.3g (%s)", e, tag().c_str());
            c.op("fk");
        } else {
            size_t n = k; if (bad == 5) { c.fault("wrong-size-output"); n = k + 1; }
            if (t.ps.size() != n) t.ps.resize(n);
            int rc = t.fk->JntToCart(qin, t.ps, arg); c.i(rc);
            if (qbad || range_bad || bad == 5) { expect_refused(rc, "pose kinematics (all segments)"); return; }
            if (k == 0) { if (rc >= 0) c.fail("bad-input-accepted", "empty list accepted"); return; }
            if (rc != 0) c.fail("valid-call-refused", "pose kinematics (all segments) returned %d (%s)", rc, tag().c_str());
            std::vector<Pose> R = w.cp.m.fk(ql);
            for (size_t i = 0; i < k; ++i) { log(c, t.ps[i]); double e = pdist(t.ps[i], R[i]); if (!(e <= tol * 3)) c.fail("pose-wrong", "pose of segment %zu differs from the reference by %.3g (%s)", i, e, tag().c_str()); }
            c.op("fk-all");
        }
    } else if (st.op == "fkv" || st.op == "fkvvec") {
        auto K = w.cp.m.motion(ql, qdl, z);
        auto cmp = [&](const FrameVel& f, size_t i, bool none) {
            Pose r = none ? Pose() : K.P[i]; Tw rv; if (!none) { rv.v = K.v[i]; rv.w = K.w[i]; }
            Frame F = f.GetFrame(); Twist tw = f.GetTwist(); log(c, F); log(c, tw);
            double e = pdist(F, r); if (!(e <= tol * 3)) c.fail("pose-wrong", "velocity kinematics: pose differs from the reference by %.3g (%s)", e, tag().c_str());
            e = tdist(tw, rv); if (!(e <= tol * 10 * std::max(1.0, tnorm(rv)))) c.fail("twist-wrong", "velocity kinematics: twist differs from the reference by %.3g (%s)", e, tag().c_str());
        };
        if (st.op == "fkv") {
            int rc = t.fkv->JntToCart(qvin, t.v_out, arg); c.i(rc);
            if (qbad || range_bad || bad == 6) { expect_refused(rc, "velocity kinematics"); return; }
            if (rc != 0) c.fail("valid-call-refused", "velocity kinematics returned %d (%s)", rc, tag().c_str());
            cmp(t.v_out, k ? k - 1 : 0, k == 0); c.op("fkvel");
        } else {
            size_t n = k; if (bad == 5) { c.fault("wrong-size-output"); n = k + 1; }
            if (t.vs.size() != n) t.vs.resize(n);
            int rc = t.fkv->JntToCart(qvin, t.vs, arg); c.i(rc);
            if (qbad || range_bad || bad == 5 || bad == 6) { expect_refused(rc, "velocity kinematics (all segments)"); return; }
            if (k == 0) { if (rc >= 0) c.fail("bad-input-accepted", "empty list accepted"); return; }
            if (rc != 0) c.fail("valid-call-refused", "velocity kinematics (all segments) returned %d (%s)", rc, tag().c_str());
            for (size_t i = 0; i < k; ++i) cmp(t.vs[i], i, false); c.op("fkvel-all");
        }
    } else if (st.op == "jac") {
        if (bad == 6) { bad = 0; }
        unsigned n = nj; if (bad == 5) { c.fault("wrong-size-output"); n = nj + 1; }
        if (t.J.columns() != n) t.J.resize(n);
        bool stale = t.jac_nj != nj; if (stale) c.fault("stale-solver-called");
        int rc = t.jac->JntToJac(qin, t.J, arg); c.i(rc);
        if (stale) { if (rc != SolverI::E_NOT_UP_TO_DATE) c.fail("stale-accepted", "Jacobian returned %d although the chain changed and the caller did not update", rc); return; }
        if (qbad || range_bad || bad == 5) { expect_refused(rc, "Jacobian"); return; }
        if (rc != 0) c.fail("valid-call-refused", "Jacobian returned %d (%s)", rc, tag().c_str());
        std::vector<Tw> R = w.cp.m.jac(ql, (int)k - 1), S(nj); unsigned col = 0;
        for (unsigned j = 0; j < nj; ++j) { bool in = false; for (size_t i = 0; i < k; ++i) if (w.cp.m.s[i].jnt == (int)j) in = true; if (in && !t.lock[j]) S[col++] = R[j]; }
        for (unsigned i = 0; i < nj; ++i) log(c, t.J.getColumn(i));
        check_cols(c, "jacobian", t.J, S, tol * 10, tag); c.op("jac");
    } else if (st.op == "lock") {
        bool stale = t.jac_nj != nj;
        std::vector<bool> l(nj); for (unsigned i = 0; i < nj; ++i) l[i] = d.chance(0.4);
        if (bad == 1) { c.fault("wrong-size-input"); l.push_back(true); }
        int rc = t.jac->setLockedJoints(l); c.i(rc);
        if (bad == 1 || stale) { if (rc >= 0) c.fail("bad-input-accepted", "lock list of wrong size or on a stale solver accepted"); return; }
        if (rc != 0) c.fail("valid-call-refused", "setting locked joints returned %d", rc);
        t.lock = l; c.op("lock");
    } else if (st.op == "jupd") { t.jac->updateInternalDataStructures(); t.lock.resize(nj, false); t.jac_nj = nj; c.op("update");
    } else if (st.op == "fkupd") { t.fk->updateInternalDataStructures(); t.fkv->updateInternalDataStructures(); c.op("update");
    } else if (st.op == "jdlock") {
        bool stale = t.jd_nj != nj; if (stale) return;
        std::vector<bool> l(nj); for (unsigned i = 0; i < nj; ++i) l[i] = d.chance(0.4);
        if (bad == 1) { c.fault("wrong-size-input"); l.push_back(true); }
        int rc = t.jd->setLockedJoints(l); c.i(rc);
        if (bad == 1) { if (rc >= 0) c.fail("bad-input-accepted", "lock list of wrong size accepted"); return; }
        if (rc != 0) c.fail("valid-call-refused", "setting locked joints returned %d", rc);
        t.jdlock = l; c.op("jdlock");
    } else if (st.op == "jdrep") {
        int r = (int)(st.a[1] % 3); t.rep = r;
        if (r == 0) t.jd->setHybridRepresentation(); else if (r == 1) t.jd->setBodyFixedRepresentation(); else t.jd->setInertialRepresentation();
        if (bad) { c.fault("unknown-representation"); t.jd->setRepresentation(7 + (int)bad); }   // ignored
        c.op("representation");
    } else if (st.op == "jdupd") { t.jd->updateInternalDataStructures(); t.jdlock.resize(nj, false); t.jd_nj = nj; c.op("update");
    } else if (st.op == "jd" || st.op == "jdt") {
        unsigned un = 0; for (bool b : t.jdlock) un += !b;
        unsigned n = un; if (bad == 5) { c.fault("wrong-size-output"); n = un + 1; }
        if (t.JD.columns() != n) t.JD.resize(n);
        bool stale = t.jd_nj != nj; if (stale) c.fault("stale-solver-called");
        int rc = st.op == "jd" ? t.jd->JntToJacDot(qvin, t.JD, arg) : t.jd->JntToJacDot(qvin, t.t, arg); c.i(rc);
        if (stale) { if (rc != SolverI::E_NOT_UP_TO_DATE) c.fail("stale-accepted", "Jacobian derivative returned %d although the chain changed and the caller did not update", rc); return; }
        if (qbad || range_bad || bad == 6 || (bad == 5 && st.op == "jd")) { expect_refused(rc, "Jacobian derivative"); return; }
        if (st.op == "jdt" && un != nj) { if (rc == 0) goto value; return; }   // with locked joints this form may be refused, but never wrong
        if (rc != 0) c.fail("valid-call-refused", "Jacobian derivative returned %d (%s)", rc, tag().c_str());
    value:
        // derivative along the joint velocity (locked joints stand still), by extrapolated central differences
        std::vector<ld> qd = qdl; for (unsigned j = 0; j < nj; ++j) if (t.jdlock[j]) qd[j] = 0;
        auto Jat = [&](ld h) {
            std::vector<ld> x = ql; for (unsigned j = 0; j < nj; ++j) x[j] += h * qd[j];
            std::vector<Tw> J = w.cp.m.jac(x, (int)k - 1);
            if (t.rep && k) { Pose P = w.cp.m.fk(x)[k - 1]; M3 Rt = ref::tr(P.R);
                for (auto& col : J) { if (t.rep == 1) { col.v = Rt * col.v; col.w = Rt * col.w; } else col.v = col.v - ref::cross(col.w, P.p); } }
            return J;
        };
        std::vector<Tw> R(nj); const ld h = 1e-4L;
        { auto a = Jat(h), b = Jat(-h), a2 = Jat(2 * h), b2 = Jat(-2 * h);
          for (unsigned j = 0; j < nj; ++j) { Tw d1 = (1 / (2 * h)) * (a[j] + ld(-1) * b[j]), d2 = (1 / (4 * h)) * (a2[j] + ld(-1) * b2[j]); R[j] = (1 / ld(3)) * (ld(4) * d1 + ld(-1) * d2); } }
        if (st.op == "jd") {
            std::vector<Tw> S; for (unsigned j = 0; j < nj; ++j) { bool in = false; for (size_t i = 0; i < k; ++i) if (w.cp.m.s[i].jnt == (int)j) in = true; if (in && !t.jdlock[j]) S.push_back(R[j]); }
            for (unsigned i = 0; i < t.JD.columns(); ++i) log(c, t.JD.getColumn(i));
            check_cols(c, "jacobian-derivative", t.JD, S, 1e-9 * scale * 10, tag); c.op("jacdot");
        } else {
            Tw s; for (unsigned j = 0; j < nj; ++j) { bool in = false; for (size_t i = 0; i < k; ++i) if (w.cp.m.s[i].jnt == (int)j) in = true; if (in) s = s + qd[j] * R[j]; }
            log(c, t.t); double e = tdist(t.t, s); if (!(e <= 1e-8 * scale * std::max(1.0, tnorm(s)))) c.fail("jacobian-derivative-wrong", "Jdot*qdot differs from the reference by %.3g (%s)", e, tag().c_str());
            c.op("jacdot-twist");
        }
        c.bump(std::string("probe:representation-") + std::to_string(t.rep)); if (un != nj) c.probe("jacdot-with-locked-joints");
    }
    uint64_t sig = mix64(ns * 131 + nj) ^ mix64(k + 1000) ^ mix64((uint64_t)bad + 77777); for (char ch : st.op) sig = mix64(sig + (uint64_t)ch); c.cover(sig);
}

void gen_common(Rng& r, Program& p, bool thorough, bool dot) {
    p.cfg["tasks"] = r.range(1, 4);
    int n = (int)r.range(r.chance(0.05) ? 0 : 1, r.chance(0.2) ? 10 : 6);
    for (int i = 0; i < n; ++i) p.add("seg", {r.chance(0.05) ? 1 : 0}, r.next());
    p.add("boot", {}, r.next());
    // swarm: which faults are enabled in this run, and how often
    double pf = r.chance(0.3) ? 0 : r.uni(0.05, 0.35); bool grow = r.chance(0.5), retip = r.chance(0.6), replace = r.chance(0.25);
    std::vector<int> kinds; for (int k = 1; k <= 6; ++k) if (r.chance(0.6)) kinds.push_back(k); if (kinds.empty()) kinds.push_back(1);
    int steps = (int)r.range(8, thorough ? 60 : 32);
    for (int i = 0; i < steps; ++i) {
        int64_t task = r.range(0, 3), seg = r.chance(0.4) ? 0 : r.range(1, 12), bad = r.chance(pf) ? kinds[r.range(0, (int64_t)kinds.size() - 1)] : 0;
        int ev = r.weighted({1, grow ? 0.05 : 0, retip ? 0.06 : 0, replace ? 0.04 : 0});
        if (ev == 1) p.add("seg", {0}, r.next());
        else if (ev == 2) p.add("retip", {r.range(0, 9)}, r.next());
        else if (ev == 3) p.add("rebuild", {r.range(0, 9)}, r.next());
        else {
            const char* op;
            if (!dot) { static const char* O[] = {"fk", "fkvec", "fkv", "fkvvec", "jac", "lock", "jupd", "fkupd"}; op = O[r.weighted({3, 2, 3, 2, 5, 1.2, 1, 0.3})]; }
            else { static const char* O[] = {"jd", "jdt", "jdlock", "jdrep", "jdupd"}; op = O[r.weighted({5, 3, 1.2, 1.5, 1})]; }
            p.add(op, {task, seg, bad}, r.next());
        }
    }
}
void exec_common(const Program& p, Ctx& c) {
    World w; int n = 0;
    if (p.c("tasks") > 1) c.nontrivial = true;
    for (auto& st : p.steps) {
        c.step_no = n++;
        if (st.op == "boot") { w.boot((int)std::max<int64_t>(1, p.c("tasks", 1))); c.ev("boot"); continue; }
        if (world_event(w, st, c)) continue;
        kin_op(w, st, c);
    }
}
void gen_K01(Rng& r, Program& p, bool th) { gen_common(r, p, th, false); }
void gen_K02(Rng& r, Program& p, bool th) { gen_common(r, p, th, true); }

const std::vector<std::string> REAL = {"Chain, Segment, Joint, Frame/FrameVel/Twist algebra, Jacobian, JntArray (library code)", "ChainFkSolverPos_recursive, ChainFkSolverVel_recursive, ChainJntToJacSolver, ChainJntToJacDotSolver"};
const std::vector<std::string> STUB = {"calling tasks (simulated callers)", "heap (seeded content of fresh memory)", "reference model: independent long double kinematics"};
const std::vector<std::string> ASSUME = {"at most 20 segments per chain, joint values up to 30 rad", "tolerance 1e-10 times the joint range (1e-9 for the derivative)"};
Scenario K01{"K01", "chain kinematics", "exploration", gen_K01, exec_common,
    "A run is a seeded history of calls by 1-4 simulated callers, each with its own solver objects, on one shared random chain, with wrong-size, out-of-range and NaN inputs, locked-joint changes, in-place recalibration, growth and replacement of the chain between calls. Non-trivial: at least two callers or at least one fault; distinct by the sequence of calls and faults.",
    REAL, STUB, ASSUME, 60000, 2000000, 45, 600, {"fault:stale-solver-called", "fault:nan-input", "fault:geometry-recalibrated"}};
Scenario K02{"K02", "Jacobian time derivative", "exploration", gen_K02, exec_common,
    "As K01, with calls of the Jacobian-derivative solver in its three representations, with locked joints and partial chains. Non-trivial: at least two callers or at least one fault; distinct by the sequence of calls and faults.",
    REAL, STUB, ASSUME, 60000, 2000000, 45, 600, {"fault:stale-solver-called", "probe:jacdot-with-locked-joints"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&K01, &K02}); }
