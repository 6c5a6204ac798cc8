// V01: velocity inverse kinematics of chains under call histories with singular poses, failing decompositions,
// non-finite inputs, settings changes and chain edits.
#include "kdlgen.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_wdls.hpp"
using namespace gen; using namespace KDL;
namespace {
typedef std::vector<std::vector<ld>> Mat;
struct Decomp { Mat A; std::vector<ld> s2; Mat U; std::vector<ld> sig; };      // sig: descending, one per min(6,n)
Decomp decompose(const Mat& A) { // A is 6 x n
    Decomp D; D.A = A; size_t n = A[0].size(); Mat G(6, std::vector<ld>(6, 0)); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) for (size_t k = 0; k < n; ++k) G[i][j] += A[i][k] * A[j][k];
    ref::sym_eig(G, D.s2, D.U); std::vector<std::pair<ld, int>> o; for (int i = 0; i < 6; ++i) o.push_back({D.s2[i], i}); std::sort(o.rbegin(), o.rend());
    Mat U2 = D.U; std::vector<ld> s(6); for (int i = 0; i < 6; ++i) { s[i] = o[i].first; for (int k = 0; k < 6; ++k) U2[k][i] = D.U[k][o[i].second]; } D.U = U2; D.s2 = s;
    for (size_t i = 0; i < std::min<size_t>(6, n); ++i) D.sig.push_back(std::sqrt(std::max<ld>(0, s[i]))); return D;
}
// A^T sum_i f(sigma_i) u_i u_i^T v
template <class F> std::vector<ld> apply(const Decomp& D, const std::vector<ld>& v, F f) {
    size_t n = D.A[0].size(); std::vector<ld> y(6, 0), x(n, 0);
    for (size_t i = 0; i < 6; ++i) { ld sg = std::sqrt(std::max<ld>(0, D.s2[i])); if (i >= D.sig.size() && sg > 1e-8L) continue; ld k = 0; for (int r = 0; r < 6; ++r) k += D.U[r][i] * v[r]; k *= f(sg); for (int r = 0; r < 6; ++r) y[r] += k * D.U[r][i]; }
    for (size_t j = 0; j < n; ++j) for (int r = 0; r < 6; ++r) x[j] += D.A[r][j] * y[r]; return x;
}
struct Caller {
    int kind; double eps; int maxiter; std::unique_ptr<ChainIkSolverVel_pinv> pi; std::unique_ptr<ChainIkSolverVel_pinv_givens> gi; std::unique_ptr<ChainIkSolverVel_pinv_nso> ns; std::unique_ptr<ChainIkSolverVel_wdls> wd;
    JntArray out, lastq; unsigned known = 0; double alpha = 0, lambda = 0; std::vector<ld> w, opt; Mat mq, mx; bool dirty = false;
    ChainIkSolverVel& s() { return kind == 0 ? (ChainIkSolverVel&)*pi : kind == 1 ? (ChainIkSolverVel&)*gi : kind == 2 ? (ChainIkSolverVel&)*ns : (ChainIkSolverVel&)*wd; }
};
const char* const NM[] = {"pseudo-inverse", "givens", "null-space", "damped"};
Mat eye(size_t n) { Mat m(n, std::vector<ld>(n, 0)); for (size_t i = 0; i < n; ++i) m[i][i] = 1; return m; }
struct World { ChainPair cp; std::vector<std::unique_ptr<Caller>> v; };
std::unique_ptr<Caller> make(World& w, int kind, double eps, int maxiter, Draw& d) {
    std::unique_ptr<Caller> c(new Caller); c->kind = kind; c->eps = eps; c->maxiter = maxiter; unsigned n = w.cp.chain.getNrOfJoints(); c->known = n; c->out = JntArray(n); c->lastq = JntArray(n); c->w.assign(n, 1); c->opt.assign(n, 0); c->mq = eye(n); c->mx = eye(6);
    if (kind == 0) c->pi.reset(new ChainIkSolverVel_pinv(w.cp.chain, eps, maxiter));
    if (kind == 1) c->gi.reset(new ChainIkSolverVel_pinv_givens(w.cp.chain));
    if (kind == 2) { JntArray a(n), o(n); for (unsigned i = 0; i < n; ++i) { a(i) = d.val(0, 2); o(i) = d.val(-1, 1); c->w[i] = a(i); c->opt[i] = o(i); } c->alpha = d.chance(0.5) ? 0.25 : d.val(0, 1); c->ns.reset(new ChainIkSolverVel_pinv_nso(w.cp.chain, o, a, eps, maxiter, c->alpha)); }
    if (kind == 3) c->wd.reset(new ChainIkSolverVel_wdls(w.cp.chain, eps, maxiter));
    return c;
}
Seg vel_seg(Draw& d, int style, int no) {
    SegOpts o; o.inertia = false; o.rotor = false; o.p_fixed = 0.12; std::string nm = "s" + std::to_string(no);
    if (style == 0) return rseg(d, o, nm);
    // axis-parallel joints and links: poses at multiples of a quarter turn are exactly singular
    o.p_axis = 0; o.p_trans = 0.1; o.p_scale = 0; o.p_offset = 0; Seg g = rseg(d, o, nm); g.f_tip.R = ref::eye(); g.f_tip.p = ref::v3(0, 0, 0); int k = (int)d.range(0, 2); g.f_tip.p.x[k] = d.range(0, 2) * 0.5; return g;
}
void call(World& w, Caller& c, const Step& st, Ctx& x) {
    unsigned n = w.cp.chain.getNrOfJoints(); Draw d = x.draw(st); int mode = (int)st.a[1], bad = (int)st.a[2];
    JntArray q(n); double small = std::pow(10.0, -(double)d.range(1, 9));
    for (unsigned i = 0; i < n; ++i) q(i) = mode == 0 ? d.val(-3, 3) : mode == 1 ? 0 : mode == 2 ? d.range(-2, 2) * 1.5707963267948966 : mode == 3 ? (c.lastq.rows() == n ? c.lastq(i) : 0) + d.uni(-0.05, 0.05) : d.range(-2, 2) * 1.5707963267948966 + d.uni(-small, small);
    V3 a = rvec(d, 1), b = rvec(d, 1); if (d.chance(0.1)) { a = ref::v3(0, 0, 0); if (d.chance(0.3)) b = a; } Twist v(toK(a), toK(b));
    bool stale = c.known != n; std::string pre = std::string(NM[c.kind]) + ": ";
    x.ev("call"); x.i(c.kind); x.i(mode); x.i(bad);
    if (bad == 1 && n) { x.fault("nan-position"); x.nontrivial = true; q((unsigned)d.range(0, n - 1)) = d.chance(0.5) ? NAN : INFINITY; }
    if (bad == 2) { x.fault("nan-twist"); x.nontrivial = true; v((int)d.range(0, 5)) = d.chance(0.5) ? NAN : INFINITY; }
    if (bad == 3) { x.fault("wrong-size-array"); x.nontrivial = true; q = JntArray(n + 1); }
    if (bad == 4) { x.fault("runaway-position"); x.nontrivial = true; double e = d.uni(3, 307); for (unsigned i = 0; i < n; ++i) if (d.chance(0.5)) q(i) *= std::pow(10.0, e * d.u01()); }
    if (c.out.rows() != n) c.out.resize(n); if (d.chance(0.3)) for (unsigned i = 0; i < n; ++i) c.out(i) = NAN;
    int rc = c.s().CartToJnt(q, v, c.out); x.i(rc);
    if (stale) { x.fault("stale-solver-called"); if (rc >= 0) x.fail("stale-accepted", "%sreturned %d although the chain changed", pre.c_str(), rc); return; }
    if (bad == 3) { if (rc >= 0) x.fail("bad-input-accepted", "%sreturned %d for too many joint positions", pre.c_str(), rc); return; }
    // a decomposition that fails stops the robot, whatever made it fail
    if (c.kind != 1) {
        bool failed = rc == SolverI::E_SVD_FAILED; int said = c.kind == 0 ? c.pi->getSVDResult() : c.kind == 2 ? c.ns->getSVDResult() : c.wd->getSVDResult();
        if ((rc >= 0 || failed) && failed != (said != 0)) x.fail("decomposition-misreported", "%sreturned %d and reports %d for the decomposition", pre.c_str(), rc, said);
        if (failed) { x.probe("stopped-on-failure"); for (unsigned i = 0; i < n; ++i) if (!(c.out(i) == 0)) x.fail("moves-after-failure", "%sreturned %d with joint velocity %u = %g instead of zero", pre.c_str(), rc, i, c.out(i)); }
    }
    if (c.kind == 2) { bool same = c.ns->getAlpha() == c.alpha; for (unsigned i = 0; i < n; ++i) if ((ld)c.ns->getWeights()(i) != c.w[i] || (ld)c.ns->getOptPos()(i) != c.opt[i]) same = false; if (!same) x.fail("setting-lost", "%sthe null-space settings are not those given", pre.c_str()); }
    if (c.kind == 3 && (c.wd->getEps() != c.eps || c.wd->getLambda() != c.lambda)) x.fail("setting-lost", "%sthreshold %g and damping %g are not those given, %g and %g", pre.c_str(), c.wd->getEps(), c.wd->getLambda(), c.eps, c.lambda);
    if (bad) { c.dirty = true; return; }
    c.lastq = q;
    // the reference solution
    std::vector<Tw> J = w.cp.m.jac(toL(q), (int)w.cp.m.s.size() - 1); Mat A(6, std::vector<ld>(n)); for (unsigned j = 0; j < n; ++j) for (int r = 0; r < 3; ++r) { A[r][j] = J[j].v[r]; A[r + 3][j] = J[j].w[r]; }
    std::vector<ld> vv(6); for (int r = 0; r < 6; ++r) vv[r] = v(r);
    Mat B = A; std::vector<ld> bv = vv;
    if (c.kind == 3) { Mat t(6, std::vector<ld>(n, 0)); for (int r = 0; r < 6; ++r) for (unsigned j = 0; j < n; ++j) for (unsigned k = 0; k < n; ++k) t[r][j] += A[r][k] * c.mq[k][j];
        for (int r = 0; r < 6; ++r) for (unsigned j = 0; j < n; ++j) { B[r][j] = 0; for (int k = 0; k < 6; ++k) B[r][j] += c.mx[r][k] * t[k][j]; } for (int r = 0; r < 6; ++r) { bv[r] = 0; for (int k = 0; k < 6; ++k) bv[r] += c.mx[r][k] * vv[k]; } }
    Decomp D = decompose(B); ld top = D.sig[0], low = D.sig.back(); double eps = c.kind == 3 ? c.eps : c.kind == 1 ? 0 : c.eps;
    bool well = low > 1e-3L * std::max<ld>(1, top), gray = false; unsigned lost = n > 6 ? n - 6 : 0, structural = lost; ld kept = top;
    for (ld s : D.sig) { if (s > 1e-8L * std::max<ld>(1, top) && s < 2e-5L) gray = true; if (std::fabs(s - eps) < 1e-3L * eps + 1e-8L * std::max<ld>(1, top)) gray = true; if (s < eps) ++lost; else kept = std::min(kept, s); }
    x.cover(mix64((uint64_t)c.kind * 8 + (c.dirty ? 4 : 0) + (well ? 2 : 0)) ^ mix64(n * 16 + std::min(lost, 9u)) ^ mix64((uint64_t)mode * 7 + 3)); x.op(NM[c.kind]);
    if (!well) { x.fault("singular-pose"); x.nontrivial = true; }
    if (rc < 0) {
        if (c.maxiter < 30 && (c.kind == 0 || c.kind == 2 || c.kind == 3)) { x.fault("decomposition-starved"); x.nontrivial = true; c.dirty = true; return; }
        if (well) x.fail("well-conditioned-pose-refused", "%sreturned %d at a well-conditioned pose (smallest singular value %.3g of %.3g)", pre.c_str(), rc, (double)low, (double)top);
        c.dirty = true; return;
    }
    for (unsigned i = 0; i < n; ++i) { x.d(c.out(i)); if (!(std::fabs(c.out(i)) < 1e300)) x.fail("answer-not-finite", "%sreturned %d with joint velocity %u = %g", pre.c_str(), rc, i, c.out(i)); }
    if (c.kind == 1) { if (!well) { c.dirty = true; return; } kept = low; }
    else if (gray) { c.dirty = true; return; }
    std::vector<ld> want; ld lam = 0;
    if (c.kind == 3) { ld sm = n >= 6 ? D.sig[5] : 0; if (sm < eps) { ld k = sm / eps; lam = std::sqrt(1 - k * k) * c.lambda; } }
    want = apply(D, bv, [&](ld s) -> ld { if (c.kind == 1) return s < 1e-8L ? 0 : 1 / (s * s); if (s < eps) return c.kind == 3 && lam > 0 ? 1 / (s * s + lam * lam) : 0; return 1 / (s * s); });
    if (c.kind == 3) { std::vector<ld> t(n, 0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) t[i] += c.mq[i][j] * want[j]; want = t; }
    ld extra = 0;
    if (c.kind == 2) {
        ld g = 0, S = 0; std::vector<ld> e(n); for (unsigned i = 0; i < n; ++i) { ld k = (ld)q(i) - c.opt[i]; g += 0.5L * k * k * c.w[i]; S += k * k * c.w[i] * c.w[i]; e[i] = c.w[i] * k; }
        if (S > 0.5e-9L && S < 2e-9L) return;
        if (S > 1e-9L) { for (auto& k : e) k /= S; std::vector<ld> Je(6, 0); for (int r = 0; r < 6; ++r) for (unsigned j = 0; j < n; ++j) Je[r] += A[r][j] * e[j]; std::vector<ld> p = apply(D, Je, [&](ld s) -> ld { return s < eps ? 0 : 1 / (s * s); }); for (unsigned i = 0; i < n; ++i) { ld k = -2 * (ld)c.alpha * g * (e[i] - p[i]); want[i] += k; extra = std::max(extra, std::fabs(2 * (ld)c.alpha * g * e[i])); } }
    }
    ld big = 1 + extra; for (ld k : want) big = std::max(big, std::fabs(k)); ld sc = std::max<ld>(1, top) * std::max<ld>(1, top);
    if (c.kind == 3 && c.lambda > 0 && lam > 0) kept = std::min(kept, lam);
    double tol = (double)(big * (1e-9L + 2e-13L * sc / (kept * kept))); if (c.kind == 1) tol = (double)(big * (1e-7L + 5e-7L * top / low));
    if (tol < 0.05 * (double)big) { double worst = 0; unsigned at = 0; for (unsigned i = 0; i < n; ++i) { double e = std::fabs((double)(want[i] - c.out(i))); if (!(e <= worst)) { worst = e; at = i; } }
        if (!(worst <= tol) && x.verbose) { x.note("\nB="); for (auto& r : B) for (auto k : r) x.note(" %.17g", (double)k); x.note("\nsig"); for (auto k : D.sig) x.note(" %.5Lg", k); }
        if (!(worst <= tol)) x.fail("velocity-wrong", "%sjoint velocity %u is %.12g, the promised solution is %.12g (%u joints, singular values %.3g..%.3g, %u lost%s)", pre.c_str(), at, c.out(at), (double)want[at], n, (double)low, (double)top, lost, c.dirty ? ", after a fault" : "");
        x.probe(c.dirty ? "checked-after-fault" : "checked"); if (lost > structural) x.probe("checked-singular"); if (n < 6) x.probe("checked-few-joints"); if (n > 6) x.probe("checked-redundant"); }
    if (c.kind == 0 || c.kind == 3) {
        bool sing = lost > structural, said = rc == 100;
        if (sing != said) x.fail("singularity-misreported", "%sreturned %d with %u of %u singular values below %g", pre.c_str(), rc, lost, n, eps);
        unsigned z = c.kind == 0 ? c.pi->getNrZeroSigmas() : c.wd->getNrZeroSigmas(); if (z != lost) x.fail("singularity-misreported", "%scounts %u zero singular values, there are %u", pre.c_str(), z, lost);
    } else if (rc != 0) x.fail("singularity-misreported", "%sreturned %d", pre.c_str(), rc);
    if (c.kind == 3) {
        Eigen::VectorXd S(n); int rs = c.wd->getSigma(S); if (rs) x.fail("singularity-misreported", "%ssingular values not reported: %d", pre.c_str(), rs);
        for (unsigned i = 0; i < n; ++i) { ld want = i < D.sig.size() ? D.sig[i] : 0; if (!near(S(i), want, 1e-8 * (double)sc)) x.fail("singularity-misreported", "%ssingular value %u reported as %.9g, it is %.9g", pre.c_str(), i, S(i), (double)want); }
        if (!near(c.wd->getLambdaScaled(), lam, 1e-6 * (double)sc)) x.fail("singularity-misreported", "%sdamping reported as %.9g, it is %.9g", pre.c_str(), c.wd->getLambdaScaled(), (double)lam); }
    if (c.kind == 3) { double sm = c.wd->getSigmaMin(); ld ws = n >= 6 ? D.sig[5] : 0; if (!near(sm, ws, 1e-8 * (double)sc)) x.fail("singularity-misreported", "%ssmallest singular value reported as %.9g, it is %.9g", pre.c_str(), sm, (double)ws); }
}
void execute(const Program& p, Ctx& x) {
    World w; int k = 0, style = (int)p.c("style");
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { x.ev("seg"); if (!w.v.empty()) { x.fault("chain-grown"); x.nontrivial = true; } w.cp.add(vel_seg(d, style, w.cp.serial++)); continue; }
        unsigned n = w.cp.chain.getNrOfJoints(); if (!n) continue;
        if (st.op == "boot") { x.ev("boot"); int e = (int)st.a[2]; w.v.push_back(make(w, (int)(st.a[0] % 4), e == 0 ? 1e-5 : e == 1 ? 0.05 : 1e-3, (int)st.a[1], d)); if (st.a[1] < 30) { x.fault("iteration-limit-small"); x.nontrivial = true; } if (w.v.size() > 1) x.nontrivial = true; continue; }
        if (w.v.empty()) continue;
        Caller& c = *w.v[(size_t)(st.a[0] % (int64_t)w.v.size())];
        if (st.op == "call") { call(w, c, st, x); continue; }
        if (st.op == "retip") { size_t ns = w.cp.m.s.size(); Pose t; t.R = style ? ref::eye() : rrot(d); t.p = style ? ref::v3(d.range(0, 2) * 0.5, 0, 0) : rvec(d, 0.5); w.cp.retip((size_t)d.range(0, (int64_t)ns - 1), t); x.fault("geometry-recalibrated"); x.nontrivial = true; continue; }
        if (st.op == "shrink") { size_t ns = w.cp.m.s.size(), cut = (size_t)d.range(1, 2); if (ns < cut + 2) continue; ref::Model m2; Chain c2; for (size_t i = 0; i + cut < ns; ++i) { m2.add(w.cp.m.s[i]); c2.addSegment(w.cp.chain.getSegment((unsigned)i)); } if (!c2.getNrOfJoints()) continue; w.cp.m = m2; w.cp.chain = c2; x.fault("chain-shrunk"); x.nontrivial = true; continue; }
        if (st.op == "update") { x.ev("update"); c.s().updateInternalDataStructures(); unsigned o = c.known; c.known = n; if (o != n) { c.w.resize(n, 1); c.opt.resize(n, 0); Mat m = eye(n); for (unsigned i = 0; i < std::min(o, n); ++i) for (unsigned j = 0; j < std::min(o, n); ++j) m[i][j] = c.mq[i][j]; c.mq = m; x.probe("updated"); } continue; }
        if (st.op == "set" && c.known == n) {
            int which = (int)d.range(0, 3); x.ev("set"); x.i(which);
            if (c.kind == 2) { JntArray a(n); for (unsigned i = 0; i < n; ++i) a(i) = which == 0 ? (d.chance(0.15) ? 0 : d.val(0, 2)) : d.val(-1, 1); if (which == 2) { c.alpha = d.val(0, 1); c.ns->setAlpha(c.alpha); } else { int rc = which == 0 ? c.ns->setWeights(a) : c.ns->setOptPos(a); if (rc) x.fail("setting-refused", "null-space setting refused: %d", rc); for (unsigned i = 0; i < n; ++i) (which == 0 ? c.w : c.opt)[i] = a(i); } }
            if (c.kind == 3) {
                if (which == 0) { c.lambda = d.chance(0.3) ? 0 : d.uni(0.01, 0.3); c.wd->setLambda(c.lambda); }
                else if (which == 1) { c.eps = d.chance(0.5) ? 1e-5 : d.uni(0.02, 0.2); c.wd->setEps(c.eps); }
                else { size_t s = which == 2 ? n : 6; Mat m = eye(s); bool diag = d.chance(0.5); for (size_t i = 0; i < s; ++i) for (size_t j = 0; j <= i; ++j) { double e = i == j ? d.uni(0.5, 2) : diag ? 0 : d.uni(-0.1, 0.1); if (i == j && diag && d.chance(0.1)) e = 0; m[i][j] = m[j][i] = e; }
                    Eigen::MatrixXd M(s, s); for (size_t i = 0; i < s; ++i) for (size_t j = 0; j < s; ++j) M((int)i, (int)j) = (double)m[i][j]; int rc = which == 2 ? c.wd->setWeightJS(M) : c.wd->setWeightTS(M); if (rc) x.fail("setting-refused", "weight refused: %d", rc); (which == 2 ? c.mq : c.mx) = m; }
            }
            x.op("setting");
        }
        if (st.op == "starve" && c.kind == 3) { c.maxiter = st.a[1] ? 150 : (int)d.range(1, 4); c.wd->setMaxIter(c.maxiter); if (c.maxiter < 30) { x.fault("iteration-limit-small"); x.nontrivial = true; } }
    }
}
void generate(Rng& r, Program& p, bool thorough) {
    p.cfg["style"] = r.chance(0.45);
    int ns = (int)r.range(1, r.chance(0.7) ? 8 : 11); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next());
    int nb = (int)r.range(1, 4); int k0 = (int)r.range(0, 3); for (int i = 0; i < nb; ++i) p.add("boot", {k0 + i, r.chance(0.08) ? r.range(1, 4) : 150, r.weighted({5, 1, 1})}, r.next());
    int steps = (int)r.range(6, thorough ? 50 : 26); double pb = r.chance(0.5) ? 0.2 : 0.03, pe = r.chance(0.3) ? 0.12 : 0; int bias = (int)r.range(0, 2);
    for (int i = 0; i < steps; ++i) {
        if (r.chance(pe)) p.add(r.chance(0.4) ? "seg" : r.chance(0.5) ? "retip" : "shrink", {0}, r.next());
        else if (r.chance(pe ? 0.2 : 0.02)) p.add("update", {r.range(0, 3)}, r.next());
        else if (r.chance(0.12)) p.add("set", {r.range(0, 3)}, r.next());
        else if (r.chance(0.03)) p.add("starve", {r.range(0, 3), r.range(0, 1)}, r.next());
        else { int mode = bias == 0 ? r.weighted({5, 1, 1, 3, 1}) : bias == 1 ? r.weighted({2, 2, 3, 1, 3}) : r.weighted({1, 1, 1, 6, 1}); p.add("call", {r.range(0, 3), mode, r.chance(pb) ? r.range(1, 4) : 0}, r.next()); }
    }
}
Scenario V01{"V01", "velocity inverse kinematics", "exploration", generate, execute,
    "A run is a seeded history over 1-4 velocity solvers of different methods on one chain (1-11 segments, generic or axis-parallel so that poses are exactly singular) with settings changes, starved decompositions, non-finite inputs, wrong sizes, chain edits and updates between calls. Non-trivial: several solvers, a singular pose or another fault; distinct by the sequence of calls and faults.",
    {"ChainIkSolverVel_pinv, _pinv_givens, _pinv_nso, _wdls, their singular value decompositions, ChainJntToJacSolver, Chain"}, {"callers", "heap (seeded content of fresh memory)"},
    {"solutions compared with a long double eigen-decomposition of the reference Jacobian, tolerance growing with the condition number; singular values within 0.1% of the threshold are not judged", "the Givens method has no threshold: judged where the smallest singular value exceeds 1e-3 of the largest", "weight matrices symmetric, as documented"},
    400000, 20000000, 45, 600, {"fault:singular-pose", "fault:nan-position", "fault:runaway-position", "fault:decomposition-starved", "probe:stopped-on-failure", "probe:checked-after-fault", "probe:checked-singular", "probe:checked-few-joints", "probe:checked-redundant"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&V01}); }
