// N01: joint-space values whose results are stored over their operands, and factorisations that reuse their work space.
// The reference keeps every number in long double and recomputes each operation from the values held before it.
#include "core.hpp"
#include "ref.hpp"
#include "kdlgen.hpp"
#include "frames.hpp"
#include "framevel.hpp"
#include "frameacc.hpp"
#include "jntarray.hpp"
#include "jntarrayvel.hpp"
#include "jntarrayacc.hpp"
#include "jntspaceinertiamatrix.hpp"
#include "jacobian.hpp"
#include "utilities/svd_eigen_HH.hpp"
#include <Eigen/LU>
#include "utilities/svd_eigen_Macie.hpp"
#include "utilities/ldl_solver_eigen.hpp"
#define PYTHAG PYTHAG_HH
#define SIGN SIGN_HH
#include "utilities/svd_HH.hpp"
using namespace KDL; using sim::Ctx; using sim::Draw; using sim::Step; using sim::Program; using sim::Rng; using sim::Scenario; using sim::mix64;
using ref::ld; using ref::V3; using ref::v3; typedef std::vector<ld> L;
namespace {
const int N = 3;
struct World {
    JntArray A[N + 1]; JntArrayVel V[N]; JntArrayAcc W[N]; JntSpaceInertiaMatrix M[N]; Jacobian Jc[N];
};
L c(const Eigen::VectorXd& v) { L r(v.size()); for (int i = 0; i < v.size(); ++i) r[i] = v(i); return r; } L c(const Eigen::MatrixXd& v) { L r(v.size()); for (int i = 0; i < v.size(); ++i) r[i] = v.data()[i]; return r; } L c(const JntArray& a) { return c(a.data); } template <class M> L cm(const M& m) { L r; for (int j = 0; j < m.data.cols(); ++j) for (int i = 0; i < m.data.rows(); ++i) r.push_back(m.data(i, j)); return r; }
L lin(ld a, const L& x, ld b, const L& y) { L r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = a * x[i] + b * y[i]; return r; } L sc(ld a, const L& x) { return lin(a, x, 0, x); }
struct S3 { L d[3]; };   // value and derivatives
S3 c(const JntArrayVel& a) { return {{c(a.q), c(a.qdot), L()}}; } S3 c(const JntArrayAcc& a) { return {{c(a.q), c(a.qdot), c(a.qdotdot)}}; }
struct Sim {
    Ctx& x; World w; Draw* d = nullptr; int n; std::string name; bool aliased = false;
    // factorisations with their kept work space
    int m; Eigen::MatrixXd HA, HU, HV; Eigen::VectorXd HS, Ht; std::vector<JntArray> oU, ov; JntArray ow; std::unique_ptr<SVD_HH> old;
    Eigen::MatrixXd GA, GU, GV, GB; Eigen::VectorXd GS, Gt; Eigen::MatrixXd QA, QU, QV, QB; Eigen::VectorXd QS, Qt; Eigen::MatrixXd DL; Eigen::VectorXd DD, Dt, Dq;
    Sim(Ctx& x_, Draw& d_, int n_) : x(x_), d(&d_), n(n_) {
        for (auto& a : w.A) { a.resize(n); fill(a.data); } for (auto& a : w.V) { a.resize(n); fill(a.q.data); fill(a.qdot.data); } for (auto& a : w.W) { a.resize(n); fill(a.q.data); fill(a.qdot.data); fill(a.qdotdot.data); }
        for (auto& a : w.M) { a.resize(n); for (int i = 0; i < n * n; ++i) a.data.data()[i] = num(); } for (auto& a : w.Jc) { a.resize(n); jac(a); }
        HU = Eigen::MatrixXd::Zero(6, n); HV = Eigen::MatrixXd::Zero(n, n); HS = Eigen::VectorXd::Zero(n); Ht = HS; oU.assign(6, JntArray(n)); ov.assign(n, JntArray(n)); ow.resize(n); old.reset(new SVD_HH(w.Jc[0]));
        m = n > 6 ? n : 6; int k = n > 6 ? 6 : n; QU = QV = QA = Eigen::MatrixXd::Identity(n, n); QB = Eigen::MatrixXd::Zero(n, n); QS = Qt = Eigen::VectorXd::Zero(n); GU = Eigen::MatrixXd::Identity(m, m); GV = Eigen::MatrixXd::Identity(k, k); GB = Eigen::MatrixXd::Zero(m, k); GS = Eigen::VectorXd::Zero(k); Gt = Eigen::VectorXd::Zero(m); GA = Eigen::MatrixXd::Zero(m, k); for (int i = 0; i < m * k; ++i) GA.data()[i] = d->val(-2, 2);
        DL = Eigen::MatrixXd::Zero(n, n); DD = HS; Dt = HS; Dq = HS;
    }
    double num() { switch (d->weighted({6, 1, 1, 1})) { case 1: return 0; case 2: return d->val(-1e-5, 1e-5); case 3: return d->val(-50, 50); default: return d->val(-3, 3); } }
    double nz() { double v = d->val(0.2, 3); return d->chance(0.5) ? v : -v; }
    void fill(Eigen::VectorXd& v) { for (int i = 0; i < v.size(); ++i) v(i) = num(); } void jac(Jacobian& j) { for (int i = 0; i < j.data.cols(); ++i) for (int k = 0; k < 6; ++k) j.data(k, i) = num(); }
    void tame(Eigen::VectorXd& v) { for (int i = 0; i < v.size(); ++i) if (!(std::fabs(v(i)) < 1e4)) v(i) = num(); } void tame(JntArray& a) { tame(a.data); } void tame(JntArrayVel& a) { tame(a.q); tame(a.qdot); } void tame(JntArrayAcc& a) { tame(a.q); tame(a.qdot); tame(a.qdotdot); } template <class T> void tame2(T& m) { for (int j = 0; j < m.data.cols(); ++j) for (int i = 0; i < m.data.rows(); ++i) if (!(std::fabs(m.data(i, j)) < 1e4)) m.data(i, j) = num(); }
    ld big = 1; void sz(const L& a) { for (ld e : a) big = std::max(big, std::fabs(e)); } void sz(const S3& a) { for (auto& e : a.d) sz(e); }
    [[noreturn]] void bad(const char* what, int i, double got, ld want) { x.fail("wrong-result:" + name, "%s%s: element %d of %s is %.15g, %.15Lg is right", name.c_str(), aliased ? " (result stored over an operand)" : "", i, what, got, want); }
    void eq(const L& a, const L& e, const char* what, ld tol = 1e-12L) { if (a.size() != e.size()) x.fail("wrong-size:" + name, "%s: %s has %zu elements for %zu", name.c_str(), what, a.size(), e.size()); for (size_t i = 0; i < a.size(); ++i) { x.d((double)a[i]); if (!(std::fabs(a[i] - e[i]) <= tol * big)) bad(what, (int)i, (double)a[i], e[i]); } }
    void eq(const S3& a, const S3& e) { static const char* W[] = {"the values", "the velocities", "the accelerations"}; for (int i = 0; i < 3; ++i) eq(a.d[i], e.d[i], W[i]); }
    void al(bool a) { if (a) aliased = true; }
};
// an array among the plain ones and the parts of the others
JntArray& any(Sim& S) { World& w = S.w; switch (S.d->weighted({4, 1, 1, 1, 1, 1})) { case 0: return w.A[S.d->range(0, N)]; case 1: return w.V[S.d->range(0, N - 1)].q; case 2: return w.V[S.d->range(0, N - 1)].qdot; case 3: return w.W[S.d->range(0, N - 1)].q; case 4: return w.W[S.d->range(0, N - 1)].qdot; default: return w.W[S.d->range(0, N - 1)].qdotdot; } }
S3 leib(const S3& a, ld f, ld f1, ld f2) { S3 r; r.d[0] = sc(f, a.d[0]); r.d[1] = lin(f, a.d[1], f1, a.d[0]); if (!a.d[2].empty() || a.d[0].empty()) if (a.d[2].size() == a.d[0].size()) { r.d[2] = lin(f, a.d[2], 2 * f1, a.d[1]); r.d[2] = lin(1, r.d[2], f2, a.d[0]); } return r; }
S3 lin3(const S3& a, ld s, const S3& b) { S3 r = a; for (int i = 0; i < 3; ++i) if (!a.d[i].empty() && !b.d[i].empty()) r.d[i] = lin(1, a.d[i], s, b.d[i]); return r; }
void arrays(Sim& S) {
    Draw& d = *S.d; JntArray &a = any(S), &b = any(S), &r = any(S); L va = c(a), vb = c(b); double k = S.nz(); S.sz(va); S.sz(vb); S.big *= 5; int op = (int)d.range(0, 7);
    switch (op) {
        case 0: S.name = "Add"; S.al(&a == &r || &b == &r); Add(a, b, r); S.eq(c(r), lin(1, va, 1, vb), "the sum"); break;
        case 1: S.name = "Subtract"; S.al(&a == &r || &b == &r); Subtract(a, b, r); S.eq(c(r), lin(1, va, -1, vb), "the difference"); break;
        case 2: S.name = "Multiply"; S.al(&a == &r); Multiply(a, k, r); S.eq(c(r), sc(k, va), "the product"); break;
        case 3: S.name = "Divide"; S.al(&a == &r); Divide(a, k, r); S.eq(c(r), sc(1 / (ld)k, va), "the quotient"); break;
        case 4: S.name = "copy"; r = a; S.eq(c(r), va, "the copy", 0); if (&r != &a && S.n) { r(0) += 1; S.eq(c(a), va, "the original", 0); } break;
        case 5: S.name = "SetToZero"; SetToZero(r); S.eq(c(r), L(S.n, 0), "the array", 0); S.fill(r.data); break;
        case 6: { S.name = "Equal"; JntArray q(a); double f = d.chance(0.4) ? 0.5 : d.chance(0.5) ? 2 : 0, eps = d.chance(0.5) ? 1e-6 : 1e-3; if (!S.n) f = 0; if (f) { int i = (int)d.range(0, S.n - 1); double o = q(i); q(i) += f * eps * (d.chance(0.5) ? 1 : -1); double g = std::fabs(q(i) - o) / eps; if (std::fabs(g - f) > 0.2) return; } bool e = f < 1; if (Equal(a, q, eps) != e) S.x.fail("wrong-equality", "arrays that differ by %g eps are %s", f, e ? "unequal" : "equal"); S.x.probe("compared"); break; }
        default: { S.name = "resize"; JntArray q(a); int to = (int)d.range(0, 12); q.resize(to); if ((int)q.rows() != to || q.columns() != 1) S.x.fail("wrong-size:resize", "resized to %d, has %u rows", to, q.rows()); for (int i = 0; i < to; ++i) if (q(i) != 0 && !(i < S.n && q(i) == a(i))) S.x.fail("wrong-result:resize", "element %d is %g after resizing", i, q(i)); S.x.probe("resized"); break; }
    }
    S.tame(r);
}
template <class T> void carry(Sim& S, T (&P)[N], const char* nm, bool acc) {
    Draw& d = *S.d; int i = (int)d.range(0, N - 1), j = (int)d.range(0, N - 1), o = (int)d.range(0, N - 1); if (d.chance(0.4)) o = i; T &a = P[i], &b = P[j], &r = P[o]; S3 va = c(a), vb = c(b); S.sz(va); S.sz(vb); double k = S.nz(), k1 = S.num(), k2 = S.num(); S.name = nm;
    switch (d.range(0, 9)) {
        case 0: S.name += " Add"; S.al(o == i || o == j); Add(a, b, r); S.big *= 2; S.eq(c(r), lin3(va, 1, vb)); break;
        case 1: S.name += " Subtract"; S.al(o == i || o == j); Subtract(a, b, r); S.big *= 2; S.eq(c(r), lin3(va, -1, vb)); break;
        case 2: { S.name += " Add of an array"; JntArray& p = any(S); L v = c(p); S.sz(v); S.big *= 2; S.al(o == i || &p == &r.q || &p == &r.qdot); Add(a, p, r); va.d[0] = lin(1, va.d[0], 1, v); S.eq(c(r), va); break; }
        case 3: { S.name += " Subtract of an array"; JntArray& p = any(S); L v = c(p); S.sz(v); S.big *= 2; S.al(o == i || &p == &r.q || &p == &r.qdot); Subtract(a, p, r); va.d[0] = lin(1, va.d[0], -1, v); S.eq(c(r), va); break; }
        case 4: S.name += " Multiply"; S.al(o == i); Multiply(a, k, r); S.big *= 5; S.eq(c(r), leib(va, k, 0, 0)); break;
        case 5: S.name += " Divide"; S.al(o == i); Divide(a, k, r); S.big *= 5; S.eq(c(r), leib(va, 1 / (ld)k, 0, 0)); break;
        case 6: { S.name += " Multiply by a doubleVel"; S.al(o == i); doubleVel f(k, k1); Multiply(a, f, r); S.big *= 200; S.eq(c(r), leib(va, k, k1, 0)); break; }
        case 7: { S.name += " Divide by a doubleVel"; S.al(o == i); doubleVel f(k, k1); Divide(a, f, r); ld t = k, q1 = -k1 / (t * t), q2 = 2 * (ld)k1 * k1 / (t * t * t); S.big *= 1 + 5 + 2 * std::fabs(q1) + std::fabs(q2); S.eq(c(r), leib(va, 1 / t, q1, q2)); break; }
        case 8: S.name += " copy"; if (d.chance(0.5)) r = a; else r = T(a); S.eq(c(r), va); if (o != i && S.n) { T q(a); q.q(0) += 1; q.qdot(0) += 1; S.eq(c(a), va); } { L v = c(a.value()), u = c(a.deriv()); S.eq(v, va.d[0], "value()", 0); S.eq(u, va.d[1], "deriv()", 0); } break;
        default: S.name += " SetToZero"; { T q(a); SetToZero(q); S3 z = va; for (auto& e : z.d) for (ld& f : e) f = 0; S.eq(c(q), z); if (S.n && !Equal(a, T(a), 1e-9)) S.x.fail("wrong-equality", "%s: a copy is unequal", nm); }
    }
    S.tame(r); (void)acc; (void)k2;
}
void accs(Sim& S) {
    Draw& d = *S.d; World& w = S.w; int i = (int)d.range(0, N - 1), o = (int)d.range(0, N - 1); if (d.chance(0.4)) o = i; JntArrayAcc &a = w.W[i], &r = w.W[o]; S3 va = c(a); S.sz(va); double k = S.nz(), k1 = S.num(), k2 = S.num();
    switch (d.range(0, 4)) {
        case 0: { S.name = "JntArrayAcc Add of a JntArrayVel"; auto& b = w.V[d.range(0, N - 1)]; S3 vb = c(b); S.sz(vb); S.big *= 2; S.al(o == i); Add(a, b, r); S.eq(c(r), lin3(va, 1, vb)); break; }
        case 1: { S.name = "JntArrayAcc Subtract of a JntArrayVel"; auto& b = w.V[d.range(0, N - 1)]; S3 vb = c(b); S.sz(vb); S.big *= 2; S.al(o == i); Subtract(a, b, r); S.eq(c(r), lin3(va, -1, vb)); break; }
        case 2: { S.name = "JntArrayAcc Multiply by a doubleAcc"; S.al(o == i); doubleAcc f(k, k1, k2); Multiply(a, f, r); S.big *= 200; S.eq(c(r), leib(va, k, k1, k2)); break; }
        case 3: { S.name = "JntArrayAcc Divide by a doubleAcc"; S.al(o == i); doubleAcc f(k, k1, k2); Divide(a, f, r); ld t = k, q1 = -k1 / (t * t), q2 = 2 * (ld)k1 * k1 / (t * t * t) - k2 / (t * t); S.big *= 6 + 2 * std::fabs(q1) + std::fabs(2 * (ld)k1 * k1 / (t * t * t)) + std::fabs(k2 / (t * t)); S.eq(c(r), leib(va, 1 / t, q1, q2)); break; }
        default: { S.name = "JntArrayAcc from parts"; JntArrayAcc q; int m = (int)d.range(0, 2); if (m == 0) q = JntArrayAcc(a.q, a.qdot, a.qdotdot); else if (m == 1) { q = JntArrayAcc(a.q, a.qdot); for (ld& e : va.d[2]) e = 0; } else { q = JntArrayAcc(a.q); for (ld& e : va.d[1]) e = 0; for (ld& e : va.d[2]) e = 0; } S.eq(c(q), va); S.eq(c(q.dderiv()), va.d[2], "dderiv()", 0); r = q; S.eq(c(r), va); } }
    S.tame(r);
}
void inertias(Sim& S) {
    Draw& d = *S.d; World& w = S.w; int i = (int)d.range(0, N - 1), j = (int)d.range(0, N - 1), o = (int)d.range(0, N - 1); auto &a = w.M[i], &b = w.M[j], &r = w.M[o]; L va = cm(a), vb = cm(b); S.sz(va); S.sz(vb); S.big *= 5; double k = S.nz();
    switch (d.range(0, 5)) {
        case 0: S.name = "JntSpaceInertiaMatrix Add"; S.al(o == i || o == j); Add(a, b, r); S.eq(cm(r), lin(1, va, 1, vb), "the sum"); break;
        case 1: S.name = "JntSpaceInertiaMatrix Subtract"; S.al(o == i || o == j); Subtract(a, b, r); S.eq(cm(r), lin(1, va, -1, vb), "the difference"); break;
        case 2: S.name = "JntSpaceInertiaMatrix Multiply"; S.al(o == i); Multiply(a, k, r); S.eq(cm(r), sc(k, va), "the product"); break;
        case 3: S.name = "JntSpaceInertiaMatrix Divide"; S.al(o == i); Divide(a, k, r); S.eq(cm(r), sc(1 / (ld)k, va), "the quotient"); break;
        case 4: { S.name = "JntSpaceInertiaMatrix Multiply by an array"; JntArray &p = any(S), &q = any(S); L v = c(p), e(S.n, 0); for (int u = 0; u < S.n; ++u) for (int t = 0; t < S.n; ++t) e[u] += va[t * S.n + u] * v[t]; S.sz(v); S.big *= S.big; S.al(&p == &q); Multiply(a, p, q); S.eq(c(q), e, "the product"); S.tame(q); break; }
        default: { S.name = "JntSpaceInertiaMatrix elements"; if (!S.n) break; int u = (int)d.range(0, S.n - 1), v = (int)d.range(0, S.n - 1); double e = S.num(); r(u, v) = e; const JntSpaceInertiaMatrix q(r); if (q(u, v) != e || q.rows() != (unsigned)S.n || q.columns() != (unsigned)S.n) S.x.fail("wrong-result:" + S.name, "element %d,%d is %g for %g", u, v, q(u, v), e); if (!Equal(q, r, 1e-9)) S.x.fail("wrong-equality", "a copy of an inertia matrix is unequal"); } }
    S.tame2(r);
}
void jacs(Sim& S) {
    Draw& d = *S.d; World& w = S.w; int i = (int)d.range(0, N - 1), o = (int)d.range(0, N - 1); auto &a = w.Jc[i], &r = w.Jc[o]; L va = cm(a); S.sz(va); Vector p(S.num(), S.num(), S.num()); Rotation R = Rotation::RPY(d.val(-3, 3), d.val(-3, 3), d.val(-3, 3)); ref::M3 Q; for (int k = 0; k < 9; ++k) Q.m[k / 3][k % 3] = R.data[k]; V3 pv = v3(p.x(), p.y(), p.z()); S.big *= 600;
    int op = (int)d.range(0, 6); bool in = d.chance(0.4); L e = va;
    if (op < 3) { for (int k = 0; k < S.n; ++k) { V3 v = v3(va[6 * k], va[6 * k + 1], va[6 * k + 2]), u = v3(va[6 * k + 3], va[6 * k + 4], va[6 * k + 5]); if (op == 0) v = v + ref::cross(u, pv); else if (op == 1) { v = Q * v; u = Q * u; } else { u = Q * u; v = Q * v + ref::cross(pv, u); } for (int t = 0; t < 3; ++t) { e[6 * k + t] = v[t]; e[6 * k + 3 + t] = u[t]; } }
        S.name = op == 0 ? "changeRefPoint" : op == 1 ? "changeBase" : "changeRefFrame"; if (in) { S.aliased = true; if (op == 0) a.changeRefPoint(p); else if (op == 1) a.changeBase(R); else a.changeRefFrame(Frame(R, p)); S.eq(cm(a), e, "the Jacobian"); S.tame2(a); }
        else if (d.chance(0.15)) { Jacobian q(S.n + 1); S.x.fault("wrong-size"); bool ok = op == 0 ? changeRefPoint(a, p, q) : op == 1 ? changeBase(a, R, q) : changeRefFrame(a, Frame(R, p), q); if (ok) S.x.fail("accepted:" + S.name, "a destination with one column too many is accepted"); S.eq(cm(q), L(6 * S.n + 6, 0), "the refused destination", 0); S.eq(cm(a), va, "the source", 0); }
        else { S.al(i == o); bool ok = op == 0 ? changeRefPoint(a, p, r) : op == 1 ? changeBase(a, R, r) : changeRefFrame(a, Frame(R, p), r); if (!ok) S.x.fail("refused:" + S.name, "a destination of the right size is refused"); S.eq(cm(r), e, "the Jacobian"); S.tame2(r); } }
    else if (op == 3) { S.name = "columns"; if (!S.n) return; int k = (int)d.range(0, S.n - 1), l = (int)d.range(0, S.n - 1); S.al(i == o); L vr = cm(r); r.setColumn(l, a.getColumn(k)); for (int t = 0; t < 6; ++t) vr[6 * l + t] = va[6 * k + t]; S.eq(cm(r), vr, "the Jacobian", 0); }
    else if (op == 4) { S.name = "MultiplyJacobian"; JntArray& q = any(S); L v = c(q); S.sz(v); S.big *= S.big; L t6(6, 0); for (int k = 0; k < S.n; ++k) for (int t = 0; t < 6; ++t) t6[t] += va[6 * k + t] * v[k]; Twist t; MultiplyJacobian(a, q, t); S.eq(L{t.vel.x(), t.vel.y(), t.vel.z(), t.rot.x(), t.rot.y(), t.rot.z()}, t6, "the twist"); }
    else if (op == 5) { S.name = "Jacobian copy"; r = a; S.eq(cm(r), va, "the copy", 0); Jacobian q(r); if (!(q == r) || q != r) S.x.fail("wrong-equality", "a copy of a Jacobian is unequal"); if (S.n) { q(2, S.n - 1) += 1; if (q == r) S.x.fail("wrong-equality", "changed Jacobians are equal"); S.eq(cm(r), va, "the original", 0); } Jacobian z(S.n + 1); if (z == r) S.x.fail("wrong-equality", "Jacobians of different sizes are equal"); }
    else { S.name = "Jacobian resize"; Jacobian q(a); int to = (int)d.range(0, 12); q.resize(to); if ((int)q.columns() != to || q.rows() != 6) S.x.fail("wrong-size:" + S.name, "resized to %d columns, has %u", to, q.columns()); SetToZero(q); S.eq(cm(q), L(6 * to, 0), "the cleared Jacobian", 0); S.x.probe("resized"); }
}
// the product of the factors and their orthonormality
void check(Sim& S, const Eigen::MatrixXd& A, const Eigen::MatrixXd& U, const Eigen::VectorXd& s, const Eigen::MatrixXd& V, double tol) {
    int r = (int)A.rows(), k = (int)A.cols(); ld big = 1e-3L; for (int i = 0; i < A.size(); ++i) big = std::max(big, std::fabs((ld)A.data()[i])); ld smax = 0; for (int i = 0; i < k; ++i) { if (!(s(i) >= 0)) S.x.fail("wrong-factors:" + S.name, "singular value %d is %g", i, s(i)); smax = std::max(smax, (ld)s(i)); }
    for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { ld e = 0; for (int t = 0; t < k; ++t) e += (ld)U(i, t) * s(t) * V(j, t); if (!(std::fabs(e - A(i, j)) <= tol * big)) S.x.fail("wrong-factors:" + S.name, "element %d,%d of the product is %.12Lg for %.12g (%dx%d)", i, j, e, A(i, j), r, k); S.x.d((double)e); }
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { ld e = 0; for (int t = 0; t < k; ++t) e += (ld)V(t, i) * V(t, j); if (!(std::fabs(e - (i == j)) <= tol)) S.x.fail("wrong-factors:" + S.name, "columns %d and %d of V have the product %Lg", i, j, e); if (s(i) > 1e-6L * smax && s(j) > 1e-6L * smax) { e = 0; for (int t = 0; t < r; ++t) e += (ld)U(t, i) * U(t, j); if (!(std::fabs(e - (i == j)) <= 1e4 * tol)) S.x.fail("wrong-factors:" + S.name, "columns %d and %d of U have the product %Lg", i, j, e); } }
}
void factor(Sim& S) {
    Draw& d = *S.d; if (!S.n) return; int kind = (int)d.range(0, 4);
    if (kind < 2) { // the two Householder decompositions on one Jacobian, with whatever the last call left in the work space
        Jacobian& J = S.w.Jc[d.range(0, N - 1)]; S.jac(J); int n = S.n; if (d.chance(0.3) && n > 1) { J.setColumn((unsigned)d.range(1, n - 1), J.getColumn(0) * S.num()); S.x.probe("rank-deficient"); } if (d.chance(0.1)) J.setColumn((unsigned)d.range(0, n - 1), Twist::Zero()); if (d.chance(0.1)) { int k = (int)d.range(0, 5); for (int i = 0; i < n; ++i) J(k, i) = 0; } if (d.chance(0.1)) SetToZero(J);
        bool nan = d.chance(0.08); if (nan) { J((unsigned)d.range(0, 5), (unsigned)d.range(0, n - 1)) = d.chance(0.5) ? std::nan("") : HUGE_VAL; S.x.fault("not-a-number"); } int it = d.chance(0.1) ? (int)d.range(0, 2) : 150; if (it < 150) S.x.fault("few-iterations"); S.HA = J.data;
        if (kind == 0) { S.name = "svd_eigen_HH"; int rc = svd_eigen_HH(S.HA, S.HU, S.HS, S.HV, S.Ht, it); S.x.i(rc); if (nan ? rc != -1 : it == 150 ? rc != 0 : rc != 0 && rc != -2) S.x.fail("wrong-code:" + S.name, "returned %d on a %s matrix with %d iterations", rc, nan ? "non-finite" : "finite", it); if (rc == 0) { check(S, S.HA, S.HU, S.HS, S.HV, 1e-11); for (int i = 1; i < n; ++i) if (S.HS(i) > S.HS(i - 1)) S.x.fail("unsorted:" + S.name, "singular value %d is above the one before", i); S.x.probe("decomposed"); } }
        else { S.name = "SVD_HH"; int rc = S.old->calculate(J, S.oU, S.ow, S.ov, it); S.x.i(rc); if (nan ? rc != -1 : it == 150 ? rc != 0 : rc != 0 && rc != -2) S.x.fail("wrong-code:" + S.name, "returned %d on a %s matrix with %d iterations", rc, nan ? "non-finite" : "finite", it); if (rc == 0) { Eigen::MatrixXd U(6, n), V(n, n); for (int j = 0; j < n; ++j) { for (int i = 0; i < 6; ++i) U(i, j) = S.oU[i](j); for (int i = 0; i < n; ++i) V(i, j) = S.ov[i](j); } check(S, S.HA, U, S.ow.data, V, 1e-11); S.x.probe("decomposed"); } }
        if (nan) S.jac(J);
    } else if (kind == 2) { // drifting matrix, warm start from the last call
        S.name = "svd_eigen_Macie"; int k = (int)S.GA.cols(); double step = d.chance(0.3) ? d.val(0.1, 1) : d.val(1e-6, 1e-2); if (d.chance(0.1)) { step = 3; S.x.fault("jump"); } for (int i = 0; i < S.GA.size(); ++i) S.GA.data()[i] += d.val(-step, step); for (int i = 0; i < S.GA.size(); ++i) if (std::fabs(S.GA.data()[i]) > 5) S.GA.data()[i] *= 0.5;
        int rc = svd_eigen_Macie(S.GA, S.GU, S.GS, S.GV, S.GB, S.Gt, 1e-15, true); S.x.i(rc >= 0); if (rc < 0) S.x.fail("wrong-code:" + S.name, "returned %d", rc); check(S, S.GA, S.GU.leftCols(k), S.GS, S.GV, 1e-9); S.x.probe("warm-start");
    } else if (kind == 4) { // square matrix; either factor carries over from the last call
        S.name = "svd_eigen_Macie (both ways)"; int n = S.n; bool side = d.chance(0.5); switch (d.weighted({3, 1, 2, 1})) {
        case 0: { double step = d.chance(0.3) ? d.val(0.1, 1) : d.val(1e-6, 1e-2); for (int i = 0; i < n * n; ++i) S.QA.data()[i] += d.val(-step, step); break; }
        case 1: for (int i = 0; i < n * n; ++i) S.QA.data()[i] = d.val(-3, 3); S.x.fault("jump"); break;
        case 2: S.QA *= d.val(0.4, 2.5); S.x.probe("scaled"); break;   // what is rotated already stays so
        default: break; }
        if (!(S.QA.cwiseAbs().maxCoeff() < 1e3 && S.QA.cwiseAbs().maxCoeff() > 1e-3)) S.QA.setIdentity();
        // far from singular, so that all directions are defined on both sides
        if (!(Eigen::FullPivLU<Eigen::MatrixXd>(S.QA).rcond() > 1e-3)) { S.QA += 5 * S.QA.cwiseAbs().maxCoeff() * n * Eigen::MatrixXd::Identity(n, n); }
        int rc = svd_eigen_Macie(S.QA, S.QU, S.QS, S.QV, S.QB, S.Qt, 1e-15, side); S.x.i(rc >= 0); if (rc < 0) S.x.fail("wrong-code:" + S.name, "returned %d", rc);
        if (side) check(S, S.QA, S.QU, S.QS, S.QV, 1e-6); else check(S, S.QA.transpose(), S.QV, S.QS, S.QU, 1e-6); S.x.probe(side ? "columns-turned" : "rows-turned");
    } else { // positive definite system; the solution may go where the right-hand side is
        S.name = "ldl_solver_eigen"; int n = S.n; Eigen::MatrixXd B(n, n), A; for (int i = 0; i < n * n; ++i) B.data()[i] = d.val(-1, 1); A = B * B.transpose() + 0.3 * Eigen::MatrixXd::Identity(n, n); Eigen::VectorXd v(n), b; S.fill(v); b = v; ld big = 1; for (int i = 0; i < n; ++i) big = std::max(big, std::fabs((ld)v(i)));
        if (d.chance(0.1)) { S.x.fault("wrong-size"); Eigen::VectorXd q = Eigen::VectorXd::Constant(n + 1, 7); int rc = ldl_solver_eigen(A, v, S.DL, S.DD, S.Dt, q); if (rc != SolverI::E_SIZE_MISMATCH || q(0) != 7 || q.size() != n + 1) S.x.fail("wrong-code:" + S.name, "returned %d for a solution one too long", rc); return; }
        bool in = d.chance(0.4); S.aliased = in; Eigen::VectorXd& q = in ? v : S.Dq; int rc = ldl_solver_eigen(A, v, S.DL, S.DD, S.Dt, q); if (rc != 0) S.x.fail("wrong-code:" + S.name, "returned %d", rc);
        for (int i = 0; i < n; ++i) { ld e = -(ld)b(i), l = 0; for (int j = 0; j < n; ++j) e += (ld)A(i, j) * q(j); S.x.d(q(i)); if (!(std::fabs(e) <= 1e-9L * big)) S.x.fail("wrong-result:" + S.name, "row %d is off by %Lg%s", i, e, in ? " (solution stored over the right-hand side)" : ""); for (int j = 0; j < n; ++j) { l = 0; for (int t = 0; t < n; ++t) l += (ld)S.DL(i, t) * S.DD(t) * S.DL(j, t); if (!(std::fabs(l - A(i, j)) <= 1e-11L * 10)) S.x.fail("wrong-factors:" + S.name, "element %d,%d of L D L' is %Lg for %g", i, j, l, A(i, j)); } } S.x.probe("solved"); }
}
void execute(const Program& p, Ctx& x) {
    Draw d0(p.seed ^ 3, x.simple); Sim S(x, d0, (int)p.c("n", 3)); int k = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st); S.d = &d; S.aliased = false; S.big = 1; S.name = st.op; x.ev(st.op.c_str());
        if (st.op == "array") arrays(S); else if (st.op == "vel") carry(S, S.w.V, "JntArrayVel", false); else if (st.op == "acc") carry(S, S.w.W, "JntArrayAcc", true); else if (st.op == "acc2") accs(S); else if (st.op == "inertia") inertias(S); else if (st.op == "jacobian") jacs(S); else if (st.op == "factor") factor(S);
        for (char ch : S.name) { x.sched ^= (unsigned char)ch; x.sched *= 1099511628211ULL; } if (x.verbose) x.note(" %s%s", S.name.c_str(), S.aliased ? " over an operand" : ""); x.op(st.op.c_str()); if (S.aliased) { x.fault("result-over-operand"); x.nontrivial = true; }
    }
    uint64_t h = 0; for (auto& a : S.w.A) for (ld e : c(a)) { double f = (double)e; uint64_t b; memcpy(&b, &f, 8); h = mix64(h ^ b); } x.cover(h);
}
void generate(Rng& r, Program& p, bool thorough) { p.cfg["n"] = r.chance(0.05) ? 0 : r.range(1, 9); int n = (int)r.range(20, thorough ? 200 : 80); static const char* O[] = {"array", "vel", "acc", "acc2", "inertia", "jacobian", "factor"}; for (int i = 0; i < n; ++i) p.add(O[r.weighted({3, 4, 3, 3, 3, 4, 3})], {}, r.next()); }
Scenario S{"N01", "joint-space values and factorisations under histories of calls", "exploration", generate, execute,
    "A run keeps joint arrays (plain, with velocities, with accelerations), inertia matrices and Jacobians of one size and the work space of the matrix factorisations, and applies the operations on them in seeded order, often storing a result over an operand or over a part of one, with destinations of the wrong size, matrices that are rank deficient or not finite, starved iterations and warm starts on drifting and jumping matrices. Each result is recomputed in long double from the values held before the call. Non-trivial: a result was stored over an operand; distinct by the sequence of operations.",
    {"jntarray, jntarrayvel, jntarrayacc, jntspaceinertiamatrix, jacobian", "svd_eigen_HH, SVD_HH, svd_eigen_Macie, ldl_solver_eigen"}, {},
    {"sizes agree except where a mismatch is injected", "values below 1e4; larger ones start afresh"},
    120000, 5000000, 45, 500, {"fault:result-over-operand", "fault:wrong-size", "fault:not-a-number", "fault:few-iterations", "fault:jump", "probe:decomposed", "probe:rank-deficient", "probe:warm-start", "probe:rows-turned", "probe:columns-turned", "probe:scaled", "probe:solved", "probe:resized", "probe:compared", "op:array", "op:vel", "op:acc", "op:acc2", "op:inertia", "op:jacobian", "op:factor"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S}); }
