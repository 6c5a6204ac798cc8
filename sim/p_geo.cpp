// G01: geometric values edited in place, stored over their own operands and integrated over time follow the
// laws of rigid-body motion and of differentiation.  The reference works on truncated Taylor series (value, first and second
// derivative) in long double: one product rule serves plain values and those that carry derivatives.
#include "core.hpp"
#include "ref.hpp"
#include "frames.hpp"
#include "framevel.hpp"
#include "frameacc.hpp"
#include "stiffness.hpp"
#include "rigidbodyinertia.hpp"
#include "articulatedbodyinertia.hpp"
#include "utilities/utility.h"
using namespace KDL; using sim::Ctx; using sim::Draw; using sim::Step; using sim::Program; using sim::Rng; using sim::Scenario; using sim::mix64;
using ref::ld; using ref::V3; using ref::M3; using ref::v3;
namespace {
// ---- Taylor series --------------------------------------------------------------------------
struct JS { ld d[3] = {0, 0, 0}; }; struct JV { V3 d[3] = {v3(0, 0, 0), v3(0, 0, 0), v3(0, 0, 0)}; }; struct JM { M3 d[3] = {M3{}, M3{}, M3{}}; }; struct JF { JM M; JV p; }; struct JT { JV v, w; };
M3 add(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + b.m[i][j]; return r; }
M3 mul(ld s, const M3& a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = s * a.m[i][j]; return r; }
M3 skew(V3 w) { M3 r{}; r.m[0][1] = -w[2]; r.m[0][2] = w[1]; r.m[1][0] = w[2]; r.m[1][2] = -w[0]; r.m[2][0] = -w[1]; r.m[2][1] = w[0]; return r; }
#define LEIB(R, A, B, f, ADD) R r; r.d[0] = f(a.d[0], b.d[0]); r.d[1] = ADD(f(a.d[1], b.d[0]), f(a.d[0], b.d[1])); r.d[2] = ADD(ADD(f(a.d[2], b.d[0]), f(a.d[0], b.d[2])), ADD(f(a.d[1], b.d[1]), f(a.d[1], b.d[1]))); return r;
ld sadd(ld a, ld b) { return a + b; } ld smul(ld a, ld b) { return a * b; } V3 vadd(V3 a, V3 b) { return a + b; } V3 mv(const M3& a, V3 b) { return a * b; } M3 mm(const M3& a, const M3& b) { return a * b; } V3 sv(ld a, V3 b) { return a * b; } V3 crs(V3 a, V3 b) { return ref::cross(a, b); } ld dt3(V3 a, V3 b) { return ref::dot(a, b); }
JS operator*(const JS& a, const JS& b) { LEIB(JS, JS, JS, smul, sadd) } JV operator*(const JM& a, const JV& b) { LEIB(JV, JM, JV, mv, vadd) } JM operator*(const JM& a, const JM& b) { LEIB(JM, JM, JM, mm, add) } JV operator*(const JS& a, const JV& b) { LEIB(JV, JS, JV, sv, vadd) } JV cross(const JV& a, const JV& b) { LEIB(JV, JV, JV, crs, vadd) } JS dot(const JV& a, const JV& b) { LEIB(JS, JV, JV, dt3, sadd) }
JS operator+(const JS& a, const JS& b) { JS r; for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] + b.d[i]; return r; } JS operator-(const JS& a) { JS r; for (int i = 0; i < 3; ++i) r.d[i] = -a.d[i]; return r; } JS operator-(const JS& a, const JS& b) { return a + -b; }
JV operator+(const JV& a, const JV& b) { JV r; for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] + b.d[i]; return r; } JV operator-(const JV& a) { JV r; for (int i = 0; i < 3; ++i) r.d[i] = ld(-1) * a.d[i]; return r; } JV operator-(const JV& a, const JV& b) { return a + -b; }
JM tr(const JM& a) { JM r; for (int i = 0; i < 3; ++i) r.d[i] = ref::tr(a.d[i]); return r; }
JT operator+(const JT& a, const JT& b) { JT r; r.v = a.v + b.v; r.w = a.w + b.w; return r; } JT operator-(const JT& a) { JT r; r.v = -a.v; r.w = -a.w; return r; } JT operator-(const JT& a, const JT& b) { return a + -b; } JT operator*(const JS& s, const JT& a) { JT r; r.v = s * a.v; r.w = s * a.w; return r; }
JF operator*(const JF& a, const JF& b) { JF r; r.M = a.M * b.M; r.p = a.M * b.p + a.p; return r; } JV operator*(const JF& a, const JV& b) { return a.M * b + a.p; } JF inv(const JF& a) { JF r; r.M = tr(a.M); r.p = -(r.M * a.p); return r; }
JT operator*(const JM& R, const JT& t) { JT r; r.v = R * t.v; r.w = R * t.w; return r; }
JT tw(const JF& F, const JT& t) { JT r; r.w = F.M * t.w; r.v = F.M * t.v + cross(F.p, r.w); return r; }      // twist
JT wr(const JF& F, const JT& t) { JT r; r.v = F.M * t.v; r.w = F.M * t.w + cross(F.p, r.v); return r; }      // wrench: v force, w torque
JS fn(const JS& a, ld f, ld f1, ld f2) { JS r; r.d[0] = f; r.d[1] = f1 * a.d[1]; r.d[2] = f2 * a.d[1] * a.d[1] + f1 * a.d[2]; return r; }
JS rec(const JS& a) { ld t = a.d[0]; return fn(a, 1 / t, -1 / (t * t), 2 / (t * t * t)); }
JS root(const JS& a) { ld s = std::sqrt(a.d[0]); return fn(a, s, 0.5L / s, -0.25L / (s * s * s)); }
JS at2(const JS& y, const JS& x) { // derivative of the angle of (x, y) with that of its length divided out
    JS r; ld q = x.d[0] * x.d[0] + y.d[0] * y.d[0]; r.d[0] = std::atan2(y.d[0], x.d[0]); r.d[1] = (x.d[0] * y.d[1] - y.d[0] * x.d[1]) / q; ld q1 = 2 * (x.d[0] * x.d[1] + y.d[0] * y.d[1]); r.d[2] = (x.d[0] * y.d[2] - y.d[0] * x.d[2]) / q - r.d[1] * q1 / q; return r; }
// ---- library values as series ---------------------------------------------------------------
V3 c(const Vector& v) { return v3(v.data[0], v.data[1], v.data[2]); } M3 c(const Rotation& R) { M3 m; for (int i = 0; i < 9; ++i) m.m[i / 3][i % 3] = R.data[i]; return m; }
JS J(double a) { JS r; r.d[0] = a; return r; } JS J(const doubleVel& a) { JS r; r.d[0] = a.t; r.d[1] = a.grad; return r; } JS J(const doubleAcc& a) { JS r; r.d[0] = a.t; r.d[1] = a.d; r.d[2] = a.dd; return r; }
JV J(const Vector& a) { JV r; r.d[0] = c(a); return r; } JV J(const VectorVel& a) { JV r = J(a.p); r.d[1] = c(a.v); return r; } JV J(const VectorAcc& a) { JV r = J(a.p); r.d[1] = c(a.v); r.d[2] = c(a.dv); return r; }
JM J(const Rotation& a) { JM r; r.d[0] = c(a); return r; } JM J(const RotationVel& a) { JM r = J(a.R); r.d[1] = skew(c(a.w)) * r.d[0]; return r; } JM J(const RotationAcc& a) { JM r = J(a.R); M3 w = skew(c(a.w)); r.d[1] = w * r.d[0]; r.d[2] = add(skew(c(a.dw)), w * w) * r.d[0]; return r; }
JF J(const Frame& a) { return {J(a.M), J(a.p)}; } JF J(const FrameVel& a) { return {J(a.M), J(a.p)}; } JF J(const FrameAcc& a) { return {J(a.M), J(a.p)}; }
JT J(const Twist& a) { return {J(a.vel), J(a.rot)}; } JT J(const TwistVel& a) { return {J(a.vel), J(a.rot)}; } JT J(const TwistAcc& a) { return {J(a.vel), J(a.rot)}; } JT J(const Wrench& a) { return {J(a.force), J(a.torque)}; }
// planar values live in the plane z = 0
JV J(const Vector2& a) { JV r; r.d[0] = v3(a(0), a(1), 0); return r; } JM J(const Rotation2& a) { JM r; ld cs = std::cos((ld)a.GetRot()), sn = std::sin((ld)a.GetRot()); M3 m{}; m.m[0][0] = cs; m.m[0][1] = -sn; m.m[1][0] = sn; m.m[1][1] = cs; m.m[2][2] = 1; r.d[0] = m; return r; } JF J(const Frame2& a) { return {J(a.M), J(a.p)}; }
// inertias as the 6x6 matrix that maps (velocity, rotation) to (force, torque)
struct Six { ld m[6][6]; };
Six six(const ArticulatedBodyInertia& a) { Six s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { s.m[i][j] = a.M(i, j); s.m[i][j + 3] = a.H(j, i); s.m[i + 3][j] = a.H(i, j); s.m[i + 3][j + 3] = a.I(i, j); } return s; }
Six six(const RigidBodyInertia& a) { Six s{}; M3 h = skew(c(a.getSpatialMomentum())); RotationalInertia I = a.getRotationalInertia(); for (int i = 0; i < 3; ++i) { s.m[i][i] = a.getMass(); for (int j = 0; j < 3; ++j) { s.m[i][j + 3] = h.m[j][i]; s.m[i + 3][j] = h.m[i][j]; s.m[i + 3][j + 3] = I.data[3 * i + j]; } } return s; }
Six operator*(const Six& a, const Six& b) { Six r{}; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) for (int k = 0; k < 6; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; return r; }
Six operator+(const Six& a, const Six& b) { Six r; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r.m[i][j] = a.m[i][j] + b.m[i][j]; return r; } Six mul(ld s, const Six& a) { Six r; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r.m[i][j] = s * a.m[i][j]; return r; }
Six trans(const Six& a) { Six r; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r.m[i][j] = a.m[j][i]; return r; }
JT operator*(const Six& a, const JT& t) { JT r; ld in[6], out[6] = {0}; for (int i = 0; i < 3; ++i) { in[i] = t.v.d[0][i]; in[i + 3] = t.w.d[0][i]; } for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) out[i] += a.m[i][j] * in[j]; r.v.d[0] = v3(out[0], out[1], out[2]); r.w.d[0] = v3(out[3], out[4], out[5]); return r; }
Six X(const M3& R, V3 p) { Six s{}; M3 u = skew(p) * R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { s.m[i][j] = s.m[i + 3][j + 3] = R.m[i][j]; s.m[i][j + 3] = u.m[i][j]; } return s; }   // twists from frame b to frame a
// inertia in another frame: the kinetic energy of every motion stays what it is, I_a = X^-T I_b X^-1
Six moved(const M3& R, V3 p, const Six& I) { M3 Rt = ref::tr(R); Six Y = X(Rt, ld(-1) * (Rt * p)); return trans(Y) * I * Y; }
struct Pl { ld t, d; };
// ---- the world ------------------------------------------------------------------------------
const int N = 3;
struct World {
    Vector V[N]; Rotation R[N]; Frame F[N]; Twist T[N]; Wrench W[N]; Vector2 v2[N]; Rotation2 r2[N]; Frame2 f2[N]; double s[N];
    doubleVel s1[N]; VectorVel V1[N]; RotationVel R1[N]; FrameVel F1[N]; TwistVel T1[N];
    doubleAcc s2[N]; VectorAcc V2[N]; RotationAcc R2[N]; FrameAcc F2[N]; TwistAcc T2[N];
    RigidBodyInertia B[N]; ArticulatedBodyInertia C[N]; Stiffness K[2];
};
struct Sim {
    Ctx& x; World w; Draw* d = nullptr; const char* name = ""; bool aliased = false; const void* used[4]; int nused = 0; std::vector<unsigned char> before; const void* out = nullptr; size_t outn = 0;
    explicit Sim(Ctx& x_) : x(x_) {}
    template <class T, size_t n> T& p(T (&a)[n]) { T& r = a[d->range(0, n - 1)]; if (nused < 4) used[nused++] = &r; return r; }
    template <class T, size_t n> T& o(T (&a)[n]) { T& r = a[d->range(0, n - 1)]; for (int i = 0; i < nused; ++i) if (used[i] == &r) aliased = true; out = &r; outn = sizeof(T); return r; }
    double num(double big = 3) { switch (d->weighted({5, 1, 1, 1})) { case 1: return 0; case 2: return d->chance(0.5) ? 1 : -1; case 3: return d->val(-1e-4, 1e-4); default: return d->val(-big, big); } }
    double ang() { static const double Q[] = {0, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 1e-7, M_PI - 1e-7, 2 * M_PI}; return d->chance(0.35) ? Q[d->range(0, 7)] : d->val(-3.2, 3.2); }
    double nz() { double v = d->val(0.2, 3); return d->chance(0.5) ? v : -v; }
    Vector vec() { switch (d->weighted({6, 1, 2})) { case 1: return Vector::Zero(); case 2: { Vector v; v(d->range(0, 2)) = num(); return v; } default: return Vector(num(), num(), num()); } }
    Rotation rot() { switch (d->weighted({4, 1, 2, 2, 1})) { case 1: return Rotation::Identity(); case 2: { Rotation r = Rotation::Identity(); for (int i = 0; i < 2; ++i) { ld a = ang(); int k = (int)d->range(0, 2), u = (k + 1) % 3, v = (k + 2) % 3; Rotation t = r; for (int q = 0; q < 3; ++q) { t(q, u) = (double)(std::cos(a) * r(q, u) + std::sin(a) * r(q, v)); t(q, v) = (double)(-std::sin(a) * r(q, u) + std::cos(a) * r(q, v)); } r = t; } return r; }
        default: { ld q[4], n = 0; for (auto& e : q) { e = d->val(-1, 1); n += e * e; } n = std::sqrt(n); if (n < 0.1L) return Rotation::Identity(); for (auto& e : q) e /= n; ld a = q[0], b = q[1], e = q[2], f = q[3]; return Rotation((double)(f * f + a * a - b * b - e * e), (double)(2 * (a * b - f * e)), (double)(2 * (a * e + f * b)), (double)(2 * (a * b + f * e)), (double)(f * f - a * a + b * b - e * e), (double)(2 * (b * e - f * a)), (double)(2 * (a * e - f * b)), (double)(2 * (b * e + f * a)), (double)(f * f - a * a - b * b + e * e)); } } }
    Twist twi() { return Twist(vec(), vec()); }
    RigidBodyInertia rbi() { double m = d->chance(0.15) ? 0 : d->val(0.1, 5); double a = d->val(0.1, 2), b = d->val(0.1, 2), e = d->val(0.1, 2); return RigidBodyInertia(m, vec(), RotationalInertia(a, b, e, d->val(-0.1, 0.1), d->val(-0.1, 0.1), d->val(-0.1, 0.1))); }
    void fresh(Vector& v) { v = vec(); } void fresh(Rotation& v) { v = rot(); } void fresh(Frame& v) { v = Frame(rot(), vec()); } void fresh(Twist& v) { v = twi(); } void fresh(Wrench& v) { v = Wrench(vec(), vec()); }
    void fresh(Vector2& v) { v = Vector2(num(), num()); } void fresh(Rotation2& v) { v = Rotation2(ang()); } void fresh(Frame2& v) { v = Frame2(Rotation2(ang()), Vector2(num(), num())); } void fresh(double& v) { v = num(); }
    void fresh(doubleVel& v) { v = doubleVel(num(), num()); } void fresh(VectorVel& v) { v = VectorVel(vec(), vec()); } void fresh(RotationVel& v) { v = RotationVel(rot(), vec()); } void fresh(FrameVel& v) { v = FrameVel(RotationVel(rot(), vec()), VectorVel(vec(), vec())); } void fresh(TwistVel& v) { v = TwistVel(VectorVel(vec(), vec()), VectorVel(vec(), vec())); }
    void fresh(doubleAcc& v) { v = doubleAcc(num(), num(), num()); } void fresh(VectorAcc& v) { v = VectorAcc(vec(), vec(), vec()); } void fresh(RotationAcc& v) { v = RotationAcc(rot(), vec(), vec()); } void fresh(FrameAcc& v) { v = FrameAcc(RotationAcc(rot(), vec(), vec()), VectorAcc(vec(), vec(), vec())); } void fresh(TwistAcc& v) { v = TwistAcc(VectorAcc(vec(), vec(), vec()), VectorAcc(vec(), vec(), vec())); }
    void fresh(RigidBodyInertia& v) { v = rbi(); } void fresh(ArticulatedBodyInertia& v) { v = ArticulatedBodyInertia(rbi()); if (d->chance(0.6)) { for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) { v.M(i, j) = v.M(j, i) = d->val(-1, 3); } for (int i = 0; i < 9; ++i) v.H(i / 3, i % 3) = d->val(-2, 2); } } void fresh(Stiffness& k) { k = Stiffness(nz(), nz(), nz(), nz(), nz(), nz()); }
    template <class T, size_t n> void all(T (&a)[n]) { for (auto& e : a) fresh(e); }
    void start() { all(w.V); all(w.R); all(w.F); all(w.T); all(w.W); all(w.v2); all(w.r2); all(w.f2); all(w.s); all(w.s1); all(w.V1); all(w.R1); all(w.F1); all(w.T1); all(w.s2); all(w.V2); all(w.R2); all(w.F2); all(w.T2); all(w.B); all(w.C); all(w.K); }
    // what is the largest size involved (for the tolerance) and did the result come out right
    ld size = 0; void seen(ld a) { if (!(std::fabs(a) <= size)) size = std::fabs(a); }
    void eq(double a, ld e, ld tol, const char* what) { x.d(a); ld s = std::max((ld)1, std::max(size, std::fabs(e))); if (!(std::fabs(a - e) <= tol * s)) x.fail((std::string("wrong-result:") + name).c_str(), "%s%s: %s is %.15g, the law says %.15Lg", name, aliased ? " (result stored over an operand)" : "", what, a, e); }
    ld tol = 1e-10L;
    void chk(double a, const JS& e) { eq(a, e.d[0], tol, "the value"); } void chk(const doubleVel& a, const JS& e) { eq(a.t, e.d[0], tol, "the value"); eq(a.grad, e.d[1], tol, "the derivative"); } void chk(const doubleAcc& a, const JS& e) { eq(a.t, e.d[0], tol, "the value"); eq(a.d, e.d[1], tol, "the derivative"); eq(a.dd, e.d[2], tol, "the second derivative"); }
    void vec3(const Vector& a, V3 e, const char* what) { for (int i = 0; i < 3; ++i) eq(a.data[i], e[i], tol, what); } void mat3(const M3& a, const M3& e, const char* what) { for (int i = 0; i < 9; ++i) eq((double)a.m[i / 3][i % 3], e.m[i / 3][i % 3], tol, what); }
    void chk(const Vector& a, const JV& e) { vec3(a, e.d[0], "the vector"); } void chk(const VectorVel& a, const JV& e) { vec3(a.p, e.d[0], "the vector"); vec3(a.v, e.d[1], "its velocity"); } void chk(const VectorAcc& a, const JV& e) { vec3(a.p, e.d[0], "the vector"); vec3(a.v, e.d[1], "its velocity"); vec3(a.dv, e.d[2], "its acceleration"); }
    void chk(const Rotation& a, const JM& e) { mat3(c(a), e.d[0], "the rotation"); } void chk(const RotationVel& a, const JM& e) { JM j = J(a); mat3(j.d[0], e.d[0], "the rotation"); mat3(j.d[1], e.d[1], "its velocity"); } void chk(const RotationAcc& a, const JM& e) { JM j = J(a); mat3(j.d[0], e.d[0], "the rotation"); mat3(j.d[1], e.d[1], "its velocity"); mat3(j.d[2], e.d[2], "its acceleration"); }
    template <class T> auto chk(const T& a, const JF& e) -> decltype((void)a.M) { chk(a.M, e.M); chk(a.p, e.p); }
    template <class T> auto chk(const T& a, const JT& e) -> decltype((void)a.vel) { chk(a.vel, e.v); chk(a.rot, e.w); } void chk(const Wrench& a, const JT& e) { chk(a.force, e.v); chk(a.torque, e.w); }
    void chk(const Vector2& a, const JV& e) { eq(a(0), e.d[0][0], tol, "x"); eq(a(1), e.d[0][1], tol, "y"); } void chk(const Rotation2& a, const JM& e) { JM j = J(a); mat3(j.d[0], e.d[0], "the planar rotation"); eq(a(0, 0), e.d[0].m[0][0], tol, "element 0,0"); eq(a(0, 1), e.d[0].m[0][1], tol, "element 0,1"); eq(a(1, 0), e.d[0].m[1][0], tol, "element 1,0"); eq(a(1, 1), e.d[0].m[1][1], tol, "element 1,1"); }
    template <class T> void chk6(const T& a, const Six& e) { Six s = six(a); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) eq((double)s.m[i][j], e.m[i][j], tol, "the inertia"); }
    void chk(const RigidBodyInertia& a, const Six& e) { chk6(a, e); } void chk(const ArticulatedBodyInertia& a, const Six& e) { chk6(a, e); }
    // operand sizes
    void z(double a) { seen(a); } void z(const Vector& v) { for (double e : v.data) seen(e); } void z(const VectorVel& v) { z(v.p); z(v.v); } void z(const VectorAcc& v) { z(v.p); z(v.v); z(v.dv); } void z(const doubleVel& v) { z(v.t); z(v.grad); } void z(const doubleAcc& v) { z(v.t); z(v.d); z(v.dd); } void z(const Rotation&) {} void z(const RotationVel& v) { z(v.w); } void z(const RotationAcc& v) { z(v.w); z(v.dw); seen(ref::dot(c(v.w), c(v.w))); } template <class T> auto z(const T& a) -> decltype((void)a.M, (void)a.p) { z(a.M); z(a.p); } template <class T> auto z(const T& a) -> decltype((void)a.vel) { z(a.vel); z(a.rot); } void z(const Wrench& a) { z(a.force); z(a.torque); } void z(const Vector2& a) { z(a(0)); z(a(1)); } void z(const Rotation2&) {}
    void z(const RigidBodyInertia& a) { Six s = six(a); for (auto& r : s.m) for (ld e : r) seen(e); } void z(const ArticulatedBodyInertia& a) { Six s = six(a); for (auto& r : s.m) for (ld e : r) seen(e); }
    template <class A> void sz(const A& a) { ld k = size; size = 0; z(a); size = std::max((ld)1, k) * std::max((ld)1, size); } template <class A, class B> void sz(const A& a, const B& b) { sz(a); sz(b); }
    // a value that has grown too big, too near to nothing or away from a rotation starts afresh
    bool bad(ld a) { return !(std::fabs(a) < 50); } template <class T> bool big(const T& a) { ld k = size; size = 0; z(a); bool b = bad(size); size = k; return b; }
};
typedef void (*Op)(Sim&);
struct Entry { const char* name; Op f; };
#define W_ (S.w)
// one operation: operands, expected result, the operation, the comparison; D is where the result goes
#define BIN(NM, AA, BB, DD, EXPR, REF) {NM, [](Sim& S) { auto& a = S.p(W_.AA); auto& b = S.p(W_.BB); auto& r = S.o(W_.DD); S.sz(a, b); auto e = REF; r = EXPR; S.chk(r, e); if (S.big(r)) S.fresh(r); }}
#define UN(NM, AA, DD, EXPR, REF) {NM, [](Sim& S) { auto& a = S.p(W_.AA); auto& r = S.o(W_.DD); S.sz(a); auto e = REF; r = EXPR; S.chk(r, e); if (S.big(r)) S.fresh(r); }}
// in place: r is operand and result, a may be the same object
#define INP(NM, AA, DD, STMT, REF) {NM, [](Sim& S) { auto& a = S.p(W_.AA); auto& r = S.o(W_.DD); S.sz(a, r); auto e = REF; STMT; S.chk(r, e); if (S.big(r)) S.fresh(r); }}
#define INP1(NM, DD, STMT, REF) {NM, [](Sim& S) { auto& r = S.o(W_.DD); S.sz(r); auto e = REF; STMT; S.chk(r, e); if (S.big(r)) S.fresh(r); }}
#define SCA(NM, DD, STMT, REF) {NM, [](Sim& S) { double k = S.nz(); auto& r = S.o(W_.DD); S.sz(r, k); auto e = REF; STMT; S.chk(r, e); if (S.big(r)) S.fresh(r); }}
// scalar function with its derivatives; the argument is brought into the function's range first
#define FUN1(NM, CALL, LO, HI, f, f1, f2, SS) {NM, [](Sim& S) { auto& a = S.p(W_.SS); a.t = S.d->val(LO, HI); ld t = a.t; (void)t; auto& r = S.o(W_.SS); S.sz(a); JS e = fn(J(a), f, f1, f2); S.seen(e.d[1]); S.seen(e.d[2]); r = CALL; S.chk(r, e); if (S.big(r)) S.fresh(r); }}
#define FUN(NM, CALL, LO, HI, f, f1, f2) FUN1(NM "(doubleVel)", CALL, LO, HI, f, f1, f2, s1), FUN1(NM "(doubleAcc)", CALL, LO, HI, f, f1, f2, s2)
#define ORD(M) M(1, "Vel") M(2, "Acc")
JV ax(int k) { JV r; r.d[0] = v3(k == 0, k == 1, k == 2); return r; }
JM elem(int k, const JS& a) { JM m; ld cs = std::cos(a.d[0]), sn = std::sin(a.d[0]); JS C = fn(a, cs, -sn, -cs), Sn = fn(a, sn, cs, -sn); int u = (k + 1) % 3, v = (k + 2) % 3; for (int o = 0; o < 3; ++o) { m.d[o].m[k][k] = o == 0; m.d[o].m[u][u] = m.d[o].m[v][v] = C.d[o]; m.d[o].m[u][v] = -Sn.d[o]; m.d[o].m[v][u] = Sn.d[o]; } return m; }
JM about(V3 u, const JS& a) { JM m; ld cs = std::cos(a.d[0]), sn = std::sin(a.d[0]); JS C = fn(a, cs, -sn, -cs), Sn = fn(a, sn, cs, -sn); M3 k = skew(u), uu; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) uu.m[i][j] = u[i] * u[j]; for (int o = 0; o < 3; ++o) { M3 I = ref::eye(); M3 p = add(mul(C.d[o], add(I, mul(-1, uu))), mul(Sn.d[o], k)); m.d[o] = o == 0 ? add(p, uu) : p; } return m; }
V3 rotvec(const M3& R, bool& near_pi) { // axis times angle of a rotation, in long double
    V3 s = v3((R.m[2][1] - R.m[1][2]) / 2, (R.m[0][2] - R.m[2][0]) / 2, (R.m[1][0] - R.m[0][1]) / 2); ld n = ref::norm(s), cs = (R.m[0][0] + R.m[1][1] + R.m[2][2] - 1) / 2, a = std::atan2(n, cs); near_pi = a > 3.1415L; return n > 0 ? (a / n) * s : v3(0, 0, 0); }
bool unit(Sim& S, Vector& v) { V3 u = c(v); ld n = ref::norm(u); if (n < 0.01L) { v = Vector(0, 0, 1); u = v3(0, 0, 1); n = 1; } v = Vector((double)(u[0] / n), (double)(u[1] / n), (double)(u[2] / n)); (void)S; return true; }
#include "geo_ops.inc"
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S}); }
