// Small independent reference model of rigid-body kinematics and dynamics (long double, world frame,
// finite-difference free where possible).  Shares no code with the library.
#pragma once
#include <vector>
#include <string>
#include <cmath>
#include "core.hpp"

namespace ref {
typedef long double ld;
struct V3 { ld x[3]; ld& operator[](int i) { return x[i]; } ld operator[](int i) const { return x[i]; } };
inline V3 v3(ld a, ld b, ld c) { V3 r; r.x[0] = a; r.x[1] = b; r.x[2] = c; return r; }
inline V3 operator+(V3 a, V3 b) { return v3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(V3 a, V3 b) { return v3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator*(ld s, V3 a) { return v3(s * a[0], s * a[1], s * a[2]); }
inline V3 cross(V3 a, V3 b) { return v3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
inline ld dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline ld norm(V3 a) { return std::sqrt(dot(a, a)); }
struct M3 { ld m[3][3]; };
inline M3 eye() { M3 r{}; for (int i = 0; i < 3; ++i) r.m[i][i] = 1; return r; }
inline V3 operator*(const M3& A, V3 v) { V3 r; for (int i = 0; i < 3; ++i) r.x[i] = A.m[i][0] * v[0] + A.m[i][1] * v[1] + A.m[i][2] * v[2]; return r; }
inline M3 operator*(const M3& A, const M3& B) { M3 r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.m[i][j] += A.m[i][k] * B.m[k][j]; return r; }
inline M3 tr(const M3& A) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = A.m[j][i]; return r; }
inline M3 rodrigues(V3 a, ld t) { // a unit
    ld c = std::cos(t), s = std::sin(t), v = 1 - c; M3 r;
    r.m[0][0] = c + v * a[0] * a[0]; r.m[0][1] = -s * a[2] + v * a[0] * a[1]; r.m[0][2] = s * a[1] + v * a[0] * a[2];
    r.m[1][0] = s * a[2] + v * a[1] * a[0]; r.m[1][1] = c + v * a[1] * a[1]; r.m[1][2] = -s * a[0] + v * a[1] * a[2];
    r.m[2][0] = -s * a[1] + v * a[2] * a[0]; r.m[2][1] = s * a[0] + v * a[2] * a[1]; r.m[2][2] = c + v * a[2] * a[2];
    return r;
}
struct Pose { M3 R = eye(); V3 p = v3(0, 0, 0); };
inline Pose operator*(const Pose& a, const Pose& b) { Pose r; r.R = a.R * b.R; r.p = a.p + a.R * b.p; return r; }
inline Pose inv(const Pose& a) { Pose r; r.R = tr(a.R); r.p = ld(-1) * (r.R * a.p); return r; }
struct Tw { V3 v = v3(0, 0, 0), w = v3(0, 0, 0); };      // also wrench: v = force, w = torque
inline Tw operator+(Tw a, Tw b) { Tw r; r.v = a.v + b.v; r.w = a.w + b.w; return r; }
inline Tw operator*(ld s, Tw a) { Tw r; r.v = s * a.v; r.w = s * a.w; return r; }

enum JT { ROTX, ROTY, ROTZ, TRANSX, TRANSY, TRANSZ, ROTAXIS, TRANSAXIS, FIXED };
struct Seg {
    std::string name, joint_name;
    int jt = FIXED;
    V3 axis = v3(0, 0, 1), origin = v3(0, 0, 0);
    ld scale = 1, offset = 0, jinertia = 0, damping = 0, stiffness = 0;
    Pose f_tip;          // tip with respect to the parent's tip at q = 0
    ld mass = 0; V3 com = v3(0, 0, 0); M3 Ic{};   // about the centre of mass, in the tip frame
    int parent = -1;     // index of parent segment, -1 = base
    int jnt = -1;        // joint index or -1
    bool moving() const { return jt != FIXED; }
    bool rot() const { return jt == ROTX || jt == ROTY || jt == ROTZ || jt == ROTAXIS; }
    V3 unit_axis() const {
        switch (jt) { case ROTX: case TRANSX: return v3(1, 0, 0); case ROTY: case TRANSY: return v3(0, 1, 0); case ROTZ: case TRANSZ: return v3(0, 0, 1);
        case ROTAXIS: case TRANSAXIS: { ld n = norm(axis); return (1 / n) * axis; } default: return v3(0, 0, 0); }
    }
    V3 org() const { return (jt == ROTAXIS || jt == TRANSAXIS) ? origin : v3(0, 0, 0); }
    Pose jpose(ld q) const {
        Pose r; if (!moving()) return r;
        ld t = scale * q + offset; V3 a = unit_axis();
        if (rot()) { r.R = rodrigues(a, t); r.p = org(); } else { r.p = org() + t * a; }
        return r;
    }
    Pose pose(ld q) const { return jpose(q) * (inv(jpose(0)) * f_tip); }
};

struct Model {
    std::vector<Seg> s;
    int nj = 0;
    // chain building
    void add(const Seg& g) { Seg c = g; c.parent = (int)s.size() - 1; c.jnt = c.moving() ? nj++ : -1; s.push_back(c); }
    void renumber() { nj = 0; for (size_t i = 0; i < s.size(); ++i) { s[i].parent = (int)i - 1; s[i].jnt = s[i].moving() ? nj++ : -1; } }
    ld qof(size_t i, const std::vector<ld>& q) const { return s[i].jnt >= 0 ? q[s[i].jnt] : 0; }

    std::vector<Pose> fk(const std::vector<ld>& q) const {
        std::vector<Pose> P(s.size());
        for (size_t i = 0; i < s.size(); ++i) { Pose l = s[i].pose(qof(i, q)); P[i] = s[i].parent < 0 ? l : P[s[i].parent] * l; }
        return P;
    }
    // columns: twist of the tip of segment k per unit joint velocity, base frame, reference point that tip
    std::vector<Tw> jac(const std::vector<ld>& q, int k) const {
        std::vector<Tw> J(nj); if (k < 0) return J;
        std::vector<Pose> P = fk(q);
        for (int i = k; i >= 0; i = s[i].parent) {
            if (s[i].jnt < 0) continue;
            Pose b = s[i].parent < 0 ? Pose() : P[s[i].parent];
            V3 a = s[i].scale * (b.R * s[i].unit_axis()); V3 o = b.p + b.R * s[i].org();
            Tw t; if (s[i].rot()) { t.w = a; t.v = cross(a, P[k].p - o); } else { t.v = a; }
            J[s[i].jnt] = t;
        }
        return J;
    }
    struct Kin { std::vector<Pose> P; std::vector<V3> w, al, v, a; };
    Kin motion(const std::vector<ld>& q, const std::vector<ld>& qd, const std::vector<ld>& qdd) const {
        Kin K; K.P = fk(q); size_t n = s.size(); K.w.resize(n); K.al.resize(n); K.v.resize(n); K.a.resize(n);
        V3 z = v3(0, 0, 0);
        for (size_t i = 0; i < n; ++i) {
            int p = s[i].parent; Pose b = p < 0 ? Pose() : K.P[p];
            V3 wp = p < 0 ? z : K.w[p], ap = p < 0 ? z : K.al[p], vp = p < 0 ? z : K.v[p], accp = p < 0 ? z : K.a[p];
            ld dq = s[i].jnt >= 0 ? qd[s[i].jnt] : 0, ddq = s[i].jnt >= 0 ? qdd[s[i].jnt] : 0;
            V3 ax = s[i].scale * (b.R * s[i].unit_axis());
            if (s[i].jnt >= 0 && s[i].rot()) {
                V3 o = b.p + b.R * s[i].org(), ro = o - b.p, r = K.P[i].p - o;
                K.w[i] = wp + dq * ax; K.al[i] = ap + ddq * ax + cross(wp, dq * ax);
                V3 vo = vp + cross(wp, ro), ao = accp + cross(ap, ro) + cross(wp, cross(wp, ro));
                K.v[i] = vo + cross(K.w[i], r); K.a[i] = ao + cross(K.al[i], r) + cross(K.w[i], cross(K.w[i], r));
            } else {
                V3 d = K.P[i].p - b.p; V3 rv = s[i].jnt >= 0 ? dq * ax : z, ra = s[i].jnt >= 0 ? ddq * ax : z;
                K.w[i] = wp; K.al[i] = ap;
                K.v[i] = vp + cross(wp, d) + rv; K.a[i] = accp + cross(ap, d) + cross(wp, cross(wp, d)) + ld(2) * cross(wp, rv) + ra;
            }
        }
        return K;
    }
    // inverse dynamics by virtual work; f_ext[i] on segment i, expressed in the segment's own tip frame
    std::vector<ld> inverse_dynamics(const std::vector<ld>& q, const std::vector<ld>& qd, const std::vector<ld>& qdd, V3 grav, const std::vector<Tw>& fext, bool rotor = true) const {
        Kin K = motion(q, qd, qdd); std::vector<ld> tau(nj, 0);
        for (size_t i = 0; i < s.size(); ++i) {
            M3 R = K.P[i].R; V3 rc = R * s[i].com; M3 Iw = R * s[i].Ic * tr(R);
            V3 ac = K.a[i] + cross(K.al[i], rc) + cross(K.w[i], cross(K.w[i], rc));
            V3 F = s[i].mass * (ac - grav);
            V3 N = Iw * K.al[i] + cross(K.w[i], Iw * K.w[i]) + cross(rc, F);  // about the tip
            if (i < fext.size()) { F = F - R * fext[i].v; N = N - R * fext[i].w; }
            std::vector<Tw> J = jac_from(K.P, (int)i);
            for (int j = 0; j < nj; ++j) tau[j] += dot(J[j].v, F) + dot(J[j].w, N);
        }
        if (rotor) for (auto& g : s) if (g.jnt >= 0) tau[g.jnt] += g.jinertia * qdd[g.jnt];
        return tau;
    }
    std::vector<Tw> jac_from(const std::vector<Pose>& P, int k) const {
        std::vector<Tw> J(nj);
        for (int i = k; i >= 0; i = s[i].parent) {
            if (s[i].jnt < 0) continue;
            Pose b = s[i].parent < 0 ? Pose() : P[s[i].parent];
            V3 a = s[i].scale * (b.R * s[i].unit_axis()); V3 o = b.p + b.R * s[i].org();
            Tw t; if (s[i].rot()) { t.w = a; t.v = cross(a, P[k].p - o); } else { t.v = a; }
            J[s[i].jnt] = t;
        }
        return J;
    }
    std::vector<std::vector<ld>> mass(const std::vector<ld>& q, bool rotor = true) const {
        std::vector<std::vector<ld>> H(nj, std::vector<ld>(nj, 0)); std::vector<Pose> P = fk(q);
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i].mass == 0 && s[i].Ic.m[0][0] == 0 && s[i].Ic.m[1][1] == 0 && s[i].Ic.m[2][2] == 0) continue;
            M3 R = P[i].R; V3 rc = R * s[i].com; M3 Iw = R * s[i].Ic * tr(R); std::vector<Tw> J = jac_from(P, (int)i);
            for (auto& t : J) t.v = t.v + cross(t.w, rc);
            for (int a = 0; a < nj; ++a) for (int b = 0; b < nj; ++b) H[a][b] += s[i].mass * dot(J[a].v, J[b].v) + dot(J[a].w, Iw * J[b].w);
        }
        if (rotor) for (auto& g : s) if (g.jnt >= 0) H[g.jnt][g.jnt] += g.jinertia;
        return H;
    }
    ld energy(const std::vector<ld>& q, const std::vector<ld>& qd, V3 grav) const {
        Kin K = motion(q, qd, std::vector<ld>(nj, 0)); ld E = 0;
        for (size_t i = 0; i < s.size(); ++i) { M3 R = K.P[i].R; V3 rc = R * s[i].com; M3 Iw = R * s[i].Ic * tr(R); V3 vc = K.v[i] + cross(K.w[i], rc);
            E += 0.5L * s[i].mass * dot(vc, vc) + 0.5L * dot(K.w[i], Iw * K.w[i]) - s[i].mass * dot(grav, K.P[i].p + rc); }
        for (auto& g : s) if (g.jnt >= 0) E += 0.5L * g.jinertia * qd[g.jnt] * qd[g.jnt];
        return E;
    }
};

// dense solve, partial pivoting; returns false when (nearly) singular
inline bool solve(std::vector<std::vector<ld>> A, std::vector<ld> b, std::vector<ld>& x) {
    int n = (int)b.size(); ld big = 0; for (auto& r : A) for (ld v : r) big = std::max(big, std::fabs(v));
    for (int k = 0; k < n; ++k) {
        int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i;
        if (std::fabs(A[p][k]) < 1e-13L * big) return false;
        std::swap(A[p], A[k]); std::swap(b[p], b[k]);
        for (int i = k + 1; i < n; ++i) { ld f = A[i][k] / A[k][k]; for (int j = k; j < n; ++j) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; }
    }
    x.assign(n, 0);
    for (int i = n - 1; i >= 0; --i) { ld t = b[i]; for (int j = i + 1; j < n; ++j) t -= A[i][j] * x[j]; x[i] = t / A[i][i]; }
    return true;
}
// eigenvalues/vectors of a symmetric matrix (Jacobi); used for singular values of J (via J J^T or J^T J)
inline void sym_eig(std::vector<std::vector<ld>> A, std::vector<ld>& w, std::vector<std::vector<ld>>& V) {
    int n = (int)A.size(); V.assign(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; ++i) V[i][i] = 1;
    for (int sweep = 0; sweep < 60; ++sweep) {
        ld off = 0, dia = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (i == j ? dia : off) += A[i][j] * A[i][j];
        if (off <= 1e-38L * (dia + 1e-300L)) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
            if (A[p][q] == 0) continue;
            ld th = (A[q][q] - A[p][p]) / (2 * A[p][q]); ld t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)); ld c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k) { ld a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
            for (int k = 0; k < n; ++k) { ld a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
            for (int k = 0; k < n; ++k) { ld a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
        }
    }
    w.resize(n); for (int i = 0; i < n; ++i) w[i] = A[i][i];
}
}  // namespace ref
