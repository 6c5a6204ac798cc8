// Reference geometry of paths (long double, closed form), profile specifications, and their library counterparts.
#pragma once
#include "kdlgen.hpp"
#include "path_line.hpp"
#include "path_circle.hpp"
#include "path_point.hpp"
#include "path_composite.hpp"
#include "path_roundedcomposite.hpp"
#include "path_cyclic_closed.hpp"
#include "rotational_interpolation_sa.hpp"
#include "velocityprofile.hpp"
#include "velocityprofile_dirac.hpp"
#include "velocityprofile_rect.hpp"
#include "velocityprofile_trap.hpp"
#include "velocityprofile_traphalf.hpp"
#include "velocityprofile_spline.hpp"
#include "utilities/error.h"

namespace mot {
using namespace gen;

// ---- profiles -----------------------------------------------------------------------------------
enum { RECT, TRAP, HALF, SPLINE, DIRAC };
static const char* const KIND[] = {"rectangular", "trapezoidal", "half trapezoidal", "spline", "jump"};
struct Plan {                     // what was asked of a profile, and what that means
    int kind = TRAP; double vmax = 1, amax = 1; bool starting = true;      // limits at the time of planning
    double p1 = 0, p2 = 0; bool planned = false; double minimal = 0, want = 0; double frac = 1;   // frac < 1: run at a fraction of its speed
    int order = 1; double v1 = 0, v2 = 0, a1 = 0, a2 = 0;                  // spline boundary conditions
    ld dist() const { return std::fabs((ld)p2 - (ld)p1); }
    ld peak() const { return std::min<ld>(vmax, std::sqrt(2 * dist() * (ld)amax)); }       // of a half profile
    ld min_duration() const {
        ld D = dist(); if (D == 0) return 0;
        if (kind == RECT) return D / vmax;
        if (kind == TRAP) return D * amax <= (ld)vmax * vmax ? 2 * std::sqrt(D / amax) : D / vmax + (ld)vmax / amax;
        if (kind == HALF) return D / peak() + peak() / amax / 2;
        return 0;
    }
};
inline KDL::VelocityProfile* new_profile(const Plan& s) {
    switch (s.kind) { case RECT: return new KDL::VelocityProfile_Rectangular(s.vmax); case TRAP: return new KDL::VelocityProfile_Trap(s.vmax, s.amax); case HALF: return new KDL::VelocityProfile_TrapHalf(s.vmax, s.amax, s.starting); case SPLINE: return new KDL::VelocityProfile_Spline(); default: return new KDL::VelocityProfile_Dirac(); }
}
inline void set_max(KDL::VelocityProfile* p, Plan& s, double v, double a, bool starting) {
    s.vmax = v; s.amax = a; s.starting = starting;
    if (s.kind == RECT) static_cast<KDL::VelocityProfile_Rectangular*>(p)->SetMax(v); if (s.kind == TRAP) static_cast<KDL::VelocityProfile_Trap*>(p)->SetMax(v, a); if (s.kind == HALF) static_cast<KDL::VelocityProfile_TrapHalf*>(p)->SetMax(v, a, starting);
}
// mode 0: as fast as possible, 1: duration, 2: fraction of the speed, 3: cubic, 4: quintic
inline void plan(KDL::VelocityProfile* p, Plan& s, int mode, double p1, double p2, double x) {
    s.p1 = p1; s.p2 = p2; s.planned = true; s.frac = 1; s.order = 1; s.minimal = (double)s.min_duration();
    if (s.kind == SPLINE && mode < 3) mode = 1; if (mode == 2 && s.kind != TRAP) mode = 0; if (mode >= 3 && s.kind != SPLINE) mode = 1;
    if (mode == 0) { p->SetProfile(p1, p2); s.want = s.minimal; }
    if (mode == 1) { p->SetProfileDuration(p1, p2, x); s.want = std::max(s.minimal, x); if (s.kind == SPLINE) s.want = x; }
    if (mode == 2) { static_cast<KDL::VelocityProfile_Trap*>(p)->SetProfileVelocity(p1, p2, x); s.frac = std::min(1.0, std::max(1e-6, x)); s.want = s.minimal / s.frac; }
    if (mode == 3) { s.order = 3; static_cast<KDL::VelocityProfile_Spline*>(p)->SetProfileDuration(p1, s.v1, p2, s.v2, x); s.want = x; }
    if (mode == 4) { s.order = 5; static_cast<KDL::VelocityProfile_Spline*>(p)->SetProfileDuration(p1, s.v1, s.a1, p2, s.v2, s.a2, x); s.want = x; }
}

// ---- paths --------------------------------------------------------------------------------------
struct Piece { int kind = 0; V3 p0, p1, c, ex, ey; ld alpha = 0; M3 R0 = ref::eye(), R1 = ref::eye(); V3 axis; ld angle = 0; ld L = 0; bool unclear = false, snap = false; };  // 0 line, 1 arc, 2 point
struct At { Pose p; Tw v, a; bool rot_unclear = false; };
inline void set_rot(Piece& g, const M3& A, const M3& B) {
    g.R0 = A; g.R1 = B; M3 D = ref::tr(A) * B; V3 k = ref::v3((D.m[2][1] - D.m[1][2]) / 2, (D.m[0][2] - D.m[2][0]) / 2, (D.m[1][0] - D.m[0][1]) / 2); ld s = ref::norm(k), c = (D.m[0][0] + D.m[1][1] + D.m[2][2] - 1) / 2;
    g.angle = std::atan2(s, c); { ld h = 3.14159265358979323846L - g.angle; g.snap = (g.angle > 1e-9L && g.angle < 3e-6L) || (h > 1e-9L && h < 3e-6L); } if (g.angle > 3.1L) { g.unclear = true; g.axis = ref::v3(0, 0, 1); return; }
    if (g.angle < 1e-9L) { g.angle = 0; g.axis = ref::v3(0, 0, 1); return; } g.axis = (1 / s) * k; if (g.angle < 1e-3L) g.unclear = true;
}
inline Piece line(const Pose& a, const Pose& b, double eqr) {
    Piece g; g.p0 = a.p; g.p1 = b.p; set_rot(g, a.R, b.R); ld D = ref::norm(b.p - a.p); if (D > 1e-12L && D < 3e-6L) g.snap = true; g.L = std::max(D, g.angle * (ld)eqr); return g;
}
inline Piece arc(const Pose& a, V3 centre, V3 in_plane, const M3& Rend, ld alpha, double eqr) {
    Piece g; g.kind = 1; g.c = centre; g.ex = a.p - centre; V3 n = ref::cross(g.ex, in_plane - centre); n = (1 / ref::norm(n)) * n; g.ey = ref::cross(n, g.ex); g.alpha = alpha; set_rot(g, a.R, Rend); g.L = std::max(alpha * ref::norm(g.ex), g.angle * (ld)eqr); return g;
}
inline At at(const Piece& g, ld s, ld sd, ld sdd) {
    At r; ld f = g.L > 0 ? s / g.L : 0, fd = g.L > 0 ? sd / g.L : 0, fdd = g.L > 0 ? sdd / g.L : 0; r.rot_unclear = g.unclear;
    if (g.kind == 0) { V3 D = g.p1 - g.p0; r.p.p = g.p0 + f * D; r.v.v = fd * D; r.a.v = fdd * D; }
    else if (g.kind == 1) { ld t = g.alpha * f, c = std::cos(t), n = std::sin(t), v = g.alpha * fd, a = g.alpha * fdd; V3 u = c * g.ex + n * g.ey, w = (-n) * g.ex + c * g.ey; r.p.p = g.c + u; r.v.v = v * w; r.a.v = a * w + (-v * v) * u; }
    else r.p.p = g.p0;
    r.p.R = g.R0 * ref::rodrigues(g.axis, g.angle * f); V3 W = g.R0 * g.axis; r.v.w = g.angle * fd * W; r.a.w = g.angle * fdd * W; return r;
}
struct RefPath {
    std::vector<Piece> v; std::vector<std::pair<int, int>> wraps;      // at the end of a cyclic path (piece) its first piece may show
    void append(const RefPath& o) { int b = (int)v.size(); for (auto& w : o.wraps) wraps.push_back({w.first + b, w.second + b}); for (auto& g : o.v) v.push_back(g); }
    ld length() const { ld l = 0; for (auto& g : v) l += g.L; return l; }
    // every piece that may be at s, with the local parameter
    void where(ld s, ld tol, std::vector<std::pair<int, ld>>& out) const {
        ld b = 0; for (size_t i = 0; i < v.size(); ++i) { if (s >= b - tol && s <= b + v[i].L + tol) out.push_back({(int)i, std::min(std::max(s - b, (ld)0), v[i].L)}); b += v[i].L; for (auto& w : wraps) if (w.first == (int)i && s >= b - tol && s <= b + tol) { ld o = 0; for (size_t j = (size_t)w.second; j < v.size() && o <= tol; ++j) { out.push_back({(int)j, 0}); o += v[j].L; } } }
    }
    bool snaps() const { for (auto& g : v) if (g.snap) return true; return false; }   // within rounding of no turn or a half turn, and not exactly
    Pose first() const { return at(v.front(), 0, 0, 0).p; }
    Pose last() const { Pose p = at(v.back(), v.back().L, 0, 0).p; p.R = v.back().R1; return p; }
    ld size() const { ld m = 1; for (auto& g : v) { m = std::max(m, ref::norm(g.p0)); m = std::max(m, ref::norm(g.p1)); m = std::max(m, ref::norm(g.c) + ref::norm(g.ex)); } return m; }
    ld shortest() const { ld m = 1e300L; for (auto& g : v) if (g.L > 0) m = std::min(m, g.L); return m; }
};
// a corner path through points with rounded corners, as documented; returns 0 or the documented error code
struct Rounder {
    double radius, eqr; int n = 0; Pose a, b; std::vector<Piece> v; bool finished = false;
    Rounder(double r, double e) : radius(r), eqr(e) {}
    static Pose along(const Piece& g, ld dist) { ld D = ref::norm(g.p1 - g.p0); return at(g, g.L * dist / D, 0, 0).p; }
    int add(const Pose& p, bool& close) { // close: a verdict within rounding of its threshold
        close = false; if (n == 0) { a = b = p; } else if (n == 1) b = p; else {
            V3 ab = b.p - a.p, bc = p.p - b.p; ld A = ref::norm(ab), B = ref::norm(bc); if (std::fabs(A - 1e-7L) < 1e-9L || std::fabs(B - 1e-7L) < 1e-9L) close = true; if (A < 1e-7L) return 3102; if (B < 1e-7L) return 3103;
            ld al = std::atan2(ref::norm(ref::cross(ab, bc)), dot(ab, bc)), PI_ = 3.14159265358979323846264L; if ((al > 4e-8L && al < 2e-6L) || (PI_ - al > 4e-8L && PI_ - al < 2e-6L)) close = true;
            if (PI_ - al < 1e-7L) return 3104;
            if (al < 1e-7L) { v.push_back(line(a, b, eqr)); a = b; b = p; }
            else {
                ld d = radius * std::tan(al / 2); if (std::fabs(d - A) < 1e-6L * (d + A) || std::fabs(d - B) < 1e-6L * (d + B)) close = true; if (d >= A) return 3105; if (d >= B) return 3106;
                Pose c0 = along(line(a, b, eqr), A - d), c1 = along(line(b, p, eqr), d); V3 t = ref::cross(ab, ref::cross(ab, bc)); t = (1 / ref::norm(t)) * t;
                v.push_back(line(a, c0, eqr)); v.push_back(arc(c0, c0.p - (ld)radius * t, c1.p, c1.R, al, eqr)); a = c1; b = p;
            }
        }
        ++n; return 0;
    }
    void finish() { if (n >= 1) v.push_back(line(a, b, eqr)); }
};
inline Pose rpose(Draw& d, double m) { Pose p; p.p = rvec(d, m); p.R = rrot(d); return fromK(toK(p)); }
inline double posedist(const KDL::Frame& f, const At& r, bool& skip_rot) { double e = vdist(f.p, r.p.p); skip_rot = r.rot_unclear; if (!skip_rot) e = std::max(e, pdist(f, r.p)); return e; }
}  // namespace mot
