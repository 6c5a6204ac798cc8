// Generation of random mechanisms, and conversions between the reference model and KDL values.
#pragma once
#include "core.hpp"
#include "ref.hpp"
#include "chain.hpp"
#include "tree.hpp"
#include "jntarray.hpp"
#include "jntarrayvel.hpp"
#include "jacobian.hpp"
#include "framevel.hpp"
#include "solveri.hpp"

namespace gen {
using namespace sim;
using ref::ld; using ref::V3; using ref::M3; using ref::Pose; using ref::Tw; using ref::Seg;

inline V3 rvec(Draw& d, double m) { double a = d.val(-m, m), b = d.val(-m, m), c = d.val(-m, m); return ref::v3(a, b, c); }
inline V3 runit(Draw& d) { for (;;) { V3 v = rvec(d, 1); ld n = ref::norm(v); if (n > 0.2L) return (1 / n) * v; } }
inline M3 rrot(Draw& d) {
    int k = (int)d.range(0, 3);
    if (k == 0) return ref::eye();
    if (k == 1) { int ax = (int)d.range(0, 2); V3 a = ref::v3(ax == 0, ax == 1, ax == 2); return ref::rodrigues(a, d.range(-2, 2) * 1.57079632679489661923L); }
    return ref::rodrigues(runit(d), d.uni(-3.1, 3.1));
}
inline KDL::Vector toK(V3 v) { return KDL::Vector((double)v[0], (double)v[1], (double)v[2]); }
inline KDL::Rotation toK(const M3& m) { return KDL::Rotation((double)m.m[0][0], (double)m.m[0][1], (double)m.m[0][2], (double)m.m[1][0], (double)m.m[1][1], (double)m.m[1][2], (double)m.m[2][0], (double)m.m[2][1], (double)m.m[2][2]); }
inline KDL::Frame toK(const Pose& p) { return KDL::Frame(toK(p.R), toK(p.p)); }
inline KDL::Twist toKt(const Tw& t) { return KDL::Twist(toK(t.v), toK(t.w)); }
inline KDL::Wrench toKw(const Tw& t) { return KDL::Wrench(toK(t.v), toK(t.w)); }
inline V3 fromK(const KDL::Vector& v) { return ref::v3(v(0), v(1), v(2)); }
inline Tw fromK(const KDL::Twist& t) { Tw r; r.v = fromK(t.vel); r.w = fromK(t.rot); return r; }
inline Tw fromK(const KDL::Wrench& t) { Tw r; r.v = fromK(t.force); r.w = fromK(t.torque); return r; }
inline Pose fromK(const KDL::Frame& f) { Pose p; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) p.R.m[i][j] = f.M(i, j); p.p = fromK(f.p); return p; }

struct SegOpts { double p_fixed = 0.15, p_axis = 0.3, p_trans = 0.2, p_scale = 0.25, p_offset = 0.2; bool inertia = true; double p_massless = 0.05; bool rotor = true; };
inline Seg rseg(Draw& d, const SegOpts& o, const std::string& name) {
    Seg g; g.name = name; g.joint_name = "j_" + name;
    bool fixed = d.chance(o.p_fixed), axis = d.chance(o.p_axis), trans = d.chance(o.p_trans); int k = (int)d.range(0, 2);
    g.jt = fixed ? ref::FIXED : axis ? (trans ? ref::TRANSAXIS : ref::ROTAXIS) : (trans ? ref::TRANSX + k : ref::ROTX + k);
    V3 ax = runit(d); if (d.chance(0.4)) ax = d.uni(0.3, 3) * ax;
    V3 org = rvec(d, 0.4);
    if (g.jt == ref::ROTAXIS || g.jt == ref::TRANSAXIS) { g.axis = ax; g.origin = d.chance(0.2) ? ref::v3(0, 0, 0) : org; }
    double sc = d.val(0.4, 2.0); bool neg = d.chance(0.4), use = d.chance(o.p_scale), useo = d.chance(o.p_offset); double of = d.val(-1.5, 1.5);
    if (!fixed) { g.scale = use ? (neg ? -sc : sc) : 1; g.offset = useo ? of : 0; }
    g.f_tip.R = rrot(d); g.f_tip.p = rvec(d, 0.5); if (d.chance(0.1)) g.f_tip.p = ref::v3(0, 0, 0);
    double m = d.val(0.3, 3); V3 com = rvec(d, 0.3); V3 dia = ref::v3(d.val(0.02, 0.3), d.val(0.02, 0.3), d.val(0.02, 0.3)); M3 R = rrot(d);
    // triangle inequality of principal moments
    ld a = dia[0] + dia[1], b = dia[1] + dia[2], c = dia[0] + dia[2];
    M3 D{}; D.m[0][0] = a; D.m[1][1] = b; D.m[2][2] = c;
    double rot = d.val(0.0, 0.3); bool massless = d.chance(o.p_massless), hasrot = d.chance(0.4);
    if (o.inertia && !massless) { g.mass = m; g.com = com; g.Ic = R * D * ref::tr(R); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) g.Ic.m[i][j] = g.Ic.m[j][i]; }
    if (o.rotor && hasrot && !fixed) g.jinertia = rot;
    // the reference works on the very doubles the library gets
    auto rnd = [](ld& x) { x = (double)x; };
    for (int i = 0; i < 3; ++i) { rnd(g.axis.x[i]); rnd(g.origin.x[i]); rnd(g.f_tip.p.x[i]); rnd(g.com.x[i]); for (int j = 0; j < 3; ++j) { rnd(g.f_tip.R.m[i][j]); rnd(g.Ic.m[i][j]); } }
    rnd(g.mass); rnd(g.scale); rnd(g.offset); rnd(g.jinertia);
    return g;
}
inline KDL::RigidBodyInertia toKi(const Seg& g) {
    return KDL::RigidBodyInertia((double)g.mass, toK(g.com), KDL::RotationalInertia((double)g.Ic.m[0][0], (double)g.Ic.m[1][1], (double)g.Ic.m[2][2], (double)g.Ic.m[0][1], (double)g.Ic.m[0][2], (double)g.Ic.m[1][2]));
}
inline KDL::Joint toKj(const Seg& g) {
    static const KDL::Joint::JointType T[] = {KDL::Joint::RotX, KDL::Joint::RotY, KDL::Joint::RotZ, KDL::Joint::TransX, KDL::Joint::TransY, KDL::Joint::TransZ, KDL::Joint::RotAxis, KDL::Joint::TransAxis, KDL::Joint::Fixed};
    if (g.jt == ref::ROTAXIS || g.jt == ref::TRANSAXIS) return KDL::Joint(g.joint_name, toK(g.origin), toK(g.axis), T[g.jt], (double)g.scale, (double)g.offset, (double)g.jinertia, (double)g.damping, (double)g.stiffness);
    return KDL::Joint(g.joint_name, T[g.jt], (double)g.scale, (double)g.offset, (double)g.jinertia, (double)g.damping, (double)g.stiffness);
}
inline KDL::Segment toKs(const Seg& g) { return KDL::Segment(g.name, toKj(g), toK(g.f_tip), toKi(g)); }

inline KDL::JntArray rq(Draw& d, unsigned n, double m) { KDL::JntArray q(n); for (unsigned i = 0; i < n; ++i) q(i) = d.val(-m, m); return q; }
inline std::vector<ld> toL(const KDL::JntArray& q) { std::vector<ld> r(q.rows()); for (unsigned i = 0; i < q.rows(); ++i) r[i] = q(i); return r; }

// observation helpers: log and compare
inline void log(Ctx& c, const KDL::Frame& f) { for (int i = 0; i < 9; ++i) c.d(f.M.data[i]); for (int i = 0; i < 3; ++i) c.d(f.p(i)); }
inline void log(Ctx& c, const KDL::Twist& t) { for (int i = 0; i < 6; ++i) c.d(t(i)); }
inline void log(Ctx& c, const KDL::Wrench& t) { for (int i = 0; i < 6; ++i) c.d(t(i)); }
inline void log(Ctx& c, const KDL::JntArray& q) { for (unsigned i = 0; i < q.rows(); ++i) c.d(q(i)); }
inline bool near(double a, ld b, double tol) { if (std::isnan(a) || std::isinf(a)) return false; return std::fabs((ld)a - b) <= tol * std::max<ld>(1, std::max<ld>(std::fabs((ld)a), std::fabs(b))); }
inline double vdist(const KDL::Vector& a, V3 b) { ld s = 0; for (int i = 0; i < 3; ++i) { ld e = a(i) - b[i]; s += e * e; } double r = (double)std::sqrt(s); return std::isnan(r) ? INFINITY : r; }
inline double pdist(const KDL::Frame& a, const Pose& b) { double m = vdist(a.p, b.p); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double e = std::fabs((double)(a.M(i, j) - b.R.m[i][j])); if (!(e <= m)) m = std::isnan(e) ? INFINITY : e; } return m; }
inline double tdist(const KDL::Twist& a, const Tw& b) { double x = vdist(a.vel, b.v), y = vdist(a.rot, b.w); return std::max(x, y); }
inline double wdist(const KDL::Wrench& a, const Tw& b) { double x = vdist(a.force, b.v), y = vdist(a.torque, b.w); return std::max(x, y); }
inline double tnorm(const Tw& t) { return (double)std::max(ref::norm(t.v), ref::norm(t.w)); }
inline bool is_nan(const KDL::JntArray& q) { for (unsigned i = 0; i < q.rows(); ++i) if (!(std::fabs(q(i)) < 1e300)) return true; return false; }

struct ChainPair {
    KDL::Chain chain; ref::Model m; int serial = 0;
    void add(const Seg& g) { m.add(g); chain.addSegment(toKs(g)); }
    // the chain object is assigned a part of itself: same object, fewer segments (at least one moving joint unless told otherwise)
    bool cut(Draw& d, bool need_joint = true) {
        size_t ns = m.s.size(); if (ns < 2) return false; size_t drop = (size_t)d.range(1, std::min<int64_t>(3, (int64_t)ns - 1)), start = d.chance(0.3) ? (size_t)d.range(0, (int64_t)drop) : 0; ref::Model m2; KDL::Chain k2; for (size_t i = start; i < start + ns - drop; ++i) { m2.add(m.s[i]); k2.addSegment(chain.getSegment((unsigned)i)); }
        if (need_joint && !k2.getNrOfJoints()) return false; m = m2; chain = k2; return true;
    }
    // change geometry / payload in place: no counts change, so no solver needs an update
    void retip(size_t i, const Pose& p) { m.s[i].f_tip = p; for (int a = 0; a < 3; ++a) { m.s[i].f_tip.p.x[a] = (double)p.p[a]; for (int b = 0; b < 3; ++b) m.s[i].f_tip.R.m[a][b] = (double)p.R.m[a][b]; } chain.getSegment((unsigned)i).setFrameToTip(toK(m.s[i].f_tip)); }
    void payload(size_t i, const Seg& from) { m.s[i].mass = from.mass; m.s[i].com = from.com; m.s[i].Ic = from.Ic; chain.getSegment((unsigned)i).setInertia(toKi(m.s[i])); }
};
}  // namespace gen
