// M01 velocity profiles, M02 geometric paths, M03 trajectories: sampled by simulated control loops and readers under
// seeded clocks (jitter, stalls, jumps, time running backwards, exact boundary instants).
#include "motgen.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
using namespace mot; using namespace KDL;
namespace {
// ================================================================================ M01
namespace m01 {
struct Prof { std::unique_ptr<VelocityProfile> p; Plan s, lim; std::vector<std::pair<double, double>> seen; bool copied = false; ld amp = 0; };
// one-sided values around t, for instants at which the library may answer with either side
struct V3d { double p, v, a; bool vt, at; };
V3d ask(Prof& c, double t) {
    V3d r{}; r.p = c.p->Pos(t); try { r.v = c.p->Vel(t); } catch (const Error_MotionPlanning_Incompatible&) { r.vt = true; } try { r.a = c.p->Acc(t); } catch (const Error_MotionPlanning_Incompatible&) { r.at = true; } return r;
}
ld poly(const Plan& s, ld t, int der) { // the spline through its boundary conditions
    ld T = s.want, D[6] = {}; if (s.order == 1) { D[0] = s.p1; D[1] = (s.p2 - (ld)s.p1) / T; }
    if (s.order == 3) { ld d = s.p2 - (ld)s.p1 - s.v1 * T, e = s.v2 - (ld)s.v1; D[0] = s.p1; D[1] = s.v1; D[2] = (3 * d - e * T) / (T * T); D[3] = (e * T - 2 * d) / (T * T * T); }
    if (s.order == 5) { ld d = s.p2 - (ld)s.p1 - s.v1 * T - s.a1 * T * T / 2, e = s.v2 - (ld)s.v1 - s.a1 * T, f = s.a2 - (ld)s.a1; D[0] = s.p1; D[1] = s.v1; D[2] = s.a1 / 2; D[3] = (20 * d - 8 * e * T + f * T * T) / (2 * T * T * T); D[4] = (-30 * d + 14 * e * T - 2 * f * T * T) / (2 * T * T * T * T); D[5] = (12 * d - 6 * e * T + f * T * T) / (2 * T * T * T * T * T); }
    ld r = 0, k = 1; for (int i = der; i < 6; ++i) { ld m = 1; for (int j = 0; j < der; ++j) m *= i - j; r += m * D[i] * k; k *= t; } return r;
}
void judge(Prof& c, double t, Ctx& x) {
    const Plan& s = c.s; std::string nm = KIND[s.kind]; ld T = s.want, D = s.dist(), sc = 1e-12L * (1 + std::fabs((ld)s.p1) + std::fabs((ld)s.p2) + D + c.amp); V3d r = ask(c, t); x.d(r.p); x.d(r.v); x.d(r.a);
    for (auto& k : c.seen) if (k.first == t && !(k.second == r.p)) x.fail("depends-on-order", "%s: position at %.17g was %.17g, is now %.17g", nm.c_str(), t, k.second, r.p); c.seen.push_back({t, r.p}); if (c.seen.size() > 40) c.seen.erase(c.seen.begin());
    ld lo = std::min<ld>(s.p1, s.p2), hi = std::max<ld>(s.p1, s.p2);
    const char* cp = c.copied ? " (copy)" : "";
    if (s.kind == SPLINE) {
        if (!(t >= 0 && t <= T)) return; ld m[3]; if (T <= 1e-9L) { if (!(std::fabs(r.p - s.p2) <= sc + std::fabs((ld)s.v2) * 2e-9L + std::fabs((ld)s.a2) * 1e-15L)) x.fail("wrong-end", "spline of no duration is at %.12g, its end is %.12g", r.p, s.p2);
            if (T == 0 && t == 0) { ld wv = s.order > 1 ? s.v2 : 0, wa = s.order > 3 ? s.a2 : 0; if (!(std::fabs(r.v - wv) <= 1e-12L * (1 + std::fabs(wv))) || !(std::fabs(r.a - wa) <= 1e-12L * (1 + std::fabs(wa)))) x.fail("wrong-end", "spline of no duration ends with velocity %.12g and acceleration %.12g instead of %.12g and %.12g", r.v, r.a, (double)wv, (double)wa); x.probe("spline-of-no-duration"); } return; }
        ld big = D + (std::fabs((ld)s.v1) + std::fabs((ld)s.v2)) * T * (s.order > 1) + (std::fabs((ld)s.a1) + std::fabs((ld)s.a2)) * T * T * (s.order > 3); for (int k = 0; k < 3; ++k) { m[k] = poly(s, t, k); ld q = k == 0 ? r.p : k == 1 ? r.v : r.a; ld tol = 1e-11L * (big * 60 + (k == 0 ? sc * 1e12L : std::fabs((ld)s.p1) + std::fabs((ld)s.p2))) / std::pow(T, (ld)k); if (!(std::fabs(q - m[k]) <= tol)) x.fail(k == 0 ? "wrong-position" : k == 1 ? "wrong-velocity" : "wrong-acceleration", "spline of order %d%s at %.12g of %.12g s is %.12g, its boundary conditions give %.12g", s.order, cp, t, (double)T, (double)q, (double)m[k]); }
        x.probe("spline-checked"); return;
    }
    bool jump = s.kind == DIRAC && T == 0;
    if (jump) { if (!(r.p == (t <= 0 ? s.p1 : s.p2))) x.fail("wrong-position", "jump from %.12g to %.12g is at %.12g at time %g", s.p1, s.p2, r.p, t); return; }
    if ((s.kind == RECT || s.kind == DIRAC) && !r.at && r.a != 0) x.fail("wrong-acceleration", "%s: acceleration %.12g", nm.c_str(), r.a);
    if (r.vt) x.fail("velocity-refused", "%s of %.12g s: velocity refused at %.12g", nm.c_str(), (double)T, t);
    if (!(r.p >= lo - sc && r.p <= hi + sc)) x.fail("out-of-range", "%s%s: position %.12g at %.12g s leaves [%.12g, %.12g]", nm.c_str(), cp, r.p, t, (double)lo, (double)hi);
    ld dt = 1e-12L * T; if (t < 0 || t > T + dt) {
        x.probe("outside"); if (t < 0 && !(std::fabs(r.p - s.p1) <= sc)) x.fail("wrong-rest", "%s%s: %.12g before its start %.12g", nm.c_str(), cp, r.p, s.p1); if (t > T && !(std::fabs(r.p - s.p2) <= sc)) x.fail("wrong-rest", "%s%s: %.12g after its end %.12g (%.12g s past %.12g s)", nm.c_str(), cp, r.p, s.p2, t, (double)T);
        if (!(r.v == 0)) x.fail("moves-at-rest", "%s%s: velocity %.12g at %.12g s, outside 0..%.12g s", nm.c_str(), cp, r.v, t, (double)T); if (!r.at && !(r.a == 0)) x.fail("moves-at-rest", "%s%s: acceleration %.12g at %.12g s, outside 0..%.12g s", nm.c_str(), cp, r.a, t, (double)T);
        return;
    }
    ld vlim = s.kind == DIRAC ? D / T : (ld)s.vmax * s.frac, alim = (ld)s.amax * s.frac * s.frac, vt = 1e-11L * (vlim + (s.kind == TRAP || s.kind == HALF ? alim * T : 0)), dir = s.p2 >= s.p1 ? 1 : -1;
    if (!(std::fabs((ld)r.v) <= vlim + vt)) x.fail("speed-limit", "%s%s: speed %.12g at %.12g s, the limit is %.12g", nm.c_str(), cp, r.v, t, (double)vlim);
    if (!(r.v * dir >= -vt)) x.fail("moves-backwards", "%s%s: velocity %.12g at %.12g s from %.12g to %.12g", nm.c_str(), cp, r.v, t, s.p1, s.p2);
    if ((s.kind == TRAP || s.kind == HALF) && (r.at || !(std::fabs((ld)r.a) <= alim * (1 + 1e-9L)))) x.fail("acceleration-limit", "%s%s: acceleration %.12g at %.12g s, the limit is %.12g", nm.c_str(), cp, r.a, t, (double)alim);
    // derivatives, by differences over a short span that may contain one change of phase
    ld h = T * 1e-4L; if (!(h > 0) || t - h < 0 || t + h > T) return; double t1 = (double)(t - h), t2 = (double)(t + h); h = ((ld)t2 - t1) / 2; V3d A = ask(c, t1), B = ask(c, t2); ld sl = s.kind == TRAP || s.kind == HALF ? alim : 0, fd = ((ld)B.p - A.p) / (2 * h);
    if (!(std::fabs(fd - r.v) <= sl * h * 1.01L + sc / h * 0.05L + vt)) x.fail("velocity-not-derivative", "%s%s: velocity %.12g at %.12g s of %.12g s, the position changes at %.12g", nm.c_str(), cp, r.v, t, (double)T, (double)fd);
    if (s.kind == TRAP || s.kind == HALF) { if (A.at || B.at || r.at) x.fail("acceleration-refused", "%s", nm.c_str()); if (A.a == r.a && B.a == r.a) { ld fa = ((ld)B.v - A.v) / (2 * h); if (!(std::fabs(fa - r.a) <= vt / h + 1e-9L * alim)) x.fail("acceleration-not-derivative", "%s%s: acceleration %.12g at %.12g s of %.12g s, the velocity changes at %.12g", nm.c_str(), cp, r.a, t, (double)T, (double)fa); x.probe("acceleration-checked"); } }
    x.probe("derivative-checked");
}
void ends(Prof& c, Ctx& x) {
    const Plan& s = c.s; std::string nm = KIND[s.kind]; ld T = s.want, D = s.dist(); double got = c.p->Duration(); x.d(got); const char* cp = c.copied ? " (copy)" : "";
    if (!(std::fabs((ld)got - T) <= 1e-10L * (1e-12L + T))) x.fail("wrong-duration", "%s%s from %.12g to %.12g (limits %.6g, %.6g%s) takes %.12g s, should take %.12g s", nm.c_str(), cp, s.p1, s.p2, s.vmax, s.amax, s.starting ? "" : ", ending", got, (double)T);
    if (s.kind == DIRAC && got == 0) return; ld sc = 1e-12L * (1 + std::fabs((ld)s.p1) + std::fabs((ld)s.p2) + D + c.amp); double e = c.p->Pos(got), b = c.p->Pos(0);
    if (s.kind == SPLINE && T <= 1e-9L) return;
    if (s.kind == SPLINE) sc += 1e-9L * ((std::fabs((ld)s.v1) + std::fabs((ld)s.v2)) * T * (s.order > 1) + (std::fabs((ld)s.a1) + std::fabs((ld)s.a2)) * T * T * (s.order > 3));
    if (T > 0 && !(std::fabs((ld)b - s.p1) <= sc)) x.fail("wrong-start", "%s%s starts at %.12g instead of %.12g", nm.c_str(), cp, b, s.p1);
    if (!(std::fabs((ld)e - s.p2) <= sc)) x.fail("wrong-end", "%s%s ends at %.12g instead of %.12g", nm.c_str(), cp, e, s.p2);
    if (s.kind == TRAP || s.kind == HALF) {
        ld vt = 1e-11L * (s.vmax + (ld)s.amax * T), dir = s.p2 >= s.p1 ? 1 : -1; double v0 = c.p->Vel(0), v1 = c.p->Vel(got); ld w0 = 0, w1 = 0; if (s.kind == HALF && D > 0) { (s.starting ? w1 : w0) = dir * s.peak(); }
        if (!(std::fabs(v0 - w0) <= vt)) x.fail("wrong-start-velocity", "%s%s starts with velocity %.12g instead of %.12g", nm.c_str(), cp, v0, (double)w0);
        if (!(std::fabs(v1 - w1) <= vt) && !(v1 == 0 && got > T)) x.fail("wrong-end-velocity", "%s%s ends with velocity %.12g instead of %.12g", nm.c_str(), cp, v1, (double)w1);
    }
    x.probe("ends-checked");
}
void sample(Prof& c, const Step& st, Ctx& x) {
    Draw d = x.draw(st); double T = c.s.want, dt = T / (double)d.range(5, 40), t = d.chance(0.5) ? -dt : 0; int n = (int)st.a[2]; x.ev("loop"); x.op("sample-loop"); std::vector<double> asked; double far = T > 0 ? T : 1;
    for (int i = 0; i < n; ++i) {
        int f = d.chance(0.35) ? (int)d.range(1, 6) : 0; double q = t; if (f) x.nontrivial = true;
        switch (f) {
        case 1: x.fault("clock-stalls"); break; case 2: x.fault("clock-runs-back"); t -= dt * d.uni(0, 6); q = t; break; case 3: x.fault("clock-jumps"); t = d.uni(-0.5, 1.5) * far; q = t; break;
        case 4: { x.fault("exact-instant"); const double e[] = {0, T, T / 2, std::nextafter(T, 1e300), std::nextafter(T, -1e300), -0.0, c.s.vmax / c.s.amax, T - c.s.vmax / c.s.amax, -1e-300}; q = e[d.range(0, 8)]; break; }
        case 5: x.fault("reader-far-away"); q = d.chance(0.5) ? -1e3 * far * d.u01() : 1e3 * far * (1 + d.u01()); break;
        case 6: if (!asked.empty()) { x.fault("asked-again"); q = d.pick(asked); } break;
        default: q = t + dt * d.uni(-0.3, 0.3); t += dt; x.time(dt); }
        asked.push_back(q); judge(c, q, x);
    }
    x.cover(mix64((uint64_t)c.s.kind * 64 + (c.s.dist() == 0) * 32 + (c.s.frac < 1) * 16 + c.s.order * 2 + c.copied) ^ mix64((uint64_t)(c.s.want > c.s.minimal * 1.000001) * 2 + (c.s.p2 < c.s.p1) + (c.s.kind == HALF && c.s.peak() < c.s.vmax) * 8 + c.s.starting * 16));
}
void execute(const Program& p, Ctx& x) {
    std::vector<std::unique_ptr<Prof>> v; int k = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "new") { std::unique_ptr<Prof> c(new Prof); Plan& s = c->lim; s.kind = (int)st.a[0]; s.vmax = std::pow(10.0, d.uni(-1.5, 1.5)); s.amax = s.vmax * std::pow(10.0, d.uni(-1.5, 1.5)); s.starting = d.chance(0.5); c->p.reset(new_profile(s)); c->s = s; x.ev("new"); x.i(s.kind); v.push_back(std::move(c)); if (v.size() > 1) x.nontrivial = true; continue; }
        if (v.empty()) continue; size_t at = (size_t)(st.a[0] % (int64_t)v.size()); Prof& c = *v[at];
        if (st.op == "limits") { x.ev("limits"); x.op("set-limits"); double vm = std::pow(10.0, d.uni(-1.5, 1.5)), am = vm * std::pow(10.0, d.uni(-1.5, 1.5)); if (c.s.planned) { x.fault("limits-changed-after-planning"); x.nontrivial = true; } set_max(c.p.get(), c.lim, vm, am, d.chance(0.5)); }
        if (st.op == "plan") {
            x.ev("plan"); int mode = (int)st.a[1]; Plan s = c.lim; double a = d.val(-5, 5), D = d.chance(0.12) ? 0 : std::pow(10.0, d.uni(-3, 2)) * (d.chance(0.5) ? 1 : -1), b = a + D; if (d.chance(0.1)) { D = s.vmax * s.vmax / s.amax * (s.kind == HALF ? 0.5 : 1) * (D < 0 ? -1 : 1); b = a + D; x.probe("threshold-distance"); } if (b == a && D != 0) b = a;
            s.p1 = a; s.p2 = b; double m = (double)s.min_duration(), q = 0; double base = m > 0 ? m : std::pow(10.0, d.uni(-1, 1)); int how = (int)d.range(0, 6); q = how == 0 ? 0 : how == 1 ? m : how == 2 ? m * d.uni(0.1, 0.999) : how == 3 ? base * std::pow(10.0, d.uni(0, 2)) : base * d.uni(1, 4);
            if (s.kind == SPLINE) { q = how == 0 ? 0 : std::pow(10.0, d.uni(-1, 1.5)); s.v1 = d.val(-3, 3); s.v2 = d.val(-3, 3); s.a1 = d.val(-5, 5); s.a2 = d.val(-5, 5); if (mode < 3) mode = 1; }
            if (mode == 2) q = d.chance(0.2) ? d.uni(1, 5) : d.chance(0.1) ? 0 : d.uni(0.01, 1);
            if (c.s.planned) { x.op("re-plan"); x.nontrivial = true; } x.op(mode == 0 ? "plan-fastest" : mode == 1 ? "plan-duration" : mode == 2 ? "plan-fraction" : "plan-boundary"); x.i(mode); x.d(a); x.d(b); x.d(q);
            plan(c.p.get(), s, mode, a, b, q); c.s = s; c.seen.clear(); c.copied = false; ld T0 = s.minimal; c.amp = (s.kind == TRAP || s.kind == HALF) ? 8 * (ld)s.amax * T0 * T0 : 0; ends(c, x); if (q > 0 && q < m && mode == 1) x.probe("limits-forbid-duration"); if (s.kind == HALF && s.peak() < s.vmax && s.want > s.minimal * 1.01) x.probe("stretched-without-cruise"); if (D == 0) x.probe("no-distance"); if (s.p2 < s.p1) x.probe("backwards");
            continue;
        }
        if (!c.s.planned) continue;
        if (st.op == "copy") { x.ev("copy"); x.op("copy"); x.nontrivial = true; std::unique_ptr<Prof> n(new Prof); n->s = c.s; n->lim = c.lim; n->amp = c.amp; n->p.reset(c.p->Clone()); n->copied = true; bool drop = d.chance(0.5), spoil = d.chance(0.5); ends(*n, x); if (spoil) { Plan s = c.lim; plan(c.p.get(), s, s.kind == SPLINE ? 1 : (int)d.range(0, 1), 7, 9, 3); c.s = s; c.seen.clear(); c.copied = false; c.amp = s.kind == TRAP || s.kind == HALF ? 8 * (ld)s.amax * s.minimal * s.minimal : 0; } if (drop) v[at] = std::move(n); else v.push_back(std::move(n)); continue; }
        if (st.op == "loop") sample(c, st, x);
    }
}
void generate(Rng& r, Program& p, bool thorough) {
    int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) { p.add("new", {r.weighted({2, 4, 4, 2, 1})}, r.next()); p.add("plan", {i, r.weighted({3, 5, 2, 2, 3})}, r.next()); }
    int steps = (int)r.range(4, thorough ? 40 : 20); for (int i = 0; i < steps; ++i) { int64_t w = r.range(0, 5); int o = r.weighted({4, 2, 1.2, 1}); if (o == 0) p.add("loop", {w, 0, r.range(4, 25)}, r.next()); if (o == 1) p.add("plan", {w, r.weighted({3, 5, 2, 2, 3})}, r.next()); if (o == 2) p.add("copy", {w}, r.next()); if (o == 3) p.add("limits", {w}, r.next()); }
    p.add("loop", {r.range(0, 5), 0, 20}, r.next());
}
Scenario S{"M01", "velocity profiles", "exploration", generate, execute,
    "A run sets up 1-3 profiles of all five kinds, re-plans, stretches, slows, copies and re-limits them in seeded order, and samples them by control loops whose clock jitters, stalls, runs back, jumps and hits the exact phase instants. Non-trivial: a clock fault, re-plan, copy or limit change; distinct by the sequence of operations and clock faults.",
    {"VelocityProfile_Rectangular, _Trap, _TrapHalf, _Spline, _Dirac"}, {"clocks and readers", "heap (seeded content of fresh memory)"},
    {"limits positive, durations not negative; a spline needs a duration and is judged inside it", "promises follow the limits in force at the time of planning", "derivatives by differences over 1e-4 of the duration, allowing one change of phase inside", "a profile without finite acceleration or velocity may refuse to name it"},
    400000, 20000000, 40, 500, {"fault:clock-stalls", "fault:clock-runs-back", "fault:clock-jumps", "fault:exact-instant", "fault:limits-changed-after-planning", "probe:outside", "probe:derivative-checked", "probe:acceleration-checked", "probe:ends-checked", "probe:spline-checked", "probe:limits-forbid-duration", "probe:stretched-without-cruise", "probe:no-distance", "probe:backwards", "op:copy", "op:plan-fraction"}};
}
// ================================================================================ M02
namespace m02 {
struct Holder { Path* p = nullptr; bool ours = true; std::vector<std::shared_ptr<Holder>> deps; std::shared_ptr<RotationalInterpolation> orient; RefPath r; bool used = false; int kind = 0; bool copied = false; std::vector<double> ends;
    std::vector<std::pair<double, Frame>> pose; std::vector<std::pair<double, Twist>> vel; ~Holder() { if (ours) delete p; } };
typedef std::shared_ptr<Holder> H;
struct World { std::vector<H> v; };
void judge(Holder& h, double s, double sd, double sdd, Ctx& x) {
    const RefPath& r = h.r; ld L = r.length(), sz = r.size(), tol = 1e-9L * (1 + L); Frame F = h.p->Pos(s); Twist V = h.p->Vel(s, sd), A = h.p->Acc(s, sd, sdd); log(x, F); log(x, V);
    for (auto& k : h.pose) if (k.first == s) { x.probe("asked-again"); if (!(vdist(F.p, fromK(k.second.p)) <= 1e-9 * (double)sz)) x.fail("depends-on-order", "the pose at %.15g changed by %.6g since it was last asked", s, vdist(F.p, fromK(k.second.p))); for (int i = 0; i < 9; ++i) if (!(std::fabs(F.M.data[i] - k.second.M.data[i]) <= 1e-9)) x.fail("depends-on-order", "the orientation at %.15g changed since it was last asked", s); }
    for (auto& k : h.vel) if (k.first == s) { Twist W = h.p->Vel(s, 1); ld m = 1 + tnorm(fromK(W)); if (!(tdist(W, fromK(k.second)) <= 1e-9 * (double)m)) x.fail("depends-on-order", "the velocity at %.15g changed from %.6g %.6g %.6g to %.6g %.6g %.6g since it was last asked", s, k.second.vel(0), k.second.vel(1), k.second.vel(2), W.vel(0), W.vel(1), W.vel(2)); }
    if (h.pose.size() < 60) { h.pose.push_back({s, F}); h.vel.push_back({s, h.p->Vel(s, 1)}); }
    std::vector<std::pair<int, ld>> c; r.where(s, tol, c); if (c.empty()) return;
    double ep = 1e300, ev = 1e300, ea = 1e300; bool skip = false; ld sv = 0, sa = 0; const char* kd = "";
    for (auto& k : c) {
        const Piece& g = r.v[k.first]; At a = at(g, k.second, sd, sdd); if (a.rot_unclear) skip = true; ep = std::min(ep, vdist(F.p, a.p.p)); ld f = g.L > 0 ? 1 / g.L : 0;
        ev = std::min(ev, vdist(V.vel, a.v.v)); ea = std::min(ea, vdist(A.vel, a.a.v)); ld rad = g.kind ? ref::norm(g.ex) * g.alpha : ref::norm(g.p1 - g.p0), w = g.kind ? g.alpha : 1; sv = std::max(sv, f * std::fabs((ld)sd) * (rad + g.angle)); sa = std::max(sa, (f * std::fabs((ld)sdd) + f * f * (ld)sd * sd * w) * (rad + g.angle)); kd = g.kind == 1 ? "arc" : g.kind == 2 ? "point" : "line";
    }
    if (!(ep <= 1e-8 * (double)sz)) x.fail("wrong-pose", "pose at %.12g of %.12g is off by %.6g (%s%s, %zu pieces%s)", s, (double)L, ep, kd, c.size() > 1 ? ", boundary" : "", r.v.size(), h.copied ? ", copy" : "");
    // the rates at a boundary are those of either side; at rates that are too close they cannot tell
    double tv = 1e-7 * (double)(sv + 1e-9L), ta = 1e-7 * (double)(sa + 1e-9L); if (!(ev <= tv)) x.fail("wrong-velocity", "velocity at %.12g of %.12g (rate %.6g) is off by %.6g of %.6g (%s%s)", s, (double)L, sd, ev, (double)sv, kd, h.copied ? ", copy" : ""); if (!(ea <= ta)) x.fail("wrong-acceleration", "acceleration at %.12g of %.12g (rates %.6g %.6g) is off by %.6g of %.6g (%s%s)", s, (double)L, sd, sdd, ea, (double)sa, kd, h.copied ? ", copy" : "");
    if (skip) { x.probe("half-turn"); for (auto& k : c) { const Piece& g = r.v[k.first]; if (c.size() == 1 && g.unclear && g.L > 0) { double e = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld f = k.second / g.L; if (f < 1e-12L) e = std::max(e, (double)std::fabs(F.M(i, j) - g.R0.m[i][j])); if (f > 1 - 1e-12L) e = std::max(e, (double)std::fabs(F.M(i, j) - g.R1.m[i][j])); } if (!(e <= 1e-5)) x.fail("wrong-orientation", "orientation at the end of a half turn is off by %.6g", e); } } return; }
    double eo = 1e300, ew = 1e300, el = 1e300; for (auto& k : c) { At a = at(r.v[k.first], k.second, sd, sdd); double e = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double q = std::fabs((double)(F.M(i, j) - a.p.R.m[i][j])); if (!(q <= e)) e = q; } if (std::isnan(e)) e = 1e300; eo = std::min(eo, e); ew = std::min(ew, vdist(V.rot, a.v.w)); el = std::min(el, vdist(A.rot, a.a.w)); }
    if (!(eo <= 1e-7)) x.fail("wrong-orientation", "orientation at %.12g of %.12g is off by %.6g (%s%s, %zu pieces%s)", s, (double)L, eo, kd, c.size() > 1 ? ", boundary" : "", r.v.size(), h.copied ? ", copy" : "");
    if (!(ew <= tv)) x.fail("wrong-velocity", "angular velocity at %.12g of %.12g is off by %.6g of %.6g (%s%s)", s, (double)L, ew, (double)sv, kd, h.copied ? ", copy" : ""); if (!(el <= ta)) x.fail("wrong-acceleration", "angular acceleration at %.12g is off by %.6g of %.6g (%s%s)", s, el, (double)sa, kd, h.copied ? ", copy" : "");
    x.probe(c.size() > 1 ? "boundary-checked" : "checked");
}
void whole(Holder& h, Ctx& x) {
    ld L = h.r.length(); double l = h.p->PathLength(); x.d(l); if (!(std::fabs(l - L) <= 1e-9L * (1 + L))) x.fail("wrong-length", "length is %.12g, the parts give %.12g (%zu pieces%s)", l, (double)L, h.r.v.size(), h.copied ? ", copy" : ""); judge(h, 0, 1, 0, x); judge(h, l, 1, 0, x);
}
// the library's single-axis interpolation, owned by the path or kept by the caller
RotationalInterpolation* orient(Holder& h, bool own) { if (own) return new RotationalInterpolation_SingleAxis(); h.orient.reset(new RotationalInterpolation_SingleAxis()); return h.orient.get(); }
M3 turn(Draw& d, const M3& R) { if (d.chance(0.2)) return R; if (d.chance(0.08)) return fromK(toK(Pose{R * ref::rodrigues(runit(d), 3.14159265358979323846264L), ref::v3(0, 0, 0)})).R; ld a = d.uni(0.01, 3); return R * ref::rodrigues(runit(d), a); }
Pose dbl(const Pose& p) { return fromK(toK(p)); }
// new simple path from a given start; kinds: 0 line, 1 circle, 2 point, 3 rounded corners, 4 line by a twist
H simple(Draw& d, int kind, Pose a, Ctx& x, int npts = 4) {
    H h(new Holder); h->kind = kind; double eqr = d.chance(0.3) ? d.uni(1, 5) : d.uni(0.01, 1); bool own = d.chance(0.7);
    if (kind == 0) { Pose b; b.p = d.chance(0.15) ? a.p : a.p + rvec(d, 2); b.R = turn(d, a.R); b = dbl(b); if (ref::norm(b.p - a.p) < 1e-3L) b.p = a.p; h->r.v = {line(a, b, eqr)}; h->p = new Path_Line(toK(a), toK(b), orient(*h, own), eqr, own); x.op("line"); if (h->r.v[0].L == 0) x.probe("zero-length"); }
    if (kind == 4) { Tw t; t.v = d.chance(0.15) ? ref::v3(0, 0, 0) : rvec(d, 1); t.w = d.chance(0.2) ? ref::v3(0, 0, 0) : (ld)d.uni(0.02, 2.9) * runit(d); t = fromK(toKt(t)); Pose b; b.p = a.p + t.v; if (ref::norm(t.v) < 1e-3L && ref::norm(t.v) > 0) { t.v = ref::v3(0, 0, 0); b.p = a.p; } ld n = ref::norm(t.w); b.R = n > 0 ? ref::rodrigues((1 / n) * t.w, n) * a.R : a.R; h->r.v = {line(a, b, eqr)}; h->p = new Path_Line(toK(a), toKt(t), orient(*h, own), eqr, own); x.op("line-by-twist"); }
    if (kind == 1) {
        V3 c, q; for (;;) { c = rvec(d, 2); q = rvec(d, 2); c = fromK(toK(c)); q = fromK(toK(q)); V3 e = a.p - c, f = q - c; ld n = ref::norm(ref::cross(e, f)); if (ref::norm(e) > 0.05L && n > 0.05L * ref::norm(e) * ref::norm(f) && ref::norm(f) > 0.05L) break; }
        M3 R = turn(d, a.R); Pose e; e.R = R; e.p = c; R = dbl(e).R; double al = d.chance(0.1) ? 0 : d.chance(0.2) ? d.uni(3.2, 9) : d.uni(0.01, 3.1); h->r.v = {arc(a, c, q, R, al, eqr)}; h->p = new Path_Circle(toK(a), toK(c), toK(q), toK(R), al, orient(*h, own), eqr, own); x.op("circle"); }
    if (kind == 2) { Piece g; g.kind = 2; g.p0 = a.p; g.R0 = g.R1 = a.R; g.axis = ref::v3(0, 0, 1); h->r.v = {g}; h->p = new Path_Point(toK(a)); x.op("point"); }
    if (kind == 3) {
        double rad = d.chance(0.05) ? 0.9 : d.uni(0.02, 0.3); if (d.chance(0.05)) { x.fault("bad-rounding-radius"); x.nontrivial = true; eqr = d.chance(0.5) ? 0 : -1; try { Path_RoundedComposite q(rad, eqr, orient(*h, own), own); x.fail("bad-input-accepted", "rounded path with equivalent radius %g", eqr); } catch (const Error_MotionPlanning_Not_Feasible& e) { if (e.GetType() != 3101) x.fail("wrong-error", "equivalent radius %g is refused with %d", eqr, e.GetType()); } eqr = 0.5; }
        Path_RoundedComposite* rc = new Path_RoundedComposite(rad, eqr, orient(*h, own), own); h->p = rc; Rounder ref_(rad, eqr); Pose at = a, prev = a; bool unclear = false;
        for (int i = 0; i < npts && !unclear; ++i) {
            Pose q = at; if (i) { q.p = at.p + rvec(d, 2); int f = d.chance(0.15) ? (int)d.range(1, 3) : 0; if (f == 1) { q.p = at.p; } if (f == 2) q.p = prev.p; if (f == 3) q.p = at.p + (at.p - prev.p); if (f) { x.fault(f == 1 ? "repeated-point" : f == 2 ? "path-turns-back" : "points-in-line"); x.nontrivial = true; } q.R = d.chance(0.3) ? at.R : at.R * ref::rodrigues(runit(d), d.uni(0.05, 1.2)); q = dbl(q); }
            if (d.chance(0.1)) { x.fault("copied-half-built"); x.nontrivial = true; Path* n = rc->Clone(); delete h->p; h->p = n; rc = static_cast<Path_RoundedComposite*>(n); h->copied = true; }
            bool close; Rounder keep = ref_; int want = ref_.add(q, close), got = 0; try { rc->Add(toK(q)); } catch (const Error_MotionPlanning_Not_Feasible& e) { got = e.GetType(); } catch (const Error_MotionPlanning&) { got = -1; }
            x.i(got); if (got) { x.fault("rejected-point"); x.nontrivial = true; } if (close) { if (got) ref_ = keep; else if (want) unclear = true; else continue; } else if (got != want) x.fail(want ? "bad-input-accepted" : "valid-input-refused", "corner point %d: error %d, documented is %d (radius %.6g)", i, got, want, rad);
            if (!got) { if (i) prev = at; at = q; }
            if (i == 0) prev = at;
        }
        if (unclear || ref_.n == 0) { x.probe("undecided-corner"); return H(); }
        rc->Finish(); ref_.finish(); h->r.v = ref_.v; x.op("rounded"); if (ref_.v.size() > 1) x.probe("corner-rounded"); if (ref_.n == 1) x.probe("one-point-rounded");
    }
    if (h->r.snaps()) { x.probe("undecided-turn"); return H(); }
    return h;
}
H compose(const std::vector<H>& parts, const std::vector<bool>& agg, Ctx& x) { H h(new Holder); Path_Composite* c = new Path_Composite(); h->p = c; h->kind = 5; for (size_t i = 0; i < parts.size(); ++i) { c->Add(parts[i]->p, agg[i]); if (agg[i]) { parts[i]->ours = false; if (parts[i]->orient) h->deps.push_back(parts[i]); for (auto& q : parts[i]->deps) h->deps.push_back(q); } else h->deps.push_back(parts[i]); parts[i]->used = true; h->r.append(parts[i]->r); h->ends.push_back((double)h->r.length()); } x.op("composite"); return h; }
bool closed(const RefPath& r) { if (r.v.empty() || r.length() < 1e-3L) return false; Pose a = r.first(), b = r.last(); ld e = ref::norm(a.p - b.p); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e = std::max(e, std::fabs(a.R.m[i][j] - b.R.m[i][j])); return e < 1e-9L; }
// a path somewhere, of any build; used by trajectories too
H build(Draw& d, Ctx& x, int depth) {
    int k = d.weighted({3, 2, 0.5, 2, 1, depth > 0 ? 4.0 : 0.0, depth > 0 ? 1.0 : 0.0}); Pose a = rpose(d, 2); if (k < 5) { H h = simple(d, k, a, x, (int)d.range(1, 6)); return h; }
    std::vector<H> parts; std::vector<bool> agg; int n = (int)d.range(1, 4); Pose at_ = a; for (int i = 0; i < n; ++i) { H h = depth > 1 && d.chance(0.25) ? build(d, x, depth - 1) : simple(d, d.weighted({3, 2, 0.4, 1, 1}), at_, x, (int)d.range(1, 4)); if (!h) continue; parts.push_back(h); agg.push_back(d.chance(0.7)); if (d.chance(0.9)) at_ = dbl(h->r.last()); else at_ = rpose(d, 2); }
    if (parts.empty()) return H(); if (k == 6) { H h(new Holder); Pose s = dbl(parts[0]->r.first()), e = dbl(parts.back()->r.last()); if (ref::norm(s.p - e.p) > 1e-3L) { Piece g = line(e, s, 0.3); if (g.snap) return H(); h->r.v = {g}; h->p = new Path_Line(toK(e), toK(s), new RotationalInterpolation_SingleAxis(), 0.3); parts.push_back(h); agg.push_back(true); } }
    H c = compose(parts, agg, x); if (k == 6 && closed(c->r)) { int times = (int)d.range(1, 4); bool own = d.chance(0.6); H y(new Holder); y->kind = 6; y->p = new Path_Cyclic_Closed(c->p, times, own); for (int i = 0; i < times; ++i) y->r.append(c->r); y->r.wraps.push_back({(int)y->r.v.size() - 1, 0}); c->used = true; if (own) { c->ours = false; y->deps = c->deps; } else y->deps.push_back(c); x.op("cyclic"); return y; }
    return c;
}
template <class C> void segments_of(C* c, const std::vector<double>& ends, Holder& h, Draw& d, Ctx& x) { // the composite's own account of its parts
    if (!c || ends.empty()) return; if (c->GetNrOfSegments() != (int)ends.size()) x.fail("wrong-parts", "%d parts instead of %zu", c->GetNrOfSegments(), ends.size()); ld L = h.r.length();
    for (size_t i = 0; i < ends.size(); ++i) if (!(std::fabs(c->GetLengthToEndOfSegment((int)i) - ends[i]) <= 1e-9 * (double)(1 + L))) x.fail("wrong-parts", "part %zu ends at %.12g instead of %.12g", i, c->GetLengthToEndOfSegment((int)i), ends[i]);
    double s = (double)L * d.u01(); int no = -1; double in = -1; c->GetCurrentSegmentLocation(s, no, in); if (no < 0 || no >= (int)ends.size()) x.fail("wrong-parts", "parameter %.12g is in part %d of %zu", s, no, ends.size()); double b = no ? ends[no - 1] : 0, t = 1e-9 * (double)(1 + L); if (!(s >= b - t && s <= ends[no] + t && std::fabs(in - (s - b)) <= t)) x.fail("wrong-parts", "parameter %.12g is placed at %.12g of part %d, which spans %.12g..%.12g", s, in, no, b, ends[no]);
    Frame A = c->Pos(s), B = c->GetSegment(no)->Pos(in); if (!(vdist(A.p, fromK(B.p)) <= 1e-8 * (double)h.r.size())) x.fail("wrong-parts", "pose differs from that of its part by %.6g", vdist(A.p, fromK(B.p))); x.probe("parts-checked");
}
void segments(Holder& h, Draw& d, Ctx& x) {
    segments_of(dynamic_cast<Path_Composite*>(h.p), h.ends, h, d, x); if (auto* r = dynamic_cast<Path_RoundedComposite*>(h.p)) { std::vector<double> ends; ld l = 0; for (auto& g : h.r.v) ends.push_back((double)(l += g.L)); segments_of(r, ends, h, d, x); x.probe("rounded-parts-checked"); }
    if (h.p->getIdentifier() == Path::ID_COMPOSITE || h.p->getIdentifier() == Path::ID_CYCLIC_CLOSED || h.p->getIdentifier() == Path::ID_ROUNDED_COMPOSITE) { bool refused = false; try { h.p->LengthToS(d.u01()); } catch (const Error_MotionPlanning_Not_Applicable&) { refused = true; } if (!refused) x.fail("length-converted", "a composition of parts converts a travelled length"); x.probe("length-refused"); }
}
void query(Holder& h, const Step& st, Ctx& x, std::vector<double>& asked) {
    Draw d = x.draw(st); ld L = h.r.length(); int n = (int)st.a[1]; x.ev("look-ups"); x.op("look-up-run"); double s = (double)L * d.u01(), ds = (double)L / d.range(5, 30);
    for (int i = 0; i < n; ++i) {
        int f = d.chance(0.5) ? (int)d.range(1, 4) : 0; double q = s, l = h.p->PathLength(); if (f) x.nontrivial = true;
        if (f == 1) { x.fault("reader-elsewhere"); q = (double)L * d.u01(); }
        if (f == 2) { x.fault("exact-boundary"); ld b = 0; size_t k = (size_t)d.range(0, (int64_t)h.r.v.size()); for (size_t j = 0; j < k; ++j) b += h.r.v[j].L; q = (double)b; if (dynamic_cast<Path_Composite*>(h.p) && !h.ends.empty() && d.chance(0.7)) q = static_cast<Path_Composite*>(h.p)->GetLengthToEndOfSegment((int)d.range(0, (int64_t)h.ends.size() - 1)); int e = (int)d.range(0, 3); if (e == 1) q = std::nextafter(q, 1e300); if (e == 2) q = std::nextafter(q, -1e300); }
        if (f == 3) { x.fault("runs-back"); s -= ds * d.uni(0, 5); if (s < 0) s = (double)L * d.u01(); q = s; }
        if (f == 4) { if (asked.empty()) continue; x.fault("asked-again"); q = d.pick(asked); }
        if (f == 0) { s += ds * d.uni(0.2, 1.8); if (s > L) s = 0; q = s; }
        q = std::min(std::max(q, 0.0), l); asked.push_back(q); judge(h, q, d.chance(0.2) ? 0 : d.uni(-2, 2), d.uni(-3, 3), x);
    }
    segments(h, d, x); x.cover(mix64((uint64_t)h.kind * 2 + h.copied) ^ mix64(h.r.v.size() * 16 + (h.r.wraps.empty() ? 0 : 1) + h.deps.size() * 1024));
    if (h.kind <= 1 && h.r.v.size() == 1) { const Piece& g = h.r.v[0]; ld D = g.kind ? g.alpha * ref::norm(g.ex) : ref::norm(g.p1 - g.p0); if (D > 1e-3L && L > 0) { double l = (double)D * d.u01(), q = h.p->LengthToS(l); if (!(std::fabs(q - l / D * L) <= 1e-9L * (1 + L))) x.fail("wrong-length-scale", "a travelled length of %.12g is at %.12g instead of %.12g", l, q, (double)(l / D * L)); x.probe("length-scale"); } }
}
void execute(const Program& p, Ctx& x) {
    World w; std::map<Holder*, std::vector<double>> asked; int k = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "make") { x.ev("make"); H h = build(d, x, (int)st.a[0]); if (h) { whole(*h, x); w.v.push_back(h); } if (w.v.size() > 6) w.v.erase(w.v.begin()); continue; }
        if (w.v.empty()) continue; size_t i = (size_t)(st.a[0] % (int64_t)w.v.size()); H h = w.v[i];
        if (st.op == "ask") { query(*h, st, x, asked[h.get()]); }
        if (st.op == "copy") { x.ev("copy"); x.op("copy"); x.nontrivial = true; H n(new Holder); n->p = h->p->Clone(); n->r = h->r; n->kind = h->kind; n->ends = h->ends; n->copied = true; if (n->p->getIdentifier() != h->p->getIdentifier()) x.fail("copy-differs", "the copy is of kind %d, the original of %d", (int)n->p->getIdentifier(), (int)h->p->getIdentifier()); bool drop = d.chance(0.5); if (drop) { x.fault("original-destroyed"); asked.erase(h.get()); w.v[i].reset(); h.reset(); w.v[i] = n; } else w.v.push_back(n); whole(*n, x); }
        if (st.op == "join") { size_t j = (size_t)(st.a[1] % (int64_t)w.v.size()); H b = w.v[j]; if (i == j || h->used || b->used || h->r.v.size() + b->r.v.size() > 40) continue; x.ev("join"); std::vector<bool> ag{d.chance(0.6), d.chance(0.6)}; H c = compose({h, b}, ag, x); std::vector<H> keep; for (auto& q : w.v) { if (q == h && ag[0]) continue; if (q == b && ag[1]) continue; keep.push_back(q); } asked.clear(); w.v = keep; w.v.push_back(c); whole(*c, x); }
        if (st.op == "extend") { Path_Composite* c = dynamic_cast<Path_Composite*>(h->p); if (!c || h->used || h->kind != 5 || h->ends.empty()) continue; x.ev("extend"); x.fault("extended-after-look-ups"); x.nontrivial = true; H n = simple(d, d.weighted({2, 1, 0.5, 1, 1}), d.chance(0.8) ? dbl(h->r.last()) : rpose(d, 2), x, (int)d.range(2, 4)); if (!n) continue; bool ag = d.chance(0.6); c->Add(n->p, ag); h->r.append(n->r); h->ends.push_back((double)h->r.length()); if (ag) { n->ours = false; if (n->orient) h->deps.push_back(n); } else h->deps.push_back(n); whole(*h, x); h->pose.clear(); h->vel.clear(); }
        if (st.op == "drop") { x.ev("drop"); asked.erase(h.get()); h.reset(); w.v.erase(w.v.begin() + (long)i); }
    }
    asked.clear();
}
void generate(Rng& r, Program& p, bool thorough) {
    int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) p.add("make", {r.range(0, 2)}, r.next());
    int steps = (int)r.range(3, thorough ? 30 : 16); for (int i = 0; i < steps; ++i) { int64_t a = r.range(0, 9), b = r.range(0, 9); int o = r.weighted({6, 1, 1.5, 1, 1, 0.6}); if (o == 0) p.add("ask", {a, r.range(3, 20)}, r.next()); if (o == 1) p.add("make", {r.range(0, 2)}, r.next()); if (o == 2) p.add("copy", {a}, r.next()); if (o == 3) p.add("join", {a, b}, r.next()); if (o == 4) p.add("extend", {a}, r.next()); if (o == 5) p.add("drop", {a}, r.next()); }
    p.add("ask", {r.range(0, 9), 15}, r.next());
}
Scenario S{"M02", "geometric paths", "exploration", generate, execute,
    "A run builds, joins, extends, copies and destroys up to 6 paths nested up to two deep (lines, lines by a twist, circles, points, rounded corners with rejected points, cyclic and composite paths with owned and lent parts) and looks them up in seeded order by interleaved readers: ascending, backwards, exact boundaries, repeats. Non-trivial: a fault, copy or foreign reader; distinct by the sequence of operations and faults.",
    {"Path_Line, _Circle, _Point, _Composite, _RoundedComposite, _Cyclic_Closed", "RotationalInterpolation_SingleAxis"}, {"readers and their order", "heap (seeded content of fresh memory)"},
    {"parameters between 0 and the path length; at a joint of two parts the rates of either side are accepted", "cyclic paths repeat closed paths", "turns above 3.1 rad or below 1 mrad judged at their ends only", "corner verdicts within rounding of a documented threshold are not judged"},
    200000, 10000000, 50, 600, {"fault:reader-elsewhere", "fault:exact-boundary", "fault:runs-back", "fault:original-destroyed", "fault:extended-after-look-ups", "fault:rejected-point", "fault:copied-half-built", "fault:bad-rounding-radius", "probe:checked", "probe:boundary-checked", "probe:asked-again", "probe:parts-checked", "probe:corner-rounded", "probe:half-turn", "probe:zero-length", "op:cyclic", "op:circle", "op:line-by-twist", "op:copy"}};
}
// ================================================================================ M03
namespace m03 {
using m02::Holder; using m02::H;
struct Part { bool still = false; Pose pos; RefPath path; Plan s; std::shared_ptr<VelocityProfile> prof; ld T = 0; };   // prof: an instance of the reference's own
struct Traj { Trajectory* t = nullptr; bool ours = true, composite = false, used = false, copied = false; std::vector<std::shared_ptr<void>> deps; std::vector<Part> parts; VelocityProfile* lent = nullptr; bool shared = false; std::vector<std::pair<double, Frame>> asked;
    ~Traj() { if (ours) delete t; } ld total() const { ld s = 0; for (auto& p : parts) s += p.T; return s; } };
typedef std::shared_ptr<Traj> TP;
struct Cand { At a; ld rate = 0, accel = 0; bool vt = false, at = false; };
void look(const Part& q, ld tau, ld delta, std::vector<Cand>& out) {
    if (q.still) { Cand c; c.a.p = q.pos; out.push_back(c); return; }
    double ts[3] = {(double)std::max<ld>(0, tau - delta), (double)tau, (double)std::min<ld>(q.T, tau + delta)}; ld L = q.path.length(), tol = 1e-9L * (1 + L), rate = q.T > 0 ? 3 * q.s.dist() / q.T : 0;
    // next to an instant where the pace changes, position, velocity and acceleration may each be those of either side
    struct Rate { ld p, v = 0, a = 0; bool vt = false, at = false; } e[3]; for (int i = 0; i < 3; ++i) { e[i].p = q.prof->Pos(ts[i]); try { e[i].v = q.prof->Vel(ts[i]); } catch (const Error_MotionPlanning_Incompatible&) { e[i].vt = true; } try { e[i].a = q.prof->Acc(ts[i]); } catch (const Error_MotionPlanning_Incompatible&) { e[i].at = true; } }
    bool jump = std::fabs(e[0].v - e[2].v) + std::fabs(e[0].v - e[1].v) > 1e-9L * rate || std::fabs(e[0].a - e[1].a) + std::fabs(e[0].a - e[2].a) > 1e-9L * rate || e[0].vt || e[0].at;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        if (!jump && i != j) continue; Cand c; c.vt = e[i].vt; c.at = e[j].at; ld v = e[i].v, a = e[j].a;
        std::vector<std::pair<int, ld>> w; q.path.where(std::min(std::max(e[i].p, (ld)0), L), tol, w); for (auto& k : w) { const Piece& g = q.path.v[k.first]; c.a = at(g, k.second, v, a); ld f = g.L > 0 ? 1 / g.L : 0, rad = (g.kind ? ref::norm(g.ex) * g.alpha : ref::norm(g.p1 - g.p0)) + g.angle, n = g.kind ? g.alpha : 1; ld r = rate + std::fabs(v); c.rate = f * r * rad; c.accel = (f * (std::fabs(a) + (q.T > 0 ? 6 * r / q.T : 0)) + f * f * r * r * n) * rad; out.push_back(c); }
    }
}
void judge(Traj& h, double t, Ctx& x) {
    ld total = h.total(), delta = 1e-12L * (1 + total); std::vector<Cand> c; bool open = true, rest = false; const char* cp = h.copied ? " (copy)" : ""; ld b = 0, sz = 1;
    if (!h.composite && h.parts[0].s.kind == SPLINE && !h.parts[0].still && (t < 0 || t > h.parts[0].T)) return;
    if (t < 0) { for (auto& q : h.parts) { if (b > delta) break; look(q, 0, 0, c); b += q.T; } rest = true; open = t > -delta; } else if (t > total + delta) { b = total; for (size_t i = h.parts.size(); i-- > 0 && b >= total - delta;) { look(h.parts[i], h.parts[i].T, 0, c); b -= h.parts[i].T; } rest = true; open = false; }
    else for (auto& q : h.parts) { if ((ld)t >= b - delta && (ld)t <= b + q.T + delta) look(q, std::min(std::max((ld)t - b, (ld)0), q.T), delta, c); if (std::fabs((ld)t - b) <= delta || std::fabs((ld)t - b - q.T) <= delta) rest = true; b += q.T; }
    for (auto& q : h.parts) sz = std::max(sz, q.still ? ref::norm(q.pos.p) : q.path.size()); if (c.empty()) return;
    Frame F = h.t->Pos(t); Twist V, A; bool vt = false, at_ = false; try { V = h.t->Vel(t); } catch (const Error_MotionPlanning_Incompatible&) { vt = true; } try { A = h.t->Acc(t); } catch (const Error_MotionPlanning_Incompatible&) { at_ = true; } log(x, F); log(x, V);
    for (auto& k : h.asked) if (k.first == t) { x.probe("asked-again"); if (!(vdist(F.p, fromK(k.second.p)) <= 1e-9 * (double)sz)) x.fail("depends-on-order", "the pose at %.15g s changed by %.6g since it was last asked", t, vdist(F.p, fromK(k.second.p))); } if (h.asked.size() < 60) h.asked.push_back({t, F});
    double ep = 1e300, eo = 1e300, ev = 1e300, ew = 1e300, ea = 1e300, el = 1e300; bool may_v = false, may_a = false, unclear = false; ld sv = 1e-9L, sa = 1e-9L;
    for (auto& k : c) {
        may_v |= k.vt; may_a |= k.at || k.vt; unclear |= k.a.rot_unclear; ep = std::min(ep, vdist(F.p, k.a.p.p)); double e = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double q = std::fabs((double)(F.M(i, j) - k.a.p.R.m[i][j])); if (!(q <= e)) e = q; } if (std::isnan(e)) e = 1e300; eo = std::min(eo, e); sv = std::max(sv, k.rate); sa = std::max(sa, k.accel);
        if (open) { ev = std::min(ev, vdist(V.vel, k.a.v.v)); ew = std::min(ew, vdist(V.rot, k.a.v.w)); ea = std::min(ea, vdist(A.vel, k.a.a.v)); el = std::min(el, vdist(A.rot, k.a.a.w)); }
    }
    V3 z = ref::v3(0, 0, 0); if (rest) { ev = std::min(ev, vdist(V.vel, z)); ew = std::min(ew, vdist(V.rot, z)); ea = std::min(ea, vdist(A.vel, z)); el = std::min(el, vdist(A.rot, z)); }
    const char* at__ = t < 0 ? "before its start" : t > total ? "after its end" : "";
    if (!(ep <= 1e-8 * (double)sz)) x.fail("wrong-pose", "pose at %.12g of %.12g s is off by %.6g (%zu parts%s) %s", t, (double)total, ep, h.parts.size(), cp, at__);
    if (vt && !may_v) x.fail("velocity-refused", "velocity at %.12g of %.12g s refused%s %s", t, (double)total, cp, at__); if (at_ && !may_a) x.fail("acceleration-refused", "acceleration at %.12g of %.12g s refused%s %s", t, (double)total, cp, at__);
    if (!vt && !(ev <= 1e-6 * (double)sv)) x.fail("wrong-velocity", "velocity at %.12g of %.12g s is off by %.6g (%zu parts%s) %s", t, (double)total, ev, h.parts.size(), cp, at__); if (!at_ && !(ea <= 1e-6 * (double)sa)) x.fail("wrong-acceleration", "acceleration at %.12g of %.12g s is off by %.6g (%zu parts%s) %s", t, (double)total, ea, h.parts.size(), cp, at__);
    if (unclear) { x.probe("half-turn"); return; }
    if (!(eo <= 1e-7)) x.fail("wrong-orientation", "orientation at %.12g of %.12g s is off by %.6g (%zu parts%s) %s", t, (double)total, eo, h.parts.size(), cp, at__);
    if (!vt && !(ew <= 1e-6 * (double)sv)) x.fail("wrong-velocity", "angular velocity at %.12g of %.12g s is off by %.6g (%zu parts%s) %s", t, (double)total, ew, h.parts.size(), cp, at__); if (!at_ && !(el <= 1e-6 * (double)sa)) x.fail("wrong-acceleration", "angular acceleration at %.12g of %.12g s is off by %.6g (%zu parts%s) %s", t, (double)total, el, h.parts.size(), cp, at__);
    x.probe(!open ? "outside" : rest ? "boundary-checked" : "checked"); if (open && h.composite && h.parts.size() > 1) x.probe("composed-checked");
}
void whole(Traj& h, Ctx& x) {
    ld T = h.total(); double got = h.t->Duration(); x.d(got); if (!(std::fabs((ld)got - T) <= 1e-9L * (1e-9L + T))) x.fail("wrong-duration", "the trajectory takes %.12g s, its %zu parts take %.12g s%s", got, h.parts.size(), (double)T, h.copied ? " (copy)" : ""); judge(h, 0, x); judge(h, got, x); judge(h, -1, x); judge(h, got + 1, x);
}
// a profile for a path of the given length: set up completely (dur < 0), or to be stretched by the trajectory
VelocityProfile* profile(Draw& d, Part& q, double L, bool stretch, double& dur, Ctx& x) {
    Plan& s = q.s; s.kind = d.weighted({2, 4, 3, 2, 0.7}); s.vmax = std::pow(10.0, d.uni(-1, 1)) * (0.1 + L); s.amax = s.vmax * std::pow(10.0, d.uni(-1, 1)); s.starting = d.chance(0.5); if (L == 0 && s.kind >= SPLINE) s.kind = TRAP; VelocityProfile* p = new_profile(s); Plan own = s; q.prof.reset(new_profile(own)); double a = 0, b = L;
    if (!stretch && d.chance(0.15)) { std::swap(a, b); x.probe("backwards"); } if (!stretch && d.chance(0.1)) { double m = a + (b - a) * d.u01(), n = a + (b - a) * d.u01(); a = m; b = n; if (std::fabs(a - b) < 1e-3 * L) { a = 0; b = L; } x.probe("section"); }
    s.p1 = a; s.p2 = b; double m = (double)s.min_duration(), base = m > 0 ? m : 1; dur = d.chance(0.2) ? base * d.uni(0.1, 1) : base * d.uni(1, 3); int mode = stretch ? 1 : d.weighted({3, 2, 2, 1, 1}); if (s.kind >= SPLINE) { dur = L > 0 ? d.uni(0.3, 5) : 1; if (mode < 3) mode = 1; }
    if (stretch && s.kind < SPLINE && s.kind != DIRAC && d.chance(0.08)) { dur = d.chance(0.5) ? 0 : -d.uni(0.1, 3); x.probe("no-time-given"); } own = s; double arg = mode == 2 ? d.uni(0.1, 1) : dur; plan(q.prof.get(), own, mode, a, b, arg); Plan lib = s; if (!stretch) plan(p, lib, mode, a, b, arg); s = own; q.T = q.prof->Duration(); return p;
}
TP segment(Draw& d, std::vector<H>& pool, Ctx& x) {
    TP t(new Traj); Part q; if (d.chance(0.15)) { q.still = true; q.pos = rpose(d, 2); q.T = d.chance(0.2) ? 0 : d.uni(0.05, 4); t->t = new Trajectory_Stationary((double)q.T, toK(q.pos)); t->parts = {q}; x.op("stationary"); return t; }
    bool own = d.chance(0.6); H g; if (!own && !pool.empty() && d.chance(0.5)) { g = d.pick(pool); x.probe("path-shared-by-trajectories"); } else { g = m02::build(d, x, (int)d.range(0, 2)); if (!g || g->used) return TP(); }
    if (g->kind == 6 && g->r.v.size() > 60) return TP(); q.path = g->r; double L = g->p->PathLength(), dur = -1; if (L > 0 && q.path.shortest() < 1e-6L * (1 + q.path.length())) return TP(); bool stretch = d.chance(0.4); VelocityProfile* p = profile(d, q, L, stretch, dur, x); if (own) { g->ours = false; g->used = true; }
    t->t = stretch ? new Trajectory_Segment(g->p, p, dur, own) : new Trajectory_Segment(g->p, p, own); if (stretch) x.op("segment-by-duration"); t->deps.push_back(g); if (!own) { t->deps.push_back(std::shared_ptr<VelocityProfile>(p)); pool.push_back(g); if (pool.size() > 6) pool.erase(pool.begin()); } t->lent = p; t->parts = {q}; x.op(own ? "segment" : "segment-lent"); if (L == 0) x.probe("zero-length"); return t;
}
void adopt(Traj& c, TP e) { e->ours = false; e->used = true; for (auto& q : e->deps) c.deps.push_back(q); for (auto& q : e->parts) c.parts.push_back(q); c.asked.clear(); }
bool fits(const Part& q) { return q.still || !(q.s.kind == DIRAC && q.T == 0); }
TP build(Draw& d, std::vector<H>& pool, Ctx& x, int depth) {
    if (depth == 0 || d.chance(0.4)) return segment(d, pool, x); TP c(new Traj); Trajectory_Composite* k = new Trajectory_Composite(); c->t = k; c->composite = true; int n = (int)d.range(1, 4);
    for (int i = 0; i < n; ++i) { TP e = build(d, pool, x, depth - 1); if (!e || !fits(e->parts[0])) continue; if (e->composite) x.probe("nested"); k->Add(e->t); adopt(*c, e); } if (c->parts.empty()) return TP(); x.op("composite"); return c;
}
void play(Traj& h, const Step& st, Ctx& x, std::vector<TP>& all) {
    Draw d = x.draw(st); ld T = h.total(); double far = T > 0 ? (double)T : 1, dt = far / (double)d.range(5, 30), t = d.chance(0.3) ? -dt : far * d.u01(); int n = (int)st.a[1]; x.ev("play"); x.op("play"); std::vector<double> asked; if (h.parts.size() > 80) n = std::min(n, 5);
    for (int i = 0; i < n; ++i) {
        int f = d.chance(0.4) ? (int)d.range(1, 7) : 0; double q = t; if (f) x.nontrivial = true;
        switch (f) {
        case 1: x.fault("clock-stalls"); break; case 2: x.fault("clock-runs-back"); t -= dt * d.uni(0, 6); q = t; break; case 3: x.fault("clock-jumps"); t = d.uni(-0.3, 1.3) * far; q = t; break;
        case 4: { x.fault("exact-instant"); size_t k = (size_t)d.range(0, (int64_t)h.parts.size()); double b = 0; for (size_t j = 0; j < k; ++j) b += (double)h.parts[j].T; int e = (int)d.range(0, 3); q = e == 1 ? std::nextafter(b, 1e300) : e == 2 ? std::nextafter(b, -1e300) : b; break; }
        case 5: x.fault("reader-far-away"); q = d.chance(0.5) ? -1e3 * far * d.u01() : 1e3 * far * (1 + d.u01()); break;
        case 6: if (!asked.empty()) { x.fault("asked-again"); q = d.pick(asked); } break;
        case 7: { x.fault("other-reader"); Traj& o = *d.pick(all); judge(o, (double)o.total() * d.u01(), x); break; }
        default: q = t + dt * d.uni(-0.3, 0.3); t += dt; x.time(dt); }
        asked.push_back(q); judge(h, q, x);
    }
    x.cover(mix64(h.parts.size() * 8 + h.composite * 4 + h.copied * 2) ^ mix64((uint64_t)h.parts[0].s.kind * 4 + h.parts[0].still * 2 + h.deps.size() * 64));
}
void execute(const Program& p, Ctx& x) {
    std::vector<H> pool; std::vector<TP> v; int k = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "make") { x.ev("make"); TP t = build(d, pool, x, (int)st.a[0]); if (t) { whole(*t, x); v.push_back(t); } if (v.size() > 5) v.erase(v.begin()); continue; }
        if (v.empty()) continue; size_t i = (size_t)(st.a[0] % (int64_t)v.size()); TP h = v[i]; Trajectory_Composite* c = h->composite ? static_cast<Trajectory_Composite*>(h->t) : nullptr;
        if (st.op == "play") play(*h, st, x, v);
        if (st.op == "copy") { x.ev("copy"); x.op("copy"); x.nontrivial = true; TP n(new Traj); n->t = h->t->Clone(); n->parts = h->parts; n->deps = h->deps; n->composite = h->composite; n->copied = true; h->shared = n->shared = true; if (d.chance(0.5)) { x.fault("original-destroyed"); v[i] = n; h.reset(); } else v.push_back(n); whole(*n, x); }
        if (st.op == "extend" && c) { x.ev("extend"); TP e = build(d, pool, x, 1); if (!e || !fits(e->parts[0]) || h->parts.size() > 60) continue; x.fault("extended-while-playing"); x.nontrivial = true; c->Add(e->t); adopt(*h, e); whole(*h, x); }
        if (st.op == "rebuild" && c) { x.ev("rebuild"); x.fault("destroyed-and-rebuilt"); x.nontrivial = true; TP e = segment(d, pool, x); if (!e || !fits(e->parts[0])) continue; c->Destroy(); h->parts.clear(); h->copied = false; c->Add(e->t); adopt(*h, e); whole(*h, x); }
        if (st.op == "replan" && !c && h->lent && !h->shared && !h->used && !h->parts[0].still) { x.ev("replan"); x.fault("profile-replanned-while-playing"); x.nontrivial = true; Part& q = h->parts[0]; Trajectory_Segment* g = static_cast<Trajectory_Segment*>(h->t); if (g->GetProfile() != h->lent) x.fail("wrong-profile", "the trajectory names another profile"); double dur = d.uni(0.5, 5), L = (double)g->GetPath()->PathLength(); Plan a = q.s, b = q.s; plan(q.prof.get(), a, 1, 0, L, dur); plan(g->GetProfile(), b, 1, 0, L, dur); q.s = a; q.T = q.prof->Duration(); h->asked.clear(); whole(*h, x); }
        if (st.op == "drop") { x.ev("drop"); h.reset(); v.erase(v.begin() + (long)i); }
    }
}
void generate(Rng& r, Program& p, bool thorough) {
    int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) p.add("make", {r.range(0, 2)}, r.next());
    int steps = (int)r.range(3, thorough ? 24 : 12); for (int i = 0; i < steps; ++i) { int64_t a = r.range(0, 9); int o = r.weighted({6, 1, 1.2, 0.8, 0.5, 0.5, 0.5}); if (o == 0) p.add("play", {a, r.range(3, 15)}, r.next()); if (o == 1) p.add("make", {r.range(0, 2)}, r.next()); if (o == 2) p.add("copy", {a}, r.next()); if (o == 3) p.add("extend", {a}, r.next()); if (o == 4) p.add("rebuild", {a}, r.next()); if (o == 5) p.add("replan", {a}, r.next()); if (o == 6) p.add("drop", {a}, r.next()); }
    p.add("play", {r.range(0, 9), 15}, r.next());
}
Scenario S{"M03", "trajectories", "exploration", generate, execute,
    "A run builds, nests, extends, rebuilds, copies and destroys up to 5 trajectories (segments over every kind of path and profile with owned, lent and shared parts, stationary parts, compositions up to two deep) and plays them by interleaved readers whose clocks jitter, stall, run back, jump and hit the exact instants where parts meet. Non-trivial: a clock fault, foreign reader, copy or rebuild; distinct by the sequence of operations and faults.",
    {"Trajectory_Segment, _Composite, _Stationary", "all paths and velocity profiles"}, {"clocks and readers", "heap (seeded content of fresh memory)"},
    {"paths against closed-form geometry, the pace against an instance of the profile set up the same way (its own promises are M01)", "where parts meet either side, or rest, is accepted for the rates", "a segment with a spline profile is asked inside its time only", "a profile without finite acceleration may refuse to name it", "turns above 3.1 rad or below 1 mrad judged for position only"},
    150000, 8000000, 50, 600, {"fault:clock-stalls", "fault:clock-runs-back", "fault:clock-jumps", "fault:exact-instant", "fault:other-reader", "fault:original-destroyed", "fault:extended-while-playing", "fault:destroyed-and-rebuilt", "fault:profile-replanned-while-playing", "probe:checked", "probe:composed-checked", "probe:boundary-checked", "probe:outside", "probe:nested", "probe:path-shared-by-trajectories", "op:stationary", "op:segment-lent", "op:segment-by-duration"}};
}
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&m01::S, &m02::S, &m03::S}); }
