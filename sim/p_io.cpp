// S01 written values read back equal however the stream delivers them; S02 damaged input ends in a clean error.
// The stream is simulated: it delivers seeded chunks with little room to put back, ends, fails or corrupts anywhere.
#include "motgen.hpp"
#include "trajectory_segment.hpp"
#include "utilities/utility_io.h"
#include "utilities/error_stack.h"
#include <sstream>
using namespace mot; using namespace KDL;
namespace {
// ---- the simulated stream
struct Wire : std::streambuf {
    std::string data; size_t at = 0; std::vector<char> buf; int chunk, back; Rng r; int64_t fail_at = -1; bool throws = false; int64_t calls = 0, after = 0; bool failed = false;
    Wire(const std::string& s, int c, int b, uint64_t seed) : data(s), chunk(c), back(b), r(seed) { buf.resize(64 + (size_t)back + (size_t)chunk); char* p = buf.data() + back; setg(p, p, p); }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); ++calls; if (at >= data.size() || failed) if (++after > 100000) sim::crash_note("reads-without-end", "the stream was asked more than 100000 times after its end");
        if (fail_at >= 0 && (int64_t)at >= fail_at) { failed = true; if (throws) throw std::ios_base::failure("simulated read error"); return traits_type::eof(); }
        if (at >= data.size()) return traits_type::eof();
        size_t n = std::min(data.size() - at, (size_t)(1 + r.next() % (uint64_t)chunk)); if (fail_at >= 0) n = std::max<size_t>(1, std::min<size_t>(n, (size_t)fail_at - at)); size_t keep = std::min<size_t>((size_t)back, (size_t)(gptr() - eback())); char* p = buf.data() + back; std::memmove(p - keep, gptr() - keep, keep); std::memcpy(p, data.data() + at, n); at += n; setg(p - keep, p, p + n); return traits_type::to_int_type(*p);
    }
};
// a disk that is full after so many bytes
struct Disk : std::streambuf { std::string data; size_t room; explicit Disk(size_t n) : room(n) {} int_type overflow(int_type c) override { if (data.size() >= room || c == traits_type::eof()) return traits_type::eof(); data.push_back((char)c); return c; } std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize k = 0; while (k < n && data.size() < room) data.push_back(s[k++]); return k; } };
// ---- values
enum { VEC, TWIST, WRENCH, ROT, FRAME, VEC2, ROT2, FRAME2, PATH, PROFILE, SEGMENT, WORDS, KINDS };
const char* const NAME[] = {"vector", "twist", "wrench", "rotation", "frame", "vector2", "rotation2", "frame2", "path", "profile", "trajectory", "words"};
struct Val {
    int kind = 0, form = 0, prec = 17; V3 a, b; M3 R; double n[2] = {}, ang = 0; std::shared_ptr<Path> path; std::shared_ptr<VelocityProfile> prof; std::string text, what; bool word = false; double v0 = 0, v1 = 0, l = 0;
};
V3 rnum(Draw& d) { double s = d.chance(0.1) ? std::pow(10.0, d.uni(-200, 200)) : d.chance(0.3) ? 100 : 1; V3 v = ref::v3(d.uni(-1, 1) * s, d.uni(-1, 1) * s, d.chance(0.2) ? 0 : d.uni(-1, 1) * s); return fromK(toK(v)); }
std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
std::string vec(V3 v) { return "[" + num((double)v[0]) + "," + num((double)v[1]) + "," + num((double)v[2]) + "]"; }
RotationalInterpolation* sa() { return new RotationalInterpolation_SingleAxis(); }
Path* rpath(Draw& d, int depth, std::string& what) {
    int k = d.weighted({3, 2, 1, depth > 0 ? 1.5 : 0.0, depth > 0 ? 2.0 : 0.0, depth > 0 ? 0.7 : 0.0}); Pose a = rpose(d, 2), b = rpose(d, 2); b.R = a.R * ref::rodrigues(runit(d), d.uni(0.05, 2.9)); double eqr = d.uni(0.05, 1); Pose c; c.R = b.R; c.p = a.p + ref::v3(0.3, 1, 0.2);
    if (k == 0) { what += "line "; return new Path_Line(toK(a), toK(b), sa(), eqr); } if (k == 1) { what += "circle "; return new Path_Circle(toK(a), toK(c.p), toK(c.p + ref::v3(1, 0, 0.3)), toK(b).M, d.uni(0.1, 5), sa(), eqr); } if (k == 2) { what += "point "; return new Path_Point(toK(a)); }
    if (k == 3) { what += "rounded "; Path_RoundedComposite* p = new Path_RoundedComposite(0.05, eqr, sa()); int n = (int)d.range(2, 5); Pose at = a; for (int i = 0; i < n; ++i) { try { p->Add(toK(at)); } catch (const Error&) {} at.p = at.p + ref::v3(d.uni(0.3, 1), d.uni(-1, 1), d.uni(-1, 1)); at.R = at.R * ref::rodrigues(runit(d), d.uni(0.1, 1)); } p->Finish(); return p; }
    if (k == 4) { what += "composite "; Path_Composite* p = new Path_Composite(); int n = (int)d.range(1, 4); for (int i = 0; i < n; ++i) p->Add(rpath(d, depth - 1, what)); return p; }
    what += "cyclic "; return new Path_Cyclic_Closed(rpath(d, depth - 1, what), (int)d.range(1, 5));
}
VelocityProfile* rprof(Draw& d, double v, double a, int k) { switch (k) { case 0: return new VelocityProfile_Dirac(); case 1: return new VelocityProfile_Rectangular(v); case 2: return new VelocityProfile_Trap(v, a); default: return new VelocityProfile_TrapHalf(v, a, d.chance(0.5)); } }
M3 rz(ld t) { return ref::rodrigues(ref::v3(0, 0, 1), t); } M3 ry(ld t) { return ref::rodrigues(ref::v3(0, 1, 0), t); } M3 rx(ld t) { return ref::rodrigues(ref::v3(1, 0, 0), t); }
// a value with its text; form > 0: one of the other notations the readers document
Val make(Draw& d, int kind) {
    Val v; v.kind = kind; v.prec = d.chance(0.6) ? 17 : (int)d.range(6, 16); if (kind >= PATH) v.prec = 17; std::ostringstream os; os.precision(v.prec); if (d.chance(0.15)) os.setf(std::ios::scientific, std::ios::floatfield); if (d.chance(0.1)) os.setf(std::ios::showpos); if (d.chance(0.1)) os.setf(std::ios::uppercase);
    if (d.chance(0.1)) os.setf(std::ios::left, std::ios::adjustfield); ld deg = 3.14159265358979323846264L / 180;
    v.a = rnum(d); v.b = rnum(d); v.R = fromK(toK(Pose{rrot(d), ref::v3(0, 0, 0)})).R; v.form = d.chance(0.35) ? (int)d.range(1, 6) : 0; double e[4]; for (double& q : e) q = d.uni(-360, 360);
    switch (kind) {
    case VEC: if (v.form == 1) { v.a = ref::v3(0, 0, 0); v.text = "ZERO"; v.word = true; } else { v.form = 0; os << toK(v.a); } break;
    case TWIST: v.form = 0; os << Twist(toK(v.a), toK(v.b)); break; case WRENCH: v.form = 0; os << Wrench(toK(v.a), toK(v.b)); break;
    case ROT: { V3 q = ref::v3(e[0], e[1], e[2]); switch (v.form) { case 1: v.text = "IDENTITY"; v.word = true; v.R = ref::eye(); break; case 2: v.text = "RPY" + vec(q); v.R = rz(e[2] * deg) * ry(e[1] * deg) * rx(e[0] * deg); break; case 3: v.text = "EulerZYX " + vec(q); v.R = rz(e[0] * deg) * ry(e[1] * deg) * rx(e[2] * deg); break; case 4: v.text = "EULERZYZ" + vec(q); v.R = rz(e[0] * deg) * ry(e[1] * deg) * rz(e[2] * deg); break; case 5: { V3 u = fromK(toK(d.uni(0.2, 5) * runit(d))); v.text = "rot" + vec(u) + "[" + num(e[3]) + "]"; v.R = ref::rodrigues((1 / ref::norm(u)) * u, e[3] * deg); break; } default: v.form = 0; os << toK(Pose{v.R, v.a}).M; } break; }
    case FRAME: if (v.form == 1) { double A = d.uni(-2, 2), D = d.uni(-2, 2); v.text = "DH[" + num(A) + "," + num(e[0]) + "," + num(D) + "," + num(e[1]) + "]"; v.R = rz(e[1] * deg) * rx(e[0] * deg); v.a = rz(e[1] * deg) * ref::v3(A, 0, 0) + ref::v3(0, 0, D); } else { v.form = 0; os << toK(Pose{v.R, v.a}); } break;
    case VEC2: os << Vector2((double)v.a[0], (double)v.a[1]); break; case ROT2: v.ang = d.uni(-3.1, 3.1); os << Rotation2(v.ang); break; case FRAME2: { v.ang = d.uni(-3.1, 3.1); Frame2 f; f.M = Rotation2(v.ang); f.p = Vector2((double)v.a[0], (double)v.a[1]); os << f; break; }
    case PATH: if (v.form == 1) { double rad = 0.05, eqr = d.uni(0.1, 1); Path_RoundedComposite* p = new Path_RoundedComposite(rad, eqr, sa()); std::ostringstream t; t.precision(17); int n = (int)d.range(1, 5), m = 0; Pose at = rpose(d, 2); for (int i = 0; i < n; ++i) { Frame f = toK(at); try { p->Add(f); t << f << "\n"; ++m; } catch (const Error&) {} at.p = at.p + ref::v3(d.uni(0.3, 1), d.uni(-1, 1), d.uni(-1, 1)); at.R = at.R * ref::rodrigues(runit(d), d.uni(0.1, 1)); } p->Finish(); v.path.reset(p); v.text = "RoundedComposite[" + num(rad) + " " + num(eqr) + " SingleAxis[] " + std::to_string(m) + " " + t.str() + "]"; v.what = "corner points "; } else { os.flags(std::ios::skipws | std::ios::dec); v.path.reset(rpath(d, 2, v.what)); v.path->Write(os); } break;
    case PROFILE: v.v0 = std::pow(10.0, d.uni(-2, 2)); v.v1 = std::pow(10.0, d.uni(-2, 2)); v.l = d.uni(0.1, 5); v.form = (int)d.range(0, 3); v.prof.reset(rprof(d, v.v0, v.v1, v.form)); v.prof->Write(os); break;
    case SEGMENT: { v.v0 = std::pow(10.0, d.uni(-2, 2)); v.v1 = std::pow(10.0, d.uni(-2, 2)); v.path.reset(rpath(d, 1, v.what)); v.form = (int)d.range(1, 3); v.prof.reset(rprof(d, v.v0, v.v1, v.form)); v.prof->SetProfile(0, v.path->PathLength()); os.flags(std::ios::skipws | std::ios::dec); Trajectory_Segment t(v.path.get(), v.prof.get(), false); t.Write(os); break; }
    case WORDS: { static const char* const W[] = {"begin", "robot arm", "a b c", "End Of"}; v.form = (int)d.range(0, 3); v.text = W[v.form]; for (char& c : v.text) if (d.chance(0.5)) c = (char)toupper(c); v.word = true; break; } }
    if (v.text.empty()) v.text = os.str(); while (!v.text.empty() && isspace((unsigned char)v.text.back())) v.text.pop_back(); return v;
}
std::string space(Draw& d, bool comments, bool needed) {
    std::string s; int n = (int)d.range(needed ? 1 : 0, 2); static const char* const W[] = {" ", "\n", "\t", "  \n "}; for (int i = 0; i < n; ++i) s += W[d.range(0, 3)]; if (comments && d.chance(0.3)) { static const char* const C[] = {"# a comment [1,2,3]\n", "// ] , ;\n", "/* [ * / ] */", "/**/", "#\n", "/* two\n lines **/"}; s += C[d.range(0, 5)]; if (d.chance(0.5)) s += W[d.range(0, 3)]; } return s;
}
// white space and comments wherever the readers skip them
std::string decorate(const std::string& t, Draw& d, bool keep_words) {
    std::string o; size_t i = 0; char prev = 0; while (i < t.size()) {
        size_t j = i; while (j < t.size() && isspace((unsigned char)t[j])) ++j; bool gap = j > i; i = j; if (i >= t.size()) break; char c = t[i]; bool punct = strchr("[],;", c) != nullptr, number = isdigit((unsigned char)c) || strchr("+-.", c); size_t e = i + 1; if (!punct) while (e < t.size() && !isspace((unsigned char)t[e]) && !strchr("[],;", t[e])) ++e;
        bool pnum = isdigit((unsigned char)prev) || prev == '.'; bool comments = !((prev == ']' || pnum) && number) && prev; if (prev && !keep_words && d.chance(0.4)) o += space(d, comments, gap); else if (gap) o += keep_words ? " " : t.substr(i - 1, 1) == "\n" ? "\n" : " "; o += t.substr(i, e - i); prev = t[e - 1]; i = e;
    } return o;
}
struct Got { Vector a; Twist t; Wrench w; Rotation R; Frame F; Vector2 v2; Rotation2 r2; Frame2 f2; std::unique_ptr<Path> path; std::unique_ptr<VelocityProfile> prof; std::unique_ptr<Trajectory> traj; };
void get(std::istream& is, const Val& v, Got& g) {
    switch (v.kind) { case VEC: is >> g.a; break; case TWIST: is >> g.t; break; case WRENCH: is >> g.w; break; case ROT: is >> g.R; break; case FRAME: is >> g.F; break; case VEC2: is >> g.v2; break; case ROT2: is >> g.r2; break; case FRAME2: is >> g.f2; break; case PATH: g.path.reset(Path::Read(is)); break; case PROFILE: g.prof.reset(VelocityProfile::Read(is)); break; case SEGMENT: g.traj.reset(Trajectory::Read(is)); break; default: { static const char* const W[] = {"begin", "robot arm", "a b c", "end of"}; Eat(is, W[v.form]); } }
}
void same(double got, ld want, ld tol, const Val& v, Ctx& x, const char* part) { x.d(got); if (!(std::fabs((ld)got - want) <= tol)) x.fail("differs", "%s%s%s written as '%.60s' comes back with %s %.17g instead of %.17Lg", NAME[v.kind], v.what.empty() ? "" : " ", v.what.c_str(), v.text.c_str(), part, got, want); }
ld slack(ld want, int prec) { return std::fabs(want) * std::pow(10.0L, 1 - prec) + 1e-300L; }
void same3(const Vector& g, V3 w, const Val& v, Ctx& x) { bool exact = v.form == 0; ld m = exact ? 0 : 1e-13L * (1 + ref::norm(w)); for (int i = 0; i < 3; ++i) same(g(i), w[i], slack(w[i], v.prec) + m, v, x, "element"); }
void sameR(const Rotation& g, const M3& R, const Val& v, Ctx& x) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) same(g(i, j), R.m[i][j], v.form == 0 ? slack(R.m[i][j], v.prec) : 1e-13L, v, x, "rotation element"); }
void samepath(Path* g, Path* w, const Val& v, Ctx& x) {
    if (!g) x.fail("differs", "no path"); double L = w->PathLength(); same(g->PathLength(), L, 1e-9L * (1 + L), v, x, "length"); if (w->getIdentifier() != Path::ID_ROUNDED_COMPOSITE && w->getIdentifier() != g->getIdentifier()) x.fail("differs", "a path of kind %d comes back as kind %d", (int)w->getIdentifier(), (int)g->getIdentifier());
    if (v.what.find("cyclic") != std::string::npos && L < 1e-6) return; for (int i = 0; i <= 6; ++i) { double s = L * (i + 0.37) / 7; Frame a = g->Pos(s), b = w->Pos(s); Twist p = g->Vel(s, 1), q = w->Vel(s, 1); for (int k = 0; k < 3; ++k) same(a.p(k), b.p(k), 1e-7L, v, x, "position"); for (int k = 0; k < 9; ++k) same(a.M.data[k], b.M.data[k], 1e-7L, v, x, "orientation"); if (v.what.find(' ') + 1 == v.what.size()) for (int k = 0; k < 6; ++k) same(p(k), q(k), 1e-6L * (1 + std::fabs((ld)q(k))), v, x, "velocity"); }
}
void sameprof(VelocityProfile* g, VelocityProfile* w, double l, const Val& v, Ctx& x) { if (!g) x.fail("differs", "no profile"); g->SetProfile(0, l); w->SetProfile(0, l); double T = w->Duration(); same(g->Duration(), T, 1e-12L * (1 + T), v, x, "duration"); for (int i = 0; i < 5; ++i) { double t = T * (i + 0.3) / 5; same(g->Pos(t), w->Pos(t), 1e-11L * (1 + l), v, x, "profile position"); if (v.form) same(g->Vel(t), w->Vel(t), 1e-11L * (1 + std::fabs((ld)w->Vel(t))), v, x, "profile velocity"); } }
void compare(const Val& v, Got& g, Ctx& x) {
    switch (v.kind) {
    case VEC: same3(g.a, v.a, v, x); break; case TWIST: same3(g.t.vel, v.a, v, x); same3(g.t.rot, v.b, v, x); break; case WRENCH: same3(g.w.force, v.a, v, x); same3(g.w.torque, v.b, v, x); break; case ROT: sameR(g.R, v.R, v, x); break; case FRAME: sameR(g.F.M, v.R, v, x); same3(g.F.p, v.a, v, x); break;
    case VEC2: same(g.v2(0), v.a[0], slack(v.a[0], v.prec), v, x, "element"); same(g.v2(1), v.a[1], slack(v.a[1], v.prec), v, x, "element"); break; case ROT2: same(g.r2.GetRot(), v.ang, slack(v.ang, v.prec) * 2 + 1e-14L, v, x, "angle"); break;
    case FRAME2: same(g.f2.M.GetRot(), v.ang, slack(v.ang, v.prec) * 2 + 1e-14L, v, x, "angle"); same(g.f2.p(0), v.a[0], slack(v.a[0], v.prec), v, x, "element"); same(g.f2.p(1), v.a[1], slack(v.a[1], v.prec), v, x, "element"); break;
    case PATH: samepath(g.path.get(), v.path.get(), v, x); break; case PROFILE: sameprof(g.prof.get(), v.prof.get(), v.l, v, x); break;
    case SEGMENT: { Trajectory_Segment* t = dynamic_cast<Trajectory_Segment*>(g.traj.get()); if (!t) x.fail("differs", "the trajectory is not a segment"); samepath(t->GetPath(), v.path.get(), v, x); sameprof(t->GetProfile(), v.prof.get(), v.path->PathLength(), v, x); break; } default: break; }
    x.probe("value-read-back"); x.op(NAME[v.kind]);
}
int wirechunk(Draw& d) { return d.chance(0.4) ? 1 : d.chance(0.5) ? (int)d.range(2, 7) : (int)d.range(8, 300); }
// ================================================================================ S01
void execute1(const Program& p, Ctx& x) {
    std::vector<Val> v; std::string text; std::vector<int> mark; Draw d0(p.seed ^ 5, false); int k = 0;
    for (auto& st : p.steps) { x.step_no = k++; if (st.op != "value") continue; Draw d = x.draw(st); Val q = make(d, (int)st.a[0]); x.ev("write"); if (st.a[1]) { x.fault("text-reformatted"); x.nontrivial = true; } if (v.size()) text += space(d, true, v.back().word && mark.back() < 0); bool keep = q.kind == WORDS; text += st.a[1] ? decorate(q.text, d, keep) : q.text; int m = -1; if (st.a[2] || q.word) { m = (int)d.range(0, 999); text += space(d, q.kind != WORDS, q.word) + "@" + std::to_string(m); } v.push_back(std::move(q)); mark.push_back(m); }
    if (v.empty()) return; text += "\n@1\n"; if (v.back().kind == WORDS || true) {} int chunk = wirechunk(d0), back = d0.chance(0.5) ? 1 : (int)d0.range(2, 8); Wire w(text, chunk, back, p.seed); std::istream is(&w); if (chunk < 300) { x.fault(chunk == 1 ? "one-byte-reads" : "short-reads"); x.nontrivial = true; } if (back == 1) x.fault("little-putback"); x.i(chunk);
    for (size_t i = 0; i < v.size(); ++i) {
        x.step_no = (int)i; x.ev("read"); Got g; try { get(is, v[i], g); } catch (const Error& e) { x.fail("refused", "%s %s'%.80s' is refused with error %d (byte %zu of %zu)", NAME[v[i].kind], v[i].what.c_str(), v[i].text.c_str(), e.GetType(), w.at, text.size()); } if (!is.good()) x.fail("stream-broken", "the stream is in state %d after %s '%.60s'", (int)is.rdstate(), NAME[v[i].kind], v[i].text.c_str()); compare(v[i], g, x);
        if (mark[i] >= 0) { int m = -1; try { Eat(is, "@"); is >> m; } catch (const Error& e) { x.fail("consumed-too-much", "what follows %s '%.60s' is not next in the stream (error %d)", NAME[v[i].kind], v[i].text.c_str(), e.GetType()); } if (m != mark[i]) x.fail("consumed-too-much", "after %s '%.60s' comes %d instead of %d", NAME[v[i].kind], v[i].text.c_str(), m, mark[i]); x.probe("position-exact"); }
    }
    char buf[20] = "x"; IOTracePopStr(buf, 20); if (buf[0]) x.fail("trace-left", "the error trace holds '%s' after reads that all succeeded", buf); x.cover(mix64(v.size() * 512 + (uint64_t)v[0].kind * 16 + (uint64_t)v[0].form) ^ mix64((uint64_t)(chunk == 1) * 2 + (back == 1)));
}
void generate1(Rng& r, Program& p, bool thorough) { int n = (int)r.range(1, thorough ? 20 : 10); for (int i = 0; i < n; ++i) p.add("value", {r.weighted({2, 1.5, 1.5, 3, 2, 1, 1, 1, 3, 1, 1, 0.8}), r.chance(0.6), r.chance(0.5)}, r.next()); }
Scenario S1{"S01", "values through streams", "exploration", generate1, execute1,
    "A run writes 1-20 values of twelve kinds (vectors to trajectories, other documented notations included) on one stream in seeded print formats with white space and comments, and reads them back through a simulated stream that delivers seeded chunks, down to single bytes with one byte of put-back. Non-trivial: short reads or reformatted text; distinct by the sequence of kinds and faults.",
    {"operators << and >> of the geometric primitives", "Path, VelocityProfile, Trajectory, RotationalInterpolation Write and Read", "Eat, EatEnd, EatWord", "error trace"}, {"the byte stream (chunks, put-back)", "heap (seeded content of fresh memory)"},
    {"finite numbers; equal up to the printed digits", "a value that is a bare word is followed by white space and something to read", "a rounded path comes back as the composition it is", "no comment between a closing bracket and a number"},
    150000, 8000000, 45, 500, {"fault:one-byte-reads", "fault:short-reads", "fault:little-putback", "fault:text-reformatted", "probe:value-read-back", "probe:position-exact", "op:vector", "op:twist", "op:wrench", "op:rotation", "op:frame", "op:vector2", "op:rotation2", "op:frame2", "op:path", "op:profile", "op:trajectory", "op:words"}};
// ================================================================================ S02
std::string damage(const std::string& t, const Step& st, Draw& d, Ctx& x, int64_t& fail_at, bool& throws, bool& broken) {
    std::string s = t; size_t at = s.empty() ? 0 : (size_t)(st.a[1] % (int64_t)s.size()); fail_at = -1; throws = false;
    switch ((int)st.a[0]) {
    case 0: x.fault("cut-off"); s.resize(at); break; case 1: x.fault("bit-flipped"); if (!s.empty()) s[at] = (char)(s[at] ^ (1 << d.range(0, 7))); break; case 2: x.fault("byte-replaced"); if (!s.empty()) { static const char C[] = "[],;#/*-+.eE@ \n\t\0\xff" "ZAaz019nif"; s[at] = C[d.range(0, (int64_t)sizeof C - 2)]; } break; case 3: x.fault("byte-lost"); if (!s.empty()) s.erase(at, 1); break;
    case 4: { x.fault("piece-repeated"); size_t n = std::min<size_t>(s.size() - at, (size_t)d.range(1, 40)); s.insert(at, s.substr(at, n)); break; } case 5: { x.fault("garbage-inserted"); std::string g; int n = (int)d.range(1, 80); for (int i = 0; i < n; ++i) g.push_back((char)d.range(d.chance(0.5) ? 65 : 0, d.chance(0.5) ? 90 : 255)); s.insert(at, g); break; }
    case 6: x.fault("read-error"); fail_at = (int64_t)at; throws = true; break; case 7: { x.fault("long-word"); s.insert(at, std::string((size_t)d.range(8, 70), 'A')); break; } case 8: x.fault("unterminated-comment"); s.insert(at, d.chance(0.5) ? "/* " : d.chance(0.5) ? "#" : "//"); s.resize(std::min(s.size(), at + (size_t)d.range(1, 30))); break;
    case 9: { x.fault("deep-nesting"); std::string g; int n = (int)d.range(10, 20000); for (int i = 0; i < n; ++i) g += d.chance(0.5) ? "COMPOSITE[ 1 " : "CYCLIC_CLOSED[ "; s = g + s; break; } case 10: { x.fault("huge-count"); size_t q = s.find("COMPOSITE["); if (q != std::string::npos) { size_t e = q + 10; while (e < s.size() && isspace((unsigned char)s[e])) ++e; size_t f = e; while (f < s.size() && isdigit((unsigned char)s[f])) ++f; static const char* const N[] = {"2147483647", "-1", "99999999999", "0", "1000000", "x"}; s.replace(e, f - e, N[d.range(0, 5)]); } break; }
    case 11: { x.fault("piece-lost"); size_t n = std::min<size_t>(s.size() - at, (size_t)d.range(1, 40)); s.erase(at, n); break; }
    case 12: x.fault("nothing-at-all"); s.clear(); break;
    case 13: { x.fault("mark-broken"); size_t q = s.find_first_of("[],;", at); if (q == std::string::npos) q = s.find_first_of("[],;"); if (q != std::string::npos) { s[q] = 'z'; broken = true; } break; } }
    return s;
}
void execute2(const Program& p, Ctx& x) {
    int k = 0; x.nontrivial = true;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st); Val v = make(d, (int)st.a[2]); std::string text = v.text + (v.word ? " \n@1\n" : "\n"); if (st.a[0] == 0 && d.chance(0.3) && v.path && v.kind == PATH && v.form != 1) { Disk disk((size_t)(st.a[1] % (int64_t)(text.size() + 1))); std::ostream os(&disk); os.precision(17); x.fault("disk-full"); v.path->Write(os); text = disk.data; }
        std::string bad = text; int64_t fail_at; bool throws, broken = false; if (st.op == "damage") { x.ev("damage"); bad = damage(text, st, d, x, fail_at, throws, broken); if (d.chance(0.15)) { Step t = st; t.a[0] = d.range(1, 5); t.a[1] = d.range(0, 1000); int64_t q; bool w, b2; bad = damage(bad, t, d, x, q, w, b2); broken = false; if (fail_at > (int64_t)bad.size()) fail_at = (int64_t)bad.size(); } } else { fail_at = -1; throws = false; }
        {
            Wire w(bad, wirechunk(d), (int)d.range(1, 8), st.seed); w.fail_at = fail_at; w.throws = throws; std::istream is(&w); bool strict = d.chance(0.2); if (strict) is.exceptions(std::ios::badbit); Got g; int how = 0; bool io = false; try { get(is, v, g); how = 1; } catch (const Error& e) { how = 2; io = dynamic_cast<const Error_IO*>(&e) != nullptr; x.i(e.GetType()); x.s(e.Description() ? e.Description() : ""); } catch (const std::ios_base::failure&) { if (!strict) throw; how = 3; }
            x.i(how); x.probe(how == 1 ? "value-accepted" : how == 2 ? "clean-error" : "stream-exception"); if (w.calls > (int64_t)bad.size() + 2000) x.fail("reads-without-end", "%lld requests for a text of %zu bytes", (long long)w.calls, bad.size());
            { size_t had = fail_at >= 0 ? std::min<size_t>((size_t)fail_at, bad.size()) : bad.size(); bool half = !v.word && v.text.back() == ']' && had < v.text.size() && v.text.compare(0, had, bad, 0, had) == 0; if (half) { x.probe("half-text"); if (how == 1) x.fail("half-accepted", "the first %zu of %zu bytes of %s '%.60s' are taken for a value", had, v.text.size(), NAME[v.kind], v.text.c_str()); } }
            if (broken && !v.word) { x.probe("mark-broken"); if (how == 1) x.fail("wrong-mark-accepted", "%s '%.60s' is taken for a value after one of its brackets, commas or semicolons became a letter: '%.200s'", NAME[v.kind], v.text.c_str(), bad.c_str()); }
            if (how == 1) { std::ostringstream o; if (g.path) g.path->Write(o); if (g.prof) g.prof->Write(o); if (g.traj) g.traj->Write(o); x.i((int64_t)o.str().size()); }
            int tr = (int)d.range(0, 3); if (how == 2) { if (tr == 0) { std::ostringstream o; IOTraceOutput(o); if (o.str().empty() && io && v.kind != WORDS) x.fail("no-trace", "a failed read of %s leaves no trace of what was read", NAME[v.kind]); x.probe("trace-shown"); } if (tr == 1) { std::vector<char> b((size_t)d.range(1, 12), 'x'); for (int i = 0; i < 3; ++i) IOTracePopStr(b.data(), (int)b.size()); if (strnlen(b.data(), b.size()) >= b.size()) x.fail("trace-unterminated", "IOTracePopStr does not terminate its text"); } }
        }
        // life goes on
        { Wire w(v.text + " \n@1\n", wirechunk(d), (int)d.range(1, 8), st.seed ^ 9); std::istream is(&w); Got g; try { get(is, v, g); } catch (const Error& e) { x.fail("later-read-refused", "after a damaged one, a good %s '%.60s' is refused with error %d", NAME[v.kind], v.text.c_str(), e.GetType()); } compare(v, g, x); x.probe("later-read-good"); }
        x.cover(mix64((uint64_t)st.a[0] * 16 + (uint64_t)st.a[2]));
    }
    std::ostringstream o; IOTraceOutput(o);
}
void generate2(Rng& r, Program& p, bool thorough) { int n = (int)r.range(1, thorough ? 12 : 6); for (int i = 0; i < n; ++i) p.add("damage", {r.weighted({3, 2, 2, 2, 1, 1, 2, 1, 0.7, 0.03, 0.5, 1, 0.1, 1.5}), r.range(0, 4000), r.weighted({2, 1, 1, 2, 2, 1, 1, 1, 4, 1, 1.5, 0.5})}, r.next()); }
Scenario S2{"S02", "damaged input", "exploration", generate2, execute2,
    "A run reads 1-12 values whose text was cut off, corrupted, lost, repeated, nested, torn by a full disk, or whose stream fails at any byte, through a simulated stream; after each the undamaged text is read. Every run is non-trivial; distinct by the sequence of damages.",
    {"operators >> of the geometric primitives", "Path, VelocityProfile, Trajectory, RotationalInterpolation Read", "Eat, EatEnd, EatWord", "error trace"}, {"the byte stream and the disk (chunks, errors, end)", "heap (counted, seeded content)"},
    {"the damaged text may still be a value; it can be written out and destroyed", "the stream's own exception passes through when the caller enabled it", "the error trace keeps what was being read until the caller takes it"},
    150000, 8000000, 45, 500, {"fault:cut-off", "fault:bit-flipped", "fault:byte-replaced", "fault:byte-lost", "fault:piece-repeated", "fault:garbage-inserted", "fault:read-error", "fault:long-word", "fault:unterminated-comment", "fault:deep-nesting", "fault:huge-count", "fault:disk-full", "fault:mark-broken", "probe:half-text", "probe:mark-broken", "probe:clean-error", "probe:value-accepted", "probe:stream-exception", "probe:later-read-good", "probe:trace-shown"}, true};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S1, &S2}); }
