// O01: every owned motion object is released exactly once, a lent one never, whatever happens on the way.
// The parts are the caller's own subclasses that keep count of themselves and may refuse to be copied.
#include "motgen.hpp"
#include "trajectory_segment.hpp"
#include "trajectory_composite.hpp"
#include "trajectory_stationary.hpp"
#include <set>
using namespace mot; using namespace KDL;
namespace {
struct Refused {};
struct Reg { std::vector<char> alive; std::vector<int> born; int fuse = -1; int copies = 0; Ctx* x = nullptr; } *g = nullptr;
// a part's own account of its life
struct Life {
    int id; uint64_t magic = 0xfeedfacecafebeefULL; Life() { id = (int)g->alive.size(); g->alive.push_back(1); g->born.push_back(id); }
    ~Life() { if (magic != 0xfeedfacecafebeefULL || !g->alive[id]) sim::crash_note("released-twice", "a part was released a second time"); g->alive[id] = 0; magic = 0; }
    void touch() const { if (magic != 0xfeedfacecafebeefULL || !g->alive[id]) g->x->fail("used-after-release", "part %d is used after it was released", id); }
};
void before_copy(const Life& l) { l.touch(); if (g->fuse >= 0 && g->fuse-- == 0) throw Refused(); ++g->copies; }
struct TPath : Path {
    Life life; double L; explicit TPath(double l) : L(l) {}
    double LengthToS(double l) override { life.touch(); return l; } double PathLength() override { life.touch(); return L; } Frame Pos(double s) const override { life.touch(); return Frame(Vector(s, 0, 0)); } Twist Vel(double, double sd) const override { life.touch(); return Twist(Vector(sd, 0, 0), Vector::Zero()); } Twist Acc(double, double, double a) const override { life.touch(); return Twist(Vector(a, 0, 0), Vector::Zero()); }
    void Write(std::ostream&) override { life.touch(); } Path* Clone() override { before_copy(life); return new TPath(L); } IdentifierType getIdentifier() const override { life.touch(); return ID_POINT; }
};
struct TProf : VelocityProfile {
    Life life; double a = 0, b = 0, T = 0;
    void SetProfile(double p, double q) override { life.touch(); a = p; b = q; T = std::fabs(q - p); } void SetProfileDuration(double p, double q, double t) override { SetProfile(p, q); T = t; } double Duration() const override { life.touch(); return T; } double Pos(double t) const override { life.touch(); return T > 0 ? a + (b - a) * std::min(1.0, std::max(0.0, t / T)) : b; } double Vel(double) const override { life.touch(); return 0; } double Acc(double) const override { life.touch(); return 0; }
    void Write(std::ostream&) const override { life.touch(); } VelocityProfile* Clone() const override { before_copy(life); TProf* p = new TProf(); p->a = a; p->b = b; p->T = T; return p; }
};
struct TTraj : Trajectory {
    Life life; double T; explicit TTraj(double t) : T(t) {}
    double Duration() const override { life.touch(); return T; } Frame Pos(double t) const override { life.touch(); return Frame(Vector(t, 0, 0)); } Twist Vel(double) const override { life.touch(); return Twist::Zero(); } Twist Acc(double) const override { life.touch(); return Twist::Zero(); } Trajectory* Clone() const override { before_copy(life); return new TTraj(T); } void Write(std::ostream&) const override { life.touch(); }
};
struct TOrient : RotationalInterpolation {
    Life life; RotationalInterpolation_SingleAxis in;
    void SetStartEnd(Rotation a, Rotation b) override { life.touch(); in.SetStartEnd(a, b); } double Angle() override { life.touch(); return in.Angle(); } Rotation Pos(double t) const override { life.touch(); return in.Pos(t); } Vector Vel(double t, double d) const override { life.touch(); return in.Vel(t, d); } Vector Acc(double t, double d, double e) const override { life.touch(); return in.Acc(t, d, e); } void Write(std::ostream&) const override { life.touch(); } RotationalInterpolation* Clone() const override { before_copy(life); return new TOrient(); }
};
// what should be alive
enum { ORIENT, PATH, PROF, TRAJ };
struct Node { int type = PATH; void* p = nullptr; int id = -1; bool alive = true, root = true; std::vector<std::pair<int, bool>> kids; std::vector<int> born; int kind = 0; double len = 0; int nested = 0, points = 0; Frame first, via; double radius = 0; bool finished = false; };
struct World {
    std::vector<Node> v; Ctx& x; Reg reg; explicit World(Ctx& c) : x(c) { reg.x = &c; g = &reg; } ~World() { g = nullptr; }
    Path* path(int i) { return (Path*)v[i].p; } Trajectory* traj(int i) { return (Trajectory*)v[i].p; } VelocityProfile* prof(int i) { return (VelocityProfile*)v[i].p; } RotationalInterpolation* orient(int i) { return (RotationalInterpolation*)v[i].p; }
    int add(int type, void* p, int id, int kind) { Node n; n.type = type; n.p = p; n.id = id; n.kind = kind; v.push_back(n); return (int)v.size() - 1; }
    void begin() { reg.born.clear(); }                                      // an operation of the library starts
    void keep(int i) { for (int b : reg.born) v[i].born.push_back(b); reg.born.clear(); }        // its copies belong to node i
    void none(const char* what) { for (int b : reg.born) if (reg.alive[b]) x.fail("lost-part", "%s failed and left a copy it had made unreleased", what); reg.born.clear(); }
    void take(int parent, int kid, bool owned) { v[parent].kids.push_back({kid, owned}); if (owned) v[kid].root = false; v[parent].nested = std::max(v[parent].nested, v[kid].nested + 1); }
    void dead(int i) { if (!v[i].alive) return; v[i].alive = false; for (auto& k : v[i].kids) if (k.second) dead(k.first); }
    bool lent(int i) { std::set<int> mine; std::vector<int> s{i}; while (!s.empty()) { int k = s.back(); s.pop_back(); mine.insert(k); for (auto& q : v[k].kids) if (q.second) s.push_back(q.first); } for (size_t j = 0; j < v.size(); ++j) if (v[j].alive && !mine.count((int)j)) for (auto& k : v[j].kids) if (mine.count(k.first)) return true; return false; }
    void destroy(int i) { switch (v[i].type) { case ORIENT: delete orient(i); break; case PATH: delete path(i); break; case PROF: delete prof(i); break; default: delete traj(i); } dead(i); }
    void check(const char* when) {
        for (auto& n : v) { if (n.id >= 0 && n.alive && !reg.alive[n.id]) x.fail("released-early", "after %s: a part that is still owned elsewhere was released", when); if (n.id >= 0 && !n.alive && reg.alive[n.id]) x.fail("not-released", "after %s: a part was handed over and its owner is gone, but it was not released", when); if (!n.alive) for (int b : n.born) if (reg.alive[b]) x.fail("not-released", "after %s: a copy made on behalf of an object outlives it", when); }
        x.probe("checked");
    }
    void use(int i, Draw& d) {
        Node& n = v[i]; if (!n.alive) return; if (n.type == PATH) { if (n.len > 0 && ready(i)) { double s = n.len * d.u01(); Frame f = path(i)->Pos(s); x.d(f.p(0)); Twist t = path(i)->Vel(s, 1); x.d(t.rot(1)); path(i)->Acc(s, 1, 1); } } if (n.type == TRAJ && (n.kind != 3 || !n.kids.empty())) { double t = traj(i)->Duration() * d.u01(); Frame f = traj(i)->Pos(t); x.d(f.p(0)); } if (n.type == PROF) x.d(prof(i)->Duration()); x.probe("used");
    }
    bool ready(int i) { return v[i].kind != 4 || v[i].finished; }
    int pick(Draw& d, int type, bool usable = true) { std::vector<int> c; for (size_t i = 0; i < v.size(); ++i) if (v[i].alive && v[i].root && v[i].type == type && (!usable || type != PATH || (ready((int)i) && v[i].len > 0)) && v[i].nested < 6) c.push_back((int)i); return c.empty() ? -1 : d.pick(c); }
};
Frame rframe(Draw& d) { return toK(rpose(d, 2)); }
int orient(World& w, Draw& d) { int i; if (d.chance(0.2)) i = w.pick(d, ORIENT); else i = -1; if (i >= 0 && !w.lent(i)) return i; w.begin(); if (d.chance(0.2)) return w.add(ORIENT, new RotationalInterpolation_SingleAxis(), -1, 0); TOrient* o = new TOrient(); w.reg.born.clear(); return w.add(ORIENT, (RotationalInterpolation*)o, o->life.id, 1); }
// kinds of path nodes: 0 the caller's own, 1 line, 2 circle, 3 point, 4 rounded, 5 composite, 6 cyclic
int make_path(World& w, Draw& d, int kind) {
    Ctx& x = w.x; w.begin();
    if (kind == 0) { double l = d.uni(0.5, 3); TPath* p = new TPath(l); w.reg.born.clear(); int i = w.add(PATH, (Path*)p, p->life.id, 0); w.v[i].len = l; return i; }
    if (kind == 3) { int i = w.add(PATH, (Path*)new Path_Point(rframe(d)), -1, 3); return i; }
    if (kind == 1 || kind == 2 || kind == 4) {
        int o = orient(w, d); bool own = d.chance(0.65); Path* p = nullptr; bool refuse = kind != 1 && d.chance(0.25), refused = false; double rad = d.uni(0.05, 0.4), eqr = d.uni(0.05, 1); w.begin();
        try {
            if (kind == 1) p = d.chance(0.7) ? (Path*)new Path_Line(rframe(d), rframe(d), w.orient(o), eqr, own) : (Path*)new Path_Line(rframe(d), toK(rvec(d, 1)).Norm() > 0 ? Twist(toK(rvec(d, 1)), toK(rvec(d, 1))) : Twist::Zero(), w.orient(o), eqr, own);
            if (kind == 2) { Frame s = rframe(d); Vector c = s.p + Vector(1, 0.3, 0), q = c + Vector(0.2, 1, 0.4); if (refuse) { if (d.chance(0.5)) c = s.p; else q = c + (c - s.p) * 0.7; } p = new Path_Circle(s, c, q, toK(Pose{rrot(d), ref::v3(0, 0, 0)}).M, d.uni(0.1, 4), w.orient(o), eqr, own); }
            if (kind == 4) p = new Path_RoundedComposite(rad, refuse ? (d.chance(0.5) ? 0 : -eqr) : eqr, w.orient(o), own);
        } catch (const Error_MotionPlanning&) { refused = true; }
        if (refused != refuse) x.fail(refused ? "valid-input-refused" : "bad-input-accepted", "construction of kind %d", kind);
        if (refused) { x.fault("construction-rejected"); x.nontrivial = true; w.none("a rejected construction"); if (own) w.dead(o); w.check("a rejected construction"); return -1; }
        int i = w.add(PATH, p, -1, kind); w.take(i, o, own); w.keep(i); w.v[i].len = kind == 4 ? 0 : p->PathLength(); w.v[i].radius = rad; x.op(own ? "takes-orientation" : "borrows-orientation"); return i;
    }
    if (kind == 5) { int i = w.add(PATH, (Path*)new Path_Composite(), -1, 5); return i; }
    int c = w.pick(d, PATH); if (c < 0) return -1; bool own = d.chance(0.6) && !w.lent(c); int i = w.add(PATH, (Path*)new Path_Cyclic_Closed(w.path(c), (int)d.range(1, 3), own), -1, 6); w.take(i, c, own); w.v[i].len = w.path(i)->PathLength(); x.op("cyclic"); return i;
}
void grow(World& w, Draw& d, int i) {
    Node& n = w.v[i]; Ctx& x = w.x; if (n.kind == 5) { int c = w.pick(d, PATH); if (c < 0 || c == i || w.v[c].kids.size() > 30) return; std::vector<int> s{c}; while (!s.empty()) { int k = s.back(); s.pop_back(); if (k == i) return; for (auto& q : w.v[k].kids) s.push_back(q.first); } for (auto& m : w.v) if (m.alive) for (auto& q : m.kids) if (q.first == i) return; bool own = d.chance(0.6) && !w.lent(c); static_cast<Path_Composite*>(w.path(i))->Add(w.path(c), own); w.take(i, c, own); w.v[i].len = w.path(i)->PathLength(); x.op("add-part"); return; }
    if (n.kind != 4 || n.finished) return; Path_RoundedComposite* r = static_cast<Path_RoundedComposite*>(w.path(i)); for (auto& m : w.v) if (m.alive) for (auto& q : m.kids) if (q.first == i) return;
    if (n.points >= 2 && d.chance(0.3)) { w.begin(); w.reg.fuse = d.chance(0.2) ? 0 : -1; bool armed = w.reg.fuse >= 0; try { r->Finish(); n.finished = true; } catch (const Refused&) { x.fault("part-refuses-copy"); x.nontrivial = true; w.none("finishing a rounded path"); } if (armed && n.finished && w.reg.fuse == -1) x.fail("refusal-swallowed", "a part refused to be copied and the rounded path went on"); w.reg.fuse = -1; w.keep(i); n.len = r->PathLength(); x.op("finish"); return; }
    Frame f = rframe(d); if (n.points == 0) n.first = f; int how = d.chance(0.3) ? (int)d.range(1, 3) : 0; if (n.points >= 2) { if (how == 1) f.p = n.via.p; if (how == 2) f.p = n.via.p + (n.first.p - n.via.p) * 0.9; if (how == 3) f.p = n.via.p + (f.p - n.via.p) * (1e-4 / ((f.p - n.via.p).Norm() + 1e-9)); }
    w.begin(); bool ok = false; w.reg.fuse = d.chance(0.2) ? (int)d.range(0, 3) : -1; try { r->Add(f); ok = true; } catch (const Refused&) { x.fault("part-refuses-copy"); } catch (const Error_MotionPlanning&) { x.fault("point-rejected"); }
    w.reg.fuse = -1; if (!ok) { x.nontrivial = true; w.none("adding a corner point"); w.check("a rejected point"); return; } w.keep(i); if (n.points) { n.first = n.via; } n.via = f; ++n.points; n.len = r->GetNrOfSegments() ? r->PathLength() : 0; x.op("add-point");
}
int make_traj(World& w, Draw& d) {
    Ctx& x = w.x; int k = d.weighted({1, 1, 5, 2}); w.begin(); if (k == 0) { double T = d.uni(0.1, 3); TTraj* t = new TTraj(T); w.reg.born.clear(); return w.add(TRAJ, (Trajectory*)t, t->life.id, 0); } if (k == 1) return w.add(TRAJ, (Trajectory*)new Trajectory_Stationary(d.uni(0, 2), rframe(d)), -1, 1); if (k == 3) return w.add(TRAJ, (Trajectory*)new Trajectory_Composite(), -1, 3);
    int p = w.pick(d, PATH); if (p < 0) return -1; int q = d.chance(0.3) ? w.pick(d, PROF) : -1; if (q >= 0 && w.lent(q)) q = -1; if (q < 0) { if (d.chance(0.7)) { TProf* f = new TProf(); w.reg.born.clear(); q = w.add(PROF, (VelocityProfile*)f, f->life.id, 1); } else q = w.add(PROF, (VelocityProfile*)new VelocityProfile_Trap(1, 1), -1, 0); }
    bool own = d.chance(0.65) && !w.lent(p); Trajectory* t; if (d.chance(0.5)) { w.prof(q)->SetProfile(0, w.v[p].len); t = new Trajectory_Segment(w.path(p), w.prof(q), own); } else t = new Trajectory_Segment(w.path(p), w.prof(q), d.uni(0.5, 4), own); int i = w.add(TRAJ, t, -1, 2); w.take(i, p, own); w.take(i, q, own); x.op(own ? "segment-owns" : "segment-borrows"); return i;
}
// what a copy of node i is made of: the parts it shares with the original
void shares(World& w, int i, int copy) { if (w.v[i].type != TRAJ) return; std::vector<std::pair<int, bool>> kids = w.v[i].kids; for (auto& k : kids) { if (!k.second) w.v[copy].kids.push_back({k.first, false}); else if (w.v[k.first].type == TRAJ) shares(w, k.first, copy); } }
void copy(World& w, Draw& d, int i) {
    Ctx& x = w.x; w.begin(); w.reg.copies = 0; bool fuse = d.chance(0.35); w.reg.fuse = fuse ? (int)d.range(0, 5) : -1; void* p = nullptr; bool refused = false;
    try { switch (w.v[i].type) { case PATH: p = w.path(i)->Clone(); break; case PROF: p = w.prof(i)->Clone(); break; case TRAJ: p = w.traj(i)->Clone(); break; default: p = w.orient(i)->Clone(); } } catch (const Refused&) { refused = true; }
    bool fired = fuse && w.reg.fuse == -1; w.reg.fuse = -1; if (fired && !refused) x.fail("refusal-swallowed", "a part refused to be copied and the copy went on");
    if (refused) { x.fault("part-refuses-copy"); x.nontrivial = true; w.none("a copy"); w.check("a refused copy"); w.use(i, d); return; }
    int type = w.v[i].type; Node n; n.type = type; n.p = p; n.kind = w.v[i].kind; n.len = w.v[i].len; n.nested = w.v[i].nested; n.points = w.v[i].points; n.first = w.v[i].first; n.via = w.v[i].via; n.radius = w.v[i].radius; n.finished = w.v[i].finished; w.v.push_back(n); int c = (int)w.v.size() - 1; w.keep(c); shares(w, i, c); x.op("copy");
    // a composition without parts has no pose; a copied one is never asked unless its original had parts
    if (type == TRAJ && n.kind == 3) { w.v[c].kind = w.v[i].kids.empty() ? 3 : 1; }
}
void step(World& w, const Step& st) {
    Ctx& x = w.x; Draw d = x.draw(st); x.ev(st.op.c_str());
    if (st.op == "path") make_path(w, d, d.weighted({2, 2, 1.5, 0.4, 2, 2, 1}));
    if (st.op == "grow") { for (int t = 0; t < 4; ++t) { std::vector<int> c; for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i].alive && w.v[i].root && w.v[i].type == PATH && (w.v[i].kind == 5 || (w.v[i].kind == 4 && !w.v[i].finished))) c.push_back((int)i); if (c.empty()) break; grow(w, d, d.pick(c)); } }
    if (st.op == "profile") { w.begin(); TProf* f = new TProf(); w.reg.born.clear(); w.add(PROF, (VelocityProfile*)f, f->life.id, 1); }
    if (st.op == "trajectory") make_traj(w, d);
    if (st.op == "append") { std::vector<int> c, e; for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i].alive && w.v[i].root && w.v[i].type == TRAJ && w.v[i].nested < 6) { if (w.v[i].kind == 3) c.push_back((int)i); if (w.v[i].kind != 3 || !w.v[i].kids.empty()) e.push_back((int)i); } if (!c.empty() && !e.empty()) { int a = d.pick(c), b = d.pick(e); if (a != b && !w.lent(b)) { static_cast<Trajectory_Composite*>(w.traj(a))->Add(w.traj(b)); w.take(a, b, true); x.op("append"); } } }
    if (st.op == "clear") { std::vector<int> c; for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i].alive && w.v[i].root && w.v[i].type == TRAJ && w.v[i].kind == 3 && !w.v[i].kids.empty()) c.push_back((int)i); if (!c.empty()) { int a = d.pick(c); static_cast<Trajectory_Composite*>(w.traj(a))->Destroy(); x.fault("composition-cleared"); x.nontrivial = true; for (auto& k : w.v[a].kids) w.dead(k.first); w.v[a].kids.clear(); } }
    if (st.op == "copy") { int i = w.pick(d, d.weighted({0.3, 4, 0.7, 3}), false); if (i >= 0) copy(w, d, i); }
    if (st.op == "destroy") { std::vector<int> c; for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i].alive && w.v[i].root && !w.lent((int)i)) c.push_back((int)i); if (!c.empty()) { int i = d.pick(c); w.destroy(i); x.op("destroy"); } }
    w.check(st.op.c_str()); for (int t = 0; t < 2; ++t) { std::vector<int> c; for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i].alive && (w.v[i].type != TRAJ || w.v[i].kind != 3 || !w.v[i].kids.empty())) c.push_back((int)i); if (!c.empty()) w.use(d.pick(c), d); }
}
void execute(const Program& p, Ctx& x) {
    World w(x); int k = 0; for (auto& st : p.steps) { x.step_no = k++; step(w, st); if (w.v.size() > 120) break; }
    // everybody lets go, in an order that respects loans
    Rng r(p.seed ^ 77); for (;;) { std::vector<int> c; for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i].alive && w.v[i].root && !w.lent((int)i)) c.push_back((int)i); if (c.empty()) break; w.destroy(c[(size_t)(r.next() % c.size())]); w.check("the end"); }
    for (auto& n : w.v) if (n.alive) x.fail("model", "an object is left"); for (char a : w.reg.alive) if (a) x.fail("not-released", "a part outlives everything"); int64_t live = 0; for (char a : w.reg.alive) live += a; x.i(live); x.cover(mix64(w.v.size()) ^ mix64(w.reg.alive.size()));
}
void generate(Rng& r, Program& p, bool thorough) {
    int n = (int)r.range(10, thorough ? 70 : 40); for (int i = 0; i < n; ++i) { int o = r.weighted({4, 3, 0.5, 2, 1, 0.3, 2, 2}); static const char* const N[] = {"path", "grow", "profile", "trajectory", "append", "clear", "copy", "destroy"}; p.add(N[o], {}, r.next()); }
}
Scenario S{"O01", "ownership", "exploration", generate, execute,
    "A run builds, nests, extends, copies, clears and destroys paths, profiles, interpolations and trajectories in seeded order from library parts and from the caller's own subclasses, which keep account of their life, are owned or lent, and refuse to be copied at seeded moments; constructions and corner points are rejected. Non-trivial: a rejection, refusal or clearing; distinct by the sequence of operations and faults.",
    {"Path_*, Trajectory_*, RotationalInterpolation_SingleAxis, VelocityProfile_Trap"}, {"heap (counted, seeded content)", "caller-defined parts that count themselves"},
    {"a lent object outlives those who borrow it", "a composition without parts is not asked for a pose", "a part refuses to be copied by throwing from Clone"},
    250000, 12000000, 45, 500, {"fault:construction-rejected", "fault:point-rejected", "fault:part-refuses-copy", "fault:composition-cleared", "probe:checked", "probe:used", "op:copy", "op:destroy", "op:takes-orientation", "op:borrows-orientation", "op:segment-owns", "op:segment-borrows", "op:append", "op:cyclic", "op:add-part"}, true};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S}); }
