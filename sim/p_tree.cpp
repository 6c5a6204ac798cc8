// T01: trees and chains mirror the history of accepted edits.  T02: chains and sub-trees taken from a tree move as
// the tree does.  T03: tree solvers answer for the tree they were given.
#include "treegen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "treefksolverpos_recursive.hpp"
#include "kinfam_io.hpp"
#include <sstream>
#include "treejnttojacsolver.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
using namespace gen; using namespace KDL;
namespace {
typedef std::vector<ld> VL;
struct TreePair { std::unique_ptr<Tree> t; TModel m; };
struct ChainM { std::unique_ptr<Chain> c; std::vector<Seg> m; int nj() const { int k = 0; for (auto& s : m) k += s.moving(); return k; } };

bool same_segment(const Segment& a, const Seg& b, std::string& why) {
    if (a.getName() != b.name) { why = "name " + a.getName(); return false; }
    if ((a.getJoint().getType() != Joint::Fixed) != b.moving()) { why = "mobility"; return false; }
    if (a.getJoint().getName() != b.joint_name) { why = "joint name " + a.getJoint().getName(); return false; }
    for (double q : {0.0, 0.7}) { if (!(pdist(a.pose(b.moving() ? q : 0), b.pose(b.moving() ? q : 0)) < 1e-11)) { why = "pose"; return false; } }
    RigidBodyInertia I = a.getInertia(), J = toKi(b); for (int i = 0; i < 9; ++i) if (I.getRotationalInertia().data[i] != J.getRotationalInertia().data[i]) { why = "inertia"; return false; }
    if (!(pdist(a.getFrameToTip(), b.pose(0)) < 1e-11) || (b.jt == ref::FIXED ? a.getJoint().getType() != Joint::Fixed : std::string(a.getJoint().getTypeName()) != toKj(b).getTypeName())) { why = "tip frame or joint type"; return false; }
    if (I.getMass() != J.getMass() || a.getJoint().getInertia() != (double)b.jinertia || a.getJoint().getDamping() != (double)b.damping || a.getJoint().getStiffness() != (double)b.stiffness) { why = "mass or joint parameters"; return false; }
    const Joint& j = a.getJoint(); if (!b.moving()) { if (!(pdist(j.pose(0.4), Pose()) == 0) || tnorm(fromK(j.twist(0.4))) != 0) { why = "motion of the fixed joint"; return false; } return true; }
    V3 u = b.unit_axis(), o = b.org(); if (!(vdist(j.JointAxis(), u) < 1e-12) || !(vdist(j.JointOrigin(), o) < 1e-12)) { why = "joint axis or origin"; return false; }
    // the joint by itself: a turn about its axis seen from its origin, or a shift along it; and the velocities of both
    for (ld q : {0.0L, -0.9L}) { ld x = b.scale * q + b.offset; Pose w; if (b.rot()) { w.R = ref::rodrigues(u, x); w.p = o; } else w.p = o + x * u; if (!(pdist(j.pose((double)q), w) < 1e-11)) { why = "joint pose"; return false; } }
    Tw jt; (b.rot() ? jt.w : jt.v) = (b.scale * 1.7L) * u; if (!(tdist(j.twist(1.7), jt) < 1e-11)) { why = "joint twist"; return false; }
    ref::Model one; one.add(b); auto K = one.motion(VL{0.3L}, VL{1.7L}, VL{0}); Tw st; st.v = K.v[0]; st.w = K.w[0]; if (!(tdist(a.twist(0.3, 1.7), st) < 1e-10)) { why = "twist"; return false; }
    return true;
}
void check_tree(Ctx& x, const TreePair& p, const char* after) {
    const Tree& t = *p.t; const SegmentMap& S = t.getSegments(); auto bad = [&](const char* cls, const std::string& m) { x.fail(cls, "%s (after %s)", m.c_str(), after); };
    x.i((int64_t)p.m.n.size()); x.i(p.m.nj);
    if (S.size() != p.m.n.size() + 1) bad("segments-wrong", "tree holds " + std::to_string(S.size()) + " elements, " + std::to_string(p.m.n.size() + 1) + " were accepted");
    if (t.getNrOfSegments() != p.m.n.size()) bad("count-wrong", "segment count is " + std::to_string(t.getNrOfSegments()) + " instead of " + std::to_string(p.m.n.size()));
    if (t.getNrOfJoints() != (unsigned)p.m.nj) bad("count-wrong", "joint count is " + std::to_string(t.getNrOfJoints()) + " instead of " + std::to_string(p.m.nj));
    auto r = t.getRootSegment(); if (r == S.end() || r->first != p.m.root) bad("root-wrong", "root is not '" + p.m.root + "'");
    if (t.getSegment("no such segment") != S.end()) bad("segments-wrong", "an unknown name was found");
    std::vector<bool> seen((size_t)p.m.nj, false); size_t kids = 0;
    for (auto& k : p.m.n) {
        auto it = t.getSegment(k.first); if (it == S.end()) bad("segment-lost", "segment '" + k.first + "' is missing");
        if (it->first != k.first) bad("segments-wrong", "key differs");
        std::string why; if (!same_segment(GetTreeElementSegment(it->second), k.second.s, why)) bad("segment-changed", "segment '" + k.first + "' differs in " + why);
        auto want = S.find(k.second.parent); if (want == S.end() || GetTreeElementParent(it->second) != want) bad("parent-link-wrong", "the parent of '" + k.first + "' is not '" + k.second.parent + "' of this tree");
        auto& ch = GetTreeElementChildren(want->second); int n = 0; for (auto& c : ch) if (c == it) ++n; if (n != 1) bad("child-link-wrong", "'" + k.first + "' is listed " + std::to_string(n) + " times as child of '" + k.second.parent + "'");
        if (k.second.s.moving()) { unsigned q = GetTreeElementQNr(it->second); if (q >= (unsigned)p.m.nj || seen[q]) bad("joint-number-wrong", "joint number " + std::to_string(q) + " of '" + k.first + "' is out of range or used twice"); seen[q] = true; if ((int)q != k.second.q) bad("joint-number-changed", "joint number of '" + k.first + "' is " + std::to_string(q) + ", it was " + std::to_string(k.second.q)); }
    }
    for (auto it = S.begin(); it != S.end(); ++it) kids += GetTreeElementChildren(it->second).size();
    if (kids != p.m.n.size()) bad("child-link-wrong", std::to_string(kids) + " child links for " + std::to_string(p.m.n.size()) + " segments");
}
// the printed listing shows every segment once, under its parent, with its joint number
void check_listing(Ctx& x, const TreePair& p) {
    std::string sep = "<>", pre = "| "; std::istringstream is(tree2str(*p.t, sep, pre)); std::string line; std::vector<std::string> way; std::set<std::string> seen; x.op("listing");
    while (std::getline(is, line)) {
        if (line.compare(0, pre.size(), pre) != 0) x.fail("listing-wrong", "line '%s' has no preamble", line.c_str()); size_t at = pre.size(), lv = 0; while (line.compare(at, sep.size(), sep) == 0) { at += sep.size(); ++lv; } size_t e = line.find("(q_nr: ", at); if (e == std::string::npos) x.fail("listing-wrong", "line '%s'", line.c_str());
        std::string n = line.substr(at, e - at); int q = atoi(line.c_str() + e + 7); if (!p.m.has(n) || !seen.insert(n).second || lv > way.size() || (lv == 0) != (n == p.m.root)) x.fail("listing-wrong", "'%s' is listed at depth %zu", n.c_str(), lv); way.resize(lv); way.push_back(n);
        if (lv) { const Node& k = p.m.n.at(n); if (k.parent != way[lv - 1]) x.fail("listing-wrong", "'%s' is listed under '%s' instead of '%s'", n.c_str(), way[lv - 1].c_str(), k.parent.c_str()); if (k.s.moving() && q != (int)GetTreeElementQNr(p.t->getSegment(n)->second)) x.fail("listing-wrong", "'%s' is listed with joint number %d", n.c_str(), q); }
    }
    std::ostringstream os; os << *p.t; std::string all = os.str(); size_t k = 0; for (size_t at = 0; (at = all.find("(q_nr: ", at)) != std::string::npos; ++at) ++k; if (k != p.m.n.size() + 1) x.fail("listing-wrong", "%zu of %zu elements are written", k, p.m.n.size() + 1);
    for (auto& e : p.m.n) if (all.find(e.first + "(q_nr: ") == std::string::npos) x.fail("listing-wrong", "'%s' is not written", e.first.c_str());
    if (seen.size() != p.m.n.size() + 1) x.fail("listing-wrong", "%zu of %zu elements are listed", seen.size(), p.m.n.size() + 1);
}
void check_chain(Ctx& x, const ChainM& c, const char* after) {
    if (c.c->getNrOfSegments() != c.m.size() || (int)c.c->getNrOfJoints() != c.nj()) x.fail("chain-count-wrong", "chain reports %u segments and %u joints instead of %zu and %d (after %s)", c.c->getNrOfSegments(), c.c->getNrOfJoints(), c.m.size(), c.nj(), after);
    std::ostringstream os; os << *c.c; std::string all = os.str(); size_t at = 0; for (auto& e : c.m) { at = all.find(e.name + ":[", at); if (at == std::string::npos) x.fail("listing-wrong", "'%s' is not written in its place (after %s)", e.name.c_str(), after); ++at; }
    const Chain& k = *c.c; for (size_t i = 0; i < c.m.size(); ++i) { std::string why; if (!same_segment(k.getSegment((unsigned)i), c.m[i], why)) x.fail("chain-segment-wrong", "segment %zu differs in %s (after %s)", i, why.c_str(), after); }
}
// numbers given to segments that an accepted edit of several segments brought in: adopt them, the check wants a permutation
void adopt(TreePair& p, const std::set<std::string>& fresh) { for (auto& k : fresh) { auto it = p.t->getSegment(k); if (it != p.t->getSegments().end() && p.m.n[k].s.moving()) p.m.n[k].q = (int)GetTreeElementQNr(it->second); } }

struct Vel3 { Pose P; Tw t; };
// poses and velocities of every segment for one state
struct State { ref::Model m; std::map<std::string, int> idx; VL q, qd; ref::Model::Kin K; Vel3 of(const std::string& n) const { Vel3 r; int i = idx.at(n); if (i >= 0) { r.P = K.P[i]; r.t.v = K.v[i]; r.t.w = K.w[i]; } return r; } };
State state(const TModel& t, Draw& d) { State s; s.m = t.model(s.idx); s.q = toL(rq(d, (unsigned)t.nj, 3)); s.qd = toL(rq(d, (unsigned)t.nj, 2)); s.K = s.m.motion(s.q, s.qd, VL(t.nj, 0)); return s; }
Vel3 relative(const Vel3& a, const Vel3& b) { Vel3 r; r.P = inv(a.P) * b.P; M3 Rt = ref::tr(a.P.R); r.t.w = Rt * (b.t.w - a.t.w); r.t.v = Rt * (b.t.v - a.t.v - cross(a.t.w, b.P.p - a.P.p)); return r; }

struct World { std::vector<TreePair> t; std::vector<ChainM> c; int serial = 0; SegOpts o; std::set<std::string> used;
    std::string fresh() { return "s" + std::to_string(serial++); } };
std::string pick(Draw& d, const TModel& m) { auto v = m.names(); return v[(size_t)d.range(0, (int64_t)v.size() - 1)]; }

void check_getchain(World& w, TreePair& p, ChainM& rec, Ctx& x, const Step& st) {
    Draw d = x.draw(st); std::string a = pick(d, p.m), b = pick(d, p.m); int bad = (int)st.a[2];
    if (bad == 1) a = "nobody"; if (bad == 2) b = "nobody"; if (bad) { x.fault("unknown-segment-asked"); x.nontrivial = true; }
    x.ev("getChain"); x.s(a); x.s(b); bool ok = p.t->getChain(a, b, *rec.c); x.i(ok); x.op("get-chain");
    check_tree(x, p, "getChain");
    if (bad) { if (ok) x.fail("unknown-segment-accepted", "a chain between '%s' and '%s' was returned", a.c_str(), b.c_str()); rec.c.reset(new Chain); rec.m.clear(); return; }
    if (!ok) x.fail("valid-request-refused", "no chain between '%s' and '%s'", a.c_str(), b.c_str());
    // the way: up to the common ancestor, then down
    std::vector<std::string> up{a}, down; std::string c = a; while (!p.m.under(b, c)) { c = p.m.n.at(c).parent; up.push_back(c); } for (std::string k = b; k != c; k = p.m.n.at(k).parent) down.insert(down.begin(), k);
    State s = state(p.m, d); const Chain& k = *rec.c; size_t ns = up.size() - 1 + down.size(); std::vector<std::string> reach; VL cq, cqd; 
    for (size_t i = 0; i + 1 < up.size(); ++i) { reach.push_back(up[i + 1]); int j = p.m.n.at(up[i]).q; if (j >= 0) { cq.push_back(s.q[j]); cqd.push_back(s.qd[j]); } }
    for (auto& n : down) { reach.push_back(n); int j = p.m.n.at(n).q; if (j >= 0) { cq.push_back(s.q[j]); cqd.push_back(s.qd[j]); } }
    if (k.getNrOfSegments() != ns || k.getNrOfJoints() != cq.size()) x.fail("chain-size-wrong", "chain from '%s' to '%s' has %u segments and %u joints, the way between them %zu and %zu", a.c_str(), b.c_str(), k.getNrOfSegments(), k.getNrOfJoints(), ns, cq.size());
    JntArrayVel q((unsigned)cq.size()); for (unsigned i = 0; i < cq.size(); ++i) { q.q(i) = (double)cq[i]; q.qdot(i) = (double)cqd[i]; }
    ChainFkSolverVel_recursive fk(k); FrameVel f; Vel3 A = s.of(a);
    for (size_t i = 0; i < ns; ++i) {
        Vel3 R = relative(A, s.of(reach[i])); if (fk.JntToCart(q, f, (int)i + 1) != 0) x.fail("chain-unusable", "forward kinematics of the chain refused"); log(x, f.GetFrame()); log(x, f.GetTwist());
        if (!(pdist(f.GetFrame(), R.P) < 1e-9)) x.fail("chain-pose-wrong", "the chain from '%s' to '%s' puts '%s' off by %.3g", a.c_str(), b.c_str(), reach[i].c_str(), pdist(f.GetFrame(), R.P));
        if (!(tdist(f.GetTwist(), R.t) < 1e-9 * (1 + tnorm(R.t)))) x.fail("chain-velocity-wrong", "the chain from '%s' to '%s' moves '%s' at a velocity off by %.3g", a.c_str(), b.c_str(), reach[i].c_str(), tdist(f.GetTwist(), R.t));
        if (k.getSegment((unsigned)i).getName() != reach[i]) x.fail("chain-name-wrong", "segment %zu of the chain is called '%s', it ends at '%s'", i, k.getSegment((unsigned)i).getName().c_str(), reach[i].c_str());
        { const std::string& at = i + 1 < up.size() ? up[i] : reach[i]; const Joint& J = k.getSegment((unsigned)i).getJoint(); if (at != p.m.root) { const Seg& g = p.m.n.at(at).s; x.d(J.getDamping()); 
            if ((J.getType() != Joint::Fixed) != g.moving() || J.getName() != g.joint_name || J.getInertia() != (double)g.jinertia || J.getDamping() != (double)g.damping || J.getStiffness() != (double)g.stiffness || (g.moving() && std::fabs(J.getOffset()) != std::fabs((double)g.offset))) x.fail("chain-joint-wrong", "segment %zu of the chain moves by a joint '%s' (inertia %g, damping %g, stiffness %g) instead of '%s' (%g, %g, %g)", i, J.getName().c_str(), J.getInertia(), J.getDamping(), J.getStiffness(), g.joint_name.c_str(), (double)g.jinertia, (double)g.damping, (double)g.stiffness); } }
        double mass = reach[i] == p.m.root ? 0 : (double)p.m.n.at(reach[i]).s.mass; if (k.getSegment((unsigned)i).getInertia().getMass() != mass) x.fail("chain-inertia-wrong", "segment '%s' of the chain weighs %g instead of %g", reach[i].c_str(), k.getSegment((unsigned)i).getInertia().getMass(), mass);
    }
    x.cover(mix64(up.size() * 17 + down.size()) ^ cq.size());
    if (up.size() > 1 && !down.empty()) x.probe("chain-across-branches"); else if (up.size() > 1) x.probe("chain-upwards"); else if (a == b) x.probe("chain-empty"); else x.probe("chain-downwards");
    // what was taken is a chain of its own from here on
    rec.c.reset(new Chain); rec.m.clear();
}
void check_getsub(World& w, TreePair& p, TreePair& rec, Ctx& x, const Step& st) {
    Draw d = x.draw(st); std::string a = pick(d, p.m); bool self = &p == &rec; int bad = (int)st.a[2];
    if (bad) { a = "nobody"; x.fault("unknown-segment-asked"); x.nontrivial = true; }
    if (self) x.fault("result-replaces-source");
    TModel src = p.m; x.ev("getSubTree"); x.s(a); bool ok = p.t->getSubTree(a, *rec.t); x.i(ok); x.op("get-subtree");
    if (bad) { if (ok) x.fail("unknown-segment-accepted", "a sub-tree from '%s' was returned", a.c_str()); check_tree(x, p, "refused getSubTree"); if (!self) { rec.t.reset(new Tree("root")); rec.m = TModel(); rec.m.root = "root"; } return; }
    if (!ok) x.fail("valid-request-refused", "no sub-tree from '%s'", a.c_str());
    TModel r; r.root = a; std::set<std::string> fresh; for (auto& k : src.n) if (k.first != a && src.under(k.first, a)) { r.n[k.first] = k.second; fresh.insert(k.first); r.nj += k.second.s.moving(); }
    rec.m = r; adopt(rec, fresh); check_tree(x, rec, "getSubTree"); if (!self) check_tree(x, p, "getSubTree");
    State s = state(src, d); VL q(r.nj); for (auto& k : rec.m.n) if (k.second.q >= 0) q[k.second.q] = s.q[src.n.at(k.first).q];
    TreeFkSolverPos_recursive fk(*rec.t); JntArray kq(r.nj); for (int i = 0; i < r.nj; ++i) kq(i) = (double)q[i]; Vel3 A = s.of(a);
    for (auto& k : rec.m.n) { Frame f; if (fk.JntToCart(kq, f, k.first) < 0) x.fail("subtree-unusable", "forward kinematics of the sub-tree refused"); Pose P = inv(A.P) * s.of(k.first).P; if (!(pdist(f, P) < 1e-9)) x.fail("subtree-pose-wrong", "segment '%s' of the sub-tree of '%s' is off by %.3g", k.first.c_str(), a.c_str(), pdist(f, P)); }
    if (r.n.empty()) x.probe("subtree-empty"); else if (a == src.root) x.probe("subtree-whole"); else x.probe("subtree");
}
// one edit; returns false when the step is not an edit
bool edit(World& w, const Step& st, Ctx& x) {
    Draw d = x.draw(st); if (w.t.empty()) { TreePair p; p.m.root = "root"; p.t.reset(new Tree("root")); w.t.push_back(std::move(p)); } if (w.c.empty()) { ChainM c; c.c.reset(new Chain); w.c.push_back(std::move(c)); }
    size_t i = (size_t)(st.a[0] % (int64_t)w.t.size()), j = (size_t)(st.a[1] % (int64_t)w.t.size()); int bad = (int)st.a[2]; TreePair& p = w.t[i]; ChainM& c = w.c[(size_t)(st.a[1] % (int64_t)w.c.size())];
    if (st.op == "seg") {
        Seg g = rseg(d, w.o, w.fresh()); std::string hook = pick(d, p.m); if (bad == 1) { hook = "nobody"; x.fault("unknown-hook"); } if (bad == 2) { g.name = pick(d, p.m); g.joint_name = "j_dup"; x.fault("name-taken"); } if (bad == 3) { hook = g.name; x.fault("hook-is-itself"); }
        g.damping = d.chance(0.3) ? (ld)0.5 : 0; g.stiffness = d.chance(0.3) ? (ld)0.25 : 0;
        x.ev("seg"); bool want = p.m.add(g, hook), ok = p.t->addSegment(toKs(g), hook); x.i(ok); x.op(ok ? "segment-added" : "segment-refused");
        if (ok != want) x.fail(want ? "valid-edit-refused" : "bad-edit-accepted", "adding '%s' under '%s' was %s", g.name.c_str(), hook.c_str(), ok ? "accepted" : "refused"); if (bad) x.nontrivial = true; check_tree(x, p, ok ? "addSegment" : "a refused addSegment"); return true;
    }
    if (st.op == "cseg") {
        Seg g = rseg(d, w.o, w.fresh()); if (bad && !p.m.n.empty()) { g.name = pick(d, p.m); } x.ev("cseg");
        if (bad == 3 && !c.m.empty()) { size_t k = (size_t)d.range(0, (int64_t)c.m.size() - 1); x.fault("own-segment-added-again"); x.nontrivial = true; c.c->addSegment(c.c->getSegment((unsigned)k)); Seg h = c.m[k]; c.m.push_back(h); }
        else if (bad == 2) { // a joint cannot be made with an axis it does not use, or without one it needs; the attempt leaves the chain alone
            x.fault("joint-refused"); x.nontrivial = true; static const Joint::JointType A[] = {Joint::RotAxis, Joint::TransAxis}, B[] = {Joint::RotX, Joint::RotY, Joint::RotZ, Joint::TransX, Joint::TransY, Joint::TransZ, Joint::Fixed}; int how = (int)d.range(0, 3); bool thrown = false; std::string said;
            try { if (how == 0) c.c->addSegment(Segment(g.name, Joint(A[d.range(0, 1)]), toK(g.f_tip))); else if (how == 1) c.c->addSegment(Segment(g.name, Joint(g.joint_name, A[d.range(0, 1)]), toK(g.f_tip)));
                else if (how == 2) c.c->addSegment(Segment(g.name, Joint(Vector(), Vector(0, 0, 1), B[d.range(0, 6)]), toK(g.f_tip))); else c.c->addSegment(Segment(g.name, Joint(g.joint_name, Vector(), Vector(0, 0, 1), B[d.range(0, 6)]), toK(g.f_tip))); } catch (const std::exception& e) { thrown = true; said = e.what(); }
            if (!thrown || said.empty()) x.fail("bad-joint-accepted", "a joint %s was accepted", how < 2 ? "along an axis was made without one" : "with a fixed axis was given another"); }
        else if (d.chance(0.3)) { Segment s = toKs(g), t; if (!c.m.empty() && d.chance(0.7)) t = c.c->getSegment((unsigned)d.range(0, (int64_t)c.m.size() - 1)); t = s; Segment& self = t; t = self; c.c->addSegment(t); c.m.push_back(g); x.probe("segment-assigned"); }
        else { c.c->addSegment(toKs(g)); c.m.push_back(g); } check_chain(x, c, "addSegment"); return true;
    }
    if (st.op == "cchain") { ChainM& e = w.c[(size_t)(st.a[0] % (int64_t)w.c.size())]; x.ev("cchain"); if (c.m.size() + e.m.size() > 40) return true; if (&c == &e) { x.fault("chain-added-to-itself"); x.nontrivial = true; } std::vector<Seg> add = e.m; c.c->addChain(*e.c); c.m.insert(c.m.end(), add.begin(), add.end()); check_chain(x, c, "addChain"); check_chain(x, e, "addChain"); x.op("chain-added"); return true; }
    if (st.op == "ccopy") {
        ChainM& e = w.c[(size_t)(st.a[0] % (int64_t)w.c.size())]; x.ev("ccopy"); x.nontrivial = true; int k = (int)d.range(0, 3); x.i(k); 
        if (k == 0) { if (&c == &e) x.fault("chain-assigned-to-itself"); Chain& dst = *c.c; const Chain& src = *e.c; dst = src; c.m = e.m; }
        else if (k == 1) { ChainM n; n.c.reset(new Chain(*e.c)); n.m = e.m; if (w.c.size() < 4) w.c.push_back(std::move(n)); else c = std::move(n); }
        else if (k == 2 && w.c.size() > 1) { w.c.erase(w.c.begin() + (long)(st.a[0] % (int64_t)w.c.size())); x.fault("chain-destroyed"); }
        else { c.c.reset(new Chain); c.m.clear(); }
        for (auto& z : w.c) check_chain(x, z, "copying"); x.op("chain-copied"); return true;
    }
    if (st.op == "chain") {
        std::string hook = bad == 1 ? "nobody" : pick(d, p.m); if (bad == 1) { x.fault("unknown-hook"); x.nontrivial = true; }
        x.ev("chain"); bool want = true; std::string at = hook; size_t k = 0; for (; k < c.m.size(); ++k) { if (!p.m.add(c.m[k], at)) { want = false; break; } at = c.m[k].name; }
        bool ok = p.t->addChain(*c.c, hook); x.i(ok); x.op(ok ? "chain-hooked" : "chain-refused"); if (!want) { if (k) x.fault("refused-part-way"); x.nontrivial = true; }
        if (ok != want && !c.m.empty()) x.fail(want ? "valid-edit-refused" : "bad-edit-accepted", "adding a chain of %zu segments under '%s' was %s", c.m.size(), hook.c_str(), ok ? "accepted" : "refused");
        check_tree(x, p, ok ? "addChain" : "a refused addChain"); check_chain(x, c, "addChain"); return true;
    }
    if (st.op == "tree") {
        TreePair& u = w.t[j]; std::string hook = bad == 1 ? "nobody" : pick(d, p.m); if (p.m.n.size() + u.m.n.size() > 60) return true; if (bad == 1) x.fault("unknown-hook"); if (i == j) x.fault("tree-added-to-itself"); if (bad) x.nontrivial = true;
        x.ev("tree"); TModel src = u.m, old = p.m; bool clash = false; for (auto& k : src.n) if (old.has(k.first)) clash = true; bool known = old.has(hook), want = known && !clash;
        bool ok = p.t->addTree(*u.t, hook); x.i(ok); x.op(ok ? "tree-hooked" : "tree-refused");
        if (ok != want && !src.n.empty()) x.fail(want ? "valid-edit-refused" : "bad-edit-accepted", "adding a tree of %zu segments under '%s' was %s", src.n.size(), hook.c_str(), ok ? "accepted" : "refused");
        if (known) { // what is new must come from the added tree, under the parents it had there
            std::set<std::string> fresh; for (auto it = p.t->getSegments().begin(); it != p.t->getSegments().end(); ++it) if (!old.has(it->first)) fresh.insert(it->first);
            for (auto& k : fresh) { auto f = src.n.find(k); if (f == src.n.end()) x.fail("segment-from-nowhere", "segment '%s' appeared", k.c_str()); Node n = f->second; if (n.parent == src.root) n.parent = hook; p.m.n[k] = n; p.m.nj += n.s.moving(); }
            for (auto& k : fresh) if (!p.m.has(p.m.n[k].parent)) x.fail("segment-without-parent", "'%s' was added without its parent", k.c_str());
            if (want && fresh.size() != src.n.size()) x.fail("segment-lost", "%zu of %zu segments of the added tree arrived", fresh.size(), src.n.size()); if (!want && !fresh.empty()) { x.fault("refused-part-way"); x.nontrivial = true; }
            adopt(p, fresh); for (auto& k : fresh) if (p.m.n[k].q >= 0 && p.m.n[k].q < old.nj) x.fail("joint-number-wrong", "a new joint got number %d, of an old one", p.m.n[k].q);
        }
        check_tree(x, p, ok ? "addTree" : "a refused addTree"); if (i != j) check_tree(x, u, "being added"); return true;
    }
    if (st.op == "copy") {
        x.ev("copy"); x.nontrivial = true; int k = (int)d.range(0, 4); x.i(k);
        if (k == 0) { TreePair n; n.t.reset(new Tree(*p.t)); n.m = p.m; check_tree(x, n, "being copied"); if (w.t.size() < 4) w.t.push_back(std::move(n)); else w.t[j] = std::move(n); x.probe("copied"); }
        else if (k == 1) { if (i == j) x.fault("tree-assigned-to-itself"); Tree& dst = *w.t[j].t; const Tree& src = *p.t; dst = src; w.t[j].m = p.m; x.probe("assigned"); }
        else if (k == 2 && w.t.size() > 1) { w.t.erase(w.t.begin() + (long)i); x.fault("tree-destroyed"); }
        else if (k == 3) { std::string n = d.chance(0.5) ? "root" : "base" + std::to_string(d.range(0, 2)); TreePair q; q.m.root = n; q.t.reset(new Tree(n)); w.t[j] = std::move(q); x.fault("tree-replaced"); }
        else { TreePair q; q.t.reset(new Tree(std::move(*p.t))); q.m = p.m; *p.t = *q.t; w.t.push_back(std::move(q)); if (w.t.size() > 4) w.t.pop_back(); }
        for (auto& z : w.t) check_tree(x, z, "copying"); return true;
    }
    return false;
}
void exec_edit(const Program& p, Ctx& x) {
    World w; int k = 0; w.o.p_fixed = p.c("fixed") ? 0.5 : 0.15;
    for (auto& st : p.steps) {
        x.step_no = k++; if (edit(w, st, x)) { uint64_t s = 0; for (auto& t : w.t) s = mix64(s ^ (t.m.n.size() * 64 + (uint64_t)t.m.nj)); x.cover(s); continue; }
        TreePair& t = w.t[(size_t)(st.a[0] % (int64_t)w.t.size())];
        if (st.op == "getchain") check_getchain(w, t, w.c[(size_t)(st.a[1] % (int64_t)w.c.size())], x, st);
        if (st.op == "getsub") check_getsub(w, t, w.t[(size_t)(st.a[1] % (int64_t)w.t.size())], x, st);
    }
    for (auto& z : w.t) { check_tree(x, z, "the whole history"); check_listing(x, z); } for (auto& z : w.c) check_chain(x, z, "the whole history");
}
void generate_edit(Rng& r, Program& p, bool thorough, bool take) {
    p.cfg["fixed"] = r.chance(0.2); int n = (int)r.range(5, thorough ? 80 : 45); double pb = r.chance(0.25) ? 0 : r.uni(0.05, 0.4); double pt = take ? 0.4 : 0.05;
    auto bad = [&](int m) { return r.chance(pb) ? r.range(1, m) : 0; };
    for (int i = 0; i < n; ++i) {
        if (i > 3 && r.chance(pt)) { p.add(r.chance(0.75) ? "getchain" : "getsub", {r.range(0, 3), r.range(0, 3), bad(2)}, r.next()); continue; }
        switch (r.weighted({6, 1.5, 0.6, 0.6, 1, 1, take ? 0.6 : 1.2})) {
        case 0: p.add("seg", {r.chance(0.6) ? 0 : r.range(0, 3), 0, bad(3)}, r.next()); break; case 1: p.add("cseg", {r.range(0, 3), r.range(0, 3), bad(3)}, r.next()); break;
        case 2: p.add("cchain", {r.range(0, 3), r.range(0, 3), 0}, r.next()); break; case 3: p.add("ccopy", {r.range(0, 3), r.range(0, 3), 0}, r.next()); break;
        case 4: p.add("chain", {r.range(0, 3), r.range(0, 3), bad(1)}, r.next()); break; case 5: p.add("tree", {r.range(0, 3), r.range(0, 3), bad(1)}, r.next()); break;
        default: p.add("copy", {r.range(0, 3), r.range(0, 3), 0}, r.next()); }
    }
}
void gen_t01(Rng& r, Program& p, bool th) { generate_edit(r, p, th, false); }
void gen_t02(Rng& r, Program& p, bool th) { generate_edit(r, p, th, true); }

// ---- T03 -------------------------------------------------------------------------------------------------------
struct Solv { // one caller
    std::unique_ptr<TreeFkSolverPos_recursive> fk; std::unique_ptr<TreeJntToJacSolver> jac; TModel snap;   // answers for the tree as it was when the solver was made
    std::unique_ptr<TreeIdSolver_RNE> id; V3 g; size_t ns = 0; int nj = 0; std::set<std::string> known; bool id_made = false; Jacobian J; Frame f;
};
void exec_solve(const Program& p, Ctx& x) {
    TreePair t; t.m.root = "base"; t.t.reset(new Tree("base")); std::vector<std::unique_ptr<Solv>> v; int k = 0, serial = 0; SegOpts o; o.p_fixed = p.c("fixed") ? 0.4 : 0.15;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st);
        if (st.op == "seg") { Seg g = rseg(d, o, "s" + std::to_string(serial++)); std::string hook = d.chance(0.55) && serial > 1 && t.m.has("s" + std::to_string(serial - 2)) ? "s" + std::to_string(serial - 2) : pick(d, t.m); x.ev("seg"); if (!v.empty()) { x.fault("tree-grown"); x.nontrivial = true; } t.m.add(g, hook); t.t->addSegment(toKs(g), hook); continue; }
        if (st.op == "other") { // the tree object becomes another tree, at times with as many segments and joints as before
            x.fault("tree-replaced"); x.nontrivial = true; TModel n; n.root = d.chance(0.7) ? t.m.root : "base2"; Tree k2(n.root); auto names = t.m.names(); std::vector<std::string> have{n.root}; bool rename = d.chance(0.5); std::map<std::string, int> idx; ref::Model m = t.m.model(idx);
            size_t upto = d.chance(0.6) ? m.s.size() : (size_t)d.range(0, (int64_t)m.s.size());
            for (size_t i = 0; i < upto; ++i) { Seg g = m.s[i]; if (rename && d.chance(0.5)) g.name = "s" + std::to_string(serial++); g.f_tip.p = rvec(d, 0.5); for (int a = 0; a < 3; ++a) g.f_tip.p.x[a] = (double)g.f_tip.p[a]; std::string hook = have[(size_t)d.range(0, (int64_t)have.size() - 1)]; if (n.add(g, hook)) { k2.addSegment(toKs(g), hook); have.push_back(g.name); } }
            *t.t = k2; t.m = n; continue; }
        if (st.op == "boot") { x.ev("boot"); std::unique_ptr<Solv> s(new Solv); V3 g = rvec(d, 10); for (int i = 0; i < 3; ++i) g.x[i] = (double)g[i]; s->g = g; s->fk.reset(new TreeFkSolverPos_recursive(*t.t)); s->jac.reset(new TreeJntToJacSolver(*t.t)); s->id.reset(new TreeIdSolver_RNE(*t.t, toK(g))); s->snap = t.m; s->ns = t.m.n.size(); s->nj = t.m.nj; for (auto& n : t.m.names()) s->known.insert(n); v.push_back(std::move(s)); if (v.size() > 1) x.nontrivial = true; continue; }
        if (v.empty()) continue; Solv& s = *v[(size_t)(st.a[0] % (int64_t)v.size())]; int bad = (int)st.a[2]; if (bad) x.nontrivial = true;
        if (st.op == "update") { x.ev("update"); s.id->updateInternalDataStructures(); s.ns = t.m.n.size(); s.nj = t.m.nj; for (auto& n : t.m.names()) s.known.insert(n); x.op("update"); continue; }
        bool dyn = st.op == "id"; const TModel& M = dyn ? t.m : s.snap; unsigned n = (unsigned)M.nj; double big = d.chance(0.9) ? 3.2 : 30; JntArray q = rq(d, n, big), qd = rq(d, n, 2), qdd = rq(d, n, 3); VL Q = toL(q), QD = toL(qd), QDD = toL(qdd);
        std::map<std::string, int> idx; ref::Model m = M.model(idx); std::string name = pick(d, M); bool size_bad = false, nan = false;
        if (bad == 1) { x.fault("wrong-size-input"); size_bad = true; int w2 = dyn ? (int)d.range(0, 2) : 0; (w2 == 0 ? q : w2 == 1 ? qd : qdd) = rq(d, d.chance(0.5) || !n ? n + 1 : n - 1, 1); }
        if (bad == 2 && !dyn) { x.fault("unknown-segment-asked"); name = "nobody"; }
        if (bad == 3 && n) { x.fault("nan-input"); int w2 = dyn ? (int)d.range(0, 2) : 0; (w2 == 0 ? q : w2 == 1 ? qd : qdd)((unsigned)d.range(0, n - 1)) = d.chance(0.5) ? NAN : INFINITY; nan = true; }
        x.ev(st.op.c_str()); x.i(bad); double tol = 1e-10 * big * (1 + (double)m.s.size());
        if (st.op == "fk") {
            int rc = s.fk->JntToCart(q, s.f, name); x.i(rc); x.op("tree-fk"); if (size_bad || name == "nobody") { if (rc >= 0) x.fail("bad-input-accepted", "tree pose kinematics returned %d", rc); continue; } if (rc != 0) x.fail("valid-call-refused", "tree pose kinematics returned %d for '%s'", rc, name.c_str()); if (nan) continue;
            Pose P; if (idx[name] >= 0) P = m.fk(Q)[idx[name]]; log(x, s.f); if (!(pdist(s.f, P) <= tol)) x.fail("pose-wrong", "pose of '%s' is off by %.3g", name.c_str(), pdist(s.f, P)); x.probe("pose-checked");
        } else if (st.op == "jac") {
            unsigned cols = n; if (bad == 4) { x.fault("wrong-size-output"); size_bad = true; cols = n + 1; } if (s.J.columns() != cols) s.J.resize(cols); if (d.chance(0.3) && cols) s.J.data.setConstant(7);
            int rc = s.jac->JntToJac(q, s.J, name); x.i(rc); x.op("tree-jacobian"); if (size_bad || name == "nobody") { if (rc >= 0) x.fail("bad-input-accepted", "tree Jacobian returned %d", rc); continue; } if (rc != 0) x.fail("valid-call-refused", "tree Jacobian returned %d for '%s'", rc, name.c_str()); if (nan) continue;
            std::vector<Tw> R = m.jac(Q, idx[name]); for (unsigned i = 0; i < n; ++i) { Twist c = s.J.getColumn(i); log(x, c); if (!(tdist(c, R[i]) <= tol * std::max(1.0, tnorm(R[i])))) x.fail("jacobian-wrong", "column %u of the Jacobian of '%s' is off by %.3g", i, name.c_str(), tdist(c, R[i])); } x.probe("jacobian-checked");
        } else {
            WrenchMap f; std::vector<Tw> fx(m.s.size()); int nf = (int)d.range(0, 3); for (int i = 0; i < nf; ++i) { std::string at = pick(d, M); Tw w; w.v = rvec(d, 5); w.w = rvec(d, 5); for (int a = 0; a < 3; ++a) { w.v.x[a] = (double)w.v[a]; w.w.x[a] = (double)w.w[a]; } if (f.count(at)) continue; f[at] = toKw(w); if (idx[at] >= 0) fx[idx[at]] = w; } if (d.chance(0.1)) { f["nobody"] = Wrench(Vector(1, 2, 3), Vector(4, 5, 6)); x.fault("wrench-on-unknown-segment"); }
            unsigned tn = n; if (bad == 4) { x.fault("wrong-size-output"); size_bad = true; tn = d.chance(0.5) || !n ? n + 1 : n - 1; } JntArray tau(tn); for (unsigned i = 0; i < tn; ++i) tau(i) = 1e3;
            bool stale = s.ns != M.n.size() || s.nj != M.nj, unknown = false; for (auto& nm : M.names()) if (!s.known.count(nm)) unknown = true;
            int rc = s.id->CartToJnt(q, qd, qdd, f, tau); x.i(rc); x.op("tree-inverse-dynamics"); if (s.id->getError() != rc) x.fail("error-code-differs", "the last-error query gives %d after %d", s.id->getError(), rc);
            if (stale) { x.fault("stale-solver-called"); if (rc != SolverI::E_NOT_UP_TO_DATE) x.fail("stale-accepted", "inverse dynamics returned %d for a tree that changed", rc); continue; }
            if (size_bad) { if (rc >= 0) x.fail("bad-input-accepted", "inverse dynamics returned %d for arrays of the wrong size", rc); continue; }
            if (unknown) { x.fault("stale-names"); if (rc >= 0) { x.probe("stale-names-answered"); } else { x.probe("stale-names-refused"); if (rc != SolverI::E_NOT_UP_TO_DATE) x.fail("stale-accepted", "inverse dynamics returned %d for a tree with other segments", rc); continue; } }
            else if (rc != 0) x.fail("valid-call-refused", "inverse dynamics returned %d", rc); if (nan) continue;
            VL R = m.inverse_dynamics(Q, QD, QDD, s.g, fx, true); ld sc = 1; for (ld r : R) sc = std::max(sc, std::fabs(r)); for (unsigned i = 0; i < n; ++i) { x.d(tau(i)); if (!near(tau(i), R[i], 1e-9 * big * (double)sc)) x.fail("torque-wrong", "torque of joint %u is %.12g instead of %.12g (%zu segments)", i, tau(i), (double)R[i], m.s.size()); } x.probe(nf ? "torques-checked-with-wrenches" : "torques-checked");
        }
        x.cover(mix64(m.s.size() * 31 + n) ^ mix64((uint64_t)bad * 7 + (dyn ? 3 : st.op == "fk")));
    }
}
void gen_t03(Rng& r, Program& p, bool th) {
    p.cfg["fixed"] = r.chance(0.3); int n = (int)r.range(0, 12); for (int i = 0; i < n; ++i) p.add("seg", {}, r.next()); int nb = (int)r.range(1, 3); for (int i = 0; i < nb; ++i) p.add("boot", {}, r.next());
    int steps = (int)r.range(5, th ? 60 : 30); double pb = r.chance(0.25) ? 0 : r.uni(0.05, 0.4), pg = r.chance(0.5) ? 0.03 : 0.12;
    for (int i = 0; i < steps; ++i) { if (r.chance(pg)) { p.add(r.chance(0.7) ? "seg" : "other", {0, 0, 0}, r.next()); if (r.chance(0.6)) p.add("update", {r.range(0, 2), 0, 0}, r.next()); continue; } if (r.chance(0.06)) { p.add(r.chance(0.5) ? "boot" : "update", {r.range(0, 2), 0, 0}, r.next()); continue; }
        p.add(r.chance(0.4) ? "id" : r.chance(0.5) ? "fk" : "jac", {r.range(0, 2), 0, r.chance(pb) ? r.range(1, 4) : 0}, r.next()); }
}
Scenario T01{"T01", "tree and chain edit histories", "exploration", gen_t01, exec_edit,
    "A run applies a seeded history of edits to up to four trees and four chains that copy, assign, hook and destroy each other, with unknown hooks, taken names, refusals part-way and self-references at seeded points; after every edit the objects touched are compared in full with a map model. Non-trivial: a fault, a copy or a destruction; distinct by the sequence of edits and outcomes.",
    {"Tree, TreeElement, Chain, Segment, Joint, RigidBodyInertia"}, {"heap (seeded content of fresh memory, leak and use-after-free detection)"},
    {"an addChain or addTree refused part-way keeps a part that holds the parents of all its segments (a prefix for chains)"}, 150000, 8000000, 45, 600,
    {"fault:unknown-hook", "fault:name-taken", "fault:refused-part-way", "fault:tree-added-to-itself", "fault:tree-assigned-to-itself", "fault:tree-destroyed", "fault:chain-added-to-itself", "fault:joint-refused", "probe:segment-assigned", "probe:copied", "probe:assigned", "op:chain-hooked", "op:tree-hooked"}};
Scenario T02{"T02", "chains and sub-trees taken from trees", "exploration", gen_t02, exec_edit,
    "A run builds up to four trees by a seeded history of edits and takes chains (every direction, across branches) and sub-trees between segments drawn at random into re-used objects, the tree itself included, with requests for unknown segments in between; every result is compared with the tree's own motion for random joint values and velocities. Non-trivial: a fault or a copy; distinct by the sequence of edits and requests.",
    {"Tree::getChain, Tree::getSubTree, ChainFkSolverVel_recursive, TreeFkSolverPos_recursive"}, {"heap (seeded content of fresh memory)"},
    {"accuracy 1e-9 for trees of up to 60 segments of about half a metre"}, 100000, 6000000, 45, 600,
    {"fault:unknown-segment-asked", "fault:result-replaces-source", "probe:chain-across-branches", "probe:chain-upwards", "probe:chain-downwards", "probe:chain-empty", "probe:subtree", "probe:subtree-whole", "probe:subtree-empty"}};
Scenario T03{"T03", "tree solvers", "exploration", gen_t03, exec_solve,
    "A run keeps up to several callers with their own tree solvers over one tree that grows or becomes another tree underneath them, with wrong sizes, unknown names, non-finite inputs and stale calls at seeded points; every accepted answer is compared with first principles. Non-trivial: a fault, a change of the tree or several callers; distinct by the sequence of calls and faults.",
    {"TreeFkSolverPos_recursive, TreeJntToJacSolver, TreeIdSolver_RNE"}, {"heap (seeded content of fresh memory)"},
    {"pose and Jacobian solvers answer for the tree they were made with; the dynamics solver for the tree as it is", "an inverse dynamics solver that has not been told of a tree with other segment names but the same counts refuses, or answers right"}, 150000, 8000000, 45, 600,
    {"fault:tree-grown", "fault:tree-replaced", "fault:stale-solver-called", "fault:stale-names", "fault:nan-input", "fault:wrong-size-output", "fault:wrench-on-unknown-segment", "probe:pose-checked", "probe:jacobian-checked", "probe:torques-checked", "probe:torques-checked-with-wrenches", "probe:stale-names-refused"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&T01, &T02, &T03}); }
