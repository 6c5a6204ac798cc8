// K03: stale solvers refuse, updated solvers behave like new ones.
// K04: refused calls report honestly and leave no trace.
#include "zoo.hpp"
using namespace zoo;
namespace {
struct World {
    ChainPair cp; struct Obj { int kind; SutP s; }; std::vector<Obj> v; std::map<int, std::map<int, std::string>> said;
    ref::Seg draw_seg(Draw& d) { SegOpts o; o.p_massless = 0; o.p_fixed = 0.2; return rseg(d, o, "s" + std::to_string(cp.serial++)); }
};
void mark(Ctx& c, World& w, World::Obj& o, int m, int bad) { uint64_t sig = mix64((uint64_t)o.kind * 64 + (uint64_t)m) ^ mix64((uint64_t)(bad + 5) * 977 + w.cp.chain.getNrOfJoints() * 31 + w.cp.chain.getNrOfSegments()); c.cover(sig); }
bool same(const Out& a, const Out& b, double tol, double& worst) { worst = 0; if (a.size() != b.size()) { worst = INFINITY; return false; } bool ok = true; double sc = 1; for (double x : b) if (std::isfinite(x)) sc = std::max(sc, std::fabs(x));
    for (size_t i = 0; i < a.size(); ++i) { if (std::isnan(a[i]) && std::isnan(b[i])) continue; if (a[i] == b[i]) continue; double e = std::fabs(a[i] - b[i]); if (!(e <= tol * sc)) { ok = false; worst = std::isnan(e) ? INFINITY : std::max(worst, e); } } return ok; }

void execute(const Program& p, Ctx& c, bool k04) {
    World w; int n = 0; int which = (int)p.c("solvers", 3);
    for (auto& st : p.steps) {
        c.step_no = n++; Draw d = c.draw(st);
        if (st.op == "seg") { c.ev("seg"); if (!w.v.empty()) { c.fault("chain-grown"); c.nontrivial = true; } w.cp.add(w.draw_seg(d)); for (auto& o : w.v) o.s->edited(); continue; }
        if (st.op == "boot") { for (int i = 0; i < which; ++i) { int k = (int)((p.c("kind") + i * p.c("stride", 1)) % KINDS); w.v.push_back({k, make(k, w.cp.chain)}); } c.ev("boot"); if (which > 1) c.nontrivial = true; continue; }
        size_t ns = w.cp.m.s.size();
        if (st.op == "shrink" || st.op == "swap") {
            if (!ns) continue; bool sw = st.op == "swap"; c.fault(sw ? "joint-type-changed" : "chain-shrunk"); c.nontrivial = true;
            size_t at = (size_t)d.range(0, (int64_t)ns - 1); ref::Model m2; Chain k2; ref::Seg r = w.draw_seg(d);
            size_t cut = sw ? 1 : (size_t)d.range(1, 3);
            for (size_t i = 0; i < ns; ++i) { if (i >= at && i < at + cut) { if (sw) { m2.add(r); k2.addSegment(toKs(r)); } continue; } m2.add(w.cp.m.s[i]); k2.addSegment(w.cp.chain.getSegment((unsigned)i)); }
            if (k2.getNrOfJoints() == 0) continue;      // the inverse solvers need a joint
            w.cp.m = m2; w.cp.chain = k2; for (auto& o : w.v) o.s->edited(); continue;
        }
        if (w.v.empty() || w.cp.chain.getNrOfJoints() == 0) continue;
        World::Obj& o = w.v[(size_t)(st.a[0] % (int64_t)w.v.size())]; Sut& s = *o.s;
        const char* nm = NAME[o.kind];
        if (st.op == "update") { c.ev("update"); c.op("update"); s.update(); continue; }
        if (st.op != "call") continue;
        int m = (int)(st.a[1] % s.methods()); bool unimpl = s.unimplemented(m);
        bool stale = s.can_be_stale() && s.stale();
        Bad b; int kind = (int)st.a[2];
        if (kind == 1) { b.arg = (int)(st.a[3] % 8); b.delta = (int)(st.a[4] % 4) - 2; if (b.delta >= 0) b.delta++; }
        if (kind == 2) b.seg = true;
        if (stale && (s.query(m) || (!k04 && s.setter(m)))) continue;
        s.maybe = false;
        if (unimpl) b = Bad();
        c.ev("call"); c.i(o.kind); c.i(m);
        SutP t; if (!stale && !(b.seg || b.arg >= 0)) t = s.twin();
        Draw d1 = d, d2 = d; Out got, want; int rc = s.call(m, d1, b, got); c.i(rc);
        bool bad = (b.arg >= 0 && b.applied) || (b.seg && o.kind <= 3 && !s.setter(m));
        // what is said about the call
        if (s.silent(m)) continue;
        if (k04 && s.base()) {
            int e = s.base()->getError(); if (e != rc) c.fail("last-error-wrong", "%s method %d returned %d but its last-error query says %d", nm, m, rc, e);
            std::string text = s.base()->strError(rc); c.s(text);
            if (text.empty() || text == "UNKNOWN ERROR") c.fail("code-without-description", "%s method %d returned %d, described as '%s'", nm, m, rc, text.c_str());
            auto& said = w.said[o.kind]; for (auto& kv : said) if (kv.first != rc && kv.second == text) c.fail("code-without-description", "%s describes codes %d and %d alike: '%s'", nm, kv.first, rc, text.c_str());
            said[rc] = text;
        }
        mark(c, w, o, m, kind + (stale ? 10 : 0)); c.op(nm);
        if (unimpl) { if (rc >= 0) c.fail("bad-input-accepted", "%s: a form of the call that is not available returned %d", nm, rc); continue; }
        if (bad && !(stale && s.setter(m))) { if (b.seg) c.fault("segment-out-of-range"); else c.fault("wrong-size-array"); c.nontrivial = true; if (rc >= 0) c.fail("bad-input-accepted", "%s method %d returned %d for %s", nm, m, rc, b.seg ? "a part that does not exist" : ("array " + std::to_string(b.arg) + " of wrong size").c_str()); continue; }
        if (stale && s.setter(m)) continue;
        if (s.maybe && rc < 0) continue;
        if (stale) { c.fault("stale-solver-called"); c.nontrivial = true; if (rc != SolverI::E_NOT_UP_TO_DATE) c.fail("stale-accepted", "%s method %d returned %d although the chain changed and the solver was not updated", nm, m, rc); continue; }
        if (rc == SolverI::E_NOT_UP_TO_DATE || rc == SolverI::E_SIZE_MISMATCH || rc == SolverI::E_OUT_OF_RANGE) c.fail("valid-call-refused", "%s method %d returned %d for a call that matches the chain (%u joints, %u segments)", nm, m, rc, s.nj(), s.ns());
        if (!t) continue;
        int rc2 = t->call(m, d2, Bad(), want);
        if (!s.comparable(got) || !t->comparable(want)) continue;
        for (double x : got) c.d(x);
        if (rc != rc2) c.fail("differs-from-new", "%s method %d returned %d, a newly built solver %d", nm, m, rc, rc2);
        double worst; if (!same(got, want, 1e-6, worst)) c.fail("differs-from-new", "%s method %d: result differs from that of a newly built solver by %.3g", nm, m, worst);
        if (!got.empty()) c.probe("compared-with-new");
    }
}
void generate(Rng& r, Program& p, bool thorough, bool k04) {
    p.cfg["solvers"] = r.range(1, 4); p.cfg["kind"] = r.range(0, KINDS - 1); p.cfg["stride"] = r.range(1, KINDS - 1);
    int ns = (int)r.range(1, r.chance(0.25) ? 10 : 7); for (int i = 0; i < ns; ++i) p.add("seg", {}, r.next());
    p.add("boot", {}, r.next());
    int steps = (int)r.range(8, thorough ? 60 : 36);
    double pe = k04 ? (r.chance(0.3) ? 0.08 : 0) : r.uni(0.08, 0.3), pu = k04 ? 0.06 : r.uni(0.1, 0.4), pb = k04 ? r.uni(0.15, 0.6) : (r.chance(0.4) ? 0.15 : 0);
    for (int i = 0; i < steps; ++i) {
        if (r.chance(pe)) { int k = r.weighted({2, 1.5, 1}); p.add(k == 0 ? "seg" : k == 1 ? "shrink" : "swap", {}, r.next()); }
        else if (r.chance(pu)) p.add("update", {r.range(0, 3)}, r.next());
        else { int bad = r.chance(pb) ? (r.chance(0.85) ? 1 : 2) : 0; p.add("call", {r.range(0, 3), r.chance(0.5) ? 0 : r.range(0, 5), bad, r.range(0, 7), r.range(0, 3)}, r.next()); }
    }
}
void g3(Rng& r, Program& p, bool t) { generate(r, p, t, false); }
void g4(Rng& r, Program& p, bool t) { generate(r, p, t, true); }
void e3(const Program& p, Ctx& c) { execute(p, c, false); }
void e4(const Program& p, Ctx& c) { execute(p, c, true); }
const std::vector<std::string> REAL = {"all 16 chain solver classes of the library, Chain and the algebra under them"};
const std::vector<std::string> STUB = {"callers", "heap (seeded content of fresh memory)"};
const std::vector<std::string> ASSUME = {"chains of 1-20 segments with at least one joint", "results compared with a newly built solver to 1e-6; the warm-started Givens method only away from singular poses"};
Scenario K03{"K03", "stale and updated solvers", "exploration", g3, e3,
    "A run is a seeded history over 1-4 solver objects of different kinds on one shared chain that is grown, shortened and re-typed between calls, with updates at any point. Non-trivial: several solvers or a chain edit; distinct by the sequence of calls, edits and faults.",
    REAL, STUB, ASSUME, 40000, 1500000, 60, 600, {"fault:stale-solver-called", "fault:joint-type-changed", "probe:compared-with-new"}};
Scenario K04{"K04", "refused calls", "exploration", g4, e4,
    "A run is a seeded history of good and bad calls (each array argument of each call in turn too long or too short, parts that do not exist) on 1-4 solver objects; after every call the last-error query and its text are checked, and good calls are compared with a newly built solver. Non-trivial: several solvers or a bad call.",
    REAL, STUB, ASSUME, 40000, 1500000, 60, 600, {"fault:wrong-size-array", "fault:segment-out-of-range", "probe:compared-with-new"}};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&K03, &K04}); }
