// P01, P02: the Python module, run inside this process with a real interpreter.  The simulator plays
// CPython's part where the order of things is not the programmer's: it decides when references are dropped,
// when cycles are collected and what a conversion callback does in the middle of a call.
// Every Python object has a twin, the C++ object with the same history.
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include "kdlgen.hpp"
#include "frames_io.hpp"
#include "framevel_io.hpp"
#include "kinfam_io.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainjnttojacdotsolver.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chaindynparam.hpp"
#include "jntspaceinertiamatrix.hpp"
#include <sstream>
#include <tuple>
namespace py = pybind11;
using namespace sim; using namespace KDL; using gen::toK; using gen::rseg;
extern "C" PyObject* PyInit_PyKDL();
namespace {
// ---- the interpreter ----------------------------------------------------------------------------
struct Interp { py::object kdl, op, copy, pickle, gc, weakref, num, subs; };
Interp* P = nullptr;
void start() {
    if (P) return;
    PyImport_AppendInittab("PyKDL", PyInit_PyKDL);
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.utf8_mode = 1; Py_PreInitialize(&pre);
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.use_hash_seed = 1; c.hash_seed = 7; c.install_signal_handlers = 0; c.write_bytecode = 0; c.site_import = 0; c.parse_argv = 0;
    PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3");
    PyStatus s = Py_InitializeFromConfig(&c); if (PyStatus_Exception(s)) { std::fprintf(stderr, "python: %s\n", s.err_msg ? s.err_msg : "?"); std::exit(3); }
    PyConfig_Clear(&c);
    P = new Interp(); P->kdl = py::module_::import("PyKDL"); P->op = py::module_::import("operator"); P->copy = py::module_::import("copy"); P->pickle = py::module_::import("pickle"); P->gc = py::module_::import("gc"); P->weakref = py::module_::import("weakref");
    P->gc.attr("disable")();
    py::dict g; g["__builtins__"] = py::module_::import("builtins"); g["K"] = P->kdl;
    py::exec("class Num:\n  def __init__(self, f, v): self.f = f; self.v = v\n  def __float__(self): self.f(); return self.v\n"
             "subs = {}\n"
             "for n in ('Vector', 'Twist', 'Frame', 'Rotation', 'Wrench', 'VectorVel', 'FrameVel', 'Chain', 'Segment', 'Joint', 'JntArray', 'Jacobian'):\n  subs[n] = type('My' + n, (getattr(K, n),), {})\n", g);
    P->num = g["Num"]; P->subs = g["subs"];
}
// ---- objects and their twins --------------------------------------------------------------------
#define DATA_KINDS(X) X(VEC, Vector) X(TWI, Twist) X(WRE, Wrench) X(ROT, Rotation) X(FRA, Frame) X(DVE, doubleVel) X(VVE, VectorVel) X(TVE, TwistVel) X(RVE, RotationVel) X(FVE, FrameVel) X(JNT, Joint) X(RIN, RotationalInertia) X(RBI, RigidBodyInertia) X(SEG, Segment) X(CHA, Chain) X(TRE, Tree) X(JAC, Jacobian) X(ARR, JntArray) X(ARV, JntArrayVel) X(MAT, JntSpaceInertiaMatrix)
enum K {
#define X(k, T) k,
    DATA_KINDS(X)
#undef X
    FKP, FKV, IKV, IKP, JCS, JDS, IDS, DYN, NONE };
template <class T> struct KO { static const K k = NONE; };
#define X(kk, T) template <> struct KO<T> { static const K k = kk; };
DATA_KINDS(X)
#undef X
const char* const KN[] = {
#define X(k, T) #T,
    DATA_KINDS(X)
#undef X
    "fk-pos", "fk-vel", "ik-vel", "ik-pos", "jac", "jac-dot", "id", "dyn-param"};
struct Box; typedef std::shared_ptr<Box> B;
struct Box { K k; std::shared_ptr<void> t; int sub = 0; bool pysub = false, alias = false; std::map<std::string, B> attrs; std::vector<B> deps; Chain* chain = nullptr; bool used = false; };
struct Ent { py::object o; B b; };
// equality of values, up to rounding
bool eq(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || near_eq(a, b, 1e-9); }
bool eq(const Vector& a, const Vector& b) { return eq(a(0), b(0)) && eq(a(1), b(1)) && eq(a(2), b(2)); }
bool eq(const Twist& a, const Twist& b) { return eq(a.vel, b.vel) && eq(a.rot, b.rot); }
bool eq(const Wrench& a, const Wrench& b) { return eq(a.force, b.force) && eq(a.torque, b.torque); }
bool eq(const Rotation& a, const Rotation& b) { for (int i = 0; i < 9; ++i) if (!eq(a.data[i], b.data[i])) return false; return true; }
bool eq(const Frame& a, const Frame& b) { return eq(a.M, b.M) && eq(a.p, b.p); }
bool eq(const doubleVel& a, const doubleVel& b) { return eq(a.t, b.t) && eq(a.grad, b.grad); }
bool eq(const VectorVel& a, const VectorVel& b) { return eq(a.p, b.p) && eq(a.v, b.v); }
bool eq(const TwistVel& a, const TwistVel& b) { return eq(a.vel, b.vel) && eq(a.rot, b.rot); }
bool eq(const RotationVel& a, const RotationVel& b) { return eq(a.R, b.R) && eq(a.w, b.w); }
bool eq(const FrameVel& a, const FrameVel& b) { return eq(a.M, b.M) && eq(a.p, b.p); }
bool eq(const RotationalInertia& a, const RotationalInertia& b) { for (int i = 0; i < 9; ++i) if (!eq(a.data[i], b.data[i])) return false; return true; }
bool eq(const RigidBodyInertia& a, const RigidBodyInertia& b) { return eq(a.getMass(), b.getMass()) && eq(a.getCOG(), b.getCOG()) && eq(a.getRotationalInertia(), b.getRotationalInertia()); }
bool eq(const Joint& a, const Joint& b) { return a.getName() == b.getName() && a.getType() == b.getType() && eq(a.JointAxis(), b.JointAxis()) && eq(a.JointOrigin(), b.JointOrigin()) && eq(a.pose(0.7), b.pose(0.7)) && eq(a.twist(1.3), b.twist(1.3)) && eq(a.getInertia(), b.getInertia()) && eq(a.getDamping(), b.getDamping()) && eq(a.getStiffness(), b.getStiffness()); }
bool eq(const Segment& a, const Segment& b) { return a.getName() == b.getName() && eq(a.getJoint(), b.getJoint()) && eq(a.getFrameToTip(), b.getFrameToTip()) && eq(a.getInertia(), b.getInertia()); }
bool eq(const Chain& a, const Chain& b) { if (a.getNrOfSegments() != b.getNrOfSegments() || a.getNrOfJoints() != b.getNrOfJoints()) return false; for (unsigned i = 0; i < a.getNrOfSegments(); ++i) if (!eq(a.getSegment(i), b.getSegment(i))) return false; return true; }
bool eq(const Tree& a, const Tree& b) { if (a.getNrOfSegments() != b.getNrOfSegments() || a.getNrOfJoints() != b.getNrOfJoints()) return false; for (auto& s : b.getSegments()) { auto i = a.getSegment(s.first); if (i == a.getSegments().end() || !eq(GetTreeElementSegment(i->second), GetTreeElementSegment(s.second)) || GetTreeElementQNr(i->second) != GetTreeElementQNr(s.second)) return false; } return true; }
bool eq(const Jacobian& a, const Jacobian& b) { if (a.columns() != b.columns()) return false; for (unsigned i = 0; i < a.columns(); ++i) if (!eq(a.getColumn(i), b.getColumn(i))) return false; return true; }
bool eq(const JntArray& a, const JntArray& b) { if (a.rows() != b.rows()) return false; for (unsigned i = 0; i < a.rows(); ++i) if (!eq(a(i), b(i))) return false; return true; }
bool eq(const JntArrayVel& a, const JntArrayVel& b) { return eq(a.q, b.q) && eq(a.qdot, b.qdot); }
bool eq(const JntSpaceInertiaMatrix& a, const JntSpaceInertiaMatrix& b) { if (a.rows() != b.rows() || a.columns() != b.columns()) return false; for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.columns(); ++j) if (!eq(a(i, j), b(i, j))) return false; return true; }
template <class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
template <class T> auto has_io(int) -> decltype(std::declval<std::ostream&>() << std::declval<const T&>(), true) { return true; }

struct World;
struct OpDef { std::string how, name; K res; int group; std::function<void(World&, Draw&, const OpDef&)> run; };
std::vector<OpDef>* OPS = nullptr;
struct World {
    Ctx& x; std::vector<Ent> v; std::vector<std::pair<std::weak_ptr<Box>, py::object>> born; int depth = 0, made = 0; bool evil = false; std::vector<Ent> hidden; std::weak_ptr<Box> focus; int focused = 0;
    explicit World(Ctx& c) : x(c) {}
    // run Python code; an exception that nobody expects ends the run
    template <class F> py::object call(const char* what, F f) { try { return f(); } catch (py::error_already_set& e) { std::string m = e.what(); x.fail("unexpected-exception", "%s: %s", what, m.substr(0, 300).c_str()); } catch (std::exception& e) { x.fail("unexpected-exception", "%s: C++ exception %s", what, e.what()); } }
    // run Python code that has to raise one of the exceptions named
    template <class F> void raises(const char* what, std::initializer_list<PyObject*> ex, F f) { try { f(); } catch (py::error_already_set& e) { for (PyObject* p : ex) if (e.matches(p)) { x.fault("bad-argument"); x.nontrivial = true; return; } std::string m = e.what(); x.fail("wrong-exception", "%s: %s", what, m.substr(0, 300).c_str()); } x.fail("not-rejected", "%s: no exception", what); }
    void watch(const Ent& e) { born.push_back({e.b, P->weakref.attr("ref")(e.o)}); }
    Ent& add(K k, py::object o, std::shared_ptr<void> t, B parent = nullptr) { B b = std::make_shared<Box>(); b->k = k; b->t = t; if (parent) { b->deps.push_back(parent); b->alias = true; } v.push_back({o, b}); if (!parent) watch(v.back()); return v.back(); }
    template <class T> static T& tw(const Ent& e) { return *(T*)e.b->t.get(); }
    template <class T> static T& real(const Ent& e) { return e.o.cast<T&>(); }
    void check(const Ent& e, const char* when) {
        bool ok = true; switch (e.b->k) {
#define X(k, T) case k: { T* r = nullptr; try { r = &e.o.cast<T&>(); } catch (std::exception& ex) { x.fail("wrong-type", "%s: the object is no longer a %s", when, KN[k]); } ok = eq(*r, tw<T>(e)); break; }
            DATA_KINDS(X)
#undef X
            default: return; }
        if (!ok) x.fail("differs", "after %s a %s differs from the C++ object with the same history", when, KN[e.b->k]);
        x.probe("compared");
    }
    int pick(Draw& d, std::function<bool(const Ent&)> f) { std::vector<int> c; for (size_t i = 0; i < v.size(); ++i) if (f(v[i])) c.push_back((int)i); if (c.empty()) return -1;
        // what was reached last is used more often
        if (focused > 0) if (B b = focus.lock()) { --focused; std::vector<int> n; for (int i : c) if (v[(size_t)i].b == b) n.push_back(i); if (!n.empty() && d.chance(0.6)) return d.pick(n); }
        return d.pick(c); }
    Ent make(K k, Draw& d);
    Ent get(K k, Draw& d, double fresh = 0.25) { int i = d.chance(fresh) ? -1 : pick(d, [&](const Ent& e) { return e.b->k == k; }); return i >= 0 ? v[i] : make(k, d); }
    // what a conversion callback does in the middle of a call: other references go, cycles are collected
    void interfere(Draw& d) { x.fault("callback-in-conversion"); x.nontrivial = true; int n = (int)d.range(1, 3); for (int i = 0; i < n && v.size() > 2; ++i) drop(d); if (d.chance(0.5)) P->gc.attr("collect")(); }
    void drop(Draw& d) { if (v.empty()) return; size_t i = (size_t)d.range(0, (int64_t)v.size() - 1); x.op("drop"); v.erase(v.begin() + i); }
    py::object number(double f, Draw& d) { if (!evil || !d.chance(0.06)) return py::float_(f); uint64_t s = d.next(); bool simple = x.simple; py::object cb = py::cpp_function([this, s, simple]() { Draw dd(s, simple); interfere(dd); }); return P->num(cb, f); }
    void collect(bool end) {
        std::set<Box*> reach; std::vector<Box*> todo; for (auto& e : v) todo.push_back(e.b.get()); while (!todo.empty()) { Box* b = todo.back(); todo.pop_back(); if (!reach.insert(b).second) continue; for (auto& q : b->deps) todo.push_back(q.get()); for (auto& q : b->attrs) todo.push_back(q.second.get()); }
        P->gc.attr("collect")(); for (size_t i = 0; i < born.size();) { B b = born[i].first.lock(); bool gone = !b || !reach.count(b.get()), dead = born[i].second().is_none(); if (gone && !dead) x.fail("not-released", "an object that nothing refers to any more is still there%s", end ? " at the end" : ""); if (gone) { if (b && !b->attrs.empty()) { b->attrs.clear(); x.probe("released-with-references"); } born.erase(born.begin() + i); x.probe("released"); } else { if (dead) x.fail("released-early", "an object that is still referred to was released"); ++i; } }
    }
};
// ---- generic operations: the Python call and the C++ expression ---------------------------------------
template <class A> struct Arg { // a KDL object
    typedef typename std::decay<A>::type T; Ent e; static Arg draw(World& w, Draw& d, const OpDef&) { return {w.get(KO<T>::k, d)}; } py::object py(World&, Draw&) { return e.o; } T& cpp() { return World::tw<T>(e); } };
template <> struct Arg<double> { double f; static Arg draw(World&, Draw& d, const OpDef&) { return {d.chance(0.1) ? std::round(d.uni(-2, 2)) : d.val(-3, 3)}; } py::object py(World& w, Draw& d) { return w.number(f, d); } double cpp() { return f; } };
struct Name { std::string s; }; template <> struct Arg<Name> { std::string s; static Arg draw(World&, Draw& d, const OpDef&) { return {"n" + std::to_string(d.range(0, 9))}; } py::object py(World&, Draw&) { return py::str(s); } Name cpp() { return {s}; } };
struct Kind_ { Joint::JointType t; }; template <> struct Arg<Kind_> { int t; static Arg draw(World&, Draw& d, const OpDef& o) { static const Joint::JointType A[] = {Joint::RotX, Joint::RotY, Joint::RotZ, Joint::TransX, Joint::TransY, Joint::TransZ, Joint::Fixed}; return {A[d.range(0, 6)]}; } py::object py(World&, Draw&) { return py::cast(Joint::JointType(t)); } Kind_ cpp() { return {Joint::JointType(t)}; } };
struct Axial { Joint::JointType t; }; template <> struct Arg<Axial> { int t; static Arg draw(World&, Draw& d, const OpDef&) { return {d.chance(0.5) ? Joint::RotAxis : Joint::TransAxis}; } py::object py(World&, Draw&) { return py::cast(Joint::JointType(t)); } Axial cpp() { return {Joint::JointType(t)}; } };
struct Size { unsigned n; }; template <> struct Arg<Size> { unsigned n; static Arg draw(World&, Draw& d, const OpDef&) { return {(unsigned)d.range(0, 5)}; } py::object py(World&, Draw&) { return py::int_(n); } Size cpp() { return {n}; } };
struct Pos { double f; }; template <> struct Arg<Pos> { double f; static Arg draw(World&, Draw& d, const OpDef&) { return {d.val(0.25, 3)}; } py::object py(World& w, Draw& d) { return w.number(f, d); } Pos cpp() { return {f}; } };
inline void same(World& w, const char* n, const py::object& r, double b) { if (!eq(r.cast<double>(), b)) w.x.fail("result-differs", "%s returned %.17g in Python, %.17g in C++", n, r.cast<double>(), b); w.x.d(b); }
inline void same(World& w, const char* n, const py::object& r, bool b) { if (r.cast<bool>() != b) w.x.fail("result-differs", "%s returned %d in Python, %d in C++", n, (int)!b, (int)b); w.x.i(b); }
inline void same(World& w, const char* n, const py::object& r, int b) { if (r.cast<int64_t>() != b) w.x.fail("result-differs", "%s returned %lld in Python, %d in C++", n, (long long)r.cast<int64_t>(), b); w.x.i(b); }
inline void same(World& w, const char* n, const py::object& r, unsigned b) { same(w, n, r, (int)b); }
inline void same(World& w, const char* n, const py::object& r, const std::string& b) { std::string a = r.cast<std::string>(); if (a != b) w.x.fail("result-differs", "%s: Python says '%s', C++ '%s'", n, a.substr(0, 150).c_str(), b.substr(0, 150).c_str()); w.x.s(b); }
struct Type_ { int t; };
inline void same(World& w, const char* n, const py::object& r, const Type_& b) { static const char* const N[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"}; if (r.cast<Joint::JointType>() != (Joint::JointType)b.t || !r.is(P->kdl.attr("Joint").attr(N[b.t])) && !r.equal(P->kdl.attr("Joint").attr(N[b.t]))) w.x.fail("result-differs", "%s is another type in Python than in C++ (%s)", n, N[b.t]); w.x.i(b.t); }
inline void same(World& w, const char* n, const py::object& r, const std::vector<double>& b) { py::tuple t = r.cast<py::tuple>(); if (t.size() != b.size()) w.x.fail("result-differs", "%s returned %zu values", n, t.size()); for (size_t i = 0; i < b.size(); ++i) same(w, n, py::object(t[i]), b[i]); }
inline void same(World& w, const char* n, const py::object& r, const std::pair<double, Vector>& b) { py::tuple t = r.cast<py::tuple>(); same(w, n, py::object(t[0]), b.first); if (t.size() != 2 || !eq(t[1].cast<Vector>(), b.second)) w.x.fail("result-differs", "%s returned another axis", n); }
template <class R> typename std::enable_if<KO<R>::k != NONE>::type finish(World& w, const OpDef& o, const py::object& r, R&& t) { bool known = false; for (auto& e : w.v) known = known || e.o.is(r); if (known) w.x.fail("not-new", "%s returned an object that already exists", o.name.c_str()); Ent e = w.add(KO<R>::k, r, std::make_shared<R>(t)); w.check(e, o.name.c_str()); }
template <class R> typename std::enable_if<KO<R>::k == NONE>::type finish(World& w, const OpDef& o, const py::object& r, R&& t) { same(w, o.name.c_str(), r, t); }
template <class R, class... A, size_t... I> void run_op(World& w, Draw& d, const OpDef& o, R (*f)(A...), std::index_sequence<I...>) {
    std::tuple<Arg<A>...> a{Arg<A>::draw(w, d, o)...}; py::tuple t(sizeof...(A)); int k[] = {0, (t[I] = std::get<I>(a).py(w, d), 0)...}; (void)k;
    // arguments by name, for a part of them
    py::dict kw; py::tuple given = t; size_t colon = o.how.find(':');
    if (colon != std::string::npos && d.chance(0.35)) { std::vector<std::string> n; std::stringstream ss(o.how.substr(colon + 1)); std::string q; while (std::getline(ss, q, ',')) n.push_back(q); size_t self = t.size() - n.size(), first = (size_t)d.range(0, (int64_t)n.size() - 1); py::tuple cut(self + first); for (size_t i = 0; i < self + first; ++i) cut[i] = t[i]; for (size_t i = first; i < n.size(); ++i) kw[n[i].c_str()] = t[self + i]; t = cut; w.x.op("by-name"); }
    py::object r = w.call(o.name.c_str(), [&]() -> py::object {
        switch (o.how[0]) {
        case 'c': { py::object c = P->kdl.attr(o.name.c_str()); if (P->subs.contains(o.name) && d.chance(0.3)) { c = P->subs[py::str(o.name)]; } return c(*t, **kw); }
        case 's': { size_t p = o.name.find('.'); return P->kdl.attr(o.name.substr(0, p).c_str()).attr(o.name.substr(p + 1).c_str())(*t, **kw); }
        case 'm': { py::tuple rest(t.size() - 1); for (size_t i = 1; i < t.size(); ++i) rest[i - 1] = t[i]; return t[0].attr(o.name.c_str())(*rest, **kw); }
        case 'f': return P->kdl.attr(o.name.c_str())(*t, **kw);
        default: return P->op.attr(o.name.c_str())(*t); } });
    if constexpr (std::is_void<R>::value) {
        f(std::get<I>(a).cpp()...);
        if (o.how[0] == 'i') { if (!r.is(given[0])) w.x.fail("not-in-place", "%s returned another object", o.name.c_str()); } else if (!r.is_none()) w.x.fail("result-differs", "%s returned something", o.name.c_str());
    } else { R t2 = f(std::get<I>(a).cpp()...); if (o.how[0] == 'c' && r.get_type().attr("__name__").cast<std::string>().substr(0, 2) == "My") { w.add(KO<R>::k, r, nullptr); w.v.back().b->pysub = true; if constexpr (KO<R>::k != NONE) w.v.back().b->t = std::make_shared<R>(t2); w.check(w.v.back(), o.name.c_str()); w.x.op("python-subclass"); } else finish<R>(w, o, r, std::move(t2)); }
    w.x.op(o.name.c_str());
}
template <class R, class... A> void reg(int group, const char* how, const char* name, R (*f)(A...)) { OPS->push_back({how, name, KO<typename std::decay<R>::type>::k, group, [f](World& w, Draw& d, const OpDef& o) { run_op(w, d, o, f, std::index_sequence_for<A...>()); }}); }
#define R_(how, name, ...) reg(G, how, name, +[] __VA_ARGS__)
bool unitary(const Rotation& r) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += r(k, i) * r(k, j); if (!(std::fabs(s - (i == j)) < 1e-9)) return false; } double det = r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) + r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0)); return det > 0; }
void table() {
    if (OPS) return; OPS = new std::vector<OpDef>();
    { const int G = 0;   // frames
    R_("c:x,y,z", "Vector", (double a, double b, double c) { return Vector(a, b, c); }); R_("c", "Vector", () { return Vector(); }); R_("c", "Vector", (const Vector& v) { return Vector(v); }); R_("s", "Vector.Zero", () { return Vector::Zero(); });
    R_("m", "x", (const Vector& v) { return v.x(); }); R_("m", "y", (const Vector& v) { return v.y(); }); R_("m", "z", (const Vector& v) { return v.z(); }); R_("m", "x", (Vector& v, double a) { v.x(a); }); R_("m", "y", (Vector& v, double a) { v.y(a); }); R_("m", "z", (Vector& v, double a) { v.z(a); });
    R_("m", "ReverseSign", (Vector& v) { v.ReverseSign(); }); R_("i", "isub", (Vector& a, const Vector& b) { a -= b; }); R_("i", "iadd", (Vector& a, const Vector& b) { a += b; }); R_("o", "add", (const Vector& a, const Vector& b) { return a + b; }); R_("o", "sub", (const Vector& a, const Vector& b) { return a - b; }); R_("o", "mul", (const Vector& a, double b) { return a * b; }); R_("o", "mul", (double a, const Vector& b) { return a * b; }); R_("o", "truediv", (const Vector& a, Pos b) { return a / b.f; }); R_("o", "mul", (const Vector& a, const Vector& b) { return a * b; }); R_("o", "eq", (const Vector& a, const Vector& b) { return a == b; }); R_("o", "ne", (const Vector& a, const Vector& b) { return a != b; }); R_("o", "neg", (const Vector& a) { return -a; });
    R_("m", "Norm", (const Vector& a) { return a.Norm(); }); R_("m", "Normalize", (Vector& a) { return a.Normalize(); }); R_("f", "SetToZero", (Vector& a) { SetToZero(a); }); R_("f", "dot", (const Vector& a, const Vector& b) { return dot(a, b); }); R_("f:a,b,eps", "Equal", (const Vector& a, const Vector& b, Pos e) { return Equal(a, b, e.f); }); R_("f", "Equal", (const Vector& a, const Vector& b) { return Equal(a, b); });
    R_("c:force,torque", "Wrench", (const Vector& a, const Vector& b) { return Wrench(a, b); }); R_("c", "Wrench", () { return Wrench(); }); R_("c", "Wrench", (const Wrench& a) { return Wrench(a); }); R_("s", "Wrench.Zero", () { return Wrench::Zero(); });
    R_("m", "ReverseSign", (Wrench& v) { v.ReverseSign(); }); R_("m:base", "RefPoint", (const Wrench& a, const Vector& b) { return a.RefPoint(b); }); R_("i", "isub", (Wrench& a, const Wrench& b) { a -= b; }); R_("i", "iadd", (Wrench& a, const Wrench& b) { a += b; }); R_("o", "add", (const Wrench& a, const Wrench& b) { return a + b; }); R_("o", "sub", (const Wrench& a, const Wrench& b) { return a - b; }); R_("o", "mul", (const Wrench& a, double b) { return a * b; }); R_("o", "mul", (double a, const Wrench& b) { return a * b; }); R_("o", "truediv", (const Wrench& a, Pos b) { return a / b.f; }); R_("o", "eq", (const Wrench& a, const Wrench& b) { return a == b; }); R_("o", "ne", (const Wrench& a, const Wrench& b) { return a != b; }); R_("o", "neg", (const Wrench& a) { return -a; }); R_("f", "SetToZero", (Wrench& a) { SetToZero(a); }); R_("f", "Equal", (const Wrench& a, const Wrench& b, Pos e) { return Equal(a, b, e.f); });
    R_("c:vel,rot", "Twist", (const Vector& a, const Vector& b) { return Twist(a, b); }); R_("c", "Twist", () { return Twist(); }); R_("c", "Twist", (const Twist& a) { return Twist(a); }); R_("s", "Twist.Zero", () { return Twist::Zero(); });
    R_("m", "ReverseSign", (Twist& v) { v.ReverseSign(); }); R_("m:base", "RefPoint", (const Twist& a, const Vector& b) { return a.RefPoint(b); }); R_("i", "isub", (Twist& a, const Twist& b) { a -= b; }); R_("i", "iadd", (Twist& a, const Twist& b) { a += b; }); R_("o", "add", (const Twist& a, const Twist& b) { return a + b; }); R_("o", "sub", (const Twist& a, const Twist& b) { return a - b; }); R_("o", "mul", (const Twist& a, double b) { return a * b; }); R_("o", "mul", (double a, const Twist& b) { return a * b; }); R_("o", "truediv", (const Twist& a, Pos b) { return a / b.f; }); R_("o", "eq", (const Twist& a, const Twist& b) { return a == b; }); R_("o", "ne", (const Twist& a, const Twist& b) { return a != b; }); R_("o", "neg", (const Twist& a) { return -a; }); R_("f", "SetToZero", (Twist& a) { SetToZero(a); }); R_("f", "Equal", (const Twist& a, const Twist& b, Pos e) { return Equal(a, b, e.f); }); R_("f", "dot", (const Twist& a, const Wrench& b) { return dot(a, b); }); R_("f", "dot", (const Wrench& a, const Twist& b) { return dot(a, b); });
    R_("c", "Rotation", () { return Rotation(); }); R_("c", "Rotation", (const Rotation& a) { return Rotation(a); }); R_("c:xx,yx,zx,xy,yy,zy,xz,yz,zz", "Rotation", (double a, double b, double c, double d, double e, double f, double g, double h, double i) { return Rotation(a, b, c, d, e, f, g, h, i); }); R_("c:x,y,z", "Rotation", (const Vector& a, const Vector& b, const Vector& c) { return Rotation(a, b, c); });
    for (int i = 0; i < 2; ++i) { R_("s", "Rotation.RotX", (double a) { return Rotation::RotX(a); }); R_("s", "Rotation.RotY", (double a) { return Rotation::RotY(a); }); R_("s", "Rotation.RotZ", (double a) { return Rotation::RotZ(a); }); R_("s:roll,pitch,yaw", "Rotation.RPY", (double a, double b, double c) { return Rotation::RPY(a, b, c); }); R_("s:alpha,beta,gamma", "Rotation.EulerZYX", (double a, double b, double c) { return Rotation::EulerZYX(a, b, c); }); R_("s:alpha,beta,gamma", "Rotation.EulerZYZ", (double a, double b, double c) { return Rotation::EulerZYZ(a, b, c); }); }
    R_("s", "Rotation.Identity", () { return Rotation::Identity(); }); R_("s:rotvec,angle", "Rotation.Rot", (const Vector& v, double a) { return Rotation::Rot(v, a); }); R_("s:rotvec,angle", "Rotation.Rot2", (const Vector& v, double a) { return Rotation::Rot2(v, a); }); R_("s:x,y,z,w", "Rotation.Quaternion", (double a, double b, double c, double d) { return Rotation::Quaternion(a, b, c, d); });
    R_("m", "SetInverse", (Rotation& r) { r.SetInverse(); }); R_("m", "Inverse", (const Rotation& r) { return r.Inverse(); }); R_("m", "Inverse", (const Rotation& r, const Vector& v) { return r.Inverse(v); }); R_("m", "Inverse", (const Rotation& r, const Wrench& v) { return r.Inverse(v); }); R_("m", "Inverse", (const Rotation& r, const Twist& v) { return r.Inverse(v); }); R_("m", "DoRotX", (Rotation& r, double a) { r.DoRotX(a); }); R_("m", "DoRotY", (Rotation& r, double a) { r.DoRotY(a); }); R_("m", "DoRotZ", (Rotation& r, double a) { r.DoRotZ(a); });
    R_("m", "GetRot", (const Rotation& r) { return r.GetRot(); }); R_("m", "GetRotAngle", (const Rotation& r) { Vector v; double a = r.GetRotAngle(v); return std::make_pair(a, v); }); R_("m", "GetEulerZYZ", (const Rotation& r) { std::vector<double> v(3); r.GetEulerZYZ(v[0], v[1], v[2]); return v; }); R_("m", "GetRPY", (const Rotation& r) { std::vector<double> v(3); r.GetRPY(v[0], v[1], v[2]); return v; }); R_("m", "GetEulerZYX", (const Rotation& r) { std::vector<double> v(3); r.GetEulerZYX(v[0], v[1], v[2]); return v; }); R_("m", "GetQuaternion", (const Rotation& r) { std::vector<double> v(4); r.GetQuaternion(v[0], v[1], v[2], v[3]); return v; });
    R_("m", "UnitX", (const Rotation& r) { return r.UnitX(); }); R_("m", "UnitY", (const Rotation& r) { return r.UnitY(); }); R_("m", "UnitZ", (const Rotation& r) { return r.UnitZ(); }); R_("m", "UnitX", (Rotation& r, const Vector& v) { r.UnitX(v); }); R_("m", "UnitY", (Rotation& r, const Vector& v) { r.UnitY(v); }); R_("m", "UnitZ", (Rotation& r, const Vector& v) { r.UnitZ(v); });
    R_("o", "mul", (const Rotation& r, const Vector& v) { return r * v; }); R_("o", "mul", (const Rotation& r, const Twist& v) { return r * v; }); R_("o", "mul", (const Rotation& r, const Wrench& v) { return r * v; }); R_("o", "mul", (const Rotation& r, const Rotation& v) { return r * v; }); R_("o", "eq", (const Rotation& a, const Rotation& b) { return a == b; }); R_("o", "ne", (const Rotation& a, const Rotation& b) { return a != b; }); R_("f", "Equal", (const Rotation& a, const Rotation& b, Pos e) { return Equal(a, b, e.f); });
    R_("c:R,V", "Frame", (const Rotation& r, const Vector& v) { return Frame(r, v); }); R_("c", "Frame", (const Vector& v) { return Frame(v); }); R_("c", "Frame", (const Rotation& v) { return Frame(v); }); R_("c", "Frame", (const Frame& v) { return Frame(v); }); R_("c", "Frame", () { return Frame(); }); R_("s:a,alpha,d,theta", "Frame.DH", (double a, double b, double c, double d) { return Frame::DH(a, b, c, d); }); R_("s:a,alpha,d,theta", "Frame.DH_Craig1989", (double a, double b, double c, double d) { return Frame::DH_Craig1989(a, b, c, d); }); R_("s", "Frame.Identity", () { return Frame::Identity(); });
    R_("m", "Inverse", (const Frame& f) { return f.Inverse(); }); R_("m", "Inverse", (const Frame& r, const Vector& v) { return r.Inverse(v); }); R_("m", "Inverse", (const Frame& r, const Wrench& v) { return r.Inverse(v); }); R_("m", "Inverse", (const Frame& r, const Twist& v) { return r.Inverse(v); }); R_("m:twist,sample_frequency", "Integrate", (Frame& f, const Twist& t, Pos h) { f.Integrate(t, h.f); });
    R_("o", "mul", (const Frame& r, const Vector& v) { return r * v; }); R_("o", "mul", (const Frame& r, const Twist& v) { return r * v; }); R_("o", "mul", (const Frame& r, const Wrench& v) { return r * v; }); R_("o", "mul", (const Frame& r, const Frame& v) { return r * v; }); R_("o", "eq", (const Frame& a, const Frame& b) { return a == b; }); R_("o", "ne", (const Frame& a, const Frame& b) { return a != b; }); R_("f", "Equal", (const Frame& a, const Frame& b, Pos e) { return Equal(a, b, e.f); });
    R_("f", "diff", (const Vector& a, const Vector& b) { return diff(a, b); }); R_("f:a,b,dt", "diff", (const Rotation& a, const Rotation& b, Pos h) { return diff(a, b, h.f); }); R_("f", "diff", (const Frame& a, const Frame& b) { return diff(a, b); }); R_("f:a,b,dt", "diff", (const Twist& a, const Twist& b, Pos h) { return diff(a, b, h.f); }); R_("f:a,b,dt", "diff", (const Wrench& a, const Wrench& b, Pos h) { return diff(a, b, h.f); });
    R_("f", "addDelta", (const Vector& a, const Vector& b, Pos h) { return addDelta(a, b, h.f); }); R_("f", "addDelta", (const Rotation& a, const Vector& b) { return addDelta(a, b); }); R_("f:a,da,dt", "addDelta", (const Frame& a, const Twist& b, Pos h) { return addDelta(a, b, h.f); }); R_("f", "addDelta", (const Twist& a, const Twist& b) { return addDelta(a, b); }); R_("f:a,da,dt", "addDelta", (const Wrench& a, const Wrench& b, Pos h) { return addDelta(a, b, h.f); });
    // velocities
    R_("c", "doubleVel", () { return doubleVel(); }); R_("c", "doubleVel", (double a) { return doubleVel(a); }); R_("c", "doubleVel", (double a, double b) { return doubleVel(a, b); }); R_("c", "doubleVel", (const doubleVel& a) { return doubleVel(a); }); R_("m", "value", (const doubleVel& a) { return a.value(); }); R_("m", "deriv", (const doubleVel& a) { return a.deriv(); }); R_("o", "eq", (const doubleVel& a, const doubleVel& b) { return a == b; }); R_("o", "ne", (const doubleVel& a, const doubleVel& b) { return a != b; }); R_("o", "neg", (const doubleVel& a) { return -a; }); R_("f", "diff", (const doubleVel& a, const doubleVel& b) { return diff(a, b, 1.0); }); R_("f", "addDelta", (const doubleVel& a, const doubleVel& b, Pos h) { return addDelta(a, b, h.f); }); R_("f", "Equal", (const doubleVel& a, const doubleVel& b, Pos h) { return Equal(a, b, h.f); });
    R_("c", "VectorVel", () { return VectorVel(); }); R_("c:p,v", "VectorVel", (const Vector& a, const Vector& b) { return VectorVel(a, b); }); R_("c", "VectorVel", (const Vector& a) { return VectorVel(a); }); R_("c", "VectorVel", (const VectorVel& a) { return VectorVel(a); }); R_("m", "value", (const VectorVel& a) { return a.value(); }); R_("m", "deriv", (const VectorVel& a) { return a.deriv(); }); R_("s", "VectorVel.Zero", () { return VectorVel::Zero(); }); R_("m", "ReverseSign", (VectorVel& a) { a.ReverseSign(); });
    R_("i", "iadd", (VectorVel& a, const VectorVel& b) { a += b; }); R_("i", "isub", (VectorVel& a, const VectorVel& b) { a -= b; }); R_("o", "add", (const VectorVel& a, const VectorVel& b) { return a + b; }); R_("o", "sub", (const VectorVel& a, const VectorVel& b) { return a - b; }); R_("o", "add", (const VectorVel& a, const Vector& b) { return a + b; }); R_("o", "sub", (const VectorVel& a, const Vector& b) { return a - b; }); R_("o", "add", (const Vector& a, const VectorVel& b) { return a + b; }); R_("o", "sub", (const Vector& a, const VectorVel& b) { return a - b; }); R_("o", "mul", (const VectorVel& a, const VectorVel& b) { return a * b; }); R_("o", "mul", (const VectorVel& a, const Vector& b) { return a * b; }); R_("o", "mul", (const Vector& a, const VectorVel& b) { return a * b; }); R_("o", "mul", (double a, const VectorVel& b) { return a * b; }); R_("o", "mul", (const VectorVel& a, double b) { return a * b; }); R_("o", "mul", (const doubleVel& a, const VectorVel& b) { return a * b; }); R_("o", "mul", (const VectorVel& a, const doubleVel& b) { return a * b; }); R_("o", "mul", (const Rotation& a, const VectorVel& b) { return a * b; }); R_("o", "truediv", (const VectorVel& a, Pos b) { return a / b.f; });
    R_("o", "eq", (const VectorVel& a, const VectorVel& b) { return a == b; }); R_("o", "ne", (const VectorVel& a, const VectorVel& b) { return a != b; }); R_("o", "eq", (const VectorVel& a, const Vector& b) { return a == b; }); R_("o", "ne", (const VectorVel& a, const Vector& b) { return a != b; }); R_("o", "neg", (const VectorVel& a) { return -a; }); R_("f", "SetToZero", (VectorVel& a) { SetToZero(a); }); R_("f", "dot", (const VectorVel& a, const VectorVel& b) { return dot(a, b); }); R_("f", "dot", (const VectorVel& a, const Vector& b) { return dot(a, b); }); R_("f", "dot", (const Vector& a, const VectorVel& b) { return dot(a, b); }); R_("f", "Equal", (const VectorVel& a, const VectorVel& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const Vector& a, const VectorVel& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const VectorVel& a, const Vector& b, Pos h) { return Equal(a, b, h.f); });
    R_("c", "TwistVel", () { return TwistVel(); }); R_("c:vel,rot", "TwistVel", (const VectorVel& a, const VectorVel& b) { return TwistVel(a, b); }); R_("c:p,v", "TwistVel", (const Twist& a, const Twist& b) { return TwistVel(a, b); }); R_("c", "TwistVel", (const Twist& a) { return TwistVel(a); }); R_("c", "TwistVel", (const TwistVel& a) { return TwistVel(a); }); R_("m", "value", (const TwistVel& a) { return a.value(); }); R_("m", "deriv", (const TwistVel& a) { return a.deriv(); }); R_("s", "TwistVel.Zero", () { return TwistVel::Zero(); }); R_("m", "ReverseSign", (TwistVel& a) { a.ReverseSign(); }); R_("m", "RefPoint", (TwistVel& a, const VectorVel& b) { return a.RefPoint(b); }); R_("m", "GetTwist", (const TwistVel& a) { return a.GetTwist(); }); R_("m", "GetTwistDot", (const TwistVel& a) { return a.GetTwistDot(); });
    R_("i", "iadd", (TwistVel& a, const TwistVel& b) { a += b; }); R_("i", "isub", (TwistVel& a, const TwistVel& b) { a -= b; }); R_("o", "add", (const TwistVel& a, const TwistVel& b) { return a + b; }); R_("o", "sub", (const TwistVel& a, const TwistVel& b) { return a - b; }); R_("o", "mul", (const TwistVel& a, double b) { return a * b; }); R_("o", "mul", (double a, const TwistVel& b) { return a * b; }); R_("o", "truediv", (const TwistVel& a, Pos b) { return a / b.f; }); R_("o", "mul", (const TwistVel& a, const doubleVel& b) { return a * b; }); R_("o", "mul", (const doubleVel& a, const TwistVel& b) { return a * b; }); R_("o", "eq", (const TwistVel& a, const TwistVel& b) { return a == b; }); R_("o", "ne", (const TwistVel& a, const TwistVel& b) { return a != b; }); R_("o", "eq", (const TwistVel& a, const Twist& b) { return a == b; }); R_("o", "ne", (const Twist& a, const TwistVel& b) { return a != b; }); R_("o", "neg", (const TwistVel& a) { return -a; }); R_("f", "SetToZero", (TwistVel& a) { SetToZero(a); }); R_("f", "Equal", (const TwistVel& a, const TwistVel& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const Twist& a, const TwistVel& b, Pos h) { return Equal(a, b, h.f); });
    R_("c", "RotationVel", () { return RotationVel(); }); R_("c", "RotationVel", (const Rotation& a) { return RotationVel(a); }); R_("c:R,w", "RotationVel", (const Rotation& a, const Vector& b) { return RotationVel(a, b); }); R_("c", "RotationVel", (const RotationVel& a) { return RotationVel(a); }); R_("m", "value", (const RotationVel& a) { return a.value(); }); R_("m", "deriv", (const RotationVel& a) { return a.deriv(); }); R_("m", "UnitX", (const RotationVel& a) { return a.UnitX(); }); R_("m", "UnitY", (const RotationVel& a) { return a.UnitY(); }); R_("m", "UnitZ", (const RotationVel& a) { return a.UnitZ(); }); R_("s", "RotationVel.Identity", () { return RotationVel::Identity(); }); R_("m", "Inverse", (const RotationVel& a) { return a.Inverse(); }); R_("m", "Inverse", (const RotationVel& a, const VectorVel& b) { return a.Inverse(b); }); R_("m", "Inverse", (const RotationVel& a, const Vector& b) { return a.Inverse(b); }); R_("m", "Inverse", (const RotationVel& a, const TwistVel& b) { return a.Inverse(b); }); R_("m", "Inverse", (const RotationVel& a, const Twist& b) { return a.Inverse(b); }); R_("m", "DoRotX", (RotationVel& a, const doubleVel& b) { a.DoRotX(b); }); R_("m", "DoRotY", (RotationVel& a, const doubleVel& b) { a.DoRotY(b); }); R_("m", "DoRotZ", (RotationVel& a, const doubleVel& b) { a.DoRotZ(b); });
    R_("s", "RotationVel.RotX", (const doubleVel& b) { return RotationVel::RotX(b); }); R_("s", "RotationVel.RotY", (const doubleVel& b) { return RotationVel::RotY(b); }); R_("s", "RotationVel.RotZ", (const doubleVel& b) { return RotationVel::RotZ(b); }); R_("s", "RotationVel.Rot", (const Vector& a, const doubleVel& b) { return RotationVel::Rot(a, b); }); R_("s", "RotationVel.Rot2", (const Vector& a, const doubleVel& b) { return RotationVel::Rot2(a, b); });
    R_("o", "mul", (const RotationVel& a, const VectorVel& b) { return a * b; }); R_("o", "mul", (const RotationVel& a, const Vector& b) { return a * b; }); R_("o", "mul", (const RotationVel& a, const TwistVel& b) { return a * b; }); R_("o", "mul", (const RotationVel& a, const Twist& b) { return a * b; }); R_("o", "mul", (const RotationVel& a, const RotationVel& b) { return a * b; }); R_("o", "mul", (const Rotation& a, const RotationVel& b) { return a * b; }); R_("o", "mul", (const RotationVel& a, const Rotation& b) { return a * b; }); R_("o", "eq", (const RotationVel& a, const RotationVel& b) { return a == b; }); R_("o", "ne", (const RotationVel& a, const Rotation& b) { return a != b; }); R_("f", "Equal", (const RotationVel& a, const RotationVel& b, Pos h) { return Equal(a, b, h.f); });
    R_("c", "FrameVel", () { return FrameVel(); }); R_("c", "FrameVel", (const Frame& a) { return FrameVel(a); }); R_("c:T,t", "FrameVel", (const Frame& a, const Twist& b) { return FrameVel(a, b); }); R_("c:M,p", "FrameVel", (const RotationVel& a, const VectorVel& b) { return FrameVel(a, b); }); R_("c", "FrameVel", (const FrameVel& a) { return FrameVel(a); }); R_("m", "value", (const FrameVel& a) { return a.value(); }); R_("m", "deriv", (const FrameVel& a) { return a.deriv(); }); R_("s", "FrameVel.Identity", () { return FrameVel::Identity(); }); R_("m", "Inverse", (const FrameVel& a) { return a.Inverse(); }); R_("m", "Inverse", (const FrameVel& a, const VectorVel& b) { return a.Inverse(b); }); R_("m", "Inverse", (const FrameVel& a, const Vector& b) { return a.Inverse(b); }); R_("m", "Inverse", (const FrameVel& a, const TwistVel& b) { return a.Inverse(b); }); R_("m", "Inverse", (const FrameVel& a, const Twist& b) { return a.Inverse(b); }); R_("m", "GetFrame", (const FrameVel& a) { return a.GetFrame(); }); R_("m", "GetTwist", (const FrameVel& a) { return a.GetTwist(); });
    R_("o", "mul", (const FrameVel& a, const VectorVel& b) { return a * b; }); R_("o", "mul", (const FrameVel& a, const Vector& b) { return a * b; }); R_("o", "mul", (const FrameVel& a, const TwistVel& b) { return a * b; }); R_("o", "mul", (const FrameVel& a, const Twist& b) { return a * b; }); R_("o", "mul", (const FrameVel& a, const FrameVel& b) { return a * b; }); R_("o", "mul", (const Frame& a, const FrameVel& b) { return a * b; }); R_("o", "mul", (const FrameVel& a, const Frame& b) { return a * b; }); R_("o", "eq", (const FrameVel& a, const FrameVel& b) { return a == b; }); R_("o", "ne", (const FrameVel& a, const Frame& b) { return a != b; }); R_("f", "Equal", (const FrameVel& a, const FrameVel& b, Pos h) { return Equal(a, b, h.f); });
    R_("o", "eq", (const FrameVel& a, const Frame& b) { return a == b; }); R_("o", "ne", (const FrameVel& a, const FrameVel& b) { return a != b; }); R_("o", "eq", (const RotationVel& a, const Rotation& b) { return a == b; }); R_("o", "ne", (const RotationVel& a, const RotationVel& b) { return a != b; }); R_("f", "Equal", (const TwistVel& a, const Twist& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const Frame& a, const FrameVel& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const FrameVel& a, const Frame& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const Rotation& a, const RotationVel& b, Pos h) { return Equal(a, b, h.f); }); R_("f", "Equal", (const RotationVel& a, const Rotation& b, Pos h) { return Equal(a, b, h.f); });
    R_("f", "diff", (const VectorVel& a, const VectorVel& b, Pos h) { return diff(a, b, h.f); }); R_("f", "diff", (const RotationVel& a, const RotationVel& b) { return diff(a, b); }); R_("f:a,b,dt", "diff", (const FrameVel& a, const FrameVel& b, Pos h) { return diff(a, b, h.f); }); R_("f", "addDelta", (const VectorVel& a, const VectorVel& b, Pos h) { return addDelta(a, b, h.f); }); R_("f", "addDelta", (const RotationVel& a, const VectorVel& b) { return addDelta(a, b); }); R_("f", "addDelta", (const FrameVel& a, const TwistVel& b, Pos h) { return addDelta(a, b, h.f); });
    }
    { const int G = 1;   // mechanisms
    for (int i = 0; i < 3; ++i) { R_("c", "Joint", (Name n, Kind_ t) { return Joint(n.s, t.t); }); R_("c:type,scale,offset", "Joint", (Kind_ t, Pos s, double o) { return Joint(t.t, s.f, o); }); R_("c:name,type,scale,offset,inertia,damping,stiffness", "Joint", (Name n, Kind_ t, Pos s, double o, Pos in, Pos da, Pos st) { return Joint(n.s, t.t, s.f, o, in.f, da.f, st.f); }); }
    R_("c:name,origin,axis,type", "Joint", (Name n, const Vector& o, const Vector& a, Axial t) { return Joint(n.s, o, a, t.t); }); R_("c:origin,axis,type,scale,offset,inertia", "Joint", (const Vector& o, const Vector& a, Axial t, Pos s, double of, Pos in) { return Joint(o, a, t.t, s.f, of, in.f); }); R_("c", "Joint", () { return Joint(); }); R_("c", "Joint", (const Joint& j) { return Joint(j); });
    R_("m", "pose", (const Joint& j, double q) { return j.pose(q); }); R_("m", "twist", (const Joint& j, double q) { return j.twist(q); }); R_("m", "JointAxis", (const Joint& j) { return j.JointAxis(); }); R_("m", "JointOrigin", (const Joint& j) { return j.JointOrigin(); }); R_("m", "getName", (const Joint& j) { return std::string(j.getName()); }); R_("m", "getTypeName", (const Joint& j) { return std::string(j.getTypeName()); }); R_("m", "getType", (const Joint& j) { return Type_{(int)j.getType()}; });
    R_("c:Ixx,Iyy,Izz,Ixy,Ixz,Iyz", "RotationalInertia", (Pos a, Pos b, Pos c, double d, double e, double f) { return RotationalInertia(a.f, b.f, c.f, d, e, f); }); R_("c", "RotationalInertia", (Pos a) { return RotationalInertia(a.f); }); R_("s", "RotationalInertia.Zero", () { return RotationalInertia::Zero(); }); R_("o", "mul", (double a, const RotationalInertia& b) { return a * b; }); R_("o", "add", (const RotationalInertia& a, const RotationalInertia& b) { return a + b; }); R_("o", "mul", (const RotationalInertia& a, const Vector& b) { return a * b; });
    R_("c:m,oc,Ic", "RigidBodyInertia", (Pos m, const Vector& c, const RotationalInertia& i) { return RigidBodyInertia(m.f, c, i); }); R_("c", "RigidBodyInertia", (Pos m) { return RigidBodyInertia(m.f); }); R_("s", "RigidBodyInertia.Zero", () { return RigidBodyInertia::Zero(); }); R_("m", "RefPoint", (RigidBodyInertia& a, const Vector& b) { return a.RefPoint(b); }); R_("m", "getMass", (const RigidBodyInertia& a) { return a.getMass(); }); R_("m", "getCOG", (const RigidBodyInertia& a) { return a.getCOG(); }); R_("m", "getRotationalInertia", (const RigidBodyInertia& a) { return a.getRotationalInertia(); }); R_("o", "mul", (double a, const RigidBodyInertia& b) { return a * b; }); R_("o", "add", (const RigidBodyInertia& a, const RigidBodyInertia& b) { return a + b; }); R_("o", "mul", (const RigidBodyInertia& a, const Twist& b) { return a * b; }); R_("o", "mul", (const Frame& a, const RigidBodyInertia& b) { return a * b; }); R_("o", "mul", (const Rotation& a, const RigidBodyInertia& b) { return a * b; });
    for (int i = 0; i < 2; ++i) { R_("c:name,joint,f_tip,I", "Segment", (Name n, const Joint& j, const Frame& f, const RigidBodyInertia& m) { return Segment(n.s, j, f, m); }); R_("c", "Segment", (Name n, const Joint& j, const Frame& f) { return Segment(n.s, j, f); }); R_("c:joint,f_tip,I", "Segment", (const Joint& j, const Frame& f, const RigidBodyInertia& m) { return Segment(j, f, m); }); } R_("c", "Segment", (Name n, const Joint& j) { return Segment(n.s, j); }); R_("c", "Segment", (const Joint& j) { return Segment(j); }); R_("c", "Segment", (const Segment& s) { return Segment(s); });
    R_("m", "getFrameToTip", (const Segment& s) { return s.getFrameToTip(); }); R_("m", "pose", (const Segment& s, double q) { return s.pose(q); }); R_("m:q,q_dot", "twist", (const Segment& s, double q, double v) { return s.twist(q, v); }); R_("m", "getName", (const Segment& s) { return std::string(s.getName()); }); R_("m", "getJoint", (const Segment& s) { return Joint(s.getJoint()); }); R_("m", "getInertia", (const Segment& s) { return RigidBodyInertia(s.getInertia()); }); R_("m:I_in", "setInertia", (Segment& s, const RigidBodyInertia& i) { s.setInertia(i); });
    R_("c", "Chain", () { return Chain(); }); R_("c", "Chain", (const Chain& c) { return Chain(c); }); R_("m", "getNrOfJoints", (const Chain& c) { return c.getNrOfJoints(); }); R_("m", "getNrOfSegments", (const Chain& c) { return c.getNrOfSegments(); });
    R_("c", "Tree", (Name n) { return Tree(n.s); }); R_("c", "Tree", () { return Tree("root"); }); R_("m", "addSegment", (Tree& t, const Segment& s, Name n) { return t.addSegment(s, n.s); }); R_("m", "getNrOfJoints", (const Tree& c) { return c.getNrOfJoints(); }); R_("m", "getNrOfSegments", (const Tree& c) { return c.getNrOfSegments(); }); R_("m", "addChain", (Tree& t, const Chain& c, Name n) { return t.addChain(c, n.s); });
    R_("c", "JntArray", (Size n) { return JntArray(n.n); }); R_("c", "JntArray", () { return JntArray(); }); R_("c", "JntArray", (const JntArray& a) { return JntArray(a); }); R_("m", "rows", (const JntArray& a) { return a.rows(); }); R_("m", "columns", (const JntArray& a) { return a.columns(); }); R_("f", "SetToZero", (JntArray& a) { SetToZero(a); }); R_("c", "JntArrayVel", (Size n) { return JntArrayVel(n.n); }); R_("c", "JntArrayVel", (const JntArray& a) { return JntArrayVel(a); }); R_("m", "value", (const JntArrayVel& a) { return a.value(); }); R_("m", "deriv", (const JntArrayVel& a) { return a.deriv(); }); R_("f", "SetToZero", (JntArrayVel& a) { SetToZero(a); });
    R_("c", "Jacobian", (Size n) { return Jacobian(n.n); }); R_("c", "Jacobian", () { return Jacobian(); }); R_("c", "Jacobian", (const Jacobian& a) { return Jacobian(a); }); R_("m", "rows", (const Jacobian& a) { return a.rows(); }); R_("m", "columns", (const Jacobian& a) { return a.columns(); }); R_("m", "changeRefPoint", (Jacobian& j, const Vector& v) { j.changeRefPoint(v); }); R_("m", "changeBase", (Jacobian& j, const Rotation& v) { j.changeBase(v); }); R_("m", "changeRefFrame", (Jacobian& j, const Frame& v) { j.changeRefFrame(v); }); R_("f", "SetToZero", (Jacobian& a) { SetToZero(a); });
    R_("c", "JntSpaceInertiaMatrix", (Size n) { return JntSpaceInertiaMatrix((int)n.n); }); R_("c", "JntSpaceInertiaMatrix", () { return JntSpaceInertiaMatrix(); }); R_("c", "JntSpaceInertiaMatrix", (const JntSpaceInertiaMatrix& a) { return JntSpaceInertiaMatrix(a); }); R_("m", "rows", (const JntSpaceInertiaMatrix& a) { return a.rows(); }); R_("m", "columns", (const JntSpaceInertiaMatrix& a) { return a.columns(); }); R_("f", "SetToZero", (JntSpaceInertiaMatrix& a) { SetToZero(a); });
    }
}
Ent World::make(K k, Draw& d) {
    std::vector<const OpDef*> c; for (auto& o : *OPS) if (o.res == k && (o.how[0] == 'c' || o.how[0] == 's')) c.push_back(&o);
    // recursion ends with the constructors that take no object of the same kind
    size_t n = v.size(); ++depth; const OpDef* o = c[(size_t)d.range(0, (int64_t)c.size() - 1)]; if (depth > 3) for (auto* q : c) if (q->how[0] == 'c') { o = q; if (q->name == KN[k]) break; }
    if (depth > 8) x.fail("model", "no constructor for %s", KN[k]);
    o->run(*this, d, *o); --depth; (void)n; for (size_t i = v.size(); i-- > 0;) if (v[i].b->k == k) return v[i]; x.fail("model", "%s was not made", KN[k]);
}
// ---- attributes that are views into their owner -----------------------------------------------------
struct AttrDef { K owner; const char* name; K kind; std::function<void*(void*)> sub; std::function<void(void*, void*)> assign; };
const std::vector<AttrDef>& attrs() {
    static std::vector<AttrDef>* A = nullptr; if (A) return *A; A = new std::vector<AttrDef>();
#define AT(O, n, T) A->push_back({KO<O>::k, #n, KO<T>::k, [](void* p) -> void* { return &((O*)p)->n; }, [](void* p, void* q) { ((O*)p)->n = *(T*)q; }});
    AT(Twist, vel, Vector) AT(Twist, rot, Vector) AT(Wrench, force, Vector) AT(Wrench, torque, Vector) AT(Frame, p, Vector) AT(Frame, M, Rotation) AT(VectorVel, p, Vector) AT(VectorVel, v, Vector) AT(TwistVel, vel, VectorVel) AT(TwistVel, rot, VectorVel) AT(RotationVel, R, Rotation) AT(RotationVel, w, Vector) AT(FrameVel, M, RotationVel) AT(FrameVel, p, VectorVel) AT(JntArrayVel, q, JntArray) AT(JntArrayVel, qdot, JntArray)
#undef AT
    return *A;
}
bool pickles(const Ent& e) { switch (e.b->k) { case VEC: case WRE: case TWI: case VVE: case TVE: return true; case ROT: return unitary(World::tw<Rotation>(e)); case FRA: return unitary(World::tw<Frame>(e).M); case RVE: return unitary(World::tw<RotationVel>(e).R); case FVE: return unitary(World::tw<FrameVel>(e).M.R); default: return false; } }
std::shared_ptr<void> clone(const Ent& e) { switch (e.b->k) {
#define X(k, T) case k: return std::make_shared<T>(World::tw<T>(e));
    DATA_KINDS(X)
#undef X
    default: return nullptr; } }
std::string text(const Ent& e) { switch (e.b->k) {
#define S(k, T) case k: return str(World::tw<T>(e));
    S(VEC, Vector) S(TWI, Twist) S(WRE, Wrench) S(ROT, Rotation) S(FRA, Frame) S(DVE, doubleVel) S(VVE, VectorVel) S(TVE, TwistVel) S(RVE, RotationVel) S(FVE, FrameVel) S(JNT, Joint) S(CHA, Chain) S(TRE, Tree) S(JAC, Jacobian) S(ARR, JntArray) S(MAT, JntSpaceInertiaMatrix)
#undef S
    default: return ""; } }
// indexing: dimensions of the kinds that have it (second 0: one index)
bool dims(const Ent& e, int& r, int& c) { c = 0; switch (e.b->k) { case VEC: r = 3; return true; case TWI: case WRE: r = 6; return true; case RIN: r = 9; return true; case ROT: r = c = 3; return true; case FRA: r = 3; c = 4; return true; case ARR: r = (int)World::tw<JntArray>(e).rows(); return true; case JAC: r = 6; c = (int)World::tw<Jacobian>(e).columns(); if (!c) c = -1; return true; case MAT: r = (int)World::tw<JntSpaceInertiaMatrix>(e).rows(); c = r ? r : -1; return true; default: return false; } }
double at(const Ent& e, int i, int j, const double* set) {
    double* p = nullptr; switch (e.b->k) { case VEC: p = &World::tw<Vector>(e)(i); break; case TWI: p = &World::tw<Twist>(e)(i); break; case WRE: p = &World::tw<Wrench>(e)(i); break; case RIN: p = &World::tw<RotationalInertia>(e).data[i]; break; case ROT: p = &World::tw<Rotation>(e)(i, j); break; case FRA: p = j == 3 ? &World::tw<Frame>(e).p(i) : &World::tw<Frame>(e).M(i, j); break; case ARR: p = &World::tw<JntArray>(e)((unsigned)i); break; case JAC: p = &World::tw<Jacobian>(e)((unsigned)i, (unsigned)j); break; default: p = &World::tw<JntSpaceInertiaMatrix>(e)((unsigned)i, (unsigned)j); }
    if (set) *p = *set; return *p;
}
py::object key(int i, int j, int c) { return c ? py::object(py::make_tuple(i, j)) : py::object(py::int_(i)); }
void index_op(World& w, Draw& d) {
    int r, c; int n = w.pick(d, [&](const Ent& e) { return dims(e, r, c); }); if (n < 0) return; Ent e = w.v[n]; dims(e, r, c); bool set = d.chance(0.5), bad = d.chance(0.3) || r == 0 || c < 0; double val = d.val(-3, 3);
    if (!bad) { int i = (int)d.range(0, r - 1), j = c ? (int)d.range(0, c - 1) : 0; if (set) { py::object f = w.number(val, d); w.call("setitem", [&] { e.o.attr("__setitem__")(key(i, j, c), f); return py::none(); }); at(e, i, j, &val); w.check(e, "setting an element"); w.x.op("setitem"); } else { py::object o = w.call("getitem", [&] { return e.o.attr("__getitem__")(key(i, j, c)); }); same(w, "getitem", o, at(e, i, j, nullptr)); w.x.op("getitem"); } return; }
    static const int O[] = {-1, 0, 1, 7, 1000000, -2147483647 - 1, 2147483647}; int cc = c < 0 ? 0 : c, i = r ? (int)d.range(0, r - 1) : 0, j = cc ? (int)d.range(0, cc - 1) : 0; int k = (int)d.range(0, 6); bool second = c && d.chance(0.5); int& q = second ? j : i; int lim = second ? cc : r; q = k == 1 ? lim : k == 2 ? lim + 1 : k == 3 ? -lim - 1 : k == 0 ? -1 : O[k]; if (q >= 0 && q < lim) q = lim; if (c < 0 && j >= 0 && j < 0) j = 0;
    w.raises("an index out of range", {PyExc_IndexError}, [&] { if (set) e.o.attr("__setitem__")(key(i, j, c), val); else e.o.attr("__getitem__")(key(i, j, c)); }); w.check(e, "a rejected index");
}
// arguments of the wrong type never reach the library
void bad_type(World& w, Draw& d) {
    int n = w.pick(d, [](const Ent& e) { return e.b->k < FKP; }); if (n < 0) return; Ent e = w.v[n]; py::object junk = d.chance(0.5) ? py::object(py::str("x")) : d.chance(0.5) ? py::object(py::none()) : py::object(py::dict());
    switch (d.range(0, 4)) {
    case 0: w.raises("a constructor argument of the wrong type", {PyExc_TypeError}, [&] { P->kdl.attr(KN[e.b->k])(junk, junk, junk, junk, junk, junk, junk, junk, junk, junk, junk); }); break;
    case 1: { int r, c; if (!dims(e, r, c)) return; w.raises("an element of the wrong type", {PyExc_TypeError}, [&] { e.o.attr("__setitem__")(key(0, 0, c), junk); }); break; }
    case 2: { std::vector<const AttrDef*> a; for (auto& q : attrs()) if (q.owner == e.b->k) a.push_back(&q); if (a.empty()) return; const AttrDef* q = d.pick(a); w.raises("an attribute of the wrong type", {PyExc_TypeError}, [&] { py::setattr(e.o, q->name, junk); }); break; }
    case 3: w.raises("an operand of the wrong type", {PyExc_TypeError}, [&] { P->op.attr(d.chance(0.5) ? "add" : "sub")(e.o, junk); }); break;
    default: if (!pickles(e)) return; w.raises("a state of the wrong shape", {PyExc_RuntimeError, PyExc_TypeError, PyExc_ValueError}, [&] { py::object cls = P->kdl.attr(KN[e.b->k]); py::object o = cls.attr("__new__")(cls); o.attr("__setstate__")(d.chance(0.5) ? py::make_tuple(1.0) : py::make_tuple(junk, junk, junk)); }); }
    w.check(e, "a rejected argument");
}
// ---- solvers ----------------------------------------------------------------------------------------
struct Q { Ent e; };
Ent array(World& w, Draw& d, unsigned n, bool fresh = false) {
    int i = fresh || d.chance(0.4) ? -1 : w.pick(d, [&](const Ent& e) { return e.b->k == ARR && World::tw<JntArray>(e).rows() == n; }); if (i >= 0) return w.v[i];
    py::object o = w.call("JntArray", [&] { return P->kdl.attr("JntArray")(n); }); auto t = std::make_shared<JntArray>(n); for (unsigned k = 0; k < n; ++k) { double f = d.val(-2, 2); w.call("setitem", [&] { o[py::int_(k)] = f; return py::none(); }); (*t)(k) = f; } return w.add(ARR, o, t);
}
Ent array_vel(World& w, Draw& d, unsigned n) {
    int i = d.chance(0.4) ? -1 : w.pick(d, [&](const Ent& e) { return e.b->k == ARV && World::tw<JntArrayVel>(e).q.rows() == n && World::tw<JntArrayVel>(e).qdot.rows() == n; }); if (i >= 0) return w.v[i];
    Ent a = array(w, d, n), b = array(w, d, n); py::object o = w.call("JntArrayVel", [&] { return P->kdl.attr("JntArrayVel")(a.o, b.o); }); return w.add(ARV, o, std::make_shared<JntArrayVel>(World::tw<JntArray>(a), World::tw<JntArray>(b)));
}
Ent sized(World& w, Draw& d, K k, unsigned n) {
    int i = d.chance(0.5) ? -1 : w.pick(d, [&](const Ent& e) { return e.b->k == k && (k == JAC ? World::tw<Jacobian>(e).columns() == n : World::tw<JntSpaceInertiaMatrix>(e).rows() == n); }); if (i >= 0) return w.v[i];
    py::object o = w.call(KN[k], [&] { return P->kdl.attr(KN[k])(n); }); return w.add(k, o, k == JAC ? std::shared_ptr<void>(std::make_shared<Jacobian>(n)) : std::shared_ptr<void>(std::make_shared<JntSpaceInertiaMatrix>((int)n)));
}
Ent a_chain(World& w, Draw& d) {
    int i = w.pick(d, [](const Ent& e) { return e.b->k == CHA && World::tw<Chain>(e).getNrOfJoints() >= 1; }); if (i >= 0 && d.chance(0.8)) { if (d.chance(0.6)) return w.v[i]; Ent e; e.o = w.call("Chain", [&] { return P->kdl.attr("Chain")(w.v[i].o); }); e.b = std::make_shared<Box>(); e.b->k = CHA; e.b->t = std::make_shared<Chain>(World::tw<Chain>(w.v[i])); w.watch(e); w.x.op("temporary-chain"); return e; }
    py::object o = w.call("Chain", [&] { return P->kdl.attr("Chain")(); }); auto t = std::make_shared<Chain>(); int n = (int)d.range(1, 4); for (int k = 0; k < n || !t->getNrOfJoints(); ++k) { Segment s = gen::toKs(rseg(d, gen::SegOpts(), "s" + std::to_string(k))); w.call("addSegment", [&] { o.attr("addSegment")(py::cast(s)); return py::none(); }); t->addSegment(s); }
    if (d.chance(0.3)) { Ent e; e.o = o; e.b = std::make_shared<Box>(); e.b->k = CHA; e.b->t = t; w.watch(e); w.x.op("temporary-chain"); return e; } return w.add(CHA, o, t);
}
template <class S> struct Holder { S s; template <class... A> explicit Holder(A&&... a) : s(std::forward<A>(a)...) {} };
template <class Base, class S, class... A> std::shared_ptr<void> twin(A&&... a) { auto h = std::make_shared<Holder<S>>(std::forward<A>(a)...); return std::shared_ptr<void>(h, (void*)static_cast<Base*>(&h->s)); }
Ent solver(World& w, Draw& d, int kind, int type, const Ent* with = nullptr, bool keep = true) {
    Ent c = with ? *with : a_chain(w, d); Chain& ch = World::tw<Chain>(c); py::object& co = c.o; auto k = [&](const char* n) { return P->kdl.attr(n); };
    Ent e; e.b = std::make_shared<Box>(); e.b->k = (K)kind; e.b->sub = type; e.b->deps.push_back(c.b); e.b->chain = &ch; double eps = 1e-5; int it = (int)d.range(3, 20); const bool def = d.chance(0.3), named = d.chance(0.3); if (def) w.x.op("default-settings");
    // what is left out is what the C++ class takes when it is left out
    auto mk = [&](const char* what, std::function<py::object()> f) { e.o = w.call(what, f); };
    switch (kind) {
    case FKP: mk("ChainFkSolverPos_recursive", [&] { return k("ChainFkSolverPos_recursive")(co); }); e.b->t = twin<ChainFkSolverPos, ChainFkSolverPos_recursive>(ch); break;
    case FKV: mk("ChainFkSolverVel_recursive", [&] { return k("ChainFkSolverVel_recursive")(co); }); e.b->t = twin<ChainFkSolverVel, ChainFkSolverVel_recursive>(ch); break;
    case IKV: switch (type) {
        case 0: mk("pinv", [&] { return def ? k("ChainIkSolverVel_pinv")(co) : named ? k("ChainIkSolverVel_pinv")(co, py::arg("maxiter") = it, py::arg("eps") = eps) : k("ChainIkSolverVel_pinv")(co, eps, it); }); e.b->t = def ? twin<ChainIkSolverVel, ChainIkSolverVel_pinv>(ch) : twin<ChainIkSolverVel, ChainIkSolverVel_pinv>(ch, eps, it); break;
        case 1: mk("wdls", [&] { return named ? k("ChainIkSolverVel_wdls")(co, py::arg("maxiter") = it, py::arg("eps") = eps) : k("ChainIkSolverVel_wdls")(co); }); e.b->t = named ? twin<ChainIkSolverVel, ChainIkSolverVel_wdls>(ch, eps, it) : twin<ChainIkSolverVel, ChainIkSolverVel_wdls>(ch); break;
        case 2: mk("nso", [&] { return def ? k("ChainIkSolverVel_pinv_nso")(co) : named ? k("ChainIkSolverVel_pinv_nso")(co, py::arg("alpha") = 0.5, py::arg("maxiter") = it, py::arg("eps") = eps) : k("ChainIkSolverVel_pinv_nso")(co, eps, it, 0.5); }); e.b->t = def ? twin<ChainIkSolverVel, ChainIkSolverVel_pinv_nso>(ch) : twin<ChainIkSolverVel, ChainIkSolverVel_pinv_nso>(ch, eps, it, 0.5); break;
        default: mk("givens", [&] { return k("ChainIkSolverVel_pinv_givens")(co); }); e.b->t = twin<ChainIkSolverVel, ChainIkSolverVel_pinv_givens>(ch); } break;
    case IKP: if (type == 0) { mk("lma", [&] { return def ? k("ChainIkSolverPos_LMA")(co) : k("ChainIkSolverPos_LMA")(co, py::arg("eps") = eps, py::arg("maxiter") = it); }); e.b->t = def ? twin<ChainIkSolverPos, ChainIkSolverPos_LMA>(ch) : twin<ChainIkSolverPos, ChainIkSolverPos_LMA>(ch, eps, it); break; } {
        // the inner solvers: from a slot (of the same chain) or made for the occasion
        auto inner = [&](K ik) { int i = d.chance(0.4) ? -1 : w.pick(d, [&](const Ent& q) { return q.b->k == ik && q.b->chain == &ch; }); if (i >= 0) return w.v[i]; return solver(w, d, ik, ik == IKV ? (int)d.range(0, 3) : 0, &c, d.chance(0.4)); };
        Ent f = inner(FKP), v = inner(IKV); e.b->deps.push_back(f.b); e.b->deps.push_back(v.b); ChainFkSolverPos& fs = *(ChainFkSolverPos*)f.b->t.get(); ChainIkSolverVel& vs = *(ChainIkSolverVel*)v.b->t.get();
        if (type == 1) { mk("nr", [&] { return def ? k("ChainIkSolverPos_NR")(co, f.o, v.o) : named ? k("ChainIkSolverPos_NR")(co, py::arg("iksolver") = v.o, py::arg("fksolver") = f.o, py::arg("eps") = eps, py::arg("maxiter") = it) : k("ChainIkSolverPos_NR")(co, f.o, v.o, it, eps); }); e.b->t = def ? twin<ChainIkSolverPos, ChainIkSolverPos_NR>(ch, fs, vs) : twin<ChainIkSolverPos, ChainIkSolverPos_NR>(ch, fs, vs, (unsigned)it, eps); break; }
        unsigned n = ch.getNrOfJoints(); Ent lo = array(w, d, n, true), hi = array(w, d, n, true); for (unsigned i = 0; i < n; ++i) { w.call("limit", [&] { lo.o[py::int_(i)] = -3.0; hi.o[py::int_(i)] = 3.0; return py::none(); }); World::tw<JntArray>(lo)(i) = -3; World::tw<JntArray>(hi)(i) = 3; }
        mk("nr-jl", [&] { return def ? k("ChainIkSolverPos_NR_JL")(co, lo.o, hi.o, f.o, v.o) : named ? k("ChainIkSolverPos_NR_JL")(co, py::arg("q_max") = hi.o, py::arg("q_min") = lo.o, py::arg("iksolver") = v.o, py::arg("fksolver") = f.o, py::arg("eps") = eps, py::arg("maxiter") = it) : k("ChainIkSolverPos_NR_JL")(co, lo.o, hi.o, f.o, v.o, it, eps); }); e.b->t = def ? twin<ChainIkSolverPos, ChainIkSolverPos_NR_JL>(ch, World::tw<JntArray>(lo), World::tw<JntArray>(hi), fs, vs) : twin<ChainIkSolverPos, ChainIkSolverPos_NR_JL>(ch, World::tw<JntArray>(lo), World::tw<JntArray>(hi), fs, vs, (unsigned)it, eps); break; }
    case JCS: mk("ChainJntToJacSolver", [&] { return k("ChainJntToJacSolver")(co); }); e.b->t = twin<ChainJntToJacSolver, ChainJntToJacSolver>(ch); break;
    case JDS: mk("ChainJntToJacDotSolver", [&] { return k("ChainJntToJacDotSolver")(co); }); e.b->t = twin<ChainJntToJacDotSolver, ChainJntToJacDotSolver>(ch); break;
    case IDS: { Ent g = w.get(VEC, d); mk("ChainIdSolver_RNE", [&] { return k("ChainIdSolver_RNE")(co, g.o); }); e.b->t = twin<ChainIdSolver, ChainIdSolver_RNE>(ch, World::tw<Vector>(g)); break; }
    default: { Ent g = w.get(VEC, d); mk("ChainDynParam", [&] { return k("ChainDynParam")(co, g.o); }); e.b->t = twin<ChainDynParam, ChainDynParam>(ch, World::tw<Vector>(g)); } }
    w.watch(e); if (keep) w.v.push_back(e); else w.x.op("temporary-solver"); w.x.op(KN[kind]); return e;
}
SolverI* base(const Ent& e) { void* p = e.b->t.get(); switch (e.b->k) { case FKP: return (ChainFkSolverPos*)p; case FKV: return (ChainFkSolverVel*)p; case IKV: return (ChainIkSolverVel*)p; case IKP: return (ChainIkSolverPos*)p; case JCS: return (ChainJntToJacSolver*)p; case JDS: return (ChainJntToJacDotSolver*)p; case IDS: return (ChainIdSolver*)p; default: return nullptr; } }
bool tame(const JntArray& q) { for (unsigned i = 0; i < q.rows(); ++i) if (!(std::fabs(q(i)) < 1e4)) return false; return true; }
void use(World& w, Draw& d) {
    int i = w.pick(d, [](const Ent& e) { return e.b->k >= FKP && e.b->k < NONE; }); if (i < 0) return; Ent e = w.v[i]; unsigned n = e.b->chain->getNrOfJoints(); if (d.chance(0.08)) n = (unsigned)d.range(0, 5); void* p = e.b->t.get(); const char* nm = KN[e.b->k]; Ctx& x = w.x; x.op((std::string("use-") + nm).c_str());
    auto ret = [&](const py::object& r, int b) { same(w, nm, r, b); x.probe(b >= 0 ? "solved" : "solver-refused"); };
    switch (e.b->k) {
    case FKP: { Ent q = array(w, d, n), f = w.get(FRA, d); int s = d.chance(0.7) ? -1 : (int)d.range(-2, 5); py::object r = w.call(nm, [&] { return e.o.attr("JntToCart")(q.o, f.o, s); }); ret(r, ((ChainFkSolverPos*)p)->JntToCart(World::tw<JntArray>(q), World::tw<Frame>(f), s)); w.check(f, nm); break; }
    case FKV: { Ent q = array_vel(w, d, n), f = w.get(FVE, d); py::object r = w.call(nm, [&] { return e.o.attr("JntToCart")(q.o, f.o); }); ret(r, ((ChainFkSolverVel*)p)->JntToCart(World::tw<JntArrayVel>(q), World::tw<FrameVel>(f))); w.check(f, nm); break; }
    case IKV: { Ent q = array(w, d, n), t = w.get(TWI, d), o = array(w, d, n, true); if (!tame(World::tw<JntArray>(q))) break;
        if (e.b->sub == 1 && d.chance(0.4)) { auto* s = static_cast<ChainIkSolverVel_wdls*>((ChainIkSolverVel*)p); double l = d.uni(0.01, 1); if (d.chance(0.5)) { w.call("setLambda", [&] { e.o.attr("setLambda")(l); return py::none(); }); s->setLambda(l); } if (d.chance(0.3)) { double ep = d.pick(std::vector<double>{1e-5, 1e-3, 0.1}); w.call("setEps", [&] { e.o.attr("setEps")(ep); return py::none(); }); s->setEps(ep); } if (d.chance(0.2)) { int m = (int)d.range(1, 200); w.call("setMaxIter", [&] { e.o.attr("setMaxIter")(m); return py::none(); }); s->setMaxIter(m); }
            py::object r = w.call("getEps", [&] { return e.o.attr("getEps")(); }); same(w, "getEps", r, s->getEps()); r = w.call("getLambda", [&] { return e.o.attr("getLambda")(); }); same(w, "getLambda", r, s->getLambda()); x.op("wdls-settings");
            // what the last solution left to be asked for
            if (e.b->used) { r = w.call("getLambdaScaled", [&] { return e.o.attr("getLambdaScaled")(); }); same(w, "getLambdaScaled", r, s->getLambdaScaled()); r = w.call("getNrZeroSigmas", [&] { return e.o.attr("getNrZeroSigmas")(); }); same(w, "getNrZeroSigmas", r, (int)s->getNrZeroSigmas()); r = w.call("getSigmaMin", [&] { return e.o.attr("getSigmaMin")(); }); same(w, "getSigmaMin", r, s->getSigmaMin()); r = w.call("getSVDResult", [&] { return e.o.attr("getSVDResult")(); }); same(w, "getSVDResult", r, s->getSVDResult()); x.op("wdls-results"); } }
        if (e.b->sub == 2 && d.chance(0.4)) { auto* s = static_cast<ChainIkSolverVel_pinv_nso*>((ChainIkSolverVel*)p); py::object was = w.call("getAlpha", [&] { return e.o.attr("getAlpha")(); }); same(w, "getAlpha", was, s->getAlpha()); double l = d.uni(0.01, 1); w.call("setAlpha", [&] { e.o.attr("setAlpha")(l); return py::none(); }); s->setAlpha(l); Ent z = array(w, d, n); bool pos = d.chance(0.5); py::object r = w.call("setOptPos", [&] { return e.o.attr(pos ? "setOptPos" : "setWeights")(z.o); }); ret(r, pos ? s->setOptPos(World::tw<JntArray>(z)) : s->setWeights(World::tw<JntArray>(z)));
            r = w.call("getAlpha", [&] { return e.o.attr("getAlpha")(); }); same(w, "getAlpha", r, s->getAlpha()); py::object g = w.call("getOptPos", [&] { return e.o.attr(pos ? "getOptPos" : "getWeights")(); }); w.add(ARR, g, std::make_shared<JntArray>(pos ? s->getOptPos() : s->getWeights())); w.check(w.v.back(), "getOptPos/getWeights"); x.op("nso-settings"); }
        py::object r = w.call(nm, [&] { return e.o.attr("CartToJnt")(q.o, t.o, o.o); }); int rc = ((ChainIkSolverVel*)p)->CartToJnt(World::tw<JntArray>(q), World::tw<Twist>(t), World::tw<JntArray>(o)); ret(r, rc); if (rc != SolverI::E_NOT_UP_TO_DATE && rc != SolverI::E_SIZE_MISMATCH) e.b->used = true; w.check(o, nm); break; }
    case IKP: { Ent q = array(w, d, n), f = w.get(FRA, d), o = array(w, d, n, true); if (!unitary(World::tw<Frame>(f).M) || !tame(World::tw<JntArray>(q))) break; py::object r = w.call(nm, [&] { return e.o.attr("CartToJnt")(q.o, f.o, o.o); }); ret(r, ((ChainIkSolverPos*)p)->CartToJnt(World::tw<JntArray>(q), World::tw<Frame>(f), World::tw<JntArray>(o))); w.check(o, nm); break; }
    case JCS: { Ent q = array(w, d, n), j = sized(w, d, JAC, n); if (d.chance(0.2)) { unsigned m = d.chance(0.15) ? n + 1 : n; std::vector<bool> l(m); py::list pl; for (unsigned k = 0; k < m; ++k) { l[k] = d.chance(0.3); pl.append(py::bool_(l[k])); } py::object r = w.call("setLockedJoints", [&] { return e.o.attr("setLockedJoints")(pl); }); ret(r, ((ChainJntToJacSolver*)p)->setLockedJoints(l)); } py::object r = w.call(nm, [&] { return e.o.attr("JntToJac")(q.o, j.o); }); ret(r, ((ChainJntToJacSolver*)p)->JntToJac(World::tw<JntArray>(q), World::tw<Jacobian>(j))); w.check(j, nm); break; }
    case JDS: { Ent q = array_vel(w, d, n); auto* s = (ChainJntToJacDotSolver*)p; if (d.chance(0.4)) switch (d.range(0, 3)) { case 0: w.call("rep", [&] { e.o.attr("setHybridRepresentation")(); return py::none(); }); s->setHybridRepresentation(); break; case 1: w.call("rep", [&] { e.o.attr("setBodyFixedRepresentation")(); return py::none(); }); s->setBodyFixedRepresentation(); break; case 2: w.call("rep", [&] { e.o.attr("setInertialRepresentation")(); return py::none(); }); s->setInertialRepresentation(); break; default: { static const char* const R[] = {"HYBRID", "BODYFIXED", "INERTIAL"}; static const int V[] = {ChainJntToJacDotSolver::HYBRID, ChainJntToJacDotSolver::BODYFIXED, ChainJntToJacDotSolver::INERTIAL}; int c = (int)d.range(0, 2); w.call("rep", [&] { e.o.attr("setRepresentation")(P->kdl.attr("ChainJntToJacDotSolver").attr(R[c])); return py::none(); }); s->setRepresentation(V[c]); } }
        if (d.chance(0.2)) { unsigned m = d.chance(0.15) ? n + 1 : n; std::vector<bool> l(m); py::list pl; for (unsigned k = 0; k < m; ++k) { l[k] = d.chance(0.3); pl.append(py::bool_(l[k])); } py::object r = w.call("setLockedJoints", [&] { return e.o.attr("setLockedJoints")(pl); }); ret(r, s->setLockedJoints(l)); }
        if (d.chance(0.5)) { Ent t = w.get(TWI, d); py::object r = w.call(nm, [&] { return e.o.attr("JntToJacDot")(q.o, t.o); }); ret(r, s->JntToJacDot(World::tw<JntArrayVel>(q), World::tw<Twist>(t))); w.check(t, nm); } else { Ent j = sized(w, d, JAC, n); py::object r = w.call(nm, [&] { return e.o.attr("JntToJacDot")(q.o, j.o); }); ret(r, s->JntToJacDot(World::tw<JntArrayVel>(q), World::tw<Jacobian>(j))); w.check(j, nm); } break; }
    case IDS: { Ent q = array(w, d, n), v = array(w, d, n), a = array(w, d, n), o = array(w, d, n, true); py::list l; std::vector<Wrench> f; unsigned m = e.b->chain->getNrOfSegments(); if (d.chance(0.08)) ++m; for (unsigned k = 0; k < m; ++k) { Ent t = w.get(WRE, d, 0.1); l.append(t.o); f.push_back(World::tw<Wrench>(t)); } py::object r = w.call(nm, [&] { return e.o.attr("CartToJnt")(q.o, v.o, a.o, l, o.o); }); ret(r, ((ChainIdSolver*)p)->CartToJnt(World::tw<JntArray>(q), World::tw<JntArray>(v), World::tw<JntArray>(a), f, World::tw<JntArray>(o))); w.check(o, nm); break; }
    default: { auto* s = (ChainDynParam*)p; Ent q = array(w, d, n); int c = (int)d.range(0, 2); if (c == 0) { Ent h = sized(w, d, MAT, n); py::object r = w.call(nm, [&] { return e.o.attr("JntToMass")(q.o, h.o); }); ret(r, s->JntToMass(World::tw<JntArray>(q), World::tw<JntSpaceInertiaMatrix>(h))); w.check(h, nm); } else { Ent o = array(w, d, n, true); if (c == 1) { Ent v = array(w, d, n); py::object r = w.call(nm, [&] { return e.o.attr("JntToCoriolis")(q.o, v.o, o.o); }); ret(r, s->JntToCoriolis(World::tw<JntArray>(q), World::tw<JntArray>(v), World::tw<JntArray>(o))); } else { py::object r = w.call(nm, [&] { return e.o.attr("JntToGravity")(q.o, o.o); }); ret(r, s->JntToGravity(World::tw<JntArray>(q), World::tw<JntArray>(o))); } w.check(o, nm); } } }
    if (SolverI* b = base(e)) { py::object r = w.call("getError", [&] { return e.o.attr("getError")(); }); same(w, "getError", r, b->getError()); if (d.chance(0.3)) { int c = b->getError(); py::object m = w.call("strError", [&] { return e.o.attr("strError")(c); }); same(w, "strError", m, std::string(b->strError(c))); } }
}
// ---- arithmetic of joint-space objects, sizes given ---------------------------------------------------
void joint_arith(World& w, Draw& d) {
    unsigned n = (unsigned)d.range(1, 4); auto f = [&](const char* nm, auto... o) { w.call(nm, [&] { return P->kdl.attr(nm)(o...); }); w.x.op("joint-arithmetic"); }; double s = d.val(0.5, 2);
    switch (d.range(0, 16)) {
    case 0: case 1: { Ent a = array(w, d, n), b = array(w, d, n), c = array(w, d, n); JntArray A = World::tw<JntArray>(a), Bb = World::tw<JntArray>(b); bool add = d.chance(0.5); f(add ? "Add" : "Subtract", a.o, b.o, c.o); if (add) Add(A, Bb, World::tw<JntArray>(c)); else Subtract(A, Bb, World::tw<JntArray>(c)); w.check(c, "Add/Subtract"); break; }
    case 2: { Ent a = array(w, d, n), c = array(w, d, n); JntArray A = World::tw<JntArray>(a); bool mul = d.chance(0.5); f(mul ? "Multiply" : "Divide", a.o, py::float_(s), c.o); if (mul) Multiply(A, s, World::tw<JntArray>(c)); else Divide(A, s, World::tw<JntArray>(c)); w.check(c, "Multiply/Divide"); break; }
    case 3: { Ent j = sized(w, d, JAC, n), a = array(w, d, n), t = w.get(TWI, d); f("MultiplyJacobian", j.o, a.o, t.o); MultiplyJacobian(World::tw<Jacobian>(j), World::tw<JntArray>(a), World::tw<Twist>(t)); w.check(t, "MultiplyJacobian"); break; }
    case 4: { Ent a = array_vel(w, d, n), b = array_vel(w, d, n), c = array_vel(w, d, n); JntArrayVel A = World::tw<JntArrayVel>(a), Bb = World::tw<JntArrayVel>(b); bool add = d.chance(0.5); f(add ? "Add" : "Subtract", a.o, b.o, c.o); if (add) Add(A, Bb, World::tw<JntArrayVel>(c)); else Subtract(A, Bb, World::tw<JntArrayVel>(c)); w.check(c, "Add/Subtract"); break; }
    case 14: { Ent a = array_vel(w, d, n), b = array(w, d, n), c = array_vel(w, d, n); JntArrayVel A = World::tw<JntArrayVel>(a); JntArray Bb = World::tw<JntArray>(b); bool add = d.chance(0.5); f(add ? "Add" : "Subtract", a.o, b.o, c.o); if (add) Add(A, Bb, World::tw<JntArrayVel>(c)); else Subtract(A, Bb, World::tw<JntArrayVel>(c)); w.check(c, "Add/Subtract"); break; }
    case 15: { Ent a = sized(w, d, MAT, n), c = sized(w, d, MAT, n); JntSpaceInertiaMatrix A = World::tw<JntSpaceInertiaMatrix>(a); bool mul = d.chance(0.5); f(mul ? "Multiply" : "Divide", a.o, py::float_(s), c.o); if (mul) Multiply(A, s, World::tw<JntSpaceInertiaMatrix>(c)); else Divide(A, s, World::tw<JntSpaceInertiaMatrix>(c)); w.check(c, "Multiply/Divide"); break; }
    case 16: { double ep = d.chance(0.5) ? 1e-6 : 2.0; Ent a = array_vel(w, d, n), b = d.chance(0.3) ? a : array_vel(w, d, d.chance(0.2) ? n + 1 : n); py::object r = w.call("Equal", [&] { return P->kdl.attr("Equal")(a.o, b.o, ep); }); same(w, "Equal", r, Equal(World::tw<JntArrayVel>(a), World::tw<JntArrayVel>(b), ep)); Ent k = sized(w, d, MAT, n), m = d.chance(0.3) ? k : sized(w, d, MAT, n); r = w.call("Equal", [&] { return P->kdl.attr("Equal")(k.o, m.o, ep); }); same(w, "Equal", r, Equal(World::tw<JntSpaceInertiaMatrix>(k), World::tw<JntSpaceInertiaMatrix>(m), ep)); w.x.op("joint-equal"); break; }
    case 5: { Ent a = array_vel(w, d, n), c = array_vel(w, d, n); JntArrayVel A = World::tw<JntArrayVel>(a); bool mul = d.chance(0.5); f(mul ? "Multiply" : "Divide", a.o, py::float_(s), c.o); if (mul) Multiply(A, s, World::tw<JntArrayVel>(c)); else Divide(A, s, World::tw<JntArrayVel>(c)); w.check(c, "Multiply/Divide"); break; }
    case 6: { Ent a = sized(w, d, MAT, n), b = sized(w, d, MAT, n), c = sized(w, d, MAT, n); JntSpaceInertiaMatrix A = World::tw<JntSpaceInertiaMatrix>(a), Bb = World::tw<JntSpaceInertiaMatrix>(b); bool add = d.chance(0.5); f(add ? "Add" : "Subtract", a.o, b.o, c.o); if (add) Add(A, Bb, World::tw<JntSpaceInertiaMatrix>(c)); else Subtract(A, Bb, World::tw<JntSpaceInertiaMatrix>(c)); w.check(c, "Add/Subtract"); break; }
    case 7: { Ent m = sized(w, d, MAT, n), a = array(w, d, n), c = array(w, d, n, true); f("Multiply", m.o, a.o, c.o); Multiply(World::tw<JntSpaceInertiaMatrix>(m), World::tw<JntArray>(a), World::tw<JntArray>(c)); w.check(c, "Multiply"); break; }
    case 8: { Ent j = sized(w, d, JAC, n), k = sized(w, d, JAC, n), fr = w.get(FRA, d); if (j.o.is(k.o)) break; f("changeRefFrame", j.o, fr.o, k.o); changeRefFrame(World::tw<Jacobian>(j), World::tw<Frame>(fr), World::tw<Jacobian>(k)); w.check(k, "changeRefFrame"); break; }
    case 9: { Ent j = sized(w, d, JAC, n), k = sized(w, d, JAC, d.chance(0.1) ? n + 1 : n); if (j.o.is(k.o)) break; if (d.chance(0.5)) { Ent v = w.get(VEC, d); py::object r = w.call("changeRefPoint", [&] { return P->kdl.attr("changeRefPoint")(j.o, v.o, k.o); }); same(w, "changeRefPoint", r, changeRefPoint(World::tw<Jacobian>(j), World::tw<Vector>(v), World::tw<Jacobian>(k))); } else { Ent v = w.get(ROT, d); py::object r = w.call("changeBase", [&] { return P->kdl.attr("changeBase")(j.o, v.o, k.o); }); same(w, "changeBase", r, changeBase(World::tw<Jacobian>(j), World::tw<Rotation>(v), World::tw<Jacobian>(k))); } w.check(k, "changing a Jacobian's reference"); break; }
    case 10: { Ent a = array_vel(w, d, n), c = array_vel(w, d, n), q = w.get(DVE, d); if (a.o.is(c.o) || std::fabs(World::tw<doubleVel>(q).t) < 0.1) break; bool mul = d.chance(0.5); f(mul ? "Multiply" : "Divide", a.o, q.o, c.o); if (mul) Multiply(World::tw<JntArrayVel>(a), World::tw<doubleVel>(q), World::tw<JntArrayVel>(c)); else Divide(World::tw<JntArrayVel>(a), World::tw<doubleVel>(q), World::tw<JntArrayVel>(c)); w.check(c, "Multiply/Divide"); break; }
    case 11: { Ent a = array(w, d, n), b = d.chance(0.3) ? a : array(w, d, d.chance(0.2) ? n + 1 : n); double ep = d.chance(0.5) ? 1e-6 : 2.0; py::object r = w.call("Equal", [&] { return P->kdl.attr("Equal")(a.o, b.o, ep); }); same(w, "Equal", r, Equal(World::tw<JntArray>(a), World::tw<JntArray>(b), ep)); r = w.call("eq", [&] { return P->op.attr("eq")(a.o, b.o); }); same(w, "eq", r, World::tw<JntArray>(a) == World::tw<JntArray>(b)); Ent k = sized(w, d, MAT, n), m = sized(w, d, MAT, n); r = w.call("eq", [&] { return P->op.attr("eq")(k.o, m.o); }); same(w, "eq", r, World::tw<JntSpaceInertiaMatrix>(k) == World::tw<JntSpaceInertiaMatrix>(m)); w.x.op("joint-equal"); break; }
    case 12: { unsigned m = (unsigned)d.range(0, 6); int i = w.pick(d, [](const Ent& e) { return (e.b->k == ARR || e.b->k == JAC || e.b->k == MAT || e.b->k == ARV) && !e.b->alias; }); if (i < 0) break; Ent e = w.v[i]; w.call("resize", [&] { e.o.attr("resize")(m); if (e.b->k != ARR && e.b->k != ARV) P->kdl.attr("SetToZero")(e.o); return py::none(); }); switch (e.b->k) { case ARR: World::tw<JntArray>(e).resize(m); break; case ARV: World::tw<JntArrayVel>(e).resize(m); break; case JAC: World::tw<Jacobian>(e).resize(m); SetToZero(World::tw<Jacobian>(e)); break; default: World::tw<JntSpaceInertiaMatrix>(e).resize(m); SetToZero(World::tw<JntSpaceInertiaMatrix>(e)); } w.check(e, "resizing"); w.x.op("resize");
        static const char* const S[] = {"JntArray", "JntArrayVel", "Jacobian", "JntSpaceInertiaMatrix"}; if (d.chance(0.3)) { const char* c = S[d.range(0, 3)]; w.raises("a size below zero", {PyExc_TypeError, PyExc_ValueError, PyExc_IndexError}, [&] { P->kdl.attr(c)(-(int)d.range(1, 9)); }); } if (d.chance(0.3)) w.raises("a size below zero", {PyExc_TypeError, PyExc_ValueError, PyExc_IndexError}, [&] { e.o.attr("resize")(-(int)d.range(1, 9)); }); w.check(e, "a rejected size"); break; }
    default: { Ent j = sized(w, d, JAC, n); unsigned c = (unsigned)d.range(0, n - 1); if (d.chance(0.5)) { Ent t = w.get(TWI, d); w.call("setColumn", [&] { j.o.attr("setColumn")(c, t.o); return py::none(); }); World::tw<Jacobian>(j).setColumn(c, World::tw<Twist>(t)); w.check(j, "setColumn"); } else { py::object o = w.call("getColumn", [&] { return j.o.attr("getColumn")(c); }); w.add(TWI, o, std::make_shared<Twist>(World::tw<Jacobian>(j).getColumn(c))); w.check(w.v.back(), "getColumn"); }
        if (d.chance(0.5)) { unsigned bad = d.chance(0.5) ? n : n + (unsigned)d.range(1, 100000); w.raises("a column out of range", {PyExc_IndexError}, [&] { if (d.chance(0.5)) j.o.attr("getColumn")(bad); else j.o.attr("setColumn")(bad, P->kdl.attr("Twist")()); }); w.check(j, "a rejected column"); } } }
}
void grow(World& w, Draw& d) {
    Ctx& x = w.x; if (d.chance(0.35)) { int i = w.pick(d, [](const Ent& e) { return e.b->k == TRE; }); if (i < 0) { w.make(TRE, d); i = w.pick(d, [](const Ent& e) { return e.b->k == TRE; }); } Ent t = w.v[i]; Tree& tt = World::tw<Tree>(t); std::vector<std::string> names; for (auto& s : tt.getSegments()) names.push_back(s.first); std::sort(names.begin(), names.end()); std::string hook = d.chance(0.1) ? "nowhere" : d.pick(names);
        int c = d.weighted({3, 1, 0.5, 2}); if (tt.getNrOfSegments() > 14 && c < 3) c = 3;
        if (c == 0) { Segment s = gen::toKs(rseg(d, gen::SegOpts(), "t" + std::to_string(d.range(0, 20)))); py::object r = w.call("Tree.addSegment", [&] { return t.o.attr("addSegment")(py::cast(s), hook); }); same(w, "Tree.addSegment", r, tt.addSegment(s, hook)); }
        else if (c == 1) { Ent h = w.get(CHA, d); py::object r = w.call("Tree.addChain", [&] { return t.o.attr("addChain")(h.o, hook); }); same(w, "Tree.addChain", r, tt.addChain(World::tw<Chain>(h), hook)); }
        else if (c == 2) { Ent h = w.get(TRE, d); py::object r = w.call("Tree.addTree", [&] { return t.o.attr("addTree")(h.o, hook); }); same(w, "Tree.addTree", r, tt.addTree(World::tw<Tree>(h), hook)); }
        else { std::string a = d.chance(0.1) ? "nowhere" : d.pick(names), b = d.pick(names); py::object o = w.call("getChain", [&] { return t.o.attr("getChain")(a, b); }); auto c2 = std::make_shared<Chain>(); tt.getChain(a, b, *c2); w.add(CHA, o, c2); w.check(w.v.back(), "getChain"); x.op("get-chain"); }
        w.check(t, "growing a tree"); x.op("grow-tree"); return; }
    int i = w.pick(d, [](const Ent& e) { return e.b->k == CHA; }); if (i < 0) { a_chain(w, d); return; } Ent c = w.v[i]; Chain& ct = World::tw<Chain>(c);
    switch (d.weighted({3, 0.5, 2, 1, 0.7})) {
    case 0: { if (ct.getNrOfSegments() > 6) break; if (d.chance(0.5)) { Ent s = w.get(SEG, d); if (!tame(JntArray(0))) break; w.call("addSegment", [&] { c.o.attr("addSegment")(s.o); return py::none(); }); ct.addSegment(World::tw<Segment>(s)); } else { Segment s = gen::toKs(rseg(d, gen::SegOpts(), "g")); w.call("addSegment", [&] { c.o.attr("addSegment")(py::cast(s)); return py::none(); }); ct.addSegment(s); } x.op("grow-chain"); break; }
    case 1: { Ent o = w.get(CHA, d); if (ct.getNrOfSegments() + World::tw<Chain>(o).getNrOfSegments() > 7) break; w.call("addChain", [&] { c.o.attr("addChain")(o.o); return py::none(); }); ct.addChain(World::tw<Chain>(o)); x.op("grow-chain"); break; }
    case 2: { unsigned n = ct.getNrOfSegments(); if (!n) break; unsigned k = (unsigned)d.range(0, n - 1); py::object s = w.call("getSegment", [&] { return c.o.attr("getSegment")(k); }); w.add(SEG, s, std::make_shared<Segment>(ct.getSegment(k))); w.check(w.v.back(), "getSegment"); x.op("get-segment"); break; }
    case 3: { unsigned n = ct.getNrOfSegments(), bad = d.chance(0.5) ? n : n + (unsigned)d.range(1, 100000); w.raises("a segment out of range", {PyExc_IndexError}, [&] { c.o.attr("getSegment")(bad); }); break; }
    default: { int s = w.pick(d, [](const Ent& e) { return base(e) != nullptr; }); if (s < 0) break; Ent e = w.v[s]; w.call("updateInternalDataStructures", [&] { e.o.attr("updateInternalDataStructures")(); return py::none(); }); base(e)->updateInternalDataStructures(); x.op("update"); } }
    w.check(c, "growing a chain");
}
// ---- steps --------------------------------------------------------------------------------------------
void step(World& w, const Step& st, int group) {
    Ctx& x = w.x; Draw d = x.draw(st); x.ev(st.op.c_str()); const std::string& o = st.op;
    if (w.v.size() > 90) while (w.v.size() > 60) w.drop(d);
    if (o == "op") { std::vector<const OpDef*> c; for (auto& q : *OPS) if (q.group == group || (group == 1 && d.chance(0.02))) c.push_back(&q); const OpDef* q = d.pick(c); x.ev(q->name.c_str()); q->run(w, d, *q); }
    if (o == "attr") { std::vector<std::pair<int, const AttrDef*>> c; for (size_t i = 0; i < w.v.size(); ++i) for (auto& a : attrs()) if (a.owner == w.v[i].b->k) c.push_back({(int)i, &a}); if (c.empty()) return; auto q = d.pick(c); Ent e = w.v[q.first]; const AttrDef& a = *q.second;
        if (d.chance(0.6)) { py::object r = w.call("attribute", [&] { return py::object(e.o.attr(a.name)); }); Ent& n = w.add(a.kind, r, std::shared_ptr<void>(e.b->t, a.sub(e.b->t.get())), e.b); w.check(n, "reading an attribute"); w.focus = n.b; w.focused = 6; x.op("view"); }
        else { Ent s = w.get(a.kind, d); if (a.kind == ARR && World::tw<JntArray>(s).rows() != ((JntArray*)a.sub(e.b->t.get()))->rows()) return; w.call("attribute", [&] { py::setattr(e.o, a.name, s.o); return py::none(); }); a.assign(e.b->t.get(), s.b->t.get()); w.check(e, "setting an attribute"); w.check(s, "being assigned"); x.op("assign"); } }
    if (o == "dual") { Ent q = w.get(DVE, d); doubleVel& t = World::tw<doubleVel>(q); switch (d.range(0, 2)) {
        case 0: { bool g = d.chance(0.5); double f = d.val(-3, 3); if (d.chance(0.5)) { w.call("attribute", [&] { py::setattr(q.o, g ? "grad" : "t", w.number(f, d)); return py::none(); }); (g ? t.grad : t.t) = f; w.check(q, "setting an attribute"); } py::object r = w.call("attribute", [&] { return py::object(q.o.attr(g ? "grad" : "t")); }); same(w, "attribute", r, g ? t.grad : t.t); break; }
        case 1: { if (!(std::fabs(t.t) > 0.1)) break; bool v = d.chance(0.5); Ent a = w.get(v ? VVE : TVE, d); py::object r = w.call("truediv", [&] { return py::object(P->op.attr("truediv")(a.o, q.o)); }); if (v) w.add(VVE, r, std::make_shared<VectorVel>(World::tw<VectorVel>(a) / t)); else w.add(TVE, r, std::make_shared<TwistVel>(World::tw<TwistVel>(a) / t)); w.check(w.v.back(), "division"); break; }
        default: { Ent a = w.get(VVE, d); const VectorVel& v = World::tw<VectorVel>(a); if (!(v.p.Norm() > 1e-3)) break; bool def = d.chance(0.5); double ep = d.chance(0.5) ? 1e-9 : 1.0; py::object r = w.call("Norm", [&] { return def ? py::object(a.o.attr("Norm")()) : py::object(a.o.attr("Norm")(ep)); }); w.add(DVE, r, std::make_shared<doubleVel>(def ? v.Norm() : v.Norm(ep))); w.check(w.v.back(), "Norm"); } } x.op("dual"); }
    if (o == "index") index_op(w, d);
    if (o == "junk") bad_type(w, d);
    if (o == "copy") { int i = w.pick(d, [](const Ent& e) { return e.b->k <= FVE; }); if (i < 0) return; Ent e = w.v[i]; bool deep = d.chance(0.5); py::object r = w.call("copy", [&] { return deep ? P->copy.attr("deepcopy")(e.o) : P->copy.attr("copy")(e.o); }); if (r.is(e.o)) x.fail("not-new", "a copy is the object itself"); w.add(e.b->k, r, clone(e)); w.check(w.v.back(), "a copy"); x.op("copy"); py::object h = w.call("hash", [&] { return py::module_::import("builtins").attr("hash")(e.o); }), h2 = w.call("hash", [&] { return py::module_::import("builtins").attr("hash")(r); }); if (!h.equal(h2)) x.fail("hash", "a copy of a %s hashes differently", KN[e.b->k]); }
    if (o == "pickle") { int i = w.pick(d, [](const Ent& e) { return pickles(e) && !e.b->pysub; }); if (i < 0) return; Ent e = w.v[i]; int proto = (int)d.range(2, 5); py::object r = w.call("pickle", [&] { py::object s = P->pickle.attr("dumps")(e.o, proto); return P->pickle.attr("loads")(s); }); w.add(e.b->k, r, clone(e)); w.check(w.v.back(), "pickling"); x.op("pickle");
        if (e.b->k == VEC || e.b->k == WRE || e.b->k == TWI || e.b->k == VVE || e.b->k == TVE) { auto hs = [&](const py::object& q) { return w.call("hash", [&] { return py::module_::import("builtins").attr("hash")(q); }); }; if (!hs(e.o).equal(hs(r))) x.fail("hash", "an unpickled %s hashes differently", KN[e.b->k]); }
        // pickling a rotation goes through angles: equal up to rounding; go on with what the object has become
        switch (e.b->k) { case ROT: World::tw<Rotation>(w.v.back()) = r.cast<Rotation>(); break; case FRA: World::tw<Frame>(w.v.back()) = r.cast<Frame>(); break; case RVE: World::tw<RotationVel>(w.v.back()) = r.cast<RotationVel>(); break; case FVE: World::tw<FrameVel>(w.v.back()) = r.cast<FrameVel>(); break; default:; } }
    if (o == "repr") { int i = w.pick(d, [](const Ent& e) { return !text(e).empty(); }); if (i < 0) return; py::object r = w.call("repr", [&] { return py::object(py::repr(w.v[i].o)); }); same(w, "repr", r, text(w.v[i])); x.op("repr"); }
    if (o == "attach") { int a = w.pick(d, [](const Ent& e) { return e.b->pysub; }); int b = w.pick(d, [](const Ent& e) { return e.b->k < FKP && !e.b->alias; }); if (a < 0 || b < 0) return; std::string n = "x" + std::to_string(d.range(0, 2)); w.call("attach", [&] { py::setattr(w.v[a].o, n.c_str(), w.v[b].o); return py::none(); }); w.v[a].b->attrs[n] = w.v[b].b; x.op("attach"); }
    if (o == "fetch") { int a = w.pick(d, [](const Ent& e) { return !e.b->attrs.empty(); }); if (a < 0) return; auto& m = w.v[a].b->attrs; auto i = m.begin(); std::advance(i, d.range(0, (int64_t)m.size() - 1)); B b = i->second; py::object r = w.call("fetch", [&] { return py::object(w.v[a].o.attr(i->first.c_str())); }); w.v.push_back({r, b}); w.check(w.v.back(), "reaching it through another object"); x.op("fetch"); }
    if (o == "drop") { int n = d.chance(0.2) ? (int)d.range(3, 12) : 1; for (int i = 0; i < n; ++i) w.drop(d); x.fault("reference-dropped"); x.nontrivial = true; }
    if (o == "keep") { // everything but the solvers goes
        std::vector<Ent> k; for (auto& e : w.v) if ((group == 1 && e.b->k >= FKP) || (group == 0 && e.b->alias)) k.push_back(e); w.v.swap(k); k.clear(); x.fault("only-users-left"); x.nontrivial = true; }
    if (o == "collect") { w.collect(false); x.fault("collection"); x.nontrivial = true; }
    if (o == "solver") { int k = (int)d.range(FKP, DYN); if (d.chance(0.25)) k = IKP; solver(w, d, k, k == IKV ? (int)d.range(0, 3) : k == IKP ? (int)d.range(0, 2) : 0); }
    if (o == "use") use(w, d);
    if (o == "arith") joint_arith(w, d);
    if (o == "grow") grow(w, d);
    if (B b = w.focus.lock()) for (auto& e : w.v) if (!b->deps.empty() && e.b == b->deps[0]) w.check(e, o.c_str());
    for (int i = 0; i < 3 && !w.v.empty(); ++i) w.check(w.v[(size_t)d.range(0, (int64_t)w.v.size() - 1)], o.c_str());
}
void execute(const Program& p, Ctx& x) {
    start(); table(); World w(x); w.evil = p.c("evil") != 0; int group = (int)p.c("group");
    struct End { World& w; ~End() { w.v.clear(); for (auto& b : w.born) if (B q = b.first.lock()) q->attrs.clear(); PyErr_Clear(); } } end{w};
    int k = 0; for (auto& st : p.steps) { x.step_no = k++; step(w, st, group); }
    for (auto& e : w.v) w.check(e, "the whole run");
    // everything goes, cycles included
    Rng r(p.seed ^ 5); while (!w.v.empty()) w.v.erase(w.v.begin() + (size_t)r.range(0, (int64_t)w.v.size() - 1));
    for (auto& b : w.born) if (B q = b.first.lock()) q->attrs.clear();
    x.i((int64_t)w.born.size()); w.collect(true); if (!w.born.empty()) x.fail("model", "%zu twins are left", w.born.size()); x.cover(mix64(x.sched));
}
void generate(Rng& r, Program& p, bool thorough, int group) {
    p.cfg["group"] = group; p.cfg["evil"] = r.chance(0.5); int n = (int)r.range(15, thorough ? 120 : 70);
    static const char* const A[] = {"op", "attr", "index", "junk", "copy", "pickle", "repr", "attach", "fetch", "drop", "keep", "collect", "dual"};
    static const char* const M[] = {"op", "attr", "index", "junk", "repr", "attach", "fetch", "drop", "keep", "collect", "solver", "use", "arith", "grow"};
    for (int i = 0; i < n; ++i) { if (group == 0) { int o = r.weighted({12, 5, 4, 1, 1.5, 1.5, 0.8, 1.5, 1, 4, 0.5, 0.6, 1}); p.add(A[o], {}, r.next()); } else { int o = r.weighted({5, 0.7, 1, 0.6, 0.5, 1, 0.7, 4, 1, 0.6, 5, 8, 2, 4}); p.add(M[o], {}, r.next()); } }
}
void gen1(Rng& r, Program& p, bool t) { generate(r, p, t, 1); }
void gen0(Rng& r, Program& p, bool t) { generate(r, p, t, 0); }
const char* const STUB1 = "order in which references are dropped and cycles collected, conversion callbacks (seeded)";
Scenario S1{"P01", "python-lifetime", "exploration", gen1, execute,
    "A run builds joints, segments, chains, trees, joint arrays and solvers through the Python module in a real interpreter, uses them, lets the chains and solvers that others refer to go in seeded order (also inside conversion callbacks), collects reference cycles at seeded moments, and compares everything with C++ objects of the same history under the address sanitizer. Non-trivial: a drop, collection, callback or rejected argument happened; distinct by the sequence of operations and faults.",
    {"PyKDL (kinfam, dynamics)", "pybind11 and CPython 3.12", "orocos_kdl"}, {STUB1}, {"CPython reference counting", "no cycle leads from a chain back to itself through a solver built on it", "numpy-typed arguments are not exercised"},
    40000, 3000000, 50, 500, {"fault:reference-dropped", "fault:only-users-left", "fault:collection", "fault:callback-in-conversion", "fault:bad-argument", "probe:compared", "probe:released", "probe:solved", "probe:solver-refused", "op:temporary-chain", "op:temporary-solver", "op:fetch", "op:use-fk-pos", "op:use-fk-vel", "op:use-ik-vel", "op:use-ik-pos", "op:use-jac", "op:use-jac-dot", "op:use-id", "op:use-dyn-param", "op:get-segment", "op:get-chain", "op:wdls-results", "op:nso-settings", "op:joint-equal"}, false, false};
Scenario S0{"P02", "python-values", "exploration", gen0, execute,
    "A run applies the geometric value types of the Python module in seeded order: constructors, operators, in-place operators, methods, views of attributes and assignments through them, indexing, copying, pickling, printing, with wrong arguments and with references dropped and cycles collected at seeded moments; every object is compared with a C++ object of the same history. Non-trivial: a drop, collection, callback or rejected argument happened; distinct by the sequence of operations and faults.",
    {"PyKDL (frames, framevel)", "pybind11 and CPython 3.12", "orocos_kdl"}, {STUB1}, {"CPython reference counting", "rotations are pickled while they are orthonormal"},
    60000, 3000000, 50, 500, {"fault:reference-dropped", "fault:only-users-left", "fault:collection", "fault:callback-in-conversion", "fault:bad-argument", "probe:compared", "probe:released", "op:view", "op:assign", "op:copy", "op:pickle", "op:repr", "op:getitem", "op:setitem", "op:fetch", "op:iadd", "op:isub", "op:python-subclass", "op:dual"}, false, false};
}
int main(int argc, char** argv) { return sim::sim_dispatch(argc, argv, {&S1, &S0}); }
