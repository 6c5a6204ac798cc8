// One uniform wrapper per chain solver of the library: construct, settings, call, update, last error.
#pragma once
#include "kdlgen.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainjnttojacdotsolver.hpp"
#include "chainiksolvervel_pinv.hpp"
#include "chainiksolvervel_pinv_givens.hpp"
#include "chainiksolvervel_pinv_nso.hpp"
#include "chainiksolvervel_wdls.hpp"
#include "chainiksolverpos_nr.hpp"
#include "chainiksolverpos_nr_jl.hpp"
#include "chainiksolverpos_lma.hpp"
#include "chaindynparam.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include "chainfdsolver_recursive_newton_euler.hpp"
#include "chainhdsolver_vereshchagin.hpp"
#include "chainexternalwrenchestimator.hpp"
namespace zoo {
using namespace gen; using namespace KDL;
typedef std::vector<double> Out;
inline void put(Out& o, const Frame& f) { for (int i = 0; i < 9; ++i) o.push_back(f.M.data[i]); for (int i = 0; i < 3; ++i) o.push_back(f.p(i)); }
inline void put(Out& o, const Twist& t) { for (int i = 0; i < 6; ++i) o.push_back(t(i)); }
inline void put(Out& o, const Wrench& t) { for (int i = 0; i < 6; ++i) o.push_back(t(i)); }
inline void put(Out& o, const JntArray& q) { for (unsigned i = 0; i < q.rows(); ++i) o.push_back(q(i)); }
inline void put(Out& o, const Jacobian& J) { for (unsigned i = 0; i < J.columns(); ++i) put(o, J.getColumn(i)); }

// how one call deviates from a good one
struct Bad {
    int arg = -1; int delta = 0;        // array argument with a wrong size
    bool seg = false;                   // a part of the chain that does not exist
    mutable int seen = 0;               // number of arrays the call takes
    mutable bool applied = false;
    unsigned sz(unsigned n) const { int k = seen++; if (k != arg) return n; int m = (int)n + delta; if (m < 0) m = (int)n + 1; applied = m != (int)n; return (unsigned)m; }
};
struct Sut {
    const Chain& chain; unsigned knj, kns; bool uses_ns = false, stateless = true;
    Sut(const Chain& c) : chain(c), knj(c.getNrOfJoints()), kns(c.getNrOfSegments()) {}
    virtual ~Sut() {}
    bool stale() const { return knj != chain.getNrOfJoints() || (uses_ns && kns != chain.getNrOfSegments()); }
    virtual bool can_be_stale() const { return true; }
    virtual int methods() const { return 1; }
    virtual bool unimplemented(int) const { return false; }
    virtual bool setter(int) const { return false; }             // method only changes settings
    // runs method m with arguments drawn from d, deviating as b says; o gets the outputs
    virtual int call(int m, Draw& d, const Bad& b, Out& o) = 0;
    virtual SolverI* base() = 0;
    virtual void do_update() = 0;
    void update() { do_update(); knj = chain.getNrOfJoints(); kns = chain.getNrOfSegments(); }
    virtual std::unique_ptr<Sut> twin() = 0;                        // newly built, same settings
    virtual bool comparable(const Out&) { return true; }
    virtual void edited() {}
    virtual bool silent(int) const { return false; }             // returns nothing
    bool maybe = false;                 // the last call may be refused although it matches the chain
    virtual bool query(int) const { return false; }              // reads a property of the last solution
    unsigned nj() const { return chain.getNrOfJoints(); }
    unsigned ns() const { return chain.getNrOfSegments(); }
    int segarg(Draw& d, const Bad& b, unsigned& k) const { int w = (int)d.range(0, 3); k = w ? (unsigned)d.range(0, ns()) : ns(); int a = w ? (int)k : -1; int over = (int)d.range(1, 3); if (b.seg) { a = (int)ns() + over; } return a; }
};
typedef std::unique_ptr<Sut> SutP;
inline JntArray arr(Draw& d, unsigned n, double m) { Draw e(d.next(), d.simple); JntArray q(n); for (unsigned i = 0; i < n; ++i) q(i) = e.val(-m, m); return q; }
inline Wrenches wr(Draw& d, unsigned n) { Draw e(d.next(), d.simple); Wrenches w; for (unsigned i = 0; i < n; ++i) { V3 a = rvec(e, 5), b = rvec(e, 2); w.push_back(Wrench(toK(a), toK(b))); } return w; }
inline Twist tw(Draw& d) { V3 a = rvec(d, 1), b = rvec(d, 1); return Twist(toK(a), toK(b)); }

struct FkPosS : Sut { ChainFkSolverPos_recursive s; FkPosS(const Chain& c) : Sut(c), s(c) {} SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); }
    bool can_be_stale() const override { return false; } int methods() const override { return 2; } SutP twin() override { return SutP(new FkPosS(chain)); }
    int call(int m, Draw& d, const Bad& b, Out& o) override { unsigned k; int sa = segarg(d, b, k); JntArray q = arr(d, b.sz(nj()), 3);
        if (m == 0) { Frame f; int rc = s.JntToCart(q, f, sa); if (rc >= 0) put(o, f); return rc; }
        maybe = k == 0; std::vector<Frame> f(b.sz(k)); int rc = s.JntToCart(q, f, sa); if (rc >= 0) for (auto& x : f) put(o, x); return rc; } };
struct FkVelS : Sut { ChainFkSolverVel_recursive s; FkVelS(const Chain& c) : Sut(c), s(c) {} SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); }
    bool can_be_stale() const override { return false; } int methods() const override { return 2; } SutP twin() override { return SutP(new FkVelS(chain)); }
    int call(int m, Draw& d, const Bad& b, Out& o) override { unsigned k; int sa = segarg(d, b, k); JntArrayVel q; q.q = arr(d, b.sz(nj()), 3); q.qdot = arr(d, b.sz(nj()), 2);
        if (m == 0) { FrameVel f; int rc = s.JntToCart(q, f, sa); if (rc >= 0) { put(o, f.GetFrame()); put(o, f.GetTwist()); } return rc; }
        maybe = k == 0; std::vector<FrameVel> f(b.sz(k)); int rc = s.JntToCart(q, f, sa); if (rc >= 0) for (auto& x : f) { put(o, x.GetFrame()); put(o, x.GetTwist()); } return rc; } };
struct JacS : Sut { ChainJntToJacSolver s; std::vector<bool> lock; JacS(const Chain& c) : Sut(c), s(c), lock(c.getNrOfJoints(), false) {} SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); lock.resize(nj(), false); }
    int methods() const override { return 2; } bool setter(int m) const override { return m == 1; } SutP twin() override { auto t = new JacS(chain); t->s.setLockedJoints(lock); t->lock = lock; return SutP(t); }
    int call(int m, Draw& d, const Bad& b, Out& o) override {
        if (m == 1) { std::vector<bool> l(b.sz(nj())); for (size_t i = 0; i < l.size(); ++i) l[i] = d.chance(0.4); int rc = s.setLockedJoints(l); if (rc >= 0) lock = l; return rc; }
        unsigned k; int sa = segarg(d, b, k); JntArray q = arr(d, b.sz(nj()), 3); Jacobian J(b.sz(nj())); int rc = s.JntToJac(q, J, sa); if (rc >= 0) put(o, J); return rc; } };
struct JacDotS : Sut { ChainJntToJacDotSolver s; std::vector<bool> lock; int rep = 0; JacDotS(const Chain& c) : Sut(c), s(c), lock(c.getNrOfJoints(), false) {} SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); lock.resize(nj(), false); }
    int methods() const override { return 4; } bool setter(int m) const override { return m == 1 || m == 3; } bool silent(int m) const override { return m == 3; }
    void setrep(JacDotS& t, int r) { if (r == 0) t.s.setHybridRepresentation(); else if (r == 1) t.s.setBodyFixedRepresentation(); else t.s.setInertialRepresentation(); t.rep = r; }
    SutP twin() override { auto t = new JacDotS(chain); t->s.setLockedJoints(lock); t->lock = lock; setrep(*t, rep); return SutP(t); }
    int call(int m, Draw& d, const Bad& b, Out& o) override {
        if (m == 1) { std::vector<bool> l(b.sz(nj())); for (size_t i = 0; i < l.size(); ++i) l[i] = d.chance(0.3); int rc = s.setLockedJoints(l); if (rc >= 0) lock = l; return rc; }
        if (m == 3) { setrep(*this, (int)d.range(0, 2)); return 0; }
        unsigned k; int sa = segarg(d, b, k); JntArrayVel q; q.q = arr(d, b.sz(nj()), 3); q.qdot = arr(d, b.sz(nj()), 2); unsigned un = 0; for (bool x : lock) un += !x;
        if (m == 0) { Jacobian J(b.sz(un)); int rc = s.JntToJacDot(q, J, sa); if (rc >= 0) put(o, J); return rc; }
        Twist t; int rc = s.JntToJacDot(q, t, sa); maybe = un != nj(); if (rc >= 0) put(o, t); return rc; } };
// velocity inverse kinematics
template <class S> struct VelBase : Sut { using Sut::Sut; bool unimplemented(int m) const override { return m == 1; } virtual S& sv() = 0; SolverI* base() override { return &sv(); } void do_update() override { sv().updateInternalDataStructures(); }
    int solve(Draw& d, const Bad& b, Out& o) { JntArray q = arr(d, b.sz(nj()), 2); Twist t = tw(d); JntArray qd(b.sz(nj())); int rc = sv().CartToJnt(q, t, qd); if (rc >= 0) put(o, qd); return rc; } 
    int framevel(Draw& d, const Bad& b, Out& o) { JntArray q = arr(d, nj(), 2); FrameVel f; JntArrayVel v(nj()); return sv().CartToJnt(q, f, v); } };
struct PinvS : VelBase<ChainIkSolverVel_pinv> { ChainIkSolverVel_pinv s; PinvS(const Chain& c) : VelBase(c), s(c) {} ChainIkSolverVel_pinv& sv() override { return s; } SutP twin() override { return SutP(new PinvS(chain)); }
    int methods() const override { return 2; } int call(int m, Draw& d, const Bad& b, Out& o) override { return m == 0 ? solve(d, b, o) : framevel(d, b, o); } };
struct GivensS : VelBase<ChainIkSolverVel_pinv_givens> { ChainIkSolverVel_pinv_givens s; double cond = 0; GivensS(const Chain& c) : VelBase(c), s(c) {} ChainIkSolverVel_pinv_givens& sv() override { return s; } SutP twin() override { return SutP(new GivensS(chain)); }
    int methods() const override { return 2; }
    bool comparable(const Out&) override { return cond > 0.05; }
    int call(int m, Draw& d, const Bad& b, Out& o) override {
        if (m == 1) return framevel(d, b, o);
        JntArray q = arr(d, b.sz(nj()), 2); Twist t = tw(d); JntArray qd(b.sz(nj())); int rc = s.CartToJnt(q, t, qd); if (rc >= 0) put(o, qd);
        cond = 0; if (q.rows() == nj()) { Jacobian J(nj()); ChainJntToJacSolver js(chain); if (js.JntToJac(q, J) >= 0 && nj() > 0) { Eigen::JacobiSVD<Eigen::MatrixXd> v(J.data); cond = v.singularValues()(v.singularValues().size() - 1); } }
        return rc; } };
struct NsoS : VelBase<ChainIkSolverVel_pinv_nso> { JntArray w, op; double alpha = 0.25; ChainIkSolverVel_pinv_nso s; NsoS(const Chain& c) : VelBase(c), w(c.getNrOfJoints()), op(c.getNrOfJoints()), s(c) { for (unsigned i = 0; i < w.rows(); ++i) { w(i) = 1; op(i) = 0; } s.setWeights(w); s.setOptPos(op); s.setAlpha(alpha); }
    NsoS(const Chain& c, const JntArray& opt, const JntArray& we, double al) : VelBase(c), w(we), op(opt), alpha(al), s(c, opt, we, 0.00001, 150, al) {}
    ChainIkSolverVel_pinv_nso& sv() override { return s; } SutP twin() override { return SutP(new NsoS(chain, op, w, alpha)); }
    void do_update() override { s.updateInternalDataStructures(); unsigned o = std::min(w.rows(), op.rows()), n = nj(); JntArray w2(n), p2(n); for (unsigned i = 0; i < n; ++i) { w2(i) = i < o ? w(i) : 1; p2(i) = i < o ? op(i) : 0; } w = w2; op = p2; }
    int methods() const override { return 5; } bool setter(int m) const override { return m >= 2; }
    int call(int m, Draw& d, const Bad& b, Out& o) override {
        if (m == 0) return solve(d, b, o); if (m == 1) return framevel(d, b, o);
        if (m == 2) { JntArray x = arr(d, b.sz(nj()), 1); for (unsigned i = 0; i < x.rows(); ++i) x(i) = std::fabs(x(i)); int rc = s.setWeights(x); if (rc >= 0) w = x; return rc; }
        if (m == 3) { JntArray x = arr(d, b.sz(nj()), 1); int rc = s.setOptPos(x); if (rc >= 0) op = x; return rc; }
        alpha = d.val(0.1, 1); return s.setAlpha(alpha); } };
struct WdlsS : VelBase<ChainIkSolverVel_wdls> { ChainIkSolverVel_wdls s; Eigen::MatrixXd wj, wt; double lam = 0, eps = 0.00001; WdlsS(const Chain& c) : VelBase(c), s(c) { wj = Eigen::MatrixXd::Identity(nj(), nj()); wt = Eigen::MatrixXd::Identity(6, 6); }
    ChainIkSolverVel_wdls& sv() override { return s; } SutP twin() override { auto t = new WdlsS(chain); t->s.setWeightJS(wj); t->s.setWeightTS(wt); t->s.setLambda(lam); t->s.setEps(eps); return SutP(t); }
    void do_update() override { s.updateInternalDataStructures(); Eigen::MatrixXd n = Eigen::MatrixXd::Identity(nj(), nj()); unsigned k = std::min<unsigned>(nj(), (unsigned)wj.rows()); n.topLeftCorner(k, k) = wj.topLeftCorner(k, k); wj = n; }
    int methods() const override { return 6; } bool setter(int m) const override { return m >= 2 && m <= 4; } bool silent(int m) const override { return m == 4; }
    static Eigen::MatrixXd mat(Draw& d, unsigned r, unsigned c) { Draw e(d.next(), d.simple); Eigen::MatrixXd m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = (i == j ? 1.2 : 0) + e.val(-0.2, 0.2); return m; }
    int call(int m, Draw& d, const Bad& b, Out& o) override {
        if (m == 0) return solve(d, b, o); if (m == 1) return framevel(d, b, o);
        if (m == 2) { unsigned r = b.sz(nj()), c = b.sz(nj()); Eigen::MatrixXd x = mat(d, r, c); int rc = s.setWeightJS(x); if (rc >= 0) wj = x; return rc; }
        if (m == 3) { unsigned r = b.sz(6), c = b.sz(6); if (b.arg == 1 && d.chance(0.3)) { r = 4; c = 9; } Eigen::MatrixXd x = mat(d, r, c); int rc = s.setWeightTS(x); if (rc >= 0) wt = x; return rc; }
        if (m == 4) { lam = d.val(0.01, 0.3); eps = d.chance(0.5) ? 0.00001 : 0.05; s.setLambda(lam); s.setEps(eps); return 0; }
        Eigen::VectorXd S(b.sz(nj())); int rc = s.getSigma(S); return rc; }
    bool query(int m) const override { return m == 5; } };
// position inverse kinematics with real inner solvers of its own
struct NrS : Sut { ChainFkSolverPos_recursive f; ChainIkSolverVel_pinv v; ChainIkSolverPos_NR s; NrS(const Chain& c) : Sut(c), f(c), v(c), s(c, f, v, 60, 1e-6) {} SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); } SutP twin() override { return SutP(new NrS(chain)); }
    int call(int, Draw& d, const Bad& b, Out& o) override { JntArray q = arr(d, b.sz(nj()), 1.5), g = arr(d, nj(), 0.3), r(b.sz(nj())); Frame F; ChainFkSolverPos_recursive k(chain); for (unsigned i = 0; i < nj(); ++i) g(i) += i < q.rows() ? q(i) : 0; k.JntToCart(g, F); int rc = s.CartToJnt(q, F, r); if (rc >= 0) put(o, r); return rc; } };
struct NrJlS : Sut { ChainFkSolverPos_recursive f; ChainIkSolverVel_pinv v; ChainIkSolverPos_NR_JL s; JntArray lo, hi;
    static JntArray c(unsigned n, double x) { JntArray a(n); for (unsigned i = 0; i < n; ++i) a(i) = x; return a; }
    NrJlS(const Chain& ch) : Sut(ch), f(ch), v(ch), s(ch, f, v, 60, 1e-6), lo(c(ch.getNrOfJoints(), -1.7e308)), hi(c(ch.getNrOfJoints(), 1.7e308)) {}
    SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); unsigned o = std::min(lo.rows(), hi.rows()); JntArray a = c(nj(), -1.7e308), b = c(nj(), 1.7e308); for (unsigned i = 0; i < nj() && i < o; ++i) { a(i) = lo(i); b(i) = hi(i); } lo = a; hi = b; }
    SutP twin() override { auto t = new NrJlS(chain); t->s.setJointLimits(lo, hi); t->lo = lo; t->hi = hi; return SutP(t); }
    int methods() const override { return 2; } bool setter(int m) const override { return m == 1; }
    int call(int m, Draw& d, const Bad& b, Out& o) override {
        if (m == 1) { unsigned x = b.sz(nj()), y = b.sz(nj()); JntArray l = c(x, -d.val(1, 3)), h = c(y, d.val(1, 3)); int rc = s.setJointLimits(l, h); if (rc >= 0) { lo = l; hi = h; } return rc; }
        JntArray q = arr(d, b.sz(nj()), 1.5), g = arr(d, nj(), 0.3), r(b.sz(nj())); Frame F; ChainFkSolverPos_recursive k(chain); for (unsigned i = 0; i < nj(); ++i) g(i) += i < q.rows() ? q(i) : 0; k.JntToCart(g, F); int rc = s.CartToJnt(q, F, r); if (rc >= 0) put(o, r); return rc; } };
struct LmaS : Sut { ChainIkSolverPos_LMA s; LmaS(const Chain& c) : Sut(c), s(c) {} SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); } SutP twin() override { return SutP(new LmaS(chain)); }
    int call(int, Draw& d, const Bad& b, Out& o) override { bool at = d.chance(0.2); JntArray q = arr(d, b.sz(nj()), 1.5), g = arr(d, nj(), at ? 0 : 0.3), r(b.sz(nj())); Frame F; ChainFkSolverPos_recursive k(chain); for (unsigned i = 0; i < nj(); ++i) g(i) += i < q.rows() ? q(i) : 0; k.JntToCart(g, F); int rc = s.CartToJnt(q, F, r); if (rc >= 0) put(o, r); return rc; } };
// dynamics
struct DynS : Sut { ChainDynParam s; DynS(const Chain& c) : Sut(c), s(c, Vector(0.3, -0.2, -9.8)) { uses_ns = true; } SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); } SutP twin() override { return SutP(new DynS(chain)); }
    int methods() const override { return 3; }
    int call(int m, Draw& d, const Bad& b, Out& o) override { JntArray q = arr(d, b.sz(nj()), 3);
        if (m == 0) { JntSpaceInertiaMatrix H(b.sz(nj())); int rc = s.JntToMass(q, H); if (rc >= 0) for (unsigned i = 0; i < nj(); ++i) for (unsigned j = 0; j < nj(); ++j) o.push_back(H(i, j)); return rc; }
        if (m == 1) { JntArray v = arr(d, b.sz(nj()), 2), r(b.sz(nj())); int rc = s.JntToCoriolis(q, v, r); if (rc >= 0) put(o, r); return rc; }
        JntArray r(b.sz(nj())); int rc = s.JntToGravity(q, r); if (rc >= 0) put(o, r); return rc; } };
struct RneS : Sut { ChainIdSolver_RNE s; RneS(const Chain& c) : Sut(c), s(c, Vector(0.3, -0.2, -9.8)) { uses_ns = true; } SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); } SutP twin() override { return SutP(new RneS(chain)); }
    int call(int, Draw& d, const Bad& b, Out& o) override { JntArray q = arr(d, b.sz(nj()), 3), v = arr(d, b.sz(nj()), 2), a = arr(d, b.sz(nj()), 2), t(b.sz(nj())); Wrenches f = wr(d, b.sz(ns())); int rc = s.CartToJnt(q, v, a, f, t); if (rc >= 0) put(o, t); return rc; } };
struct FdS : Sut { ChainFdSolver_RNE s; FdS(const Chain& c) : Sut(c), s(c, Vector(0.3, -0.2, -9.8)) { uses_ns = true; } SolverI* base() override { return &s; } void do_update() override { s.updateInternalDataStructures(); } SutP twin() override { return SutP(new FdS(chain)); }
    int call(int, Draw& d, const Bad& b, Out& o) override { JntArray q = arr(d, b.sz(nj()), 3), v = arr(d, b.sz(nj()), 2), t = arr(d, b.sz(nj()), 5), a(b.sz(nj())); Wrenches f = wr(d, b.sz(ns())); int rc = s.CartToJnt(q, v, t, f, a); if (rc >= 0) put(o, a); return rc; } };
struct HdS : Sut { unsigned nc; ChainHdSolver_Vereshchagin s; HdS(const Chain& c, unsigned n) : Sut(c), nc(n), s(c, Twist(Vector(0.3, -0.2, 9.8), Vector::Zero()), n) { uses_ns = true; } SolverI* base() override { return nullptr; } void do_update() override { s.updateInternalDataStructures(); } SutP twin() override { return SutP(new HdS(chain, nc)); }
    int call(int, Draw& d, const Bad& b, Out& o) override { JntArray q = arr(d, b.sz(nj()), 3), v = arr(d, b.sz(nj()), 2), t = arr(d, b.sz(nj()), 5), a(b.sz(nj())), ct(b.sz(nj())); Wrenches f = wr(d, b.sz(ns()));
        Jacobian al(b.sz(nc)); for (unsigned i = 0; i < al.columns(); ++i) { Twist u; u(i % 6) = 1; al.setColumn(i, u); } JntArray be = arr(d, b.sz(nc), 2);
        int rc = s.CartToJnt(q, v, a, al, be, f, t, ct); if (rc >= 0) { put(o, a); put(o, ct); } return rc; } };
struct EstS : Sut { ChainExternalWrenchEstimator s; EstS(const Chain& c) : Sut(c), s(c, Vector(0.3, -0.2, -9.8), 500, 30, 0.5) { uses_ns = true; stateless = false; } SolverI* base() override { return &s; } 
    struct Sample { int m; uint64_t seed; bool simple; }; std::vector<Sample> hist; bool known = true;
    void do_update() override { hist.clear(); known = true; s.updateInternalDataStructures(); }
    SutP twin() override { auto t = new EstS(chain); Out o; for (auto& h : hist) t->run(h.m, h.seed, h.simple, Bad(), o); return SutP(t); }
    bool comparable(const Out&) override { return known; }
    void edited() override { known = false; hist.clear(); }
    int methods() const override { return 2; }
    int run(int m, uint64_t sd, bool simple, const Bad& b, Out& o) { Draw d(sd, simple); JntArray q = arr(d, b.sz(nj()), 2), v = arr(d, b.sz(nj()), 1); int rc;
        if (m == 1) { rc = s.setInitialMomentum(q, v); if (rc >= 0) { hist.clear(); known = true; } }
        else { JntArray t = arr(d, b.sz(nj()), 5); Wrench w; rc = s.JntToExtWrench(q, v, t, w); if (rc >= 0) { JntArray e(nj()); s.getEstimatedJntTorque(e); put(o, e); } }
        if (rc >= 0) { Sample h; h.m = m; h.seed = sd; h.simple = simple; hist.push_back(h); if (hist.size() > 60) { known = false; hist.clear(); } } return rc; }
    int call(int m, Draw& d0, const Bad& b, Out& o) override { uint64_t sd = d0.next(); return run(m, sd, d0.simple, b, o); } };
inline SutP make(int kind, const Chain& c) {
    switch (kind) {
        case 0: return SutP(new FkPosS(c)); case 1: return SutP(new FkVelS(c)); case 2: return SutP(new JacS(c)); case 3: return SutP(new JacDotS(c));
        case 4: return SutP(new PinvS(c)); case 5: return SutP(new GivensS(c)); case 6: return SutP(new NsoS(c)); case 7: return SutP(new WdlsS(c));
        case 8: return SutP(new NrS(c)); case 9: return SutP(new NrJlS(c)); case 10: return SutP(new LmaS(c)); case 11: return SutP(new DynS(c));
        case 12: return SutP(new RneS(c)); case 13: return SutP(new FdS(c)); case 14: return SutP(new HdS(c, 1)); case 15: return SutP(new HdS(c, 6)); default: return SutP(new EstS(c));
    }
}
static const int KINDS = 17;
static const char* const NAME[KINDS] = {"fk-pos", "fk-vel", "jacobian", "jacobian-dot", "ik-vel-pinv", "ik-vel-givens", "ik-vel-nso", "ik-vel-wdls", "ik-pos-nr", "ik-pos-nr-jl", "ik-pos-lma", "dyn-param", "id-rne", "fd-rne", "hd-vereshchagin-1", "hd-vereshchagin-6", "wrench-estimator"};
}  // namespace zoo
