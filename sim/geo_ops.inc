// operations of G01; included by p_geo.cpp
#define BOTH(M) M(1) M(2)
const Entry OPS[] = {
    // plain vectors, rotations, frames, twists, wrenches
    BIN("Vector+Vector", V, V, V, a + b, J(a) + J(b)), BIN("Vector-Vector", V, V, V, a - b, J(a) - J(b)), BIN("Vector x Vector", V, V, V, a * b, cross(J(a), J(b))), UN("-Vector", V, V, -a, -J(a)), INP("Vector+=", V, V, r += a, J(r) + J(a)), INP("Vector-=", V, V, r -= a, J(r) - J(a)), INP1("Vector.ReverseSign", V, r.ReverseSign(), -J(r)),
    SCA("Vector*double", V, r = r * k, J(k) * J(r)), SCA("double*Vector", V, r = k * r, J(k) * J(r)), SCA("Vector/double", V, r = r / k, rec(J(k)) * J(r)), BIN("dot(Vector,Vector)", V, V, s, dot(a, b), dot(J(a), J(b))), INP1("SetToZero(Vector)", V, SetToZero(r), JV()),
    {"Vector.Norm", [](Sim& S) { auto& a = S.p(W_.V); auto& r = S.o(W_.s); S.sz(a); ld n = ref::norm(c(a)); r = a.Norm(); if (n < 2e-6L) { if (r != 0) S.eq(r, n, 1e-9L, "a tiny norm"); } else S.eq(r, n, 1e-12L, "the norm"); }},
    {"Vector.Normalize", [](Sim& S) { auto& r = S.o(W_.V); V3 u = c(r); ld n = ref::norm(u); static const double E[] = {1e-6, 1e-3, 1e-9, 0.1}; double eps = E[S.d->range(0, 3)]; if (S.d->chance(0.3)) { ld s = n > 0 ? S.d->val(0.2, 5) * eps / n : 0; r = Vector((double)(s * u[0]), (double)(s * u[1]), (double)(s * u[2])); u = c(r); n = ref::norm(u); } if (std::fabs(n - eps) < 0.8L * eps) return; double m = r.Normalize(eps); if (n < eps) { S.x.probe("no-direction"); S.eq(m, 0, 0, "the norm of nothing"); S.vec3(r, v3(1, 0, 0), "the direction of nothing"); } else { S.eq(m, n, 1e-12L, "the norm"); S.vec3(r, (1 / n) * u, "the direction"); } }},
    INP("Vector.Set2DXY", v2, V, r.Set2DXY(a), J(a)), {"Vector.Set2DYZ", [](Sim& S) { auto& a = S.p(W_.v2); auto& r = S.o(W_.V); r.Set2DYZ(a); S.vec3(r, v3(0, a(0), a(1)), "the vector"); }}, {"Vector.Set2DZX", [](Sim& S) { auto& a = S.p(W_.v2); auto& r = S.o(W_.V); r.Set2DZX(a); S.vec3(r, v3(a(1), 0, a(0)), "the vector"); }}, {"Vector.Set2DPlane", [](Sim& S) { auto& f = S.p(W_.F); auto& a = S.p(W_.v2); auto& r = S.o(W_.V); S.sz(f, a); JV e = J(f) * J(a); r.Set2DPlane(f, a); S.chk(r, e); if (S.big(r)) S.fresh(r); }},
    {"Vector2.Set3DXY", [](Sim& S) { auto& a = S.p(W_.V); auto& r = S.o(W_.v2); r.Set3DXY(a); S.eq(r(0), a(0), 0, "x"); S.eq(r(1), a(1), 0, "y"); }}, {"Vector2.Set3DYZ", [](Sim& S) { auto& a = S.p(W_.V); auto& r = S.o(W_.v2); r.Set3DYZ(a); S.eq(r(0), a(1), 0, "x"); S.eq(r(1), a(2), 0, "y"); }}, {"Vector2.Set3DZX", [](Sim& S) { auto& a = S.p(W_.V); auto& r = S.o(W_.v2); r.Set3DZX(a); S.eq(r(0), a(2), 0, "x"); S.eq(r(1), a(0), 0, "y"); }}, {"Vector2.Set3DPlane", [](Sim& S) { auto& f = S.p(W_.F); auto& a = S.p(W_.V); auto& r = S.o(W_.v2); S.sz(f, a); JV e = inv(J(f)) * J(a); r.Set3DPlane(f, a); S.chk(r, e); if (S.big(r)) S.fresh(r); }},
    BIN("Rotation*Rotation", R, R, R, a * b, J(a) * J(b)), UN("Rotation.Inverse", R, R, a.Inverse(), tr(J(a))), INP1("Rotation.SetInverse", R, r.SetInverse(), tr(J(r))), BIN("Rotation*Vector", R, V, V, a * b, J(a) * J(b)), BIN("Rotation.Inverse(Vector)", R, V, V, a.Inverse(b), tr(J(a)) * J(b)), BIN("Rotation*Twist", R, T, T, a * b, J(a) * J(b)), BIN("Rotation.Inverse(Twist)", R, T, T, a.Inverse(b), tr(J(a)) * J(b)), BIN("Rotation*Wrench", R, W, W, a * b, J(a) * J(b)), BIN("Rotation.Inverse(Wrench)", R, W, W, a.Inverse(b), tr(J(a)) * J(b)),
    {"Rotation.DoRotX", [](Sim& S) { double k = S.ang(); auto& r = S.o(W_.R); JM e = J(r) * elem(0, J(k)); r.DoRotX(k); S.chk(r, e); }}, {"Rotation.DoRotY", [](Sim& S) { double k = S.ang(); auto& r = S.o(W_.R); JM e = J(r) * elem(1, J(k)); r.DoRotY(k); S.chk(r, e); }}, {"Rotation.DoRotZ", [](Sim& S) { double k = S.ang(); auto& r = S.o(W_.R); JM e = J(r) * elem(2, J(k)); r.DoRotZ(k); S.chk(r, e); }},
    {"Rotation::RotX/Y/Z", [](Sim& S) { double k = S.ang(); int a = (int)S.d->range(0, 2); auto& r = S.o(W_.R); r = a == 0 ? Rotation::RotX(k) : a == 1 ? Rotation::RotY(k) : Rotation::RotZ(k); S.chk(r, elem(a, J(k))); }}, {"Rotation::Rot", [](Sim& S) { auto& v = S.p(W_.V); double k = S.ang(); V3 u = c(v); ld n = ref::norm(u); if (n > 0 && n < 2e-6L) return; auto& r = S.o(W_.R); r = Rotation::Rot(v, k); if (n == 0) S.x.probe("no-direction"); S.chk(r, n == 0 ? elem(0, J(0.0)) : about((1 / n) * u, J(k))); }}, {"Rotation::Rot2", [](Sim& S) { Vector v = S.p(W_.V); unit(S, v); double k = S.ang(); auto& r = S.o(W_.R); r = Rotation::Rot2(v, k); S.chk(r, about(c(v), J(k))); }},
    {"Rot(Vector)", [](Sim& S) { Vector v = S.p(W_.V); if (S.d->chance(0.3)) { double t = S.d->val(1e-9, 1e-5); v = v * t; } V3 u = c(v); ld n = ref::norm(u); auto& r = S.o(W_.R); r = Rot(v); S.chk(r, n > 0 ? about((1 / n) * u, J((double)n)) : elem(0, J(0.0))); }},
    {"Rotation columns", [](Sim& S) { auto& a = S.p(W_.R); auto& r = S.o(W_.R); Rotation k = a; int o = (int)S.d->range(0, 2); for (int i = 0; i < 3; ++i) { int q = (i + o) % 3; if (q == 0) r.UnitX(k.UnitX()); else if (q == 1) r.UnitY(k.UnitY()); else r.UnitZ(k.UnitZ()); } S.chk(r, J(k)); S.chk(k.UnitX(), J(k) * ax(0)); S.chk(k.UnitY(), J(k) * ax(1)); S.chk(k.UnitZ(), J(k) * ax(2)); Rotation m(k.UnitX(), k.UnitY(), k.UnitZ()); S.chk(m, J(k)); }},
    {"Rotation through RPY", [](Sim& S) { auto& r = S.o(W_.R); double t[3] = {S.ang(), S.ang(), S.ang()}; if (S.d->chance(0.4)) { JM e = elem(2, J(t[2])) * elem(1, J(t[1])) * elem(0, J(t[0])); r = Rotation::RPY(t[0], t[1], t[2]); S.chk(r, e); } JM k = J(r); double a, b, g; if (S.d->chance(0.5)) r.GetRPY(a, b, g); else r.GetEulerZYX(g, b, a); ld cp = std::sqrt(k.d[0].m[0][0] * k.d[0].m[0][0] + k.d[0].m[1][0] * k.d[0].m[1][0]); if (cp < 1e-6L) S.x.probe("gimbal-lock"); if (!(std::fabs(a) <= M_PI + 1e-9 && std::fabs(g) <= M_PI + 1e-9 && std::fabs(b) <= M_PI / 2 + 1e-9)) S.x.fail("wrong-range", "roll, pitch, yaw %g %g %g", a, b, g); S.tol = 1e-9L + 1e-14L / std::max(cp, (ld)1e-12L); r = S.d->chance(0.5) ? Rotation::RPY(a, b, g) : Rotation::EulerZYX(g, b, a); S.chk(r, k); if (S.tol > 2e-9L) r = S.rot(); }},
    {"Rotation through EulerZYZ", [](Sim& S) { auto& r = S.o(W_.R); double t[3] = {S.ang(), S.ang(), S.ang()}; if (S.d->chance(0.4)) { JM e = elem(2, J(t[0])) * elem(1, J(t[1])) * elem(2, J(t[2])); r = Rotation::EulerZYZ(t[0], t[1], t[2]); S.chk(r, e); } JM k = J(r); double a, b, g; r.GetEulerZYZ(a, b, g); ld sb = std::sqrt(k.d[0].m[0][2] * k.d[0].m[0][2] + k.d[0].m[1][2] * k.d[0].m[1][2]); if (sb < 1e-6L) S.x.probe("gimbal-lock"); if (!(std::fabs(a) <= M_PI + 1e-9 && std::fabs(g) <= M_PI + 1e-9 && b >= -1e-9 && b <= M_PI + 1e-9)) S.x.fail("wrong-range", "Euler angles %g %g %g", a, b, g); S.tol = sb < 3e-6L ? 1e-5L : 1e-8L; r = Rotation::EulerZYZ(a, b, g); S.chk(r, k); if (sb < 3e-6L) r = S.rot(); }},
    {"Rotation through a quaternion", [](Sim& S) { auto& r = S.o(W_.R); JM k = J(r); double a, b, g, h; r.GetQuaternion(a, b, g, h); S.eq(a * a + b * b + g * g + h * h, 1, 1e-9L, "the square of the quaternion"); r = Rotation::Quaternion(a, b, g, h); S.tol = 1e-9L; S.chk(r, k); }},
    {"Rotation through axis and angle", [](Sim& S) { auto& r = S.o(W_.R); JM k = J(r); const M3& m = k.d[0]; ld an = std::max(std::fabs(m.m[0][1] - m.m[1][0]), std::max(std::fabs(m.m[0][2] - m.m[2][0]), std::fabs(m.m[1][2] - m.m[2][1]))); ld trc = m.m[0][0] + m.m[1][1] + m.m[2][2]; Vector axis; double a = r.GetRotAngle(axis); if (!(a >= 0 && a <= M_PI + 1e-9)) S.x.fail("wrong-range", "the angle is %g", a); S.eq(axis.Norm(), 1, 1e-6L, "the length of the axis"); if (an < 1e-6L && trc < 0) S.x.probe("half-turn"); S.tol = an < 3e-6L ? 1e-5L : 1e-8L; Vector q = r.GetRot(); if (an < 3e-6L && trc > 0) { S.x.probe("tiny-turn"); ld t[3] = {(m.m[2][1] - m.m[1][2]) / 2, (m.m[0][2] - m.m[2][0]) / 2, (m.m[1][0] - m.m[0][1]) / 2}; for (int i = 0; i < 3; ++i) S.eq(q(i), t[i], 1e-11L, "an element of the tiny rotation vector"); } Rotation u = Rotation::Rot(axis, a); S.chk(u, k); r = Rot(q); S.chk(r, k); if (an < 3e-6L) r = S.rot(); }},
    BIN("Frame*Frame", F, F, F, a * b, J(a) * J(b)), UN("Frame.Inverse", F, F, a.Inverse(), inv(J(a))), BIN("Frame*Vector", F, V, V, a * b, J(a) * J(b)), BIN("Frame.Inverse(Vector)", F, V, V, a.Inverse(b), inv(J(a)) * J(b)), BIN("Frame*Twist", F, T, T, a * b, tw(J(a), J(b))), BIN("Frame.Inverse(Twist)", F, T, T, a.Inverse(b), tw(inv(J(a)), J(b))), BIN("Frame*Wrench", F, W, W, a * b, wr(J(a), J(b))), BIN("Frame.Inverse(Wrench)", F, W, W, a.Inverse(b), wr(inv(J(a)), J(b))),
    INP("Frame.M=Frame.M.Inverse", F, F, (r.M = a.M.Inverse(), r.p = a.M * a.p), (JF{tr(J(a).M), J(&a == &r ? a.M.Inverse() : a.M) * J(a).p})), {"Frame.p=Frame*p", [](Sim& S) { auto& r = S.o(W_.F); S.sz(r); JV e = J(r) * J(r.p); JM m = J(r.M); r.p = r * r.p; S.chk(r.p, e); S.chk(r.M, m); if (S.big(r)) S.fresh(r); }}, INP("Vector=Frame.p", F, V, r = a.p, J(a.p)), INP("Frame(Rotation,Vector)", V, F, r = Frame(r.M.Inverse(), a), (JF{tr(J(r.M)), J(a)})),
    {"Frame elements", [](Sim& S) { auto& a = S.p(W_.F); double m[16]; a.Make4x4(m); const Frame& k = a; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double e = i == 3 ? (j == 3) : j == 3 ? a.p.data[i] : a.M.data[3 * i + j]; S.eq(m[4 * i + j], e, 0, "an element of the 4x4 matrix"); S.eq(a(i, j), e, 0, "an element"); S.eq(k(i, j), e, 0, "an element"); } }},
    {"Frame::DH", [](Sim& S) { double al = S.ang(), th = S.ang(), a = S.num(), d = S.num(); auto& r = S.o(W_.F); S.sz(a, d); JF z{elem(2, J(th)), JV()}, x{elem(0, J(al)), JV()}; z.p.d[0] = v3(0, 0, d); x.p.d[0] = v3(a, 0, 0); if (S.d->chance(0.5)) { r = Frame::DH(a, al, d, th); S.chk(r, z * x); } else { r = Frame::DH_Craig1989(a, al, d, th); S.chk(r, x * z); } }},
#define SIX(Q_) BIN(#Q_ "+", Q_, Q_, Q_, a + b, J(a) + J(b)), BIN(#Q_ "-", Q_, Q_, Q_, a - b, J(a) - J(b)), UN("-" #Q_, Q_, Q_, -a, -J(a)), INP(#Q_ "+=", Q_, Q_, r += a, J(r) + J(a)), INP(#Q_ "-=", Q_, Q_, r -= a, J(r) - J(a)), INP1(#Q_ ".ReverseSign", Q_, r.ReverseSign(), -J(r)), SCA(#Q_ "*double", Q_, r = r * k, J(k) * J(r)), SCA("double*" #Q_, Q_, r = k * r, J(k) * J(r)), SCA(#Q_ "/double", Q_, r = r / k, rec(J(k)) * J(r)), INP1("SetToZero(" #Q_ ")", Q_, SetToZero(r), JT())
    SIX(T), SIX(W),
    BIN("Twist.RefPoint", T, V, T, a.RefPoint(b), (JT{J(a).v + cross(J(a).w, J(b)), J(a).w})), BIN("Twist.RefPoint(own velocity)", T, T, T, a.RefPoint(b.vel), (JT{J(a).v + cross(J(a).w, J(b).v), J(a).w})), BIN("Wrench.RefPoint", W, V, W, a.RefPoint(b), (JT{J(a).v, J(a).w + cross(J(a).v, J(b))})), BIN("Twist x Twist", T, T, T, a * b, (JT{cross(J(a).w, J(b).v) + cross(J(a).v, J(b).w), cross(J(a).w, J(b).w)})), BIN("Twist x Wrench", T, W, W, a * b, (JT{cross(J(a).w, J(b).v), cross(J(a).w, J(b).w) + cross(J(a).v, J(b).v)})), BIN("dot(Twist,Wrench)", T, W, s, dot(a, b), dot(J(a).v, J(b).v) + dot(J(a).w, J(b).w)), BIN("dot(Wrench,Twist)", W, T, s, dot(a, b), dot(J(a).v, J(b).v) + dot(J(a).w, J(b).w)),
    {"elements by index", [](Sim& S) { auto& t = S.o(W_.T); auto k = S.twi(); for (int i = 0; i < 6; ++i) { if (S.d->chance(0.5)) t(i) = i < 3 ? k.vel.data[i] : k.rot.data[i - 3]; else t[i] = i < 3 ? k.vel.data[i] : k.rot.data[i - 3]; } S.chk(t, J(k)); const Twist& q = t; for (int i = 0; i < 6; ++i) { S.eq(q(i), i < 3 ? k.vel.data[i] : k.rot.data[i - 3], 0, "an element"); S.eq(q[i], q(i), 0, "an element"); } }}, {"elements by index (wrench)", [](Sim& S) { auto& t = S.o(W_.W); auto k = S.twi(); for (int i = 0; i < 6; ++i) t(i) = i < 3 ? k.vel.data[i] : k.rot.data[i - 3]; S.chk(t.force, J(k.vel)); S.chk(t.torque, J(k.rot)); const Wrench& q = t; for (int i = 0; i < 6; ++i) S.eq(q(i), i < 3 ? k.vel.data[i] : k.rot.data[i - 3], 0, "an element"); }},
    // planar
    BIN("Vector2+", v2, v2, v2, a + b, J(a) + J(b)), BIN("Vector2-", v2, v2, v2, a - b, J(a) - J(b)), UN("-Vector2", v2, v2, -a, -J(a)), INP("Vector2+=", v2, v2, r += a, J(r) + J(a)), INP("Vector2-=", v2, v2, r -= a, J(r) - J(a)), INP1("Vector2.ReverseSign", v2, r.ReverseSign(), -J(r)), SCA("Vector2*double", v2, r = r * k, J(k) * J(r)), SCA("double*Vector2", v2, r = k * r, J(k) * J(r)), SCA("Vector2/double", v2, r = r / k, rec(J(k)) * J(r)),
    {"Vector2.Norm", [](Sim& S) { auto& a = S.p(W_.v2); S.sz(a); ld n = ref::norm(J(a).d[0]); double m = a.Norm(); if (n < 2e-6L) { if (m != 0) S.eq(m, n, 1e-9L, "a tiny norm"); } else S.eq(m, n, 1e-12L, "the norm"); Vector2 u = a; if (n > 1e-3L) { double q = u.Normalize(); S.eq(q, n, 1e-12L, "the norm"); S.chk(u, rec(J((double)n)) * J(a)); } }},
    BIN("Rotation2*Rotation2", r2, r2, r2, a * b, J(a) * J(b)), UN("Rotation2.Inverse", r2, r2, a.Inverse(), tr(J(a))), INP1("Rotation2.SetInverse", r2, r.SetInverse(), tr(J(r))), BIN("Rotation2*Vector2", r2, v2, v2, a * b, J(a) * J(b)), BIN("Rotation2.Inverse(Vector2)", r2, v2, v2, a.Inverse(b), tr(J(a)) * J(b)), {"Rotation2.SetRot", [](Sim& S) { double k = S.ang(); auto& r = S.o(W_.r2); if (S.d->chance(0.5)) r.SetRot(k); else r = Rotation2::Rot(k); S.chk(r, elem(2, J(k))); }}, INP1("Rotation2.SetIdentity", r2, r.SetIdentity(), elem(2, J(0.0))),
    BIN("Frame2*Frame2", f2, f2, f2, a * b, J(a) * J(b)), UN("Frame2.Inverse", f2, f2, a.Inverse(), inv(J(a))), INP1("Frame2.SetInverse", f2, r.SetInverse(), inv(J(r))), BIN("Frame2*Vector2", f2, v2, v2, a * b, J(a) * J(b)), BIN("Frame2.Inverse(Vector2)", f2, v2, v2, a.Inverse(b), inv(J(a)) * J(b)), {"Frame2 elements", [](Sim& S) { auto& a = S.p(W_.f2); const Frame2& k = a; JF e = J(a); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld q = i == 2 ? (j == 2) : j == 2 ? e.p.d[0][i] : e.M.d[0].m[i][j]; S.eq(a(i, j), q, 1e-12L, "an element"); S.eq(k(i, j), q, 1e-12L, "an element"); } }},
    // values that carry derivatives
#define CARRY(Q_) \
    BIN("double#" #Q_ "+", s##Q_, s##Q_, s##Q_, a + b, J(a) + J(b)), BIN("double#" #Q_ "-", s##Q_, s##Q_, s##Q_, a - b, J(a) - J(b)), BIN("double#" #Q_ "*", s##Q_, s##Q_, s##Q_, a * b, J(a) * J(b)), UN("-double#" #Q_, s##Q_, s##Q_, -a, -J(a)), INP("double#" #Q_ "+=", s##Q_, s##Q_, r += a, J(r) + J(a)), INP("double#" #Q_ "-=", s##Q_, s##Q_, r -= a, J(r) - J(a)), INP("double#" #Q_ "*=", s##Q_, s##Q_, r *= a, J(r) * J(a)), \
    {"double#" #Q_ "/", [](Sim& S) { auto& a = S.p(W_.s##Q_); auto& b = S.p(W_.s##Q_); b.t = S.nz(); auto& r = S.o(W_.s##Q_); S.sz(a, b); S.sz(b); JS e = J(a) * rec(J(b)); for (ld k : rec(J(b)).d) S.seen(k * S.size); if (S.d->chance(0.5) || &r != &a) r = a / b; else r /= b; S.chk(r, e); if (S.big(r)) S.fresh(r); }}, \
    SCA("double#" #Q_ " op double", s##Q_, (k > 1.5 ? r = r * k : k > 1 ? r *= k : k > 0.5 ? r = k * r : k < -2 ? r = r / k : k < -1 ? r /= k : r = k * r), (k < -1 ? rec(J(k)) * J(r) : J(k) * J(r))), SCA("double#" #Q_ " plus double", s##Q_, (k > 1.5 ? r = r + k : k > 1 ? r += k : k > 0 ? r = k + r : k < -2 ? r = r - k : k < -1 ? r -= k : r = k - r), (k > 0 ? J(r) + J(k) : k < -1 ? J(r) - J(k) : J(k) - J(r))), {"double / double#" #Q_, [](Sim& S) { auto& b = S.p(W_.s##Q_); b.t = S.nz(); double k = S.nz(); auto& r = S.o(W_.s##Q_); S.sz(b, k); JS e = J(k) * rec(J(b)); for (ld q : e.d) S.seen(q); r = k / b; S.chk(r, e); if (S.big(r)) S.fresh(r); }}, \
    BIN("Vector#" #Q_ "+", V##Q_, V##Q_, V##Q_, a + b, J(a) + J(b)), BIN("Vector#" #Q_ "-", V##Q_, V##Q_, V##Q_, a - b, J(a) - J(b)), BIN("Vector#" #Q_ "+Vector", V##Q_, V, V##Q_, a + b, J(a) + J(b)), BIN("Vector+Vector#" #Q_, V, V##Q_, V##Q_, a + b, J(a) + J(b)), BIN("Vector#" #Q_ "-Vector", V##Q_, V, V##Q_, a - b, J(a) - J(b)), BIN("Vector-Vector#" #Q_, V, V##Q_, V##Q_, a - b, J(a) - J(b)), BIN("Vector#" #Q_ " x", V##Q_, V##Q_, V##Q_, a * b, cross(J(a), J(b))), BIN("Vector#" #Q_ " x Vector", V##Q_, V, V##Q_, a * b, cross(J(a), J(b))), BIN("Vector x Vector#" #Q_, V, V##Q_, V##Q_, a * b, cross(J(a), J(b))), UN("-Vector#" #Q_, V##Q_, V##Q_, -a, -J(a)), INP("Vector#" #Q_ "+=", V##Q_, V##Q_, r += a, J(r) + J(a)), INP("Vector#" #Q_ "-=", V##Q_, V##Q_, r -= a, J(r) - J(a)), INP1("Vector#" #Q_ ".ReverseSign", V##Q_, r.ReverseSign(), -J(r)), INP("Vector#" #Q_ "=Vector", V, V##Q_, r = a, J(a)), \
    BIN("double#" #Q_ "*Vector#" #Q_, s##Q_, V##Q_, V##Q_, a * b, J(a) * J(b)), BIN("Vector#" #Q_ "*double#" #Q_, V##Q_, s##Q_, V##Q_, a * b, J(b) * J(a)), SCA("Vector#" #Q_ "*double", V##Q_, (k > 0 ? r = r * k : r = k * r), J(k) * J(r)), SCA("Vector#" #Q_ "/double", V##Q_, r = r / k, rec(J(k)) * J(r)), {"Vector#" #Q_ "/double#" #Q_, [](Sim& S) { auto& a = S.p(W_.V##Q_); auto& b = S.p(W_.s##Q_); b.t = S.nz(); auto& r = S.o(W_.V##Q_); S.sz(a, b); S.sz(b); for (ld q : rec(J(b)).d) S.seen(q * S.size); JV e = rec(J(b)) * J(a); r = a / b; S.chk(r, e); if (S.big(r)) S.fresh(r); }}, \
    BIN("dot#" #Q_, V##Q_, V##Q_, s##Q_, dot(a, b), dot(J(a), J(b))), BIN("dot#" #Q_ "(,Vector)", V##Q_, V, s##Q_, dot(a, b), dot(J(a), J(b))), BIN("dot#" #Q_ "(Vector,)", V, V##Q_, s##Q_, dot(a, b), dot(J(a), J(b))), {"Vector#" #Q_ ".Norm", [](Sim& S) { auto& a = S.p(W_.V##Q_); JV j = J(a); ld n = ref::norm(j.d[0]); if (n < 0.01L) return; auto& r = S.o(W_.s##Q_); S.sz(a); S.sz(a); JS e = root(dot(j, j)); S.seen(S.size / n); S.seen(S.size / n); r = a.Norm(); S.chk(r, e); if (S.big(r)) S.fresh(r); }}, \
    BIN("Rotation#" #Q_ "*", R##Q_, R##Q_, R##Q_, a * b, J(a) * J(b)), BIN("Rotation*Rotation#" #Q_, R, R##Q_, R##Q_, a * b, J(a) * J(b)), BIN("Rotation#" #Q_ "*Rotation", R##Q_, R, R##Q_, a * b, J(a) * J(b)), UN("Rotation#" #Q_ ".Inverse", R##Q_, R##Q_, a.Inverse(), tr(J(a))), BIN("Rotation#" #Q_ "*Vector#" #Q_, R##Q_, V##Q_, V##Q_, a * b, J(a) * J(b)), BIN("Rotation#" #Q_ "*Vector", R##Q_, V, V##Q_, a * b, J(a) * J(b)), BIN("Rotation*Vector#" #Q_, R, V##Q_, V##Q_, a * b, J(a) * J(b)), BIN("Rotation#" #Q_ ".Inverse(Vector#)", R##Q_, V##Q_, V##Q_, a.Inverse(b), tr(J(a)) * J(b)), BIN("Rotation#" #Q_ ".Inverse(Vector)", R##Q_, V, V##Q_, a.Inverse(b), tr(J(a)) * J(b)), BIN("Rotation#" #Q_ "*Twist#" #Q_, R##Q_, T##Q_, T##Q_, a * b, J(a) * J(b)), BIN("Rotation#" #Q_ "*Twist", R##Q_, T, T##Q_, a * b, J(a) * J(b)), BIN("Rotation#" #Q_ ".Inverse(Twist#)", R##Q_, T##Q_, T##Q_, a.Inverse(b), tr(J(a)) * J(b)), BIN("Rotation#" #Q_ ".Inverse(Twist)", R##Q_, T, T##Q_, a.Inverse(b), tr(J(a)) * J(b)), INP("Rotation#" #Q_ "=Rotation", R, R##Q_, r = a, J(a)), \
    BIN("Frame#" #Q_ "*", F##Q_, F##Q_, F##Q_, a * b, J(a) * J(b)), BIN("Frame*Frame#" #Q_, F, F##Q_, F##Q_, a * b, J(a) * J(b)), BIN("Frame#" #Q_ "*Frame", F##Q_, F, F##Q_, a * b, J(a) * J(b)), UN("Frame#" #Q_ ".Inverse", F##Q_, F##Q_, a.Inverse(), inv(J(a))), BIN("Frame#" #Q_ "*Vector#" #Q_, F##Q_, V##Q_, V##Q_, a * b, J(a) * J(b)), BIN("Frame#" #Q_ "*Vector", F##Q_, V, V##Q_, a * b, J(a) * J(b)), BIN("Frame#" #Q_ ".Inverse(Vector#)", F##Q_, V##Q_, V##Q_, a.Inverse(b), inv(J(a)) * J(b)), BIN("Frame#" #Q_ ".Inverse(Vector)", F##Q_, V, V##Q_, a.Inverse(b), inv(J(a)) * J(b)), BIN("Frame#" #Q_ "*Twist#" #Q_, F##Q_, T##Q_, T##Q_, a * b, tw(J(a), J(b))), BIN("Frame#" #Q_ "*Twist", F##Q_, T, T##Q_, a * b, tw(J(a), J(b))), BIN("Frame#" #Q_ ".Inverse(Twist#)", F##Q_, T##Q_, T##Q_, a.Inverse(b), tw(inv(J(a)), J(b))), BIN("Frame#" #Q_ ".Inverse(Twist)", F##Q_, T, T##Q_, a.Inverse(b), tw(inv(J(a)), J(b))), INP("Frame#" #Q_ "=Frame", F, F##Q_, r = a, J(a)), \
    {"Frame#" #Q_ " parts", [](Sim& S) { auto& a = S.p(W_.F##Q_); S.chk(a.GetFrame(), JF{J(a.M.R), J(a.p.p)}); Twist t = a.GetTwist(); S.chk(t.vel, J(a.p.v)); S.chk(t.rot, J(a.M.w)); auto& b = S.p(W_.T##Q_); Twist u = b.GetTwist(), w = b.GetTwistDot(); S.chk(u, JT{J(b.vel.p), J(b.rot.p)}); S.chk(w, JT{J(b.vel.v), J(b.rot.v)}); }}, \
    BIN("Twist#" #Q_ "+", T##Q_, T##Q_, T##Q_, a + b, J(a) + J(b)), BIN("Twist#" #Q_ "-", T##Q_, T##Q_, T##Q_, a - b, J(a) - J(b)), UN("-Twist#" #Q_, T##Q_, T##Q_, -a, -J(a)), INP("Twist#" #Q_ "+=", T##Q_, T##Q_, r += a, J(r) + J(a)), INP("Twist#" #Q_ "-=", T##Q_, T##Q_, r -= a, J(r) - J(a)), INP1("Twist#" #Q_ ".ReverseSign", T##Q_, r.ReverseSign(), -J(r)), BIN("double#" #Q_ "*Twist#" #Q_, s##Q_, T##Q_, T##Q_, a * b, J(a) * J(b)), BIN("Twist#" #Q_ "*double#" #Q_, T##Q_, s##Q_, T##Q_, a * b, J(b) * J(a)), SCA("Twist#" #Q_ "*double", T##Q_, (k > 0 ? r = r * k : r = k * r), J(k) * J(r)), SCA("Twist#" #Q_ "/double", T##Q_, r = r / k, rec(J(k)) * J(r)), {"Twist#" #Q_ "/double#" #Q_, [](Sim& S) { auto& a = S.p(W_.T##Q_); auto& b = S.p(W_.s##Q_); b.t = S.nz(); auto& r = S.o(W_.T##Q_); S.sz(a, b); S.sz(b); for (ld q : rec(J(b)).d) S.seen(q * S.size); JT e = rec(J(b)) * J(a); r = a / b; S.chk(r, e); if (S.big(r)) S.fresh(r); }}, BIN("Twist#" #Q_ ".RefPoint", T##Q_, V##Q_, T##Q_, a.RefPoint(b), (JT{J(a).v + cross(J(a).w, J(b)), J(a).w})), INP1("SetToZero(Twist#" #Q_ ")", T##Q_, SetToZero(r), JT()),
    BOTH(CARRY)
    {"Rotation#1.DoRot", [](Sim& S) { doubleVel k(S.ang(), S.num()); int a = (int)S.d->range(0, 2); auto& r = S.o(W_.R1); S.sz(r, k); JM e = J(r) * elem(a, J(k)); if (a == 0) r.DoRotX(k); else if (a == 1) r.DoRotY(k); else r.DoRotZ(k); S.chk(r, e); if (S.big(r)) S.fresh(r); }}, {"Rotation#1::Rot", [](Sim& S) { doubleVel k(S.ang(), S.num()); int a = (int)S.d->range(0, 4); auto& r = S.o(W_.R1); S.sz(k); if (a == 0) { r = RotationVel::RotX(k); S.chk(r, elem(0, J(k))); } else if (a == 1) { r = RotationVel::RotY(k); S.chk(r, elem(1, J(k))); } else if (a == 2) { r = RotationVel::RotZ(k); S.chk(r, elem(2, J(k))); } else { Vector v = S.vec(); V3 u = c(v); ld n = ref::norm(u); if (n < 1e-3L) return; if (a == 3) { r = RotationVel::Rot(v, k); S.chk(r, about((1 / n) * u, J(k))); } else { unit(S, v); r = RotationVel::Rot2(v, k); S.chk(r, about(c(v), J(k))); } } }}, {"Rotation#1 columns", [](Sim& S) { auto& a = S.p(W_.R1); S.sz(a); S.chk(a.UnitX(), J(a) * ax(0)); S.chk(a.UnitY(), J(a) * ax(1)); S.chk(a.UnitZ(), J(a) * ax(2)); }},
    FUN("exp", exp(a), -2, 2, std::exp(t), std::exp(t), std::exp(t)), FUN("log", log(a), 0.1, 5, std::log(t), 1 / t, -1 / (t * t)), FUN("sin", sin(a), -7, 7, std::sin(t), std::cos(t), -std::sin(t)), FUN("cos", cos(a), -7, 7, std::cos(t), -std::sin(t), -std::cos(t)), FUN("tan", tan(a), -1.3, 1.3, std::tan(t), 1 + std::tan(t) * std::tan(t), 2 * std::tan(t) * (1 + std::tan(t) * std::tan(t))), FUN("sinh", sinh(a), -2, 2, std::sinh(t), std::cosh(t), std::sinh(t)), FUN("cosh", cosh(a), -2, 2, std::cosh(t), std::sinh(t), std::cosh(t)), FUN("tanh", tanh(a), -2, 2, std::tanh(t), 1 - std::tanh(t) * std::tanh(t), -2 * std::tanh(t) * (1 - std::tanh(t) * std::tanh(t))), FUN("sqr", sqr(a), -3, 3, t * t, 2 * t, 2), FUN("sqrt", sqrt(a), 0.1, 9, std::sqrt(t), 0.5L / std::sqrt(t), -0.25L / (t * std::sqrt(t))), FUN("atan", atan(a), -5, 5, std::atan(t), 1 / (1 + t * t), -2 * t / ((1 + t * t) * (1 + t * t))), FUN("asin", asin(a), -0.95, 0.95, std::asin(t), 1 / std::sqrt(1 - t * t), t / ((1 - t * t) * std::sqrt(1 - t * t))), FUN("acos", acos(a), -0.95, 0.95, std::acos(t), -1 / std::sqrt(1 - t * t), -t / ((1 - t * t) * std::sqrt(1 - t * t))), FUN("pow", pow(a, 2.5), 0.1, 4, std::pow(t, 2.5L), 2.5L * std::pow(t, 1.5L), 3.75L * std::pow(t, 0.5L)), FUN("pow of a negative base", pow(a, 3), -3, -0.1, t * t * t, 3 * t * t, 6 * t),
#define TWOARG(Q_) {"LinComb#" #Q_, [](Sim& S) { auto& a = S.p(W_.s##Q_); auto& b = S.p(W_.s##Q_); double k = S.num(), l = S.num(); auto& r = S.o(W_.s##Q_); S.sz(a, b); S.sz(k, l); JS e = J(k) * J(a) + J(l) * J(b); if (S.d->chance(0.5)) r = LinComb(k, a, l, b); else LinCombR(k, a, l, b, r); S.chk(r, e); if (S.big(r)) S.fresh(r); }}, {"hypot#" #Q_, [](Sim& S) { auto& a = S.p(W_.s##Q_); auto& b = S.p(W_.s##Q_); if (std::hypot(a.t, b.t) < 0.1) a.t = 1; auto& r = S.o(W_.s##Q_); S.sz(a, b); S.sz(a, b); JS e = root(J(a) * J(a) + J(b) * J(b)); for (ld q : e.d) S.seen(q); r = hypot(a, b); S.tol = 1e-8L; S.chk(r, e); if (S.big(r)) S.fresh(r); }}, {"atan2#" #Q_, [](Sim& S) { auto& a = S.p(W_.s##Q_); auto& b = S.p(W_.s##Q_); if (std::hypot(a.t, b.t) < 0.1) a.t = 1; auto& r = S.o(W_.s##Q_); S.sz(a, b); S.sz(a, b); JS e = at2(J(a), J(b)); for (ld q : e.d) S.seen(q); r = atan2(a, b); S.tol = 1e-8L; S.chk(r, e); if (S.big(r)) S.fresh(r); }},
    BOTH(TWOARG)
    // inertias
    BIN("RigidBodyInertia+", B, B, B, a + b, six(a) + six(b)), SCA("double*RigidBodyInertia", B, r = std::fabs(k) * r, mul(std::fabs(k), six(r))), BIN("RigidBodyInertia*Twist", B, T, W, a * b, six(a) * J(b)), BIN("Frame*RigidBodyInertia", F, B, B, a * b, moved(J(a).M.d[0], J(a).p.d[0], six(b))), BIN("Rotation*RigidBodyInertia", R, B, B, a * b, moved(J(a).d[0], v3(0, 0, 0), six(b))), BIN("RigidBodyInertia.RefPoint", B, V, B, a.RefPoint(b), moved(ref::eye(), ld(-1) * c(b), six(a))),
    {"RigidBodyInertia from mass, centre and inertia", [](Sim& S) { double m = S.d->val(0.1, 5); Vector g = S.vec(); RotationalInertia I(1.2, 0.9, 1.5, 0.1, -0.2, 0.05); auto& r = S.o(W_.B); S.sz(g, g); S.seen(m * S.size); r = RigidBodyInertia(m, g, I); Six k{}; for (int i = 0; i < 3; ++i) { k.m[i][i] = m; for (int j = 0; j < 3; ++j) k.m[i + 3][j + 3] = I.data[3 * i + j]; } S.chk(r, moved(ref::eye(), c(g), k)); S.eq(r.getMass(), m, 1e-12L, "the mass"); S.vec3(r.getCOG(), c(g), "the centre of gravity"); }},
    BIN("ArticulatedBodyInertia+", C, C, C, a + b, six(a) + six(b)), BIN("ArticulatedBodyInertia-", C, C, C, a - b, six(a) + mul(-1, six(b))), BIN("ArticulatedBodyInertia+RigidBodyInertia", C, B, C, a + b, six(a) + six(b)), BIN("RigidBodyInertia+ArticulatedBodyInertia", B, C, C, a + b, six(a) + six(b)), BIN("ArticulatedBodyInertia-RigidBodyInertia", C, B, C, a - b, six(a) + mul(-1, six(b))), BIN("RigidBodyInertia-ArticulatedBodyInertia", B, C, C, a - b, six(a) + mul(-1, six(b))), UN("ArticulatedBodyInertia(RigidBodyInertia)", B, C, ArticulatedBodyInertia(a), six(a)), SCA("double*ArticulatedBodyInertia", C, r = k * r, mul(k, six(r))), BIN("ArticulatedBodyInertia*Twist", C, T, W, a * b, six(a) * J(b)), BIN("Frame*ArticulatedBodyInertia", F, C, C, a * b, moved(J(a).M.d[0], J(a).p.d[0], six(b))), BIN("Rotation*ArticulatedBodyInertia", R, C, C, a * b, moved(J(a).d[0], v3(0, 0, 0), six(b))), BIN("ArticulatedBodyInertia.RefPoint", C, V, C, a.RefPoint(b), moved(ref::eye(), ld(-1) * c(b), six(a))),
    {"ArticulatedBodyInertia from mass, centre and inertia", [](Sim& S) { double m = S.d->val(0.1, 5); Vector g = S.vec(); RotationalInertia I(1.2, 0.9, 1.5, 0.1, -0.2, 0.05); auto& r = S.o(W_.C); S.sz(g, g); S.seen(m * S.size); Six e = six(RigidBodyInertia(m, g, I)); r = ArticulatedBodyInertia(m, g, I); S.chk(r, e); if (S.big(r)) S.fresh(r); }},
    {"FrameAcc from frame and twists", [](Sim& S) { auto& a = S.p(W_.F); auto& t = S.p(W_.T); auto& u = S.p(W_.T); auto& r = S.o(W_.F2); JF f = J(a); Twist t0 = t, u0 = u; r = FrameAcc(a, t, u); Twist t1 = r.GetTwist(), u1 = r.GetAccTwist(); S.chk(r.GetFrame(), f); S.chk(t1, J(t0)); S.chk(u1, J(u0)); S.vec3(r.p.v, c(t0.vel), "the velocity"); S.vec3(r.p.dv, c(u0.vel), "the acceleration"); S.vec3(r.M.w, c(t0.rot), "the rotational velocity"); S.vec3(r.M.dw, c(u0.rot), "the rotational acceleration"); }},
    {"VectorAcc from vector and velocity", [](Sim& S) { auto& a = S.p(W_.V); auto& b = S.p(W_.V); auto& r = S.o(W_.V2); JV e = J(a); e.d[1] = c(b); r = VectorAcc(a, b); S.chk(r, e); }},
    {"identities", [](Sim& S) { S.chk(RotationAcc::Identity(), J(RotationAcc(Rotation::Identity()))); S.chk(FrameAcc::Identity(), J(FrameAcc(Frame::Identity()))); S.chk(Frame2::Identity(), J(Frame2(Rotation2(0), Vector2(0, 0)))); Frame2 f = S.o(W_.f2); f.SetIdentity(); S.chk(f, J(Frame2(Rotation2(0), Vector2(0, 0)))); S.chk(RotationVel::Identity(), J(RotationVel(Rotation::Identity(), Vector::Zero()))); S.chk(FrameVel::Identity(), J(FrameVel(RotationVel(Rotation::Identity(), Vector::Zero()), VectorVel(Vector::Zero(), Vector::Zero())))); S.chk(Rotation2::Identity(), J(Rotation2(0)));
        JV z; JT zt; JM one = elem(0, JS()); JF of{one, JV()}; S.chk(Vector::Zero(), z); S.chk(VectorVel::Zero(), z); S.chk(VectorAcc::Zero(), z); S.chk(Vector2::Zero(), z); S.chk(Twist::Zero(), zt); S.chk(TwistVel::Zero(), zt); S.chk(TwistAcc::Zero(), zt); S.chk(Wrench::Zero(), zt); S.chk(Rotation::Identity(), one); S.chk(Frame::Identity(), of);
        RotationalInertia I0 = RotationalInertia::Zero(); for (double q : I0.data) S.eq(q, 0, 0, "RotationalInertia::Zero"); S.chk(RigidBodyInertia::Zero(), Six{}); S.chk(ArticulatedBodyInertia::Zero(), Six{});
        alignas(16) unsigned char raw[sizeof(Stiffness)]; memset(raw, 0x5a, sizeof raw); Stiffness* k = new (raw) Stiffness(); for (int i = 0; i < 6; ++i) S.eq((*k)[i], 0, 0, "a new Stiffness"); }},
    {"Vector2 elements", [](Sim& S) { auto& a = S.p(W_.v2); auto& r = S.o(W_.v2); double u = a.x(), v = a.y(); S.eq(u, a(0), 0, "x"); S.eq(v, a[1], 0, "y"); if (S.d->chance(0.5)) { r.x(v); r.y(u); } else { r[0] = v; r(1) = u; } const Vector2& q = r; S.eq(q[0], v, 0, "x"); S.eq(q(1), u, 0, "y"); if (S.d->chance(0.2)) { SetToZero(r); S.chk(r, J(Vector2(0, 0))); S.chk(Vector2::Zero(), J(Vector2(0, 0))); double n = r.Normalize(); S.eq(n, 0, 0, "the norm of nothing"); S.eq(r.Norm(), 1, 1e-12L, "the norm of a direction"); } }},
    {"random", [](Sim& S) { unsigned seed = (unsigned)S.d->range(1, 1 << 30); srand(seed); bool pos = S.d->chance(0.3); auto in = [&](const Vector& v, bool p) { for (double e : v.data) if (!(e < 1 && e > (p ? 0 : -1))) S.x.fail("random-out-of-range", "random number %g", e); if (v.data[0] == v.data[1] && v.data[1] == v.data[2]) S.x.fail("not-random", "three random numbers are %g", v.data[0]); }; auto& v = S.o(W_.V); auto& F = S.o(W_.F); auto& t = S.o(W_.T); auto& w = S.o(W_.W); auto& q = S.o(W_.F1); auto& z = S.o(W_.T1); auto& s = S.o(W_.s1);
        if (pos) { posrandom(v); posrandom(t); posrandom(w); posrandom(F); posrandom(q); posrandom(z); posrandom(s); } else { random(v); random(t); random(w); random(F); random(q); random(z); random(s); } in(v, pos); in(t.vel, pos); in(t.rot, pos); in(w.force, pos); in(w.torque, pos); in(F.p, pos); in(q.p.p, pos); in(q.p.v, pos); in(q.M.w, pos); in(z.vel.v, pos); in(z.rot.p, pos); in(z.rot.v, pos); in(z.vel.p, pos);
        { srand(seed); Vector v2 = S.vec(); Frame F2; S.fresh(F2); Twist t2 = S.twi(); Wrench w2; FrameVel q2; TwistVel z2; doubleVel s2; if (pos) { posrandom(v2); posrandom(t2); posrandom(w2); posrandom(F2); posrandom(q2); posrandom(z2); posrandom(s2); } else { random(v2); random(t2); random(w2); random(F2); random(q2); random(z2); random(s2); } if (!Equal(v2, v, 1e-15) || !Equal(F2, F, 1e-15) || !Equal(t2, t, 1e-15) || !Equal(w2, w, 1e-15) || !Equal(q2, q, 1e-15) || !Equal(z2, z, 1e-15) || !Equal(s2, s, 1e-15)) S.x.fail("not-repeatable", "the same seed of the generator gives another value"); }
        for (const Rotation* R : {&F.M, &q.M.R}) { M3 e = c(*R) * ref::tr(c(*R)); for (int i = 0; i < 9; ++i) S.eq((double)e.m[i / 3][i % 3], i % 4 == 0, 1e-12L, "a random rotation times its transpose"); } if (S.d->chance(0.5)) { S.fresh(F); S.fresh(q); } }},
    {"scalars", [](Sim& S) { double a = S.num(), b = S.num(), dt = S.nz(); S.eq(addDelta(a, diff(a, b, dt), dt), b, 1e-12L, "the sum"); S.eq(Norm(a), std::fabs((ld)a), 0, "the norm"); double lo = std::min(a, b), hi = std::max(a, b); S.eq(KDL::max(a, b), hi, 0, "the larger one"); S.eq(KDL::min(a, b), lo, 0, "the smaller one"); S.eq(KDL::sqr(a), (ld)a * a, 1e-12L, "the square"); if (a != 0) S.eq(KDL::sign(a), a < 0 ? -1 : 1, 0, "the sign"); S.eq(KDL::PI, M_PI, 1e-15L, "pi"); S.eq(KDL::deg2rad * 180, M_PI, 1e-13L, "a half turn"); S.eq(KDL::rad2deg * M_PI, 180, 1e-13L, "a half turn"); SetToIdentity(a); S.eq(a, 1, 0, "one"); double k[6]; for (double& e : k) e = S.num(); Stiffness q(k); for (int i = 0; i < 6; ++i) S.eq(q[i], k[i], 0, "a stiffness"); }},
    {"Stiffness", [](Sim& S) { auto& k = S.p(W_.K); auto& t = S.p(W_.T); auto& r = S.o(W_.W); S.sz(t, 3.0); Twist u = t; r = k * t; for (int i = 0; i < 6; ++i) S.eq(r(i), (ld)k[i] * u(i), 1e-12L, "the wrench"); Twist b = k.Inverse(r); for (int i = 0; i < 6; ++i) S.eq(b(i), u(i), 1e-12L, "the twist back"); Stiffness q = k + k; for (int i = 0; i < 6; ++i) S.eq(q[i], 2 * (ld)k[i], 1e-12L, "the sum"); if (S.big(r)) S.fresh(r); }},
};
// motion from step to step under the simulated clock
double step_of(Sim& S) { double dt; switch (S.d->weighted({5, 1, 1, 1, 1})) { case 1: dt = 0; S.x.fault("clock-stalls"); break; case 2: dt = -S.d->val(0.001, 0.2); S.x.fault("clock-runs-back"); break; case 3: dt = S.d->val(1e-9, 1e-6); S.x.fault("tiny-step"); break; case 4: dt = S.d->val(0.5, 2); S.x.fault("long-step"); break; default: dt = S.d->val(0.001, 0.1); } S.x.time(std::fabs(dt)); S.x.nontrivial = true; return dt; }
void integrate(Sim& S) {
    Draw& d = *S.d; int kind = (int)d.range(0, 2), n = (int)d.range(1, 25); Frame& F = S.o(W_.F); Twist t = S.twi(); if (d.chance(0.3)) { double k = std::pow(10.0, d.val(-5, -2)); t = Twist(t.vel, t.rot * k); } if (d.chance(0.1)) t.rot = Vector::Zero(); ld w = ref::norm(c(t.rot)); V3 u = w > 0 ? (1 / w) * c(t.rot) : v3(1, 0, 0); S.sz(F, t); S.tol = 1e-9L;
    if (kind == 0) { // twist of the base, any pattern of steps: only the time that passed counts
        S.name = "addDelta in steps"; JF e = J(F); ld T = 0; for (int i = 0; i < n; ++i) { double dt = step_of(S); F = addDelta(F, t, dt); T += dt; } e.M = about(u, J((double)(w * T))) * e.M; e.p.d[0] = e.p.d[0] + T * c(t.vel); S.seen(T * S.size); S.tol = 1e-8L; S.chk(F, e); S.x.probe("steps-in-base"); }
    else if (kind == 1) { // twist of the frame itself
        S.name = "Integrate in steps"; JF e = J(F); for (int i = 0; i < n; ++i) { double f = S.d->chance(0.2) ? S.d->val(1e3, 1e6) : S.d->val(5, 1000); S.x.time(1 / f); S.x.fault("jittered-rate"); S.x.nontrivial = true; F.Integrate(t, f); JF s; s.M = about(u, J((double)(w / f))); s.p.d[0] = (ld)(1 / f) * c(t.vel); e = e * s; } S.tol = 1e-8L; S.chk(F, e); S.x.probe("steps-in-frame"); }
    else { // the difference of two poses carries the first to the second
        double dt = d.chance(0.5) ? d.val(0.001, 2) : -d.val(0.001, 2); bool np = false; S.x.probe("difference"); const bool one = d.chance(0.25); if (one) dt = 1;   // the time that is left out is one
#define DIFF(A_, B_) (one && S.d->chance(0.5) ? diff(A_, B_) : diff(A_, B_, dt))
#define ADDD(A_, B_) (one && S.d->chance(0.5) ? addDelta(A_, B_) : addDelta(A_, B_, dt))
        { auto& a = S.p(W_.F); auto& b = S.p(W_.F); S.name = "diff(Frame,Frame)"; S.sz(a, b); Twist q = DIFF(a, b); V3 r = rotvec(ref::tr(c(a.M)) * c(b.M), np); S.tol = np ? 1e-4L : 1e-5L; S.seen(S.size / dt); if (!np) S.vec3(q.rot, (1 / (ld)dt) * (c(a.M) * r), "the rotation"); S.vec3(q.vel, (1 / (ld)dt) * (c(b.p) - c(a.p)), "the translation"); S.size = 0; S.sz(a, b); Frame k = ADDD(a, q); S.chk(k, J(b)); }
        { auto& a = S.p(W_.V); auto& b = S.p(W_.V); S.name = "addDelta(Vector, diff(Vector,Vector))"; S.sz(a, b); S.chk(ADDD(a, DIFF(a, b)), J(b)); } if (!np) { auto& a = S.p(W_.R); auto& b = S.p(W_.R); S.name = "addDelta(Rotation, diff(Rotation,Rotation))"; S.sz(a, b); bool q = false; rotvec(ref::tr(c(a)) * c(b), q); S.tol = q ? 1e-4L : 1e-5L; S.chk(ADDD(a, DIFF(a, b)), J(b)); }
        { auto& a = S.p(W_.F1); auto& b = S.p(W_.F1); S.name = "addDelta(FrameVel, diff(FrameVel,FrameVel))"; S.sz(a, b); S.tol = 1e-4L; TwistVel q = DIFF(a, b); FrameVel k = ADDD(a, q); S.chk(k, J(b)); }
        { auto& a = S.p(W_.T); auto& b = S.p(W_.T); S.name = "addDelta(Twist, diff(Twist,Twist))"; S.tol = 1e-9L; S.sz(a, b); S.chk(ADDD(a, DIFF(a, b)), J(b)); } { auto& a = S.p(W_.W); auto& b = S.p(W_.W); S.name = "addDelta(Wrench, diff(Wrench,Wrench))"; S.sz(a, b); S.chk(ADDD(a, DIFF(a, b)), J(b)); } { auto& a = S.p(W_.V1); auto& b = S.p(W_.V1); S.name = "addDelta(VectorVel, diff(VectorVel,VectorVel))"; S.sz(a, b); S.chk(ADDD(a, DIFF(a, b)), J(b)); } { auto& a = S.p(W_.s1); auto& b = S.p(W_.s1); S.name = "addDelta(doubleVel, diff(doubleVel,doubleVel))"; S.sz(a, b); S.chk(ADDD(a, DIFF(a, b)), J(b)); }
        { auto& a = S.p(W_.R1); auto& b = S.p(W_.R1); S.name = "addDelta(RotationVel, diff(RotationVel,RotationVel))"; S.sz(a, b); S.tol = 1e-4L; S.chk(ADDD(a, DIFF(a, b)), J(b)); }
    }
    if (S.big(F)) S.fresh(F); Rotation& M = F.M; ld e = 0; M3 q = c(M) * ref::tr(c(M)); for (int i = 0; i < 9; ++i) e = std::max(e, std::fabs(q.m[i / 3][i % 3] - (i % 4 == 0))); if (!(e < 1e-11L)) S.x.fail("not-a-rotation", "after %s the rotation is off by %Lg", S.name, e);
}
// equality within eps: all numbers are
// the equality operators: exactly one of them holds, and equal copies are equal and hash alike
template <class A, class B> auto ops_agree(Sim& S, const A& a, const B& b, bool copy, const char* what, int) -> decltype(a == b, a != b, b == a, b != a, void()) { bool e = a == b, n = a != b; S.x.i(e); if (e == n) S.x.fail("wrong-equality", "%s: two values are %s", what, e ? "both equal and unequal" : "neither equal nor unequal"); if (copy && !e) S.x.fail("wrong-equality", "%s: a copy is unequal", what); if (n != (b != a)) S.x.fail("wrong-equality", "%s: unequal one way only", what); if (e != (b == a)) S.x.fail("wrong-equality", "%s: equal one way only", what); if (e && !Equal(a, b, 1e-6)) S.x.fail("wrong-equality", "%s: equal but not within 1e-6", what); if (!e && Equal(a, b, 1e-13)) S.x.fail("wrong-equality", "%s: unequal although every number is within 1e-13", what); S.x.probe("operators-compared"); }
template <class A, class B> void ops_agree(Sim&, const A&, const B&, bool, const char*, long) {}
template <class A> auto hash_alike(Sim& S, const A& a, const A& b, const char* what, int) -> decltype(std::hash<A>()(a), void()) { if (std::hash<A>()(a) != std::hash<A>()(b)) S.x.fail("wrong-hash", "%s: a copy has another hash", what); A k = a; if (std::hash<A>()(k) != std::hash<A>()(a)) S.x.fail("wrong-hash", "%s: a copy has another hash", what); S.x.probe("hash-compared"); }
template <class A> void hash_alike(Sim&, const A&, const A&, const char*, long) {}
template <class A> void same_type(Sim& S, const A& a, const A& b, bool copy, const char* what) { ops_agree(S, a, b, copy, what, 0); if (copy) hash_alike(S, a, b, what, 0); }
template <class A, class B> void same_type(Sim& S, const A& a, const B& b, bool copy, const char* what) { ops_agree(S, a, b, copy, what, 0); }
template <class A, class B> void equal(Sim& S, const A& a, B b, const char* what) {
    double* q = reinterpret_cast<double*>(&b); size_t n = sizeof(B) / 8, k = (size_t)S.d->range(0, (int64_t)n - 1); static const double E[] = {1e-6, 1e-3, 1e-10, 0.5}; double eps = E[S.d->range(0, 3)]; double f = S.d->chance(0.4) ? 0 : S.d->chance(0.5) ? 0.5 : 2; double old = q[k]; if (S.d->chance(0.5)) f = -f; q[k] += f * eps; double got = std::fabs(q[k] - old); if (f != 0 && std::fabs(got / eps - std::fabs(f)) > 0.2) return; bool e = std::fabs(f) < 1; S.x.probe("compared"); S.x.i(e);
    if (Equal(a, b, eps) != e) S.x.fail("wrong-equality", "%s: a difference of %g in one number (%d of %d) and eps %g gives %s", what, got, (int)k, (int)n, eps, e ? "unequal" : "equal");
    if (Equal(b, a, eps) != e) S.x.fail("wrong-equality", "%s: the other way round, a difference of %g in one number (%d of %d) and eps %g gives %s", what, got, (int)k, (int)n, eps, e ? "unequal" : "equal");
    same_type(S, a, b, got == 0, what); }
void compare(Sim& S) {
    Draw& d = *S.d; World& w = S.w; int i = (int)d.range(0, N - 1);
    switch (d.range(0, 19)) { case 0: return equal(S, w.V[i], w.V[i], "Vector"); case 1: return equal(S, w.R[i], w.R[i], "Rotation"); case 2: return equal(S, w.F[i], w.F[i], "Frame"); case 3: return equal(S, w.T[i], w.T[i], "Twist"); case 4: return equal(S, w.W[i], w.W[i], "Wrench"); case 5: return equal(S, w.v2[i], w.v2[i], "Vector2"); case 6: return equal(S, w.r2[i], w.r2[i], "Rotation2"); case 7: return equal(S, w.f2[i], w.f2[i], "Frame2"); case 8: return equal(S, w.V1[i], w.V1[i], "VectorVel"); case 9: return equal(S, w.R1[i], w.R1[i], "RotationVel"); case 10: return equal(S, w.F1[i], w.F1[i], "FrameVel"); case 11: return equal(S, w.T1[i], w.T1[i], "TwistVel"); case 12: return equal(S, w.V2[i], w.V2[i], "VectorAcc"); case 13: return equal(S, w.R2[i], w.R2[i], "RotationAcc"); case 14: return equal(S, w.F2[i], w.F2[i], "FrameAcc"); case 15: return equal(S, w.T2[i], w.T2[i], "TwistAcc"); case 16: return equal(S, w.s1[i], w.s1[i], "doubleVel"); case 17: return equal(S, w.s2[i], w.s2[i], "doubleAcc");
    case 18: switch (d.range(0, 3)) { case 0: return equal(S, w.V[i], VectorVel(w.V[i]), "Vector and VectorVel"); case 1: return equal(S, w.R[i], RotationVel(w.R[i]), "Rotation and RotationVel"); case 2: return equal(S, w.F[i], FrameVel(w.F[i]), "Frame and FrameVel"); default: return equal(S, w.T[i], TwistVel(w.T[i]), "Twist and TwistVel"); }
    default: switch (d.range(0, 3)) { case 3: return equal(S, w.T[i], TwistAcc(VectorAcc(w.T[i].vel), VectorAcc(w.T[i].rot)), "Twist and TwistAcc"); case 0: return equal(S, w.V[i], VectorAcc(w.V[i]), "Vector and VectorAcc"); case 1: return equal(S, w.R[i], RotationAcc(w.R[i]), "Rotation and RotationAcc"); default: return equal(S, w.F[i], FrameAcc(w.F[i]), "Frame and FrameAcc"); } }
}
const int NOPS = sizeof(OPS) / sizeof(OPS[0]);
void execute(const Program& p, Ctx& x) {
    Sim S(x); { Draw d(p.seed ^ 5, x.simple); S.d = &d; S.start(); } int k = 0;
    for (auto& st : p.steps) {
        x.step_no = k++; Draw d = x.draw(st); S.d = &d; S.nused = 0; S.aliased = false; S.size = 0; S.tol = 1e-10L; S.out = nullptr; S.outn = 0; x.ev(st.op.c_str());
        if (st.op == "integrate") { integrate(S); x.op("integrate"); continue; } if (st.op == "compare") { compare(S); x.op("compare"); continue; }
        if (st.op == "fresh") { int i = (int)d.range(0, N - 1); S.fresh(S.w.V[i]); S.fresh(S.w.R[i]); S.fresh(S.w.F[i]); S.fresh(S.w.T[i]); S.fresh(S.w.s1[i]); S.fresh(S.w.s2[i]); S.fresh(S.w.F1[i]); S.fresh(S.w.F2[i]); S.fresh(S.w.R1[i]); S.fresh(S.w.R2[i]); S.fresh(S.w.V1[i]); S.fresh(S.w.V2[i]); S.fresh(S.w.C[i]); S.fresh(S.w.B[i]); x.op("fresh"); continue; }
        const Entry& e = OPS[(size_t)st.a[0] % NOPS]; S.name = e.name; x.s_quiet(e.name); if (x.verbose) x.note(" %s", e.name); for (const char* q = e.name; *q; ++q) { x.sched ^= (unsigned char)*q; x.sched *= 1099511628211ULL; } e.f(S); x.op("value operation");
        if (S.aliased) { x.fault("result-over-operand"); x.nontrivial = true; }
    }
    uint64_t h = 0; for (auto& v : S.w.F) for (double e : v.M.data) { uint64_t b; memcpy(&b, &e, 8); h = mix64(h ^ b); } x.cover(h);
}
void generate(Rng& r, Program& p, bool thorough) { int n = (int)r.range(30, thorough ? 300 : 120); for (int i = 0; i < n; ++i) { int o = r.weighted({20, 1.5, 1.5, 0.5}); if (o == 0) p.add("op", {(int64_t)r.range(0, NOPS - 1)}, r.next()); else p.add(o == 1 ? "integrate" : o == 2 ? "compare" : "fresh", {}, r.next()); } }
Scenario S{"G01", "geometric values under histories of operations", "exploration", generate, execute,
    "A run keeps a world of vectors, rotations, frames, twists, wrenches, planar values, values that carry first and second derivatives, and inertias, and applies operations, in-place operations and conversions to them in seeded order, often storing the result over an operand, with degenerate members (zero, half turns, gimbal lock, no mass), and integrates motion under a simulated clock that jitters, stalls, jumps and runs back. Each result is compared with truncated Taylor series in long double. Non-trivial: a result was stored over an operand or the clock misbehaved; distinct by the sequence of operations and faults.",
    {"frames, framevel, frameacc, rall1d, rall2d, stiffness, rotational, rigid-body and articulated-body inertias"}, {"clock (step pattern)"},
    {"rotations are orthonormal", "values below 50; larger ones start afresh", "near gimbal lock and half turns the conversion is compared to 1e-5", "vectors shorter than the documented eps may count as nothing"},
    120000, 5000000, 45, 500, {"fault:result-over-operand", "fault:clock-stalls", "fault:clock-runs-back", "fault:tiny-step", "fault:long-step", "fault:jittered-rate", "probe:gimbal-lock", "probe:half-turn", "probe:no-direction", "probe:steps-in-base", "probe:steps-in-frame", "probe:difference", "probe:compared", "op:value operation", "op:integrate", "op:compare"}};
