// C30 rigid body dynamics.
#include "vpt.hh"
#include "aspects/dynamics/GunnsDynSingleRigidEom.hh"
#include "aspects/dynamics/GunnsDynSingleRigidMassProps.hh"
#include "aspects/dynamics/GunnsDynEulerBase.hh"
#include "aspects/dynamics/GunnsDynEulerFactory.hh"
#include "aspects/dynamics/GunnsDynUtils.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <memory>
#include <cstdarg>
typedef long double L;
struct V3 { L v[3]; V3(L a = 0, L b = 0, L c = 0) { v[0] = a; v[1] = b; v[2] = c; } V3(const double* p) { for (int i = 0; i < 3; ++i) v[i] = p[i]; } L& operator[](int i) { return v[i]; } L operator[](int i) const { return v[i]; } };
static V3 operator+(const V3& a, const V3& b) { return V3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); } static V3 operator-(const V3& a, const V3& b) { return V3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); } static V3 operator*(L k, const V3& a) { return V3(k * a[0], k * a[1], k * a[2]); }
static V3 X(const V3& a, const V3& b) { return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); } static L norm(const V3& a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
struct M3 { L m[3][3]; M3() { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = i == j; } M3(const double* p) { for (int i = 0; i < 9; ++i) m[i / 3][i % 3] = p[i]; } };
static M3 operator*(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static V3 operator*(const M3& a, const V3& b) { V3 r; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i] += a.m[i][k] * b[k]; return r; }
static M3 T(const M3& a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
static L dist(const M3& a, const M3& b) { L d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { const L e = fabsl(a.m[i][j] - b.m[i][j]); if (!(e <= d)) d = e; } return d; }
// frame rotation by t about one axis
static M3 R(int axis, L t) { M3 r; const int a = (axis + 1) % 3, b = (axis + 2) % 3; r.m[a][a] = r.m[b][b] = cosl(t); r.m[a][b] = sinl(t); r.m[b][a] = -sinl(t); return r; }
static M3 angles(int seq, const double* e) { return R(seq % 10 - 1, e[2]) * (R(seq / 10 % 10 - 1, e[1]) * R(seq / 100 - 1, e[0])); }
// the rotation a quaternion stands for: a turn by t about u is (cos t/2, -u sin t/2)
static M3 quat(const double* p) { L n = sqrtl((L)p[0] * p[0] + (L)p[1] * p[1] + (L)p[2] * p[2] + (L)p[3] * p[3]), q[4]; for (int i = 0; i < 4; ++i) q[i] = p[i] / n; V3 u(-q[1], -q[2], -q[3]); M3 r; L s = q[0], d = 0; for (int i = 0; i < 3; ++i) d += u[i] * u[i]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 2 * u[i] * u[j] + (i == j ? s * s - d : 0); } r.m[0][1] += 2 * s * u[2]; r.m[1][0] -= 2 * s * u[2]; r.m[1][2] += 2 * s * u[0]; r.m[2][1] -= 2 * s * u[0]; r.m[2][0] += 2 * s * u[1]; r.m[0][2] -= 2 * s * u[1]; return r; }
static const int SEQ[] = { 123, 132, 213, 231, 312, 321 };
static double ang(Case& c) { return c.weighted({ 6, 1, 1 }) == 0 ? c.r(-3.14, 3.14) : c.b() ? c.pickOf<double>({ 0., M_PI / 2, -M_PI / 2, M_PI, -3.1415926 }) : c.sr(1e-12, 1e-3); }
static double ang2(Case& c) { const double s = c.b() ? 1 : -1; switch (c.weighted({ 5, 2, 2, 1 })) { case 0: return c.r(-1.57, 1.57); case 1: return s * (M_PI / 2 - c.lr(1e-9, 1e-2)); case 2: return s * (M_PI / 2 - c.lr(1e-7, 1e-5)); default: return s * M_PI / 2; } }
static std::string str(const double* v, int n) { std::ostringstream o; o.precision(17); for (int i = 0; i < n; ++i) o << v[i] << " "; return o.str(); }
FACET(euler, 12000, 400000, "a second angle within 0.01 rad of a right angle, or a sequence other than XYZ") {
    GunnsDynEulerFactory f; const int seq = c.pickOf<int>({ 123, 132, 213, 231, 312, 321 }); GunnsDynEulerBase* e = f.create((GunnsDynEulerFactory::Sequences)seq); double a[3] = { ang(c), ang2(c), ang(c) }, q[4]; const bool stored = c.b(0.3); c.log() << "sequence " << seq << " angles " << str(a, 3) << "\n"; if (stored) { for (int i = 0; i < 3; ++i) e->mAngles[i] = a[i]; e->computeQuat(q); } else e->computeQuat(q, a);
    const M3 want = angles(seq, a); double m[9]; GunnsDynUtils::QtoM(m, q); c.check(dist(M3(m), want) < 1e-14, "angles-to-rotation", S() << "differs by " << (double)dist(M3(m), want)); c.check(dist(quat(q), want) < 1e-14, "angles-to-quaternion", "");
    double* b = 0; try { b = e->update(q); } catch (const TsNumericalException&) { c.fail("thrown", S() << "no angles for the quaternion " << str(q, 4)); } c.check(b == e->mAngles, "where", ""); for (int i = 0; i < 3; ++i) c.check(std::fabs(b[i]) < 3.1415926536 && (i != 1 || std::fabs(b[i]) < 1.5707963268), "range", str(b, 3)); const bool sing = e->getSingularityCondition() != 0; const L d = dist(angles(seq, b), want); c.check(d < (sing ? 3e-6 : 1e-8), "rotation-to-angles", S() << "angles " << str(b, 3) << " rotation differs by " << (double)d << " condition " << e->getSingularityCondition());
    if (std::fabs(a[1]) < 1.56) { c.check(!sing, "not-singular", ""); for (int i = 0; i < 3; ++i) { double w = std::fabs(a[i] - b[i]); c.check(std::min(w, 2 * M_PI - w) < 1e-12 || std::fabs(a[i]) > 3.14159, "same-angles", S() << str(a, 3) << " became " << str(b, 3)); } } if (std::fabs(a[1]) > M_PI / 2 - 5e-7) c.check(sing, "singular", ""); if (std::fabs(a[1]) < M_PI / 2 - 2e-6) c.check(!sing, "not-singular", ""); if (seq != 123 || std::fabs(a[1]) > 1.56) c.nontrivial();
}
static void rq(Case& c, double* q) { do { for (int i = 0; i < 4; ++i) q[i] = c.b(0.15) ? 0. : c.b(0.2) ? c.sr(1e-9, 1) : c.r(-1, 1); if (c.b(0.1)) q[c.i(0, 3)] = 1; } while (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] < 1e-4); }
FACET(quaternions, 12000, 400000, "a rotation about more than one axis") {
    double q[4], p[4], m[9], n[4]; rq(c, q); if (c.b(0.4)) { L s = 0; for (int i = 0; i < 4; ++i) s += (L)q[i] * q[i]; const double k = 1 + c.pickOf<double>({ 0., 1e-16, 1e-8, -1e-8, 1.1e-7, -1.1e-7, 2e-7 }); for (int i = 0; i < 4; ++i) q[i] *= k / sqrtl(s); } for (int i = 0; i < 4; ++i) p[i] = q[i]; GunnsDynUtils::normalizeQ(q); c.log() << "quaternion " << str(q, 4) << "\n"; L s = 0; for (int i = 0; i < 4; ++i) s += (L)q[i] * q[i]; c.check(fabsl(s - 1) < 5e-14, "norm", S() << "norm is off by " << (double)(s - 1)); L k = 0; for (int i = 0; i < 4; ++i) k += (L)q[i] * p[i]; for (int i = 0; i < 4; ++i) c.check(fabsl(q[i] * k - p[i]) < 1e-12 * k && k > 0, "direction", "");
    GunnsDynUtils::QtoM(m, q); c.check(dist(M3(m), quat(q)) < 1e-13, "rotation", S() << "differs by " << (double)dist(M3(m), quat(q))); c.check(dist(M3(m) * T(M3(m)), M3()) < 2e-13, "orthogonal", "");
    const double q2 = q[0] * q[0]; if (q2 > 1e-8) { try { GunnsDynUtils::MtoQ(n, m); } catch (const TsNumericalException&) { c.fail("thrown", "no quaternion"); } const double sg = q[0] < 0 ? -1 : 1; for (int i = 0; i < 4; ++i) c.check(std::fabs(n[i] - sg * q[i]) < 2e-13 / q2, "rotation-to-quaternion", S() << str(n, 4)); c.label("back"); }
    double w[3], dq[4]; for (int i = 0; i < 3; ++i) w[i] = c.b(0.2) ? 0. : c.r(-2, 2); GunnsDynUtils::Qdot(dq, q, w); const double h = 1e-4; double qa[4], qb[4]; for (int i = 0; i < 4; ++i) { qa[i] = q[i] + h * dq[i]; qb[i] = q[i] - h * dq[i]; } const M3 A = quat(qa), B = quat(qb), M = quat(q); L d = 0; for (int i = 0; i < 4; ++i) d += (L)dq[i] * q[i]; c.check(fabsl(d) < 1e-14, "rate-keeps-norm", ""); for (int j = 0; j < 3; ++j) { V3 col(M.m[0][j], M.m[1][j], M.m[2][j]), want = X(col, V3(w)); for (int i = 0; i < 3; ++i) { const L got = (A.m[i][j] - B.m[i][j]) / (2 * h); c.check(fabsl(got - want[i]) < 1e-6, "rate", S() << "d/dt of element " << i << j << " is " << (double)got << " expected " << (double)want[i]); } }
    // whatever the attitude, and whatever rounding did to it, there are angles for it
    GunnsDynEulerFactory f; for (int i = 0; i < 6; ++i) { GunnsDynEulerBase* e = f.create((GunnsDynEulerFactory::Sequences)SEQ[i]); try { e->update(q); } catch (const TsNumericalException&) { c.fail("no-angles", S() << "sequence " << SEQ[i]); } const L z = dist(angles(SEQ[i], e->mAngles), quat(q)); c.check(z < (e->getSingularityCondition() ? 3e-6 : 1e-7), "angles", S() << "sequence " << SEQ[i] << " angles " << str(e->mAngles, 3) << " rotation differs by " << (double)z); } int nz = 0; for (int i = 1; i < 4; ++i) nz += q[i] != 0; if (nz > 1) c.nontrivial();
    bool t = false; try { double u[9] = { -1, 0, 0, 0, -1, 0, 0, 0, 1 }; GunnsDynUtils::MtoQ(n, u); } catch (const TsNumericalException&) { t = true; } c.check(t, "half-turn", ""); t = false; try { f.create(GunnsDynEulerFactory::NONE); } catch (const TsOutOfBoundsException&) { t = true; } c.check(t, "no-sequence", "");
}
FACET(vectors, 8000, 200000, "the result overwrites an operand") {
    const int n = c.i(1, 6); double a[36], b[36], m[36], r[36]; for (int i = 0; i < 36; ++i) { a[i] = c.sr(1e-6, 1e6) * !c.b(0.1); b[i] = c.sr(1e-3, 1e3) * !c.b(0.1); m[i] = c.r(-5, 5); } const bool alias = c.b(); double* o; if (alias) c.nontrivial(); L s, z;
#define NEAR(x, y, scale, tag) c.check(fabsl((L)(x) - (y)) <= 1e-13L * (scale) + 1e-300L, tag, S() << (double)(x) << " expected " << (double)(y))
    s = z = 0; for (int i = 0; i < n; ++i) { s += (L)a[i] * b[i]; z += fabsl((L)a[i] * b[i]); } NEAR(GunnsDynUtils::dotV(a, b, n), s, z, "dot"); s = 0; for (int i = 0; i < n; ++i) s += (L)a[i] * a[i]; NEAR(GunnsDynUtils::magV(a, n), sqrtl(s), sqrtl(s), "magnitude"); bool nz = false; for (int i = 0; i < n; ++i) nz |= a[i] != 0; c.check(GunnsDynUtils::isNonZeroV(a, n) == nz, "non-zero", "");
    double aa[36]; for (int i = 0; i < 36; ++i) aa[i] = a[i]; o = alias ? aa : r; GunnsDynUtils::crossV3(o, aa, b); V3 w = X(V3(a), V3(b)); for (int i = 0; i < 3; ++i) NEAR(o[i], w[i], norm(V3(a)) * norm(V3(b)), "cross"); for (int i = 0; i < 36; ++i) aa[i] = a[i]; GunnsDynUtils::multiplyMV(o, m, aa, n); for (int i = 0; i < n; ++i) { s = z = 0; for (int j = 0; j < n; ++j) { s += (L)m[i * n + j] * a[j]; z += fabsl((L)m[i * n + j] * a[j]); } NEAR(o[i], s, z, "matrix-vector"); } for (int i = 0; i < 36; ++i) aa[i] = a[i]; GunnsDynUtils::multiplyMtV(o, m, aa, n); for (int i = 0; i < n; ++i) { s = z = 0; for (int j = 0; j < n; ++j) { s += (L)m[j * n + i] * a[j]; z += fabsl((L)m[j * n + i] * a[j]); } NEAR(o[i], s, z, "transposed-vector"); }
    double mm[36]; for (int i = 0; i < 36; ++i) mm[i] = m[i]; o = alias ? mm : r; GunnsDynUtils::multiplyMM(o, mm, b, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { s = z = 0; for (int k = 0; k < n; ++k) { s += (L)m[i * n + k] * b[k * n + j]; z += fabsl((L)m[i * n + k] * b[k * n + j]); } NEAR(o[i * n + j], s, z, "matrix-matrix"); }
    double sk[9], v[3]; GunnsDynUtils::skew(sk, a); GunnsDynUtils::multiplyMV(v, sk, b, 3); for (int i = 0; i < 3; ++i) NEAR(v[i], w[i], norm(V3(a)) * norm(V3(b)), "skew"); for (int i = 0; i < 36; ++i) aa[i] = a[i]; s = 0; for (int i = 0; i < n; ++i) s += (L)a[i] * a[i]; if (sqrtl(s) > 1e-12) { c.check(GunnsDynUtils::normalizeVSuccess(aa, n), "normalize", ""); for (int i = 0; i < n; ++i) NEAR(aa[i], a[i] / sqrtl(s), 1, "unit"); } double q0[3] = { 0, 0, 0 }; c.check(!GunnsDynUtils::normalizeVSuccess(q0, 3), "normalize-nothing", ""); bool t = false; try { GunnsDynUtils::normalizeV(q0); } catch (const TsNumericalException&) { t = true; } c.check(t, "normalize-thrown", ""); for (int i = 0; i < 3; ++i) v[i] = b[i] + (i == 0) * 2e3; GunnsDynUtils::normalizeV(v); NEAR(norm(V3(v)), (L)1, 1, "unit-3");
    GunnsDynUtils::addV(r, a, b, n); GunnsDynUtils::subtractV(aa, a, b, n); for (int i = 0; i < n; ++i) c.check(r[i] == a[i] + b[i] && aa[i] == a[i] - b[i], "sums", ""); GunnsDynUtils::scaleV(r, a, 3, n); for (int i = 0; i < n; ++i) c.check(r[i] == 3 * a[i], "scale", ""); const double beyond = r[n % 36]; GunnsDynUtils::setV(r, b, n); for (int i = 0; i < n; ++i) c.check(r[i] == b[i], "set", ""); c.check(n == 36 || r[n] == beyond || r[n] != r[n], "beyond", ""); GunnsDynUtils::setM(r, m, n); for (int i = 0; i < n * n; ++i) c.check(r[i] == m[i], "set-matrix", ""); GunnsDynUtils::zeroV(r, n); for (int i = 0; i < n; ++i) c.check(r[i] == 0, "zero", "");
}
// ---- the body
static void props(Case& c, GunnsDynSingleRigidMassProps& p, bool offset) { const double size = c.lr(0.1, 10); p.mMass = c.lr(0.1, 1e5); const double k = p.mMass * size * size; p.mIxy = c.b(0.3) ? 0. : -k * c.r(0, 0.3); p.mIxz = c.b(0.3) ? 0. : -k * c.r(0, 0.3); p.mIyz = c.b(0.3) ? 0. : -k * c.r(0, 0.3); p.mIxx = k * c.r(0.1, 1) - p.mIxy - p.mIxz; p.mIyy = k * c.r(0.1, 1) - p.mIxy - p.mIyz; p.mIzz = k * c.r(0.1, 1) - p.mIxz - p.mIyz; for (int i = 0; i < 3; ++i) p.mCM[i] = offset && !c.b(0.2) ? size * c.r(-2, 2) : 0.; }
static M3 inertia(const GunnsDynSingleRigidMassProps& p) { M3 r; r.m[0][0] = p.mIxx; r.m[1][1] = p.mIyy; r.m[2][2] = p.mIzz; r.m[0][1] = r.m[1][0] = p.mIxy; r.m[0][2] = r.m[2][0] = p.mIxz; r.m[1][2] = r.m[2][1] = p.mIyz; return r; }
static std::string str(const GunnsDynSingleRigidMassProps& p) { std::ostringstream o; o.precision(17); o << "mass " << p.mMass << " cm " << str(p.mCM, 3) << " I " << p.mIxx << " " << p.mIxy << " " << p.mIxz << " " << p.mIyy << " " << p.mIyz << " " << p.mIzz; return o.str(); }
FACET(body, 6000, 150000, "an offset centre of mass with rotation, forces and torques") {
    const bool offset = c.b(0.7), spin = c.b(0.8); GunnsDynSingleRigidMassProps p; props(c, p, offset); double pos[3], vel[3], e[3], w[3]; for (int i = 0; i < 3; ++i) { pos[i] = c.r(-10, 10); vel[i] = c.r(-10, 10); e[i] = i == 1 ? c.r(-1.5, 1.5) : c.r(-3, 3); w[i] = spin ? c.sr(1e-3, 5) : 0.; } const int seq = c.pickOf<int>({ 123, 132, 213, 231, 312, 321 });
    GunnsDynSingleRigidEomInputData in(pos, vel, (GunnsDynEulerFactory::Sequences)seq, e, w, &p); GunnsDynSingleRigidEom body; bool t = false; try { body.update(); } catch (const TsInitializationException&) { t = true; } c.check(t, "not-initialized", ""); body.initialize("body", in); c.check(dist(M3(body.mState.mRotational.mTransMatrix), angles(seq, e)) < 1e-14, "attitude", "");
    GunnsDynAppliedForce F[3]; GunnsDynAppliedTorque Q[2]; const int nf = c.i(0, 3), nq = c.i(0, 2); for (int i = 0; i < nf; ++i) body.mStateDeriv.addAppliedForce(&F[i]); for (int i = 0; i < nq; ++i) body.mStateDeriv.addAppliedTorque(&Q[i]); bool loaded = false;
    for (int step = c.i(1, 4); step > 0; --step) { for (int i = 0; i < nf; ++i) { F[i].mActive = c.b(0.8); for (int k = 0; k < 3; ++k) { F[i].mForce[k] = c.b(0.3) ? 0. : c.sr(1e-2, 1e4); F[i].mLocation[k] = c.b(0.3) ? 0. : c.r(-5, 5); } } for (int i = 0; i < nq; ++i) { Q[i].mActive = c.b(0.8); for (int k = 0; k < 3; ++k) Q[i].mTorque[k] = c.b(0.3) ? 0. : c.sr(1e-2, 1e4); } if (c.b(0.4)) { props(c, body.mMassProps, c.b(0.7)); } if (c.b(0.1)) body.mMassProps.mIxy *= 0.5; if (c.b(0.1)) body.mMassProps.mCM[c.i(0, 2)] *= 2; if (c.b(0.3)) for (int k = 0; k < 3; ++k) body.mState.mRotational.mVelocity[k] = c.sr(1e-3, 5);
        const GunnsDynSingleRigidMassProps& P = body.mMassProps; c.log() << str(P) << "\n"; body.update(); const V3 a(body.mStateDeriv.getAcceleration()), al(body.mStateDeriv.getAngAcceleration()), W(body.mState.mRotational.mVelocity), cm(P.mCM); const M3 I = inertia(P); c.log() << "rate " << str(body.mState.mRotational.mVelocity, 3) << "\n"; for (int i = 0; i < nf; ++i) if (F[i].mActive) c.log() << "force " << str(F[i].mForce, 3) << " at " << str(F[i].mLocation, 3) << "\n"; for (int i = 0; i < nq; ++i) if (Q[i].mActive) c.log() << "torque " << str(Q[i].mTorque, 3) << "\n";
        V3 f, tq; L sf = 0, st = 0; for (int i = 0; i < nf; ++i) if (F[i].mActive) { f = f + V3(F[i].mForce); tq = tq + X(V3(F[i].mLocation) - cm, V3(F[i].mForce)); sf += norm(V3(F[i].mForce)); st += (norm(V3(F[i].mLocation)) + norm(cm)) * norm(V3(F[i].mForce)); loaded = true; } for (int i = 0; i < nq; ++i) if (Q[i].mActive) { tq = tq + V3(Q[i].mTorque); st += norm(V3(Q[i].mTorque)); loaded = true; }
        const V3 acm = a + X(al, cm) + X(W, X(W, cm)), ef = (L)P.mMass * acm - f, et = I * al + X(W, I * W) - tq; const L inf = P.mIxx + P.mIyy + P.mIzz, ff = sf + P.mMass * (norm(a) + norm(al) * norm(cm) + norm(W) * norm(W) * norm(cm)), ft = st + inf * (norm(al) + norm(W) * norm(W)) + norm(cm) * ff; c.check(norm(ef) <= 1e-11 * ff, "newton", S() << "mass times acceleration of the centre of mass minus force is " << (double)norm(ef) << " of " << (double)ff << " acceleration " << str(body.mStateDeriv.getAcceleration(), 3)); c.check(norm(et) <= 1e-11 * ft, "euler", S() << "torque about the centre of mass not accounted for is " << (double)norm(et) << " of " << (double)ft << " angular acceleration " << str(body.mStateDeriv.getAngAcceleration(), 3));
        double dq[4]; GunnsDynUtils::Qdot(dq, body.mState.mRotational.mQuaternion, body.mState.mRotational.mVelocity); for (int i = 0; i < 4; ++i) c.check(dq[i] == body.mStateDeriv.getQdot()[i], "attitude-rate", ""); if (loaded && spin && norm(cm) > 0) c.nontrivial(); }
    GunnsDynSingleRigidMassProps bad = body.mMassProps; double* fields[] = { &bad.mMass, &bad.mIxx, &bad.mIyy, &bad.mIzz, &bad.mIxy, &bad.mIxz, &bad.mIyz }; const int k = c.i(0, 6); *fields[k] = k < 4 ? c.pickOf<double>({ 0., -1. }) : 1.; t = false; try { bad.validate(); } catch (const TsOutOfBoundsException&) { t = true; } c.check(t, "bad-properties", S() << k); body.mMassProps = bad; t = false; try { body.update(); } catch (const TsOutOfBoundsException&) { t = true; } c.check(t, "bad-properties-update", "");
}
// ---- motion: the integrator stands outside; here a fourth order Runge-Kutta takes its place
static double* gS[13]; static double gD[13], gX0[13], gK[13], gH; static int gPass;
static void grab(double** to, double* a, double* b, double* cc, double* d, double* e, double* f, double* g, double* h, double* i, double* j, double* k, double* l, double* m) { double* p[13] = { a, b, cc, d, e, f, g, h, i, j, k, l, m }; for (int n = 0; n < 13; ++n) to[n] = p[n]; }
#define ARGS double* p0, double* p1, double* p2, double* v0, double* v1, double* v2, double* q0, double* q1, double* q2, double* q3, double* w0, double* w1, double* w2, ...
#define PASS p0, p1, p2, v0, v1, v2, q0, q1, q2, q3, w0, w1, w2
void load_state(ARGS) { grab(gS, PASS); if (gPass == 0) for (int i = 0; i < 13; ++i) { gX0[i] = *gS[i]; gK[i] = 0; } }
void load_deriv(ARGS) { double* d[13]; grab(d, PASS); for (int i = 0; i < 13; ++i) gD[i] = *d[i]; }
int integrate() { static const double w[4] = { 1, 2, 2, 1 }, s[3] = { 0.5, 0.5, 1 }; for (int i = 0; i < 13; ++i) { gK[i] += w[gPass] * gD[i]; gD[i] = gPass < 3 ? gX0[i] + s[gPass] * gH * gD[i] : gX0[i] + gH / 6 * gK[i]; } gPass = (gPass + 1) % 4; return gPass; }
void unload_state(ARGS) { double* d[13]; grab(d, PASS); for (int i = 0; i < 13; ++i) *d[i] = gD[i]; }
FACET(motion, 1500, 30000, "free motion with an offset centre of mass") {
    const bool offset = c.b(0.7), load = c.b(0.3); GunnsDynSingleRigidMassProps p; props(c, p, offset); double pos[3], vel[3], e[3], w[3]; for (int i = 0; i < 3; ++i) { pos[i] = c.r(-10, 10); vel[i] = c.r(-3, 3); e[i] = i == 1 ? c.r(-1.5, 1.5) : c.r(-3, 3); w[i] = c.sr(1e-2, 1); } const int seq = c.pickOf<int>({ 123, 132, 213, 231, 312, 321 }); c.log() << str(p) << "\nrate " << str(w, 3) << " velocity " << str(vel, 3) << " angles " << str(e, 3) << "\n";
    GunnsDynSingleRigidEomInputData in(pos, vel, (GunnsDynEulerFactory::Sequences)seq, e, w, &p); GunnsDynSingleRigidEom b; b.initialize("body", in); GunnsDynAppliedForce F; F.mActive = load; for (int k = 0; k < 3; ++k) { F.mForce[k] = 0; F.mLocation[k] = p.mCM[k]; } if (load) b.mStateDeriv.addAppliedForce(&F); const L k0 = p.mIxx + p.mIyy + p.mIzz, W0 = std::max((L)0.02, norm(V3(w))); gH = 0.01 / (double)W0 * std::min(1., 3. * std::min(p.mIxx, std::min(p.mIyy, p.mIzz)) / (double)k0); gPass = 0; const V3 cm(p.mCM); const M3 I = inertia(p); const V3 g(c.r(-1, 1), c.r(-1, 1), c.r(-1, 1)); double T0 = 0;
    V3 h0, x0, u0; L e0 = 0; for (int n = 0; n <= 60; ++n) { const M3 M(b.mState.mRotational.mTransMatrix); const V3 W(b.mState.mRotational.mVelocity), h = T(M) * (I * W), u = V3(b.mState.mTranslational.mVelocity) + T(M) * X(W, cm), x = V3(b.mState.mTranslational.mPosition) + T(M) * cm; L en = 0; for (int i = 0; i < 3; ++i) en += 0.5 * W[i] * (I * W)[i];
        if (n == 0) { h0 = h; x0 = x; u0 = u; e0 = en; } else { c.check(norm(h - h0) <= 2e-3 * norm(h0) + 1e-8 * k0, "angular-momentum", S() << "step " << n << " changed by " << (double)(norm(h - h0) / norm(h0))); c.check(fabsl(en - e0) <= 1e-3 * e0 + 1e-9 * k0, "energy", S() << "step " << n << " changed by " << (double)(fabsl(en - e0) / e0)); const V3 uw = load ? u0 + (L)T0 * g : u0, xw = x0 + (L)T0 * u0 + (load ? (L)(T0 * T0 / 2) * g : V3()); const L us = norm(u0) + norm(W) * norm(cm) + norm(g) * T0; c.check(norm(u - uw) <= 1e-3 * us + 1e-14, "momentum", S() << "step " << n << " differs by " << (double)norm(u - uw) << " of " << (double)us); c.check(norm(x - xw) <= 2e-3 * (us * T0 + norm(cm)) + 1e-12 * norm(x), "path", S() << "step " << n); c.check(dist(M, quat(b.mState.mRotational.mQuaternion)) < 1e-13, "matrix", ""); c.check(std::fabs(b.mState.mRotational.mVelocityMag - (double)norm(W)) <= 1e-14 * (double)norm(W), "rate", ""); if (norm(W) > 1e-12) for (int i = 0; i < 3; ++i) c.check(fabsl(b.mState.mRotational.mVelocityUnit[i] * norm(W) - W[i]) < 1e-13 * norm(W), "rate-direction", ""); c.check(dist(M, angles(seq, b.mState.mRotational.mEuler->mAngles)) < 3e-6, "angles", ""); }
        int pass; do { if (load) { const V3 f = M3(b.mState.mRotational.mTransMatrix) * ((L)p.mMass * g); for (int k = 0; k < 3; ++k) F.mForce[k] = (double)f[k]; } b.update(); pass = b.integ(); } while (pass); T0 += gH; }
    if (offset) c.nontrivial();
}
