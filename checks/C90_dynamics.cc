// mc: hflags=-fno-access-control
// C90: the rotation algebra is exact and the rigid body obeys the Newton-Euler equations, whatever
// the attitude, the mass properties, the loads and their history.
#include "mc.hh"
#include <cmath>
#include <vector>
#include "aspects/dynamics/GunnsDynUtils.hh"
#include "aspects/dynamics/GunnsDynEulerFactory.hh"
#include "aspects/dynamics/GunnsDynEulerBase.hh"
#include "aspects/dynamics/GunnsDynSingleRigidEom.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsInitializationException.hh"
using mc::choose; using mc::pick; using mc::flip;

typedef GunnsDynEulerFactory EF;
static const EF::Sequences SEQ[6] = {EF::XYZ, EF::XZY, EF::YZX, EF::YXZ, EF::ZXY, EF::ZYX};
static const int AX[6][3] = {{0,1,2},{0,2,1},{1,2,0},{1,0,2},{2,0,1},{2,1,0}};
static const double PI = 3.14159265358979323846;

struct M3 { double a[9]; double& operator()(int r, int c) { return a[3*r+c]; } double operator()(int r, int c) const { return a[3*r+c]; } };
static M3 mul(const M3& x, const M3& y) { M3 z; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { z(r,c) = 0; for (int k = 0; k < 3; ++k) z(r,c) += x(r,k)*y(k,c); } return z; }
/// Frame rotation by an angle about an axis.
static M3 rot(int axis, double t) {
    M3 m; for (double& v : m.a) v = 0; m(axis,axis) = 1;
    int i = (axis+1)%3, j = (axis+2)%3;
    m(i,i) = m(j,j) = std::cos(t); m(i,j) = std::sin(t); m(j,i) = -std::sin(t);
    return m;
}
static M3 euler(int s, const double* e) { return mul(rot(AX[s][2], e[2]), mul(rot(AX[s][1], e[1]), rot(AX[s][0], e[0]))); }
static double diff(const M3& x, const M3& y) { double d = 0; for (int i = 0; i < 9; ++i) { double e = std::fabs(x.a[i]-y.a[i]); if (!(e <= d)) d = e; } return d; }
static M3 toM(const double* q) { M3 m; GunnsDynUtils::QtoM(m.a, q); return m; }

/// Every sequence, over a grid of attitudes with the singular ones and their neighbours.
static void eulerAngles() {
    static const double A1[] = {0.0, 0.4, -1.3, 2.5, -3.0, PI/2, -PI/2, 3.14159};
    static const double A2[] = {0.0, 0.3, -0.7, 1.2, -1.5, PI/2, -PI/2, PI/2-1e-3, -PI/2+1e-3, PI/2-3e-6, -PI/2+3e-6, PI/2-5e-7, -PI/2+5e-7, 1e-9};
    static const double A3[] = {0.0, -0.6, 1.8, -2.9, PI/2, 1e-7};
    static const double Q[] = {1.0, 1.0 + 1e-7, 1.0 - 1.1e-7, 1.02, 0.7, -1.0};
    const int s = choose(6, "sequence");
    const double e[3] = {A1[choose(8, "rotation 1")], A2[choose(14, "rotation 2")], A3[choose(6, "rotation 3")]};
    const double scale = pick(Q, "quaternion scale");
    EF factory; GunnsDynEulerBase* b = factory.create(SEQ[s]);
    double q[4]; b->computeQuat(q, e);
    double n = 0; for (double v : q) n += v*v;
    MC_CHECK(std::fabs(n - 1) < 1e-14, "the quaternion of a sequence has length %.17g", n);
    const M3 ref = euler(s, e);
    MC_CHECK(diff(toM(q), ref) < 1e-14, "sequence %d: the quaternion's rotation differs from the three rotations by %g", s, diff(toM(q), ref));
    // Drift in the quaternion's length is removed.
    for (double& v : q) v *= scale;
    GunnsDynUtils::normalizeQ(q);
    n = 0; for (double v : q) n += v*v;
    MC_CHECK(std::fabs(n - 1) < 5e-14, "normalized quaternion has length %.17g", n);
    MC_CHECK(diff(toM(q), ref) < 1e-13, "normalizing the quaternion changes the rotation by %g", diff(toM(q), ref));
    // A second object, with any history, returns angles of the same rotation.
    GunnsDynEulerBase* c = factory.create(SEQ[s]);
    if (flip("with a history")) { double h[3] = {1.0, PI/2, -2.0}, hq[4]; c->computeQuat(hq, h); c->update(hq); }
    double* r = 0;
    try { r = c->update(q); } catch (...) { mc::fail("sequence %d: angles of a proper attitude (%g %g %g) are refused", s, e[0], e[1], e[2]); }
    const bool near = std::fabs(std::fabs(e[1]) - PI/2) < 2e-6;
    const double tol = near ? 3e-6 : 1e-10 + 1e-13 / std::cos(e[1]);
    MC_CHECK(diff(euler(s, r), ref) < tol, "sequence %d: the angles %.9g %.9g %.9g returned for %.9g %.9g %.9g are another rotation, off by %g", s, r[0], r[1], r[2], e[0], e[1], e[2], diff(euler(s, r), ref));
    MC_CHECK(std::fabs(r[1]) <= PI/2 + 1e-12 && std::fabs(r[0]) <= PI + 1e-12 && std::fabs(r[2]) <= PI + 1e-12, "angles out of range");
    if (!near) for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs(std::remainder(r[i] - e[i], 2*PI)) < tol, "angle %d is %.9g instead of %.9g", i, r[i], e[i]);
    // The angles kept give the rotation again.
    double q2[4]; c->computeQuat(q2, 0);
    MC_CHECK(diff(toM(q2), ref) < tol, "sequence %d: the quaternion of the angles kept is another rotation", s);
    // The quaternion of the matrix is the same rotation.
    const double tr = ref(0,0) + ref(1,1) + ref(2,2);
    if (tr > -1 + 1e-6) {
        double q3[4]; GunnsDynUtils::MtoQ(q3, ref.a);
        MC_CHECK(diff(toM(q3), ref) < 1e-14 * 50 / (1 + tr), "the quaternion of a matrix is another rotation, off by %g", diff(toM(q3), ref));
        MC_CHECK(q3[0] >= 0, "negative scalar part");
    }
    mc::validated(1); mc::state(mc::Hash().i(s).d(e[0]).d(e[1]).d(e[2]).d(scale).h);
}

/// A path of attitudes through one object, across the singularities.
static void eulerPath() {
    const int s = choose(6, "sequence");
    EF factory; GunnsDynEulerBase* b = factory.create(SEQ[s]);
    const int depth = mc::tierPick(3, 4);
    double e[3] = {0, 0, 0}, q[4];
    b->computeQuat(q, e);
    static const double D[] = {PI/2, -PI/2, 0.5, -1.1};
    for (int k = 0; k < depth; ++k) {
        const int ax = choose(3, "axis"); const double d = pick(D, "turn");
        // Turn the body: the new matrix is a frame rotation of the present one.
        M3 m = mul(rot(ax, d), toM(q));
        double hq[4] = {std::cos(d/2), 0, 0, 0}; hq[1+ax] = -std::sin(d/2);
        double p[4];   // left-handed product
        p[0] = hq[0]*q[0] - hq[1]*q[1] - hq[2]*q[2] - hq[3]*q[3];
        double cr[3]; GunnsDynUtils::crossV3(cr, hq+1, q+1);
        for (int i = 0; i < 3; ++i) p[1+i] = hq[0]*q[1+i] + q[0]*hq[1+i] + cr[i];
        if (diff(toM(p), m) > 1e-12) { for (int i = 0; i < 3; ++i) p[1+i] -= 2*cr[i]; }
        for (int i = 0; i < 4; ++i) q[i] = p[i];
        MC_CHECK(diff(toM(q), m) < 1e-12, "turned attitude");
        double* r = 0;
        try { GunnsDynUtils::normalizeQ(q); r = b->update(q); } catch (...) { mc::fail("sequence %d: angles of a proper attitude are refused", s); }
        MC_CHECK(diff(euler(s, r), m) < 3e-6, "sequence %d: the angles after a turn are another rotation, off by %g", s, diff(euler(s, r), m));
        double q2[4]; b->computeQuat(q2, 0);
        MC_CHECK(diff(toM(q2), m) < 3e-6, "sequence %d: the quaternion of the angles kept is another rotation", s);
        mc::step();
    }
    mc::validated(1); mc::state(mc::Hash().i(s).d(q[0]).d(q[1]).d(q[2]).d(q[3]).h);
}

static const double V[][3] = {{0,0,0},{1,0,0},{0,-2,0},{0,0,0.5},{1,2,-3},{-0.4,0.7,1e-3},{1e3,-2e3,5e2}};
/// Vector and matrix operations equal their definitions, with and without aliased arguments.
static void algebra() {
    const double* x = V[choose(7, "x")]; const double* y = V[choose(7, "y")];
    double m[9], k[9];
    for (int i = 0; i < 9; ++i) { m[i] = x[i%3] * (1 + i) + y[i/3]; k[i] = y[i%3] - 0.3 * i * x[i/3]; }
    double scale = 1; for (int i = 0; i < 9; ++i) scale += std::fabs(m[i]) + std::fabs(k[i]);
    for (int i = 0; i < 3; ++i) scale += std::fabs(x[i]) + std::fabs(y[i]);
    const double tol = 1e-14 * scale * scale;
    auto eq = [&](const double* a, const double* b, int n, const char* what) { for (int i = 0; i < n; ++i) MC_CHECK(std::fabs(a[i]-b[i]) <= tol, "%s: element %d is %.17g instead of %.17g", what, i, a[i], b[i]); };
    const int alias = choose(3, "result aliased to");   // nothing, first, second
    double A[9], B[9], C[9], R[9];
    double* out = alias == 0 ? A : alias == 1 ? B : C;
    auto set = [&](const double* b, const double* c, int n) { for (int i = 0; i < n; ++i) { A[i] = 77; B[i] = b[i]; C[i] = c[i]; } };
    set(x, y, 3); GunnsDynUtils::addV(out, B, C, 3);      for (int i = 0; i < 3; ++i) R[i] = x[i]+y[i]; eq(out, R, 3, "sum");
    set(x, y, 3); GunnsDynUtils::subtractV(out, B, C, 3); for (int i = 0; i < 3; ++i) R[i] = x[i]-y[i]; eq(out, R, 3, "difference");
    set(x, y, 3); GunnsDynUtils::crossV3(out, B, C); R[0] = x[1]*y[2]-x[2]*y[1]; R[1] = x[2]*y[0]-x[0]*y[2]; R[2] = x[0]*y[1]-x[1]*y[0]; eq(out, R, 3, "cross product");
    set(x, y, 3); GunnsDynUtils::scaleV(out == C ? A : out, B, -2.5, 3); for (int i = 0; i < 3; ++i) R[i] = -2.5*x[i]; eq(out == C ? A : out, R, 3, "scaled vector");
    if (out != B) {
        for (int i = 0; i < 9; ++i) B[i] = m[i];
        for (int i = 0; i < 3; ++i) { A[i] = 77; C[i] = y[i]; R[i] = 0; for (int j = 0; j < 3; ++j) R[i] += m[3*i+j]*y[j]; }
        GunnsDynUtils::multiplyMV(out, B, C, 3); eq(out, R, 3, "matrix times vector");
        for (int i = 0; i < 3; ++i) { A[i] = 77; C[i] = y[i]; R[i] = 0; for (int j = 0; j < 3; ++j) R[i] += m[3*j+i]*y[j]; }
        GunnsDynUtils::multiplyMtV(out, B, C, 3); eq(out, R, 3, "transposed matrix times vector");
        eq(B, m, 9, "matrix argument");
    }
    set(m, k, 9); GunnsDynUtils::multiplyMM(out, B, C, 3);
    { M3 mm, kk; for (int i = 0; i < 9; ++i) { mm.a[i] = m[i]; kk.a[i] = k[i]; } M3 p = mul(mm, kk); eq(out, p.a, 9, "matrix product"); }
    double sk[9], sv[3]; GunnsDynUtils::skew(sk, x); GunnsDynUtils::multiplyMV(sv, sk, y, 3); GunnsDynUtils::crossV3(R, x, y); eq(sv, R, 3, "skew matrix");
    const double dot = x[0]*y[0]+x[1]*y[1]+x[2]*y[2], mag = std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]);
    MC_CHECK(std::fabs(GunnsDynUtils::dotV(x, y, 3) - dot) <= tol, "dot product");
    MC_CHECK(std::fabs(GunnsDynUtils::magV(x, 3) - mag) <= 1e-14 * mag, "magnitude");
    MC_CHECK(GunnsDynUtils::isNonZeroV(x, 3) == (mag > 0), "non-zero test");
    set(x, y, 3); const bool ok = GunnsDynUtils::normalizeVSuccess(B, 3);
    MC_CHECK(ok == (mag > 0), "normalizing reports %d", ok);
    for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs(B[i] * (ok ? mag : 1) - x[i]) <= 1e-14 * mag, "normalized vector");
    set(x, y, 3); bool threw = false; try { GunnsDynUtils::normalizeV(B); } catch (TsNumericalException&) { threw = true; }
    MC_CHECK(threw == (mag == 0), "normalizing a vector %s", threw ? "is refused" : "of no length is accepted");
    for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs(B[i] * (threw ? 1 : mag) - x[i]) <= 1e-14 * mag, "normalized vector");
    mc::validated(1); mc::state(mc::Hash().i(alias).d(x[0]).d(x[1]).d(y[0]).d(y[1]).h);
}

/// The stand-in for the simulation's integrator: one explicit Euler step.
static double gS[13], gD[13], gDt; static int gN;
static void grab(double* to, double** p) { for (int i = 0; i < 13; ++i) to[i] = *p[i]; }
#define ARGS double* a0,double* a1,double* a2,double* a3,double* a4,double* a5,double* a6,double* a7,double* a8,double* a9,double* a10,double* a11,double* a12,...
#define LIST double* p[13] = {a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12}
void load_state(ARGS) { LIST; grab(gS, p); }
void load_deriv(ARGS) { LIST; grab(gD, p); }
int integrate() { for (int i = 0; i < 13; ++i) gS[i] += gDt * gD[i]; return ++gN; }
void unload_state(ARGS) { LIST; for (int i = 0; i < 13; ++i) *p[i] = gS[i]; }

static void cross(double* r, const double* a, const double* b) { double t[3] = {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; for (int i = 0; i < 3; ++i) r[i] = t[i]; }
static void solve3(double* x, M3 a, const double* b) {   // Cramer
    auto det = [](const M3& m) { return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1)) - m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0)) + m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0)); };
    const double d = det(a);
    for (int c = 0; c < 3; ++c) { M3 t = a; for (int r = 0; r < 3; ++r) t(r,c) = b[r]; x[c] = det(t)/d; }
}

struct Props { double m, c[3], i[6]; };   // xx xy xz yy yz zz
static const Props PROPS[] = {
    {10, {0,0,0}, {3,0,0,4,0,5}},
    {10, {0,0,0}, {3,-0.4,-0.2,4,-0.7,5}},
    {10, {0.3,-0.2,0.5}, {3,0,0,4,0,5}},
    {10, {0.3,-0.2,0.5}, {3,-0.4,-0.2,4,-0.7,5}},
    {250, {0,0,-1.5}, {90,-8,0,60,0,120}},
    {250, {2,0,0}, {90,0,-11,60,0,120}},
    {0.5, {0,0.01,0}, {2e-3,0,0,3e-3,-2e-4,1e-3}},
};
enum { NP = sizeof PROPS / sizeof *PROPS };
struct Body {
    GunnsDynSingleRigidEom e; GunnsDynAppliedForce f[2]; GunnsDynAppliedTorque t[2];
    Props now;
    Body() {
        const double F[2][3] = {{20,-5,8},{0,30,0}}, L[2][3] = {{0.4,1,-0.3},{0,0,2}}, T[2][3] = {{1,2,-3},{0,-6,0}};
        for (int k = 0; k < 2; ++k) { f[k].mActive = t[k].mActive = false; for (int i = 0; i < 3; ++i) { f[k].mForce[i] = F[k][i]; f[k].mLocation[i] = L[k][i]; t[k].mTorque[i] = T[k][i]; } }
    }
    static GunnsDynSingleRigidMassProps props(const Props& p) { return GunnsDynSingleRigidMassProps(p.m, p.c, p.i[0], p.i[1], p.i[2], p.i[3], p.i[4], p.i[5]); }
    void init(int seq, const Props& p, const double* pos, const double* vel, const double* ang, const double* w) {
        now = p;
        GunnsDynSingleRigidMassProps mp = props(p);
        GunnsDynSingleRigidEomInputData in(pos, vel, SEQ[seq], ang, w, &mp);
        e.initialize("body", in);
    }
    void add() { for (int k = 0; k < 2; ++k) { e.mStateDeriv.addAppliedForce(&f[k]); e.mStateDeriv.addAppliedTorque(&t[k]); } }
    void check() {
        const double* w = e.mState.mRotational.mVelocity;
        double F[3] = {0,0,0}, T[3] = {0,0,0};
        for (int k = 0; k < 2; ++k) {
            if (f[k].mActive) { double l[3], c[3]; for (int i = 0; i < 3; ++i) { l[i] = f[k].mLocation[i] - now.c[i]; F[i] += f[k].mForce[i]; } cross(c, l, f[k].mForce); for (int i = 0; i < 3; ++i) T[i] += c[i]; }
            if (t[k].mActive) for (int i = 0; i < 3; ++i) T[i] += t[k].mTorque[i];
        }
        M3 I = {{now.i[0],now.i[1],now.i[2],now.i[1],now.i[3],now.i[4],now.i[2],now.i[4],now.i[5]}};
        double L[3], g[3], al[3], a[3], x[3];
        for (int r = 0; r < 3; ++r) L[r] = I(r,0)*w[0] + I(r,1)*w[1] + I(r,2)*w[2];
        cross(g, w, L);
        double rhs[3]; for (int i = 0; i < 3; ++i) rhs[i] = T[i] - g[i];
        solve3(al, I, rhs);
        for (int i = 0; i < 3; ++i) a[i] = F[i] / now.m;
        cross(x, al, now.c); for (int i = 0; i < 3; ++i) a[i] -= x[i];
        cross(x, w, now.c); cross(x, w, x); for (int i = 0; i < 3; ++i) a[i] -= x[i];
        double s = 1; for (int i = 0; i < 3; ++i) s += std::fabs(al[i]) + std::fabs(a[i]);
        const double* ga = e.mStateDeriv.getAcceleration(); const double* gal = e.mStateDeriv.getAngAcceleration();
        for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs(gal[i] - al[i]) < 1e-7 * s, "angular acceleration %d is %.9g, Newton-Euler gives %.9g", i, gal[i], al[i]);
        for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs(ga[i] - a[i]) < 1e-7 * s, "acceleration %d is %.9g, Newton-Euler gives %.9g", i, ga[i], a[i]);
        // The quaternion's rate turns the attitude matrix by the angular velocity: dM/dt = -[w]M.
        const double* q = e.mState.mRotational.mQuaternion; const double* qd = e.mStateDeriv.getQdot();
        double qp[4], qm[4]; for (int i = 0; i < 4; ++i) { qp[i] = q[i] + qd[i]; qm[i] = q[i] - qd[i]; }
        M3 P = toM(qp), N = toM(qm), W = {{0,-w[2],w[1],w[2],0,-w[0],-w[1],w[0],0}}, D = mul(W, toM(q));
        double ws = 1 + w[0]*w[0] + w[1]*w[1] + w[2]*w[2];
        for (int i = 0; i < 9; ++i) MC_CHECK(std::fabs((P.a[i]-N.a[i])/2 + D.a[i]) < 1e-12 * ws, "the quaternion's rate doesn't turn the attitude by the angular velocity");
        double dn = 0; for (int i = 0; i < 4; ++i) dn += q[i]*qd[i];
        MC_CHECK(std::fabs(dn) < 1e-13 * ws, "the quaternion's rate changes its length");
    }
};
static const double OM[][3] = {{0,0,0},{0.5,0,0},{0,0,-1.2},{0.3,-0.8,0.6},{-2,1.5,4}};

/// Histories of changes of mass properties and loads.
static void loads() {
    Body b;
    const int p0 = choose(NP, "mass properties");
    static const double z[3] = {0,0,0}, ang[3] = {0.4,-0.9,2.0};
    const double* w = OM[choose(5, "angular velocity")];
    b.init(3, PROPS[p0], z, z, ang, w);
    b.add();
    const int depth = mc::tierPick(2, 4);
    for (int k = 0; k < depth; ++k) {
        switch (choose(7, "change")) {
            case 0: b.f[0].mActive = !b.f[0].mActive; break;
            case 1: b.f[1].mActive = !b.f[1].mActive; break;
            case 2: b.t[0].mActive = !b.t[0].mActive; break;
            case 3: b.f[0].mActive = b.f[1].mActive = b.t[0].mActive = b.t[1].mActive = true; break;
            case 4: b.now = PROPS[choose(NP, "new mass properties")]; b.e.mMassProps = Body::props(b.now); break;
            case 5: { const int i = choose(9, "changed property");   // one property alone
                      if (i < 6) { b.now.i[i] *= 1.1; b.now.i[i] -= (i == 1 || i == 2 || i == 4) ? 1e-4 : 0; } else b.now.c[i-6] += 0.05;
                      b.e.mMassProps = Body::props(b.now); } break;
            case 6: b.e.mStateDeriv.restart(); break;
        }
        try { b.e.update(); } catch (...) { mc::fail("the update throws"); }
        b.check(); mc::step();
    }
    mc::validated(1); mc::state(mc::Hash().i(p0).d(b.e.mStateDeriv.getAcceleration()[0]).d(b.e.mStateDeriv.getAngAcceleration()[0]).d(b.e.mStateDeriv.getAngAcceleration()[2]).h);
}

/// Initialization and integration steps.
static void motion() {
    static const double POS[2][3] = {{0,0,0},{100,-20,3}}, VEL[2][3] = {{0,0,0},{-1,4,0.5}}, ANG[4][3] = {{0,0,0},{0.4,-0.9,2.0},{1.0,PI/2,0.5},{-2.0,-PI/2,0}};
    Body b; const int seq = choose(6, "sequence");
    const int s0 = choose(2, "state"); const int a0 = choose(4, "attitude"), p0 = choose(mc::tierPick(4, NP), "mass properties"), w0 = choose(5, "angular velocity");
    auto start = [&](int s, int a, int p, int w) {
        try { b.init(seq, PROPS[p], POS[s], VEL[s], ANG[a], OM[w]); } catch (...) { mc::fail("initialization refused"); }
        const GunnsDynSingleRigidState& S = b.e.mState;
        for (int i = 0; i < 3; ++i) MC_CHECK(S.mTranslational.mPosition[i] == POS[s][i] && S.mTranslational.mVelocity[i] == VEL[s][i] && S.mRotational.mVelocity[i] == OM[w][i], "initial state");
        M3 m; for (int i = 0; i < 9; ++i) m.a[i] = S.mRotational.mTransMatrix[i];
        MC_CHECK(diff(m, euler(seq, ANG[a])) < 1e-13, "initial attitude is off by %g", diff(m, euler(seq, ANG[a])));
    };
    start(s0, a0, p0, w0); b.add();
    b.f[0].mActive = flip("force"); b.t[1].mActive = flip("torque");
    gN = 0;
    const int depth = mc::tierPick(3, 4); int steps = 0;
    for (int k = 0; k < depth; ++k) {
        static const double DT[] = {0.0, 0.01, 0.3};
        gDt = pick(DT, "time step");
        GunnsDynSingleRigidState before = b.e.mState;
        int ip = 0;
        try { b.e.update(); b.check(); ip = b.e.integ(); } catch (mc::Violation&) { throw; } catch (...) { mc::fail("the step throws"); }
        MC_CHECK(ip == ++steps, "the integrator's pass number isn't returned");
        const GunnsDynSingleRigidState& S = b.e.mState;
        // What was integrated.
        double acc[3]; const double* M = before.mRotational.mTransMatrix; const double* a = b.e.mStateDeriv.getAcceleration();
        for (int i = 0; i < 3; ++i) acc[i] = M[i]*a[0] + M[3+i]*a[1] + M[6+i]*a[2];
        double sc = 1; for (int i = 0; i < 3; ++i) sc += std::fabs(acc[i]);
        double nq[4], n = 0; for (int i = 0; i < 4; ++i) { nq[i] = before.mRotational.mQuaternion[i] + gDt * b.e.mStateDeriv.getQdot()[i]; n += nq[i]*nq[i]; }
        n = std::sqrt(n);
        for (int i = 0; i < 3; ++i) {
            MC_CHECK(std::fabs(S.mTranslational.mPosition[i] - (before.mTranslational.mPosition[i] + gDt*before.mTranslational.mVelocity[i])) < 1e-10, "position %d", i);
            MC_CHECK(std::fabs(S.mTranslational.mVelocity[i] - (before.mTranslational.mVelocity[i] + gDt*acc[i])) < 1e-11*sc, "velocity %d is %.9g instead of %.9g", i, S.mTranslational.mVelocity[i], before.mTranslational.mVelocity[i] + gDt*acc[i]);
            MC_CHECK(std::fabs(S.mRotational.mVelocity[i] - (before.mRotational.mVelocity[i] + gDt*b.e.mStateDeriv.getAngAcceleration()[i])) < 1e-10, "angular velocity %d", i);
        }
        for (int i = 0; i < 4; ++i) MC_CHECK(std::fabs(S.mRotational.mQuaternion[i] - nq[i]/n) < 1e-12, "quaternion %d", i);
        // The attitude's forms agree.
        M3 m; for (int i = 0; i < 9; ++i) m.a[i] = S.mRotational.mTransMatrix[i];
        MC_CHECK(diff(m, toM(S.mRotational.mQuaternion)) < 1e-14, "the attitude matrix isn't that of the quaternion");
        M3 t; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) t(r,c) = m(c,r);
        M3 id = mul(m, t); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) MC_CHECK(std::fabs(id(r,c) - (r == c)) < 1e-12, "the attitude matrix isn't orthonormal");
        const M3 eu = euler(seq, S.mRotational.mEuler->mAngles);
        MC_CHECK(diff(m, eu) < 3e-6, "the Euler angles are another attitude, off by %g", diff(m, eu));
        double mag = 0; for (int i = 0; i < 3; ++i) mag += S.mRotational.mVelocity[i]*S.mRotational.mVelocity[i];
        mag = std::sqrt(mag);
        MC_CHECK(std::fabs(S.mRotational.mVelocityMag - mag) < 1e-13*(1+mag), "angular speed");
        if (mag > 1e-12) for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs(S.mRotational.mVelocityUnit[i]*mag - S.mRotational.mVelocity[i]) < 1e-12*(1+mag), "rotation axis");
        mc::step();
    }
    mc::validated(1); mc::state(mc::Hash().i(seq).d(b.e.mState.mRotational.mQuaternion[0]).d(b.e.mState.mTranslational.mVelocity[1]).h);
}

/// Impossible mass properties are refused, when initialized and when they change later.
static void refusals() {
    Body b; static const double z[3] = {0,0,0};
    Props p = PROPS[choose(4, "mass properties")];
    const int bad = choose(8, "what is wrong");   // 7: nothing
    const bool late = flip("changed later");
    Props good = p;
    static const double BAD[] = {0.0, -1.0};
    if (bad < 4) (bad == 0 ? p.m : p.i[bad == 1 ? 0 : bad == 2 ? 3 : 5]) = pick(BAD, "value");
    else if (bad < 7) p.i[bad == 4 ? 1 : bad == 5 ? 2 : 4] = 0.1;
    bool threw = false;
    try {
        b.init(0, late ? good : p, z, z, z, OM[3]); b.add();
        if (late) { b.now = p; b.e.mMassProps = Body::props(p); }
        b.e.update();
    } catch (mc::Violation&) { throw; } catch (...) { threw = true; }
    MC_CHECK(threw == (bad != 7), "mass properties with fault %d are %s", bad, threw ? "refused" : "accepted");
    if (!threw) b.check();
    else if (late) { b.now = good; b.e.mMassProps = Body::props(good); try { b.e.update(); } catch (...) { mc::fail("good mass properties refused after bad ones"); } b.check(); }
    GunnsDynSingleRigidEom fresh; bool u = false, g = false;
    try { fresh.update(); } catch (TsInitializationException&) { u = true; }
    try { fresh.integ(); } catch (TsInitializationException&) { g = true; }
    MC_CHECK(u && g, "an uninitialized body can be stepped");
    mc::validated(1); mc::state(mc::Hash().i(bad).i(late).h);
}

int main(int argc, char** argv) {
    mc::add("euler", eulerAngles);
    mc::add("path", eulerPath);
    mc::add("algebra", algebra);
    mc::add("loads", loads);
    mc::add("motion", motion);
    mc::add("refusals", refusals);
    mc::assume("the simulation's integrator is an explicit Euler step; within 1e-6 rad of a singular attitude the angles are those of the singular attitude");
    mc::bounds("6 sequences x 672 attitudes x 6 quaternion lengths x 2 histories; paths of 3 (4) turns of 12 kinds; 7 mass properties x 5 angular velocities x histories of 2 (4) changes; motions of 3 (4) steps");
    return mc::run(argc, argv, "C90");
}
