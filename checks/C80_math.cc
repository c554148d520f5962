// mc: hflags=-fno-access-control
// C80: tables, curve fits, root finders, special functions and unit conversions return what their definitions give, whatever was asked before.
#include "mc.hh"
#include "math/MsMath.hh"
#include "math/UnitConversion.hh"
#include "math/elementary_functions/LambertW.hh"
#include "math/root_finding/BrentMethod.hh"
#include "math/root_finding/LaguerreMethod.hh"
#include "math/approximation/TsLinearInterpolator.hh"
#include "math/approximation/TsBilinearInterpolator.hh"
#include "math/approximation/TsBilinearInterpolatorReverse.hh"
#include "math/approximation/LinearFit.hh"
#include "math/approximation/QuadraticFit.hh"
#include "math/approximation/CubicFit.hh"
#include "math/approximation/QuarticFit.hh"
#include "math/approximation/QuinticFit.hh"
#include "math/approximation/ExponentialFit.hh"
#include "math/approximation/InvLinearFit.hh"
#include "math/approximation/InvQuadraticFit.hh"
#include "math/approximation/PowerFit.hh"
#include "math/approximation/ProductFit.hh"
#include "math/approximation/QuadLinFit.hh"
#include "math/approximation/QuadLinInvFit.hh"
#include "math/approximation/QuadraticRootFit.hh"
#include "math/approximation/QuotientFit.hh"
#include "math/approximation/RationalFit.hh"
#include "math/approximation/ShowmateFit.hh"
#include "math/approximation/SutherlandFit.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsNumericalException.hh"
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <complex>
#include <functional>
#include <memory>
#include <vector>
using namespace mc; typedef std::vector<double> Vec;
static bool nr(double a, double b, double r = 1e-9) { return mc::near(a, b, r, 1e-12); }
static double lim(double a, double x, double b) { return x < a ? a : x > b ? b : x; }

// ---------- tables: every sequence of lookups, in ascending and descending tables of every size ----------
static const double AX[] = {-1, 0.5, 2, 2.25, 7}, AY[] = {10, 20, 25, 50, 51};
static int cell(const Vec& g, double x) { int i = 0; while (i + 2 < (int)g.size() && x >= g[i + 1]) i++; return i; }
static double lin(const Vec& g, const Vec& z, double x) { int i = cell(g, x); return z[i] + (z[i + 1] - z[i]) * (x - g[i]) / (g[i + 1] - g[i]); }
static double q(const Vec& g, int k) { int n = g.size(), i = k / 2; return k == 2 * n ? g.back() + 3 : k == 2 * n - 1 ? g[0] - 3 : k % 2 ? 0.5 * (g[i] + g[i + 1]) : g[i]; }   // grid points, middles and both sides outside
static void linear() {
    int n = 2 + choose(4, "size"); bool down = mc::flip("descending"), part = mc::flip("narrower range"); Vec g(AX, AX + n), z(n); for (int i = 0; i < n; i++) z[i] = std::sin(2.0 * i + 1) * 5; Vec gx = g, zx = z; if (down) std::reverse(gx.begin(), gx.end()), std::reverse(zx.begin(), zx.end());
    double lo = g[0] + (part ? 0.25 : 0), hi = g[n - 1] - (part ? 0.125 : 0); TsLinearInterpolator t; if (mc::flip("initialized before")) { double a[] = {0, 1, 2, 3}, b[] = {5, 6, 7, 8}; t.init(a, b, 4, 0, 3, "first"); t.get(2.5); } t.init(gx.data(), zx.data(), n, lo, hi, "table"); MC_CHECK(t.isInitialized(), "table is not initialized");
    for (int d = 0; d < tierPick(3, 4); d++) { double x = q(g, choose(2 * n + 1, "x")), w = lin(g, z, lim(lo, x, hi)), v = t.get(x); mc::step(); MC_CHECK(nr(v, w), "lookup %d of %g in a table of %d gives %.9g, expected %.9g", d, x, n, v, w);
        bool threw = false; double e = 0; try { e = t.getExceptional(x); } catch (TsOutOfBoundsException&) { threw = true; } MC_CHECK(threw == (x < lo || x > hi) && (threw || nr(e, w)), "strict lookup of %g in [%g, %g] %s", x, lo, hi, threw ? "throws" : "does not throw"); validated(); }
}
static void bilinear() {
    int m = 2 + choose(tierPick(3, 4), "rows"), n = 2 + choose(tierPick(3, 4), "columns"); bool dx = mc::flip("descending x"), dy = mc::flip("descending y"); int shape = choose(3, "values"); Vec gx(AX, AX + m), gy(AY, AY + n);
    auto f = [&](int i, int j) { return shape == 0 ? std::sin(3.0 * i + 5.0 * j) * 4 : (shape == 1 ? 1 : -1) * (2.0 * j + 0.3 * i * i + 0.1 * i * j); };
    Vec X = gx, Y = gy, Z(m * n); if (dx) std::reverse(X.begin(), X.end()); if (dy) std::reverse(Y.begin(), Y.end()); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Z[i * n + j] = f(dx ? m - 1 - i : i, dy ? n - 1 - j : j);
    auto at = [&](double x, double y) { int i = cell(gx, x), j = cell(gy, y); double u = (x - gx[i]) / (gx[i + 1] - gx[i]), v = (y - gy[j]) / (gy[j + 1] - gy[j]); return (1 - u) * ((1 - v) * f(i, j) + v * f(i, j + 1)) + u * ((1 - v) * f(i + 1, j) + v * f(i + 1, j + 1)); };
    TsBilinearInterpolator t(X.data(), Y.data(), Z.data(), m, n, gx[0], gx[m - 1], gy[0], gy[n - 1], "table"); TsBilinearInterpolatorReverse r(X.data(), Y.data(), Z.data(), m, n, gx[0], gx[m - 1], gy[0], gy[n - 1], "reverse");
    double lo = 1e99, hi = -1e99; for (double z : Z) lo = std::min(lo, z), hi = std::max(hi, z); MC_CHECK(r.mMinY == lo && r.mMaxY == hi, "reverse table takes values between %g and %g, holds %g to %g", r.mMinY, r.mMaxY, lo, hi);
    for (int d = 0; d < 2; d++) { double x = q(gx, choose(2 * m + 1, "x")), y = q(gy, choose(2 * n + 1, "y")), xl = lim(gx[0], x, gx[m - 1]), yl = lim(gy[0], y, gy[n - 1]), w = at(xl, yl), v = t.get(x, y); mc::step(); MC_CHECK(nr(v, w), "lookup %d of %g, %g in a table of %d by %d gives %.9g, expected %.9g", d, x, y, m, n, v, w);
        if (shape) { double b = r.get(x, w); MC_CHECK(nr(b, yl, 1e-8), "reverse lookup %d of %g at %g gives %.9g, the value of %.9g", d, w, x, b, yl); double below = r.get(x, lo - 1), above = r.get(x, hi + 1), e0 = shape == 1 ? gy[0] : gy[n - 1], e1 = shape == 1 ? gy[n - 1] : gy[0]; MC_CHECK(nr(below, e0) && nr(above, e1), "values outside the table are found at %g and %g, not at %g and %g", below, above, e0, e1); }
        bool threw = false; try { t.getExceptional(x, y); } catch (TsOutOfBoundsException&) { threw = true; } MC_CHECK(threw == (x != xl || y != yl), "strict lookup of %g, %g %s", x, y, threw ? "throws" : "does not throw"); validated(); }
}
// A table takes new values when it is initialized again, and refused data leave it destructible.
static void reinit() {
    double x[] = {0, 1, 2, 3}, y[] = {0, 10, 20, 30}, z[16]; for (int i = 0; i < 16; i++) z[i] = i * i; int a = choose(5, "first"), b = choose(5, "second"); bool two = mc::flip("bilinear"); auto bad = [](int k) { return k >= 2; };
    std::unique_ptr<TsBilinearInterpolator> t(new TsBilinearInterpolator); std::unique_ptr<TsLinearInterpolator> l(new TsLinearInterpolator);
    auto go = [&](int k) { bool threw = false; double w[] = {0, 2, 1, 3}; int m = k == 0 ? 4 : k == 1 ? 2 : k == 2 ? 1 : 4; const double* g = k == 3 ? w : x; double hi = k == 4 ? 9 : g[std::max(1, m - 1)]; mc::step(); try { if (two) t->init(g, y, z, m, k == 1 ? 3 : 4, g[0], hi, y[0], y[2], "t"); else l->init(g, z, m, g[0], hi, "l"); } catch (TsInitializationException&) { threw = true; } MC_CHECK(threw == bad(k), "table data %d %s", k, threw ? "refused" : "accepted"); };
    go(a); go(b); if (!bad(b)) { double v = two ? t->get(0.5, 5) : l->get(0.5), w = two ? (b == 0 ? (0 + 1 + 16 + 25) / 4.0 : (0 + 1 + 9 + 16) / 4.0) : 0.5; MC_CHECK(nr(v, w), "table initialized again gives %.9g, expected %.9g", v, w); } t.reset(); l.reset(); validated();
}

// ---------- curve fits ----------
static void fits() {
    int k = choose(17, "fit"); static const double CO[] = {-1.5, 0.25, 2, 3}; double c[6]; for (int i = 0; i < 3; i++) c[i] = pick(CO, "coefficient"); c[3] = 0.5 * c[0]; c[4] = -0.25 * c[1]; c[5] = 0.125 * c[2] + 0.1; static const double LO[] = {0.5, 1, -3, -0.75}, W[] = {0.5, 4}; double lo = pick(LO, "from"), hi = lo + pick(W, "width"), ylo = -2, yhi = 5; mc::step();
    std::unique_ptr<TsApproximation> t; std::function<double(double, double)> f; Vec poles; bool two = false, wide = false, nan = false; auto roots = [&](double a, double b, double e) { if (a == 0) { if (b) poles.push_back(-e / b); return; } double D = b * b - 4 * a * e; if (D >= 0) { poles.push_back((-b + std::sqrt(D)) / 2 / a); poles.push_back((-b - std::sqrt(D)) / 2 / a); } };
    auto poly = [c](int n, double x) { double s = 0; for (int i = n; i >= 0; i--) s = s * x + c[i]; return s; }; bool threw = false, strictly = true;
    try { switch (k) {
    case 0: f = [=](double x, double) { return poly(1, x); }; t.reset(new LinearFit(c[0], c[1], lo, hi, "f")); break;
    case 1: f = [=](double x, double) { return poly(2, x); }; t.reset(new QuadraticFit(c[0], c[1], c[2], lo, hi, "f")); break;
    case 2: f = [=](double x, double) { return poly(3, x); }; t.reset(new CubicFit(c[0], c[1], c[2], c[3], lo, hi, "f")); break;
    case 3: f = [=](double x, double) { return poly(4, x); }; t.reset(new QuarticFit(c[0], c[1], c[2], c[3], c[4], lo, hi, "f")); break;
    case 4: f = [=](double x, double) { return poly(5, x); }; t.reset(new QuinticFit(c[0], c[1], c[2], c[3], c[4], c[5], lo, hi, "f")); break;
    case 5: f = [=](double x, double) { return std::exp(c[0] + c[1] / x + c[2] / x / x); }; poles = {0}; t.reset(new ExponentialFit(c[0], c[1], c[2], lo, hi, "f")); break;
    case 6: f = [=](double x, double) { return c[0] * x + c[1] + c[2] / x; }; poles = {0}; t.reset(new InvLinearFit(c[0], c[1], c[2], lo, hi, "f")); break;
    case 7: f = [=](double x, double) { return c[0] + c[1] / x + c[2] / x / x; }; poles = {0}; t.reset(new InvQuadraticFit(c[0], c[1], c[2], lo, hi, "f")); break;
    case 8: f = [=](double x, double) { return c[0] * std::pow(std::fabs(c[1]), x); }; t.reset(new PowerFit(c[0], std::fabs(c[1]), lo, hi, "f")); break;
    case 9: f = [=](double x, double y) { return c[0] * x * y; }; two = true; t.reset(new ProductFit(c[0], lo, hi, ylo, yhi, "f")); break;
    case 10: f = [=](double x, double y) { return c[0] + c[1] * y + (c[2] + c[3] * y) * x + (c[4] + c[5] * y) * x * x; }; two = true; t.reset(new QuadLinFit(c[0], c[1], c[2], c[3], c[4], c[5], lo, hi, ylo, yhi, "f")); break;
    case 11: f = [=](double x, double y) { return (y - c[0] - c[2] * x - c[4] * x * x) / (c[1] + c[3] * x + c[5] * x * x); }; two = true; roots(c[5], c[3], c[1]); t.reset(new QuadLinInvFit(c[0], c[1], c[2], c[3], c[4], c[5], lo, hi, ylo, yhi, "f")); break;
    case 12: f = [=](double x, double) { return (-c[0] + std::sqrt(c[0] * c[0] + 4 * c[1] * x)) / 2 / c[1]; }; nan = true; t.reset(new QuadraticRootFit(c[0], c[1], lo, hi, "f")); break;
    case 13: f = [=](double x, double y) { return c[0] * y / x; }; two = true; poles = {0}; t.reset(new QuotientFit(c[0], lo, hi, ylo, yhi, "f")); break;
    case 14: f = [=](double x, double) { return (c[0] + c[1] * x) / (1 + c[2] * x + c[3] * x * x); }; roots(c[3], c[2], 1); t.reset(new RationalFit(c[0], c[1], c[2], c[3], lo, hi, "f")); break;
    case 15: f = [=](double x, double) { double y = x / 1000; return c[0] + c[1] * y + c[2] * y * y + c[3] * y * y * y + c[4] / y / y; }; poles = {0}; t.reset(new ShowmateFit(c[0], c[1], c[2], c[3], c[4], lo, hi, "f")); break;
    case 16: f = [=](double x, double) { return c[0] * std::pow(x, 1.5) / (c[1] + x); }; poles = {-c[1]}; nan = lo < 0; if (lo < 0) prune(); t.reset(new SutherlandFit(c[0], c[1], lo, hi, "f")); break;
    } } catch (TsInitializationException&) { threw = true; }
    (void)wide; (void)strictly; bool in = false, edge = false; for (double p : poles) { in |= lo <= p && p <= hi; edge |= std::fabs(p - lo) < 1e-6 || std::fabs(p - hi) < 1e-6; }
    if (nan && k == 12) { double p = -c[0] * c[0] / 4 / c[1]; if (p > lo && p < hi) { edge = std::fabs(p - lo) < 1e-6 || std::fabs(p - hi) < 1e-6; in = true; } }
    if (!edge && threw != in) { if (k == 11 || k == 14 || k == 12 || k == 16) known(k == 11 ? "quadlininv-poles" : k == 14 ? "rational-poles" : k == 12 ? "quadratic-root-range" : "sutherland-poles", threw ? "refused" : "accepted"); else mc::fail("fit %d over [%g, %g] with coefficients %g %g %g is %s", k, lo, hi, c[0], c[1], c[2], threw ? "refused" : "accepted"); }
    if (threw || in) return;
    for (int i = -1; i <= 5; i++) for (double y : {-3.0, 0.5, 6.0}) { double x = lo + (hi - lo) * i / 4, xl = lim(lo, x, hi), yl = lim(ylo, y, yhi), w = f(xl, yl), v = t->get(x, y); if (std::isnan(w)) continue; MC_CHECK(nr(v, w), "fit %d of %g, %g with coefficients %g %g %g gives %.9g, expected %.9g", k, x, y, c[0], c[1], c[2], v, w);
        bool ex = false; try { t->getExceptional(x, two ? y : 0); } catch (TsOutOfBoundsException&) { ex = true; } MC_CHECK(ex == (x != xl || (two && y != yl)), "strict evaluation at %g, %g %s", x, y, ex ? "throws" : "does not throw"); }
    validated();
}

// ---------- root finders ----------
struct Brent : BrentMethod { std::function<double(double)> f; int calls = 0; double lo = 0, hi = 0; bool out = false; double evaluate(const double x) { calls++; if (x < lo - 1e-9 || x > hi + 1e-9) out = true; return f(x); } };
static void brent() {
    int k = choose(8, "function"); static const double S[] = {0, 0.3, 1, -2.7, 9.5}, TOL[] = {1e-3, 1e-9, 1e-13}; double s = pick(S, "root"), a = s - 0.01 * std::pow(7.0, choose(4, "below")), b = s + 0.013 * std::pow(6.0, choose(4, "above")), tol = pick(TOL, "tolerance"); bool swap = mc::flip("reversed bracket"), neg = mc::flip("negated"); mc::step();
    static const std::function<double(double)> F[] = {[](double u) { return u; }, [](double u) { return u * u * u; }, [](double u) { return std::exp(u) - 1; }, [](double u) { return std::atan(20 * u); }, [](double u) { return u < 0 ? -1.0 : 2.0; }, [](double u) { return u * (u * u + 0.1); }, [](double u) { return u > 0 ? std::sqrt(u) : -std::sqrt(-u); }, [](double u) { return std::pow(u, 7) + 1e-3 * u; }};
    if ((k == 1 || k == 7) && tol < 1e-10) prune();   // flat roots take the method too long
    Brent m; m.f = [&](double x) { return (neg ? -1 : 1) * F[k](x - s); }; m.lo = a; m.hi = b; double x = 1e99; int n = m.solve(x, swap ? b : a, swap ? a : b, tol); MC_CHECK(n >= 1 && n <= 100 && !m.out, "%d iterations%s", n, m.out ? ", evaluates outside the bracket" : "");
    double err = std::max(tol, 8e-16 * std::fabs(x) + 4e-16) + 4 * DBL_EPSILON * std::fabs(x); MC_CHECK(std::fabs(x - s) <= err || m.f(x) == 0, "root %.12g of function %d is found at %.12g", s, k, x); MC_CHECK(m.calls <= 110, "%d evaluations", m.calls);
    bool threw = false; try { m.lo = b; m.hi = b + 1; m.solve(x, b, b + 1, tol); } catch (TsOutOfBoundsException&) { threw = true; } MC_CHECK(threw, "a bracket without a root is accepted"); validated();
}
static void laguerre() {
    typedef std::complex<double> C; static const C RT[] = {C(0, 0), C(1, 0), C(-2, 0), C(0.5, 0.5), C(0, -3), C(100, 0)}, X0[] = {C(0, 0), C(1, 1), C(-50, 3)}; int n = 1 + choose(tierPick(3, 4), "degree"); std::vector<C> p(1, 1.0), r; int last = 0; for (int i = 0; i < n; i++) { int j = last + choose(6 - last, "root"); last = j; r.push_back(RT[j]); std::vector<C> t(p.size() + 1, 0.0); for (size_t k = 0; k < p.size(); k++) { t[k + 1] += p[k]; t[k] -= p[k] * RT[j]; } p = t; }
    if (n > 1 && r[0] == C(0, 0) && r[1] == C(0, 0)) prune();   // a double root at zero exactly has no rounding error to stop at
    C scale = mc::flip("scaled") ? C(0, -3e3) : C(1, 0); for (C& c : p) c *= scale; C x = X0[choose(3, "start")]; mc::step(); int it = LaguerreMethod::solve(x, p.data(), p.size()); int mult = 1; double d = 1e99; for (C c : r) d = std::min(d, std::abs(c - x)); for (int i = 0; i < n; i++) { int k = 0; for (C c : r) k += c == r[i]; mult = std::max(mult, k); }
    double mag = 1; for (C c : r) mag = std::max(mag, std::abs(c)); MC_CHECK(it >= 1 && it <= 80 && d <= 20 * mag * std::pow(1e-15, 1.0 / mult), "root %.12g%+.12gi is %g away from every root", x.real(), x.imag(), d); validated();
}
static void lambert() {
    int b = choose(2, "branch"), k = choose(400, "argument"); double E = 1 / std::exp(1.0), x = b == 0 ? (k < 100 ? -E + E * k * k * 1e-4 : std::pow(10.0, -15 + (k - 100) * 0.15)) : (k < 200 ? -E + E * (k / 200.0) : -E * std::pow(10.0, -(k - 199) * 0.5)); mc::step();
    if (b == 0 && k >= 100 && x > 1e29) x = k == 399 ? 1e299 : std::pow(10.0, 30 + (k - 395) * 20); double w = b ? LambertW::solveW1(x) : LambertW::solveW0(x), f = b ? LambertW::fastSolveW1(x) : LambertW::fastSolveW0(x);
    double back = std::log(std::fabs(w)) + w, want = std::log(std::fabs(x)); trace("  W%d(%.12g) = %.12g fast %.12g", b, x, w, f); if (x == 0) { MC_CHECK(w == 0, "W(0) is %g", w); return; } bool tip = x < -E + 2e-12;
    MC_CHECK(b ? w <= -1 + 1e-5 : w >= -1 - 1e-5, "branch %d of %.12g is %.12g", b, x, w); MC_CHECK(tip || mc::near(back, want, 1e-6, 1e-6), "W%d(%.12g) is %.12g, which is that of %.12g", b, x, w, w * std::exp(w));
    bool far = b == 0 && x > 1e10; if (!far) MC_CHECK(mc::near(f, w, 0.03, 1e-9), "fast W%d(%.12g) is %.9g, exact %.9g", b, x, f, w); else MC_CHECK(mc::near(f, w, 0.05, 0), "fast W%d(%.12g) is %.9g, exact %.9g", b, x, f, w);
    for (double y : {-E - 1e-6, -1.0, b ? 1.0 : 1e301}) { int t = 0; try { b ? LambertW::solveW1(y) : LambertW::solveW0(y); } catch (TsOutOfBoundsException&) { t++; } try { b ? LambertW::fastSolveW1(y) : LambertW::fastSolveW0(y); } catch (TsOutOfBoundsException&) { t++; } MC_CHECK(t == 2, "branch %d accepts %g", b, y); } validated();
}

// ---------- elementary helpers and units ----------
static void helpers() {
    static const double V[] = {-1e9, -720, -360, -180, -179.5, -7, -3.2, -1.00001, -1, -0.5, -1e-20, 0, 1e-20, 1e-17, 0.3, 0.5, 1, 1.5, 3.2, 6.2, 6.3, 12, 90, 180, 359, 360, 540, 719, 1e9}; double x = pick(V, "value"), y = pick(V, "lower"), z = pick(V, "upper"); mc::step(); const double P = M_PI;
    if (y <= z) { MC_CHECK(MsMath::limitRange(y, x, z) == lim(y, x, z), "%g limited to [%g, %g] is %g", x, y, z, MsMath::limitRange(y, x, z)); MC_CHECK(MsMath::isInRange(y, x, z) == (y <= x && x <= z), "%g in [%g, %g] is wrong", x, y, z); double i = MsMath::innerLimit(y, x, z), mid = (y + z) / 2; MC_CHECK(i == (y < x && x < z ? (x < mid ? y : z) : x), "%g kept out of (%g, %g) is %g", x, y, z, i);
        int a = (int)lim(-1000, y, 1000), b = (int)lim(-1000, z, 1000), c = (int)lim(-1000, x, 1000); MC_CHECK(MsMath::limitRange(a, c, b) == std::max(a, std::min(c, b)) && MsMath::isInRange(a, c, b) == (a <= c && c <= b), "integer %d in [%d, %d]", c, a, b); int k = MsMath::innerLimit(a, c, b); MC_CHECK(k == (a < c && c < b ? (c < (a + b) / 2.0 ? a : b) : c), "integer %d kept out of (%d, %d) is %d", c, a, b, k); }
    double d = MsMath::protectedDiv(x, y, 0.4, z); MC_CHECK(d == (std::fabs(y) <= 0.4 ? z : x / y), "%g / %g is %g", x, y, d);
    if (y > 1e-10) { double u = MsMath::quantize(x, y); MC_CHECK(std::fabs(u - x) <= y * 0.5 * (1 + 1e-9) + 1e-6 && std::fabs(u / y - std::round(u / y)) < 1e-3, "%g quantized by %g is %g", x, y, u); }
    if (y == z) {
        MC_CHECK(MsMath::protectedSqrt(x) == (x < DBL_EPSILON ? 0 : std::sqrt(x)) && MsMath::protectedLog(x) == (x < DBL_EPSILON ? 0 : std::log(x)) && MsMath::protectedLog10(x) == (x < DBL_EPSILON ? 0 : std::log10(x)), "protected functions of %g", x);
        MC_CHECK(nr(MsMath::protectedAsin(x), std::asin(lim(-1, x, 1))) && nr(MsMath::protectedAcos(x), std::acos(lim(-1, x, 1))), "inverse sine of %g is %g, cosine %g", x, MsMath::protectedAsin(x), MsMath::protectedAcos(x)); if (std::fabs(x) < 1e5) MC_CHECK(nr(MsMath::asinh(x), std::asinh(x), 1e-9), "asinh %g is %g", x, MsMath::asinh(x));
        if (x >= -3 * P && x < 3 * P) { double a = MsMath::anglePi(x); MC_CHECK(a >= -P && a < P && std::fabs(std::remainder(a - x, 2 * P)) < 1e-9, "angle %g is brought to %g", x, a); } if (x >= -4 * P && x < 4 * P) { double a = MsMath::angle2Pi(x); MC_CHECK(a >= 0 && a < 2 * P && std::fabs(std::remainder(a - x, 2 * P)) < 1e-9, "angle %g is brought to %g", x, a); }
        if (x >= -540 && x < 540) { double a = MsMath::angle180(x); MC_CHECK(a >= -180 && a < 180 && std::fabs(std::remainder(a - x, 360)) < 1e-9, "angle %g is brought to %g", x, a); } if (x > -720 && x < 720 && std::fabs(x) > 1e-10) { double a = MsMath::angle360(x); MC_CHECK(a >= 0 && a < 360 && std::fabs(std::remainder(a - x, 360)) < 1e-9, "angle %g is brought to %g", x, a); }
        if (std::fabs(x) < 1e8) MC_CHECK(MsMath::round(x) == (int)std::floor(x + 0.5), "%g is rounded to %d", x, MsMath::round(x)); }
    if (x > 0.2 && x < 1000 && std::fabs(y) < 7.5 && y == z) MC_CHECK(nr(MsMath::fastPow(x, y), std::pow(x, y), 1e-6), "%g to the power %g is %.9g, expected %.9g", x, y, MsMath::fastPow(x, y), std::pow(x, y));
    validated();
}
static void units() {
    typedef UnitConversion U; static const double V[] = {-300, -40, -1, 0, 1e-3, 1, 32, 100, 491.67, 1e6}; int k = choose(U::NUM_CONVERSIONS + 2, "conversion") - 1; double x = pick(V, "value"); mc::step(); bool threw = false; double v = 0; try { v = U::convert((U::Type)k, x); } catch (TsOutOfBoundsException&) { threw = true; } bool bad = k < 0 || k >= U::NUM_CONVERSIONS || (k == U::PR_TO_DB && x < DBL_EPSILON); MC_CHECK(threw == bad, "conversion %d of %g %s", k, x, threw ? "refused" : "accepted"); if (bad) return;
    double w = 0; auto K = [](double f) { return (f + 459.67) / 1.8; }; double tol = 1e-9; switch (k) {
    case U::NO_CONVERSION: w = x; break; case U::UNIT_TO_MICRO: w = x * 1e6; break; case U::UNIT_TO_MILLI: w = x * 1e3; break; case U::UNIT_TO_KILO: w = x / 1e3; break; case U::UNIT_TO_MEGA: w = x / 1e6; break; case U::FRAC_TO_PERCENT: w = x * 100; break; case U::UNIT_PER_SEC_TO_UNIT_PER_HOUR: w = x * 3600; break;
    case U::F_TO_R: w = x + 459.67; break; case U::F_TO_C: w = (x - 32) / 1.8; break; case U::F_TO_K: w = K(x); break; case U::R_TO_F: w = x - 459.67; break; case U::R_TO_C: w = x / 1.8 - 273.15; break; case U::R_TO_K: w = x / 1.8; break; case U::C_TO_F: w = x * 1.8 + 32; break; case U::C_TO_R: w = (x + 273.15) * 1.8; break; case U::C_TO_K: w = x + 273.15; break; case U::K_TO_C: w = x - 273.15; break; case U::K_TO_F: w = x * 1.8 - 459.67; break; case U::K_TO_R: w = x * 1.8; break;
    case U::KPA_TO_PSI: w = x / 6.894757293168; tol = 1e-5; break; case U::PSI_TO_KPA: w = x * 6.894757293168; tol = 1e-5; break; case U::KPA_TO_MMHG: w = x / 0.133322387; tol = 1e-5; break; case U::KPA_TO_MILLITORR: w = x * 1000 * 760 / 101.325; tol = 1e-4; break; case U::KPA_TO_INH2O: w = x / 0.00980665 / 25.4; tol = 1e-4; break;
    case U::KG_PER_SEC_TO_LBM_PER_HOUR: w = x / 0.45359237 * 3600; tol = 1e-6; break; case U::LBM_PER_HOUR_TO_KG_PER_SEC: w = x * 0.45359237 / 3600; tol = 1e-6; break; case U::KG_PER_SEC_TO_SCFM0C: w = x * 455 * 3.6; break;
    case U::PR_TO_DB: w = 10 * std::log10(x); break; case U::DB_TO_PR: w = std::pow(10, x / 10); break; case U::W_TO_DBW: w = x > 0 ? 10 * std::log10(x) : 0; break; case U::RAD_TO_DEG: w = x * 180 / M_PI; break; case U::DEG_TO_RAD: w = x * M_PI / 180; break; case U::RADPERSEC_TO_RPM: w = x * 30 / M_PI; break; case U::RPM_TO_RADPERSEC: w = x * M_PI / 30; break; default: prune(); }
    if (std::isinf(w)) prune(); MC_CHECK(mc::near(v, w, tol, 1e-9), "conversion %d of %.9g is %.12g, expected %.12g", k, x, v, w); MC_CHECK(nr(U::convertFromPercent(U::convertToPercent(x, 0.2), 5), x), "percent of %g", x); validated();
}
int main(int argc, char** argv) {
    add("linear", linear); add("bilinear", bilinear); add("reinit", reinit); add("fits", fits); add("brent", brent); add("laguerre", laguerre); add("lambert", lambert); add("helpers", helpers); add("units", units);
    assume("table data in strict order; arguments inside the documented range of a function"); bounds("tables of up to 5 by 5 points with up to 4 lookups, 17 fits on a grid of coefficients and ranges, 8 functions and all brackets of a grid, polynomials up to degree 3-4 from 6 roots");
    return run(argc, argv, "C80");
}
