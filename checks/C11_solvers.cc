// mc: hflags=-fno-access-control san=address
// C11: the linear solvers give the solution of every symmetric positive-definite system, on whole and on
// partitioned matrices, and refuse or solve every other one, never answer wrongly.
#include "mc.hh"
#include "math/linear_algebra/CholeskyLdu.hh"
#include "math/linear_algebra/Sor.hh"
#include "software/exceptions/TsNumericalException.hh"
#include <vector>
using namespace mc;
typedef std::vector<double> V;

static std::string show(const V& a, int n) { std::string s; char b[40]; for (int i = 0; i < n * n; i++) { snprintf(b, sizeof b, "%g%s", a[i], i % n == n - 1 ? "; " : " "); s += b; } return s; }
// +1 positive definite (clearly), -1 clearly not, 0 too close to singular to call
static int definite(const V& A, int n) {
    std::vector<long double> a(A.begin(), A.end()); int res = 1;
    for (int k = 0; k < n; k++) {
        long double p = a[k * n + k], s = fabsl(A[k * n + k]);
        if (p < -1e-9L * (s > 0 ? s : 1) || (p <= 0 && s == 0)) return -1;
        if (p <= 1e-9L * s) res = 0;
        if (p <= 0) return res > 0 ? 0 : res;
        for (int i = k + 1; i < n; i++) { long double f = a[i * n + k] / p; for (int j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j]; }
    }
    return res;
}
static void residual(const V& A, const V& b, const V& x, int n, double tol, const char* what) {
    for (int i = 0; i < n; i++) {
        long double r = b[i], s = fabs(b[i]);
        for (int j = 0; j < n; j++) { r -= (long double)A[i * n + j] * x[j]; s += fabsl((long double)A[i * n + j] * x[j]); }
        MC_CHECK(fabsl(r) <= tol * s + 1e-290, "%s: row %d of A x = b is off by %Lg (terms %Lg) for A = %s", what, i, r, s, show(A, n).c_str());
    }
}
static void right(V& b, int n) {
    int k = choose(4, "rhs"); b.assign(n, 0.0);
    if (k == 0) for (int i = 0; i < n; i++) b[i] = 1.0 + 0.5 * i;
    if (k == 1) b[0] = 3.0e4;
    if (k == 2) b[n - 1] = -7.0;
    if (k == 3) for (int i = 0; i < n; i++) b[i] = (i % 2 ? -1.0 : 1.0) * (i + 1) * 1e-6;
}
static V matrix(int n, const double* diag, int nd, const double* off, int no) {
    V A(n * n);
    for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) A[i * n + j] = A[j * n + i] = off[choose(no, "off-diagonal")]; A[i * n + i] = diag[choose(nd, "diagonal")]; }
    return A;
}
static bool decompose(V& M, int n, std::string* why = 0) { CholeskyLdu s; try { s.Decompose(M.data(), n); return true; } catch (TsNumericalException& e) { if (why) *why = e.what(); return false; } }
static bool solve(V& M, V& b, V& x, int n) { CholeskyLdu s; try { s.Solve(M.data(), b.data(), x.data(), n); return true; } catch (TsNumericalException&) { return false; } }

static void cholesky(const V& A, int n, bool all) {
    int def = definite(A, n); V M = A, b, x(n, 99.0);
    mc::trace("A = %s definite %d", show(A, n).c_str(), def);
    bool ok = decompose(M, n); mc::step();
    if (def > 0) MC_CHECK(ok, "positive-definite matrix refused: A = %s", show(A, n).c_str());
    if (!ok) { MC_CHECK(def <= 0, "refused"); mc::outcome("refused"); return; }
    right(b, n); V b0 = b;
    bool sol = solve(M, b, x, n); mc::step();
    if (def > 0) MC_CHECK(sol, "decomposed positive-definite matrix not solved: A = %s", show(A, n).c_str());
    if (def < 0 && sol) { for (int i = 0; i < n; i++) MC_CHECK(std::isfinite(x[i]), "non-finite answer instead of an exception, A = %s", show(A, n).c_str()); }
    if (def < 0) { // a matrix that is not positive definite may only get through with its pivots exposed as such
        mc::outcome(sol ? "indefinite solved" : "indefinite refused"); return; }
    if (!sol || def == 0) return;
    residual(A, b0, x, n, 1e-12, "Solve");
    MC_CHECK(b == b0, "Solve changes the right-hand side");
    V Mb = M, y = b0; MC_CHECK(solve(Mb, y, y, n), "in place"); for (int i = 0; i < n; i++) MC_CHECK(near(y[i], x[i], 1e-12, 1e-300), "solving in place gives x[%d]=%g instead of %g", i, y[i], x[i]);
    // the factors themselves: L D L' is A, U the transpose of L
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
        long double v = 0, s = 0; for (int k = 0; k <= j; k++) { long double t = (i == k ? 1.0L : M[i * n + k]) * M[k * n + k] * (j == k ? 1.0L : M[j * n + k]); v += t; s += fabsl(t); }
        MC_CHECK(fabsl(v - A[i * n + j]) <= 1e-12L * (s + fabs(A[i * n + j])) + 1e-99L, "factor product (%d,%d) is %Lg instead of %g", i, j, v, A[i * n + j]);
        if (j < i) MC_CHECK(M[i * n + j] == M[j * n + i], "upper factor is not the transpose of the lower"); }
    CholeskyLdu s; V I = M; s.Invert(I.data(), n); mc::step();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        long double v = 0, m = 0; for (int k = 0; k < n; k++) { long double t = (long double)A[i * n + k] * I[k * n + j]; v += t; m += fabsl(t); }
        MC_CHECK(fabsl(v - (i == j)) <= 1e-12L * (m + 1), "A times its inverse at (%d,%d) is %Lg, A = %s", i, j, v, show(A, n).c_str()); }
    mc::outcome("solved"); mc::state(Hash().d(A[0]).d(x[0]).d(x[n - 1]).i(n).h); (void)all;
}
static void whole(int n, bool rich) {
    static const double D1[] = {1.0, 3.0, 0.5, 0.0, -1.0, 1e6, 1e-9}, O1[] = {0.0, -1.0, -0.3, 0.7, -1e-4, -2.0, 1e5};
    static const double D2[] = {2.5, 1.5}, O2[] = {0.0, -0.6, 0.5};
    cholesky(rich ? matrix(n, D1, n == 3 ? tierPick(5, 7) : 7, O1, n == 3 ? tierPick(5, 7) : 7) : matrix(n, D2, 2, O2, 3), n, rich);
}
// Decomposing the rows of one partition of a block matrix must equal decomposing the sub-matrix by itself and
// leave every other element alone.
static void partition(int n) {
    static const double D[] = {2.5, 3.5}, O[] = {0.0, -0.6, 0.5};
    std::vector<int> r; for (int i = 0; i < n; i++) if (flip("row in partition")) r.push_back(i);
    if (r.empty()) prune();
    int m = r.size(); V sub(m * m), A(n * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * n + j] = 1000.0 + 10 * i + j;
    V S = matrix(m, D, 2, O, m > 3 ? 2 : 3);
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) A[r[i] * n + r[j]] = S[i * m + j];
    V P = A, T = S; std::vector<int> r0 = r; CholeskyLdu s;
    bool okT = decompose(T, m), okP; try { s.Decompose(P.data(), n, r); okP = true; } catch (TsNumericalException&) { okP = false; } mc::step();
    MC_CHECK(okT == okP, "partition %s, sub-matrix by itself %s", okP ? "decomposed" : "refused", okT ? "decomposed" : "refused");
    MC_CHECK(r == r0, "row vector changed");
    std::vector<char> in(n, 0); for (int i : r) in[i] = 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!in[i] || !in[j]) MC_CHECK(P[i * n + j] == A[i * n + j], "element (%d,%d) outside the partition changed from %g to %g", i, j, A[i * n + j], P[i * n + j]);
    if (okT) { for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) MC_CHECK(near(P[r[i] * n + r[j]], T[i * m + j], 1e-13, 1e-300), "partition element (%d,%d) is %g, decomposed by itself %g", i, j, P[r[i] * n + r[j]], T[i * m + j]); mc::validated(); }
}
static void sor(int n) {
    static const double D[] = {2.5, 1.2, 40.0}, O[] = {0.0, -0.6, -1.1, 0.4}, W[] = {1.0, 0.5, 1.5, 1.8}, C[] = {1e-9, 1e-4, 1e-13}; static const int M[] = {30000, 1, 2, 6, 25};
    V A = matrix(n, D, n > 2 ? 2 : 3, O, n > 2 ? tierPick(2, 4) : 4); int def = definite(A, n);
    double w = pick(W, "weight"), c = pick(C, "tolerance"); int itr = pick(M, "iteration limit");
    V b, x(n), A0 = A; right(b, n); int start = choose(2, "start"); for (int i = 0; i < n; i++) x[i] = start ? 5.0 - 7.0 * i : 0.0;
    V b0 = b; int got = Sor::solve(x.data(), A.data(), b.data(), n, (float)w, itr, c); mc::step();
    MC_CHECK(A == A0 && b == b0, "SOR changes its inputs");
    MC_CHECK(got == -1 || (got >= 1 && got <= itr), "SOR reports %d iterations of %d", got, itr);
    bool pos = true; for (int i = 0; i < n; i++) if (A[i * n + i] < 1e-40) pos = false;
    MC_CHECK(Sor::isPositiveDefinite(A.data(), n) == pos, "isPositiveDefinite");
    if (got > 0) {
        for (int i = 0; i < n; i++) { long double r = b[i], bound = A[i * n + i] / w; for (int j = 0; j < n; j++) { r -= (long double)A[i * n + j] * x[j]; bound += fabs(A[i * n + j]); }
            MC_CHECK(fabsl(r) <= bound * c * n * 1.0001L + 1e-14L * (fabs(b[i]) + fabs(x[i]) * 100), "SOR reports convergence after %d but row %d is off by %Lg (tolerance allows %Lg)", got, i, r, bound * c * n); }
        mc::outcome("converged"); }
    else { if (def > 0 && itr == 30000 && c >= 1e-9) MC_CHECK(false, "SOR does not converge on a positive-definite system in %d iterations, weight %g, A = %s", itr, w, show(A, n).c_str());
        mc::outcome("not converged"); }
}
static void sorDiag(int n) {
    static const double D[] = {1.0, 1e-30, 1e-45, 0.0, -1.0}; V A(n * n, -1.0); bool pos = true;
    for (int i = 0; i < n; i++) { A[i * n + i] = pick(D, "diagonal"); if (A[i * n + i] < 1e-40) pos = false; }
    MC_CHECK(Sor::isPositiveDefinite(A.data(), n) == pos, "isPositiveDefinite of diagonal"); mc::step();
}
int main(int argc, char** argv) {
    mc::add("whole matrices of size 1", [] { whole(1, true); });
    mc::add("whole matrices of size 2", [] { whole(2, true); });
    mc::add("whole matrices of size 3", [] { whole(3, true); });
    mc::add("whole matrices of size 4", [] { whole(4, false); });
    mc::add("whole matrices of size 5", [] { whole(5, false); }, 1);
    mc::add("partitions of 4 rows", [] { partition(4); });
    mc::add("partitions of 5 rows", [] { partition(5); }, 1);
    mc::add("iterative solver, size 1", [] { sor(1); });
    mc::add("iterative solver, size 2", [] { sor(2); });
    mc::add("iterative solver, size 3", [] { sor(3); });
    mc::add("iterative solver diagonal check", [] { sorDiag(choose(4, "n") + 1); });
    mc::bounds("every symmetric matrix of size 1-3 (4; 5 thorough) with entries from an alphabet of signs and magnitudes, 4 right-hand sides; every partition of up to 4 (5) rows; SOR with 4 weights, 3 tolerances, 5 iteration limits, 2 starts");
    mc::assume("matrices whose smallest pivot is within 1e-9 of singular are only required not to crash");
    return mc::run(argc, argv, "C11");
}
