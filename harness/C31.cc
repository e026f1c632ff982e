// C31 linear solvers.
// vpt: san
#include "vpt.hh"
#include "math/linear_algebra/CholeskyLdu.hh"
#include "math/linear_algebra/Sor.hh"
extern "C" {
#include "math/linear_algebra/choleski_ldu.c"
}
typedef std::vector<double> V; typedef std::vector<long double> LV;
// A network matrix: conductances between nodes and to ground. Every node reaches ground unless singular is asked for.
struct Sys { int n; V A; double scale; bool mixed; };
static Sys gen(Case& c, int maxN = 30) {
    Sys s; const int n = s.n = c.b(0.2) ? c.i(1, maxN) : c.i(1, 8); s.A.assign(n * n, 0.); const double p = c.r(0.05, 1.); const double lo = c.pickOf<double>({1e-2, 1e-6, 1e-10}); const double hi = c.pickOf<double>({1., 1e3, 1e6}); s.scale = hi / lo; s.mixed = c.b(0.4); // mixed: diagonally dominant with couplings of either sign
    for (int i = 0; i < n; ++i) { s.A[i * n + i] += c.lr(lo, hi); for (int j = 0; j < i; ++j) if (c.b(p)) { const double g = c.lr(lo, hi); s.A[i * n + i] += g; s.A[j * n + j] += g; const double q = s.mixed && c.b(0.5) ? g : -g; s.A[i * n + j] += q; s.A[j * n + i] += q; } }
    return s;
}
static void show(Case& c, const V& A, int n) { c.log() << std::setprecision(17); for (int i = 0; i < n && n <= 8; ++i) { for (int j = 0; j < n; ++j) c.log() << A[i * n + j] << " "; c.log() << "\n"; } }
// reference: Gaussian elimination in extended precision (no pivoting needed for these matrices)
static LV solveRef(const V& A, const V& b, int n) { std::vector<LV> m(n, LV(n + 1)); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) m[i][j] = A[i * n + j]; m[i][n] = b[i]; }
    for (int k = 0; k < n; ++k) for (int i = k + 1; i < n; ++i) { long double f = m[i][k] / m[k][k]; if (f != 0) for (int j = k; j <= n; ++j) m[i][j] -= f * m[k][j]; }
    LV x(n); for (int i = n - 1; i >= 0; --i) { long double t = m[i][n]; for (int j = i + 1; j < n; ++j) t -= m[i][j] * x[j]; x[i] = t / m[i][i]; } return x; }
static V genB(Case& c, int n) { V b(n); for (int i = 0; i < n; ++i) b[i] = c.b(0.3) ? 0. : c.sr(1e-3, 1e3); return b; }
// residual scaled by what forming it in doubles may lose
static void residual(Case& c, const V& A, const V& b, const V& x, int n, double tol, const char* tag) {
    for (int i = 0; i < n; ++i) { long double r = -b[i], sc = std::fabs(b[i]); double xm = 0.; for (int j = 0; j < n; ++j) { r += (long double)A[i * n + j] * x[j]; xm = std::max(xm, std::fabs(x[j])); } for (int j = 0; j < n; ++j) sc += std::fabs(A[i * n + j]) * xm;
        c.check(std::fabs((double)r) <= tol * (double)sc, tag, S() << "row " << i << " residual " << (double)r << " scale " << (double)sc); c.check(vpt::finite(x[i]), tag, "solution not finite"); }
}

FACET(solve, 30000, 1000000, "the system has at least two coupled rows") {
    Sys s = gen(c); const int n = s.n; const V b = genB(c, n); show(c, s.A, n); V m = s.A, x(n, 7.), bb = b; CholeskyLdu L; L.Decompose(&m[0], n);
    // the factors: L D L^T is the matrix, and U mirrors L
    for (int i = 0; i < n; ++i) { c.check(m[i * n + i] > 0., "pivot", S() << i); for (int j = 0; j < i; ++j) { c.check(m[i * n + j] == m[j * n + i], "mirror", S() << i << "," << j); long double t = 0; for (int k = 0; k <= j; ++k) t += (long double)(k == j ? 1. : m[j * n + k]) * m[k * n + k] * (k == i ? 1. : m[i * n + k]); c.checkNear((double)t, s.A[i * n + j], 1e-10, 1e-12 * std::sqrt(s.A[i * n + i] * s.A[j * n + j]), "factors", S() << i << "," << j); } }
    const V f = m; L.Solve(&m[0], &bb[0], &x[0], n); c.check(m == f && bb == b, "solve-const", "solving changed the factors or the right-hand side"); residual(c, s.A, b, x, n, 1e-12, "residual");
    LV r = solveRef(s.A, b, n); double xm = 0.; for (int i = 0; i < n; ++i) xm = std::max(xm, std::fabs((double)r[i])); if (s.scale < 1e10) for (int i = 0; i < n; ++i) c.checkNear(x[i], (double)r[i], 1e-3, 1e-3 * xm, "reference", S() << i);
    // solving in place
    V y = b; L.Solve(&m[0], &y[0], &y[0], n); for (int i = 0; i < n; ++i) c.check(y[i] == x[i], "in-place", S() << i);
    // linearity: twice the right-hand side gives exactly twice the answer
    V b2 = b, x2(n); for (int i = 0; i < n; ++i) b2[i] *= 2.; L.Solve(&m[0], &b2[0], &x2[0], n); for (int i = 0; i < n; ++i) c.check(x2[i] == 2. * x[i], "linear", S() << i);
    // an M-matrix answers non-negative sources with non-negative potentials
    V bp = b; for (int i = 0; i < n; ++i) bp[i] = std::fabs(b[i]); L.Solve(&m[0], &bp[0], &x2[0], n); for (int i = 0; i < n; ++i) c.check(s.mixed || x2[i] >= 0., "monotone", S() << i << " " << x2[i]);
    // C version agrees
    V mc = s.A; c.check(Choleski_LDU_Decomposition(&mc[0], n) == -1, "c-decompose", "refused"); for (int k = 0; k < n * n; ++k) if (s.scale < 1e10) c.checkNear(mc[k], f[k], 1e-6, 1e-12, "c-factors", S() << k); V xc(n); c.check(Choleski_LDU_Solve(&mc[0], bb.data(), &xc[0], n) == -1, "c-solve", "refused"); if (s.scale < 1e10) for (int i = 0; i < n; ++i) c.checkNear(xc[i], x[i], 1e-3, 1e-3 * xm, "c-solution", S() << i);
    bool coupled = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (s.A[i * n + j] != 0.) coupled = true; if (coupled) c.nontrivial();
}
FACET(invert, 10000, 300000, "at least three rows") {
    Sys s = gen(c, 16); const int n = s.n; show(c, s.A, n); CholeskyLdu L; V m = s.A; L.Decompose(&m[0], n); const V f = m; L.Invert(&m[0], n); V mc = f; Choleski_LDU_Inverse(&mc[0], n);
    if (s.scale < 1e10)     for (int j = 0; j < n; ++j) { V col(n), e(n, 0.); e[j] = 1.; for (int i = 0; i < n; ++i) { col[i] = m[i * n + j]; c.check(m[i * n + j] == m[j * n + i], "symmetric", S() << i << "," << j); c.check(s.mixed || col[i] >= 0., "nonnegative", S() << i << "," << j); c.checkNear(mc[i * n + j], col[i], 1e-9, 0., "c-inverse", ""); }
        LV r = solveRef(s.A, e, n); double xm = 0.; for (int i = 0; i < n; ++i) xm = std::max(xm, std::fabs((double)r[i])); for (int i = 0; i < n; ++i) c.checkNear(col[i], (double)r[i], 1e-4, 1e-4 * xm, "inverse", S() << i << "," << j);
        V ff = f, x(n); L.Solve(&ff[0], &e[0], &x[0], n); for (int i = 0; i < n; ++i) c.checkNear(x[i], col[i], 1e-4, 1e-4 * xm, "unit-solve", S() << i << "," << j); }
    if (n >= 3) c.nontrivial();
}
// ---- decomposing a subset of rows inside a larger matrix is decomposing the sub-matrix, and touches nothing else
FACET(partition, 20000, 500000, "the partition skips rows and has at least two of them") {
    Sys s = gen(c, 14); const int n = s.n; std::vector<int> r; for (int i = 0; i < n; ++i) if (c.b(0.6)) r.push_back(i); if (r.empty()) r.push_back(c.i(0, n - 1)); const int rn = (int)r.size(); show(c, s.A, n); c.log() << "rows"; for (int i = 0; i < rn; ++i) c.log() << " " << r[i]; c.log() << "\n";
    V sub(rn * rn); for (int i = 0; i < rn; ++i) for (int j = 0; j < rn; ++j) sub[i * rn + j] = s.A[r[i] * n + r[j]]; CholeskyLdu L; L.Decompose(&sub[0], rn); V m = s.A; L.Decompose(&m[0], n, r);
    std::vector<int> in(n, -1); for (int i = 0; i < rn; ++i) in[r[i]] = i;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (in[i] >= 0 && in[j] >= 0) c.checkNear(m[i * n + j], sub[in[i] * rn + in[j]], 1e-12, 1e-90, "partition", S() << i << "," << j); else c.check(m[i * n + j] == s.A[i * n + j], "outside", S() << "row " << i << "," << j << " is outside the partition"); }
    if (rn >= 2 && rn < n) c.nontrivial();
}
// ---- systems that cannot be decomposed are refused, wherever the bad pivot is
FACET(refuse, 10000, 200000, "the bad pivot is not in the last row") {
    Sys s = gen(c, 10); const int n = s.n; const int bad = c.i(0, n - 1), how = c.i(0, 2);
    if (how == 0) { for (int j = 0; j < n; ++j) s.A[bad * n + j] = s.A[j * n + bad] = 0.; }           // an empty row
    else if (how == 1) s.A[bad * n + bad] = -std::fabs(s.A[bad * n + bad]);                             // a negative diagonal
    else s.A[bad * n + bad] *= -1e-3;
    show(c, s.A, n); CholeskyLdu L; V m = s.A; bool threw = false; try { L.Decompose(&m[0], n); } catch (std::exception&) { threw = true; } c.check(threw, "accepted", S() << "row " << bad << " of " << n << " kind " << how);
    std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); m = s.A; threw = false; try { L.Decompose(&m[0], n, all); } catch (std::exception&) { threw = true; } c.check(threw, "partition-accepted", S() << "row " << bad << " of " << n);
    if (how == 0) c.check(!Sor::isPositiveDefinite(&s.A[0], n), "sor-accepted", S() << "row " << bad);
    if (bad < n - 1) c.nontrivial();
    // a zero pivot handed straight to Solve is refused too
    V d(n * n, 0.), b(n, 1.), x(n); for (int i = 0; i < n; ++i) d[i * n + i] = 1.; d[bad * n + bad] = 0.; threw = false; try { L.Solve(&d[0], &b[0], &x[0], n); } catch (std::exception&) { threw = true; } c.check(threw, "solve-zero-pivot", S() << bad);
}
FACET(sor, 10000, 200000, "it converged in more than two iterations") {
    Sys s = gen(c, 12); const int n = s.n; const V b = genB(c, n); for (int i = 0; i < n; ++i) if (c.b(0.7)) s.A[i * n + i] *= c.r(1.01, 3.); show(c, s.A, n); c.check(Sor::isPositiveDefinite(&s.A[0], n), "pd", "");
    const double tol = c.lr(1e-14, 1e-3); const float w = (float)c.r(0.2, 1.9); const int cap = c.pickOf<int>({2, 10, 100, 2000}); V x(n), A = s.A; for (int i = 0; i < n; ++i) x[i] = c.b() ? 0. : c.sr(1e-3, 1e3); const V x0 = x;
    const int k = Sor::solve(&x[0], &A[0], &b[0], n, w, cap, tol); c.check(A == s.A, "matrix-changed", ""); c.check(k == -1 || (k >= 1 && k < cap), "count", S() << k << " of " << cap);
    // model: the same sweeps in extended precision
    LV y(x0.begin(), x0.end()); int kk = -1; bool edge = false; for (int it = 1; it < cap; ++it) { long double e = 0, ym = 0; for (int i = 0; i < n; ++i) { long double t = b[i]; for (int j = 0; j < n; ++j) if (j != i) t -= (long double)s.A[i * n + j] * y[j]; long double v = (1.L - w) * y[i] + w / (long double)s.A[i * n + i] * t; e += fabsl(v - y[i]); ym = std::max(ym, std::max(fabsl(v), fabsl(y[i]))); y[i] = v; } if (fabsl(e - (long double)tol * n) < 1e-3L * tol * n + 1e-12L * n * ym) edge = true; if (e < (long double)tol * n) { kk = it; break; } }
    if (!edge) c.check(k == kk, "iterations", S() << "reported " << k << " expected " << kk); double xm = 0.; for (int i = 0; i < n; ++i) xm = std::max(xm, (double)fabsl(y[i])); if (k == kk) for (int i = 0; i < n; ++i) c.checkNear(x[i], (double)y[i], 1e-6, 1e-6 * xm, "iterate", S() << i);
    // converged from the solution itself at once
    LV r = solveRef(s.A, b, n); V xs(n); double rm = 0.; for (int i = 0; i < n; ++i) { xs[i] = (double)r[i]; rm = std::max(rm, std::fabs(xs[i])); } const int k2 = Sor::solve(&xs[0], &A[0], &b[0], n, w, 5, 1e-6 + 1e-3 * rm); c.check(k2 == 1, "fixed-point", S() << k2);
    if (k > 2) c.nontrivial();
}
