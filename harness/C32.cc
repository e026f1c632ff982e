// C32 root finders and the product-log function.
// vpt: san
#include "vpt.hh"
#include <complex>
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "math/root_finding/BrentMethod.hh"
#include "math/root_finding/LaguerreMethod.hh"
#include "math/elementary_functions/LambertW.hh"
typedef std::complex<double> C;
// A function with one sign change, at a known place.
class Fn : public BrentMethod { public: int kind, calls; double root, a, s, lo, hi; bool escaped; Fn() : kind(0), calls(0), root(0), a(1), s(1), lo(0), hi(0), escaped(false) {}
    double f(double x) const { const double d = x - root; double y = 0; switch (kind) { case 0: y = d; break; case 1: y = d * d * d; break; case 2: y = std::exp(std::min(a * d, 600.)) - 1.; break; case 3: y = std::atan(a * d); break; case 4: y = d >= 0. ? 1. + d : -1. + d; break; case 5: y = d * (1. + a * d * d); break; case 6: y = d / (1. + std::fabs(d)) + 0.2 * std::sin(a * d) * d; if (y * d < 0.) y = d * 1e-3; break; case 7: y = d == 0. ? 0. : (d > 0. ? 1. : -1.) * std::sqrt(std::fabs(d)); break; default: y = std::pow(std::fabs(d), 9.) * (d > 0. ? 1. : -1.); } return s * y; }
    virtual double evaluate(const double x) { ++calls; if (x < std::min(lo, hi) || x > std::max(lo, hi)) escaped = true; return f(x); } };
FACET(brent, 40000, 1000000, "the root is strictly inside the bracket") {
    Fn f; f.kind = c.i(0, 8); f.root = c.sr(1e-3, 1e3); f.a = c.lr(1e-3, 1e2); f.s = c.b() ? c.lr(1e-6, 1e6) : -c.lr(1e-6, 1e6); double w1 = c.b(0.1) ? 0. : c.lr(1e-3, 1e3), w2 = c.b(0.1) ? 0. : c.lr(1e-3, 1e3); f.lo = f.root - w1; f.hi = f.root + w2; const bool bad = c.b(0.1); if (bad) { f.hi = f.lo = f.root + w2 + 1e-3; f.hi += w1; } if (c.b(0.3)) std::swap(f.lo, f.hi);
    const double tol = c.b(0.3) ? 0. : c.lr(1e-12, 1.); c.log() << std::setprecision(17) << "kind " << f.kind << " root " << f.root << " bracket " << f.lo << "," << f.hi << " tol " << tol << " s " << f.s << " a " << f.a << "\n"; double x = 12345.; 
    if (f.f(f.lo) * f.f(f.hi) > 0. || (bad && f.f(f.lo) != 0. && (f.f(f.lo) > 0.) == (f.f(f.hi) > 0.))) { bool t = false; try { f.solve(x, f.lo, f.hi, tol); } catch (TsOutOfBoundsException&) { t = true; } c.check(t && x == 12345., "unbracketed", "an interval without a sign change was accepted"); c.label("refused"); return; }
    bool threw = false; int n = 0; try { n = f.solve(x, f.lo, f.hi, tol); } catch (TsNumericalException&) { threw = true; }
    c.check(!f.escaped, "escaped", "evaluated outside the bracket"); c.check(f.calls <= 102, "calls", S() << f.calls);
    if (threw) { c.label("no convergence"); c.check(x == 12345., "result-on-failure", "a failed search changed the result"); c.check(f.kind != 0 && f.kind != 3 && f.kind != 5 && (f.kind != 2), "gave-up", "a smooth function was not solved"); return; }
    c.check(n >= 1 && n <= 100, "count", S() << n); c.check(x >= std::min(f.lo, f.hi) && x <= std::max(f.lo, f.hi), "bracket", S() << x);
    const double t1 = tol + 8. * DBL_EPSILON * std::fabs(x) + 1e-300; if (f.f(x) != 0.) { const double m = f.f(std::max(std::min(f.lo, f.hi), x - t1)), p = f.f(std::min(std::max(f.lo, f.hi), x + t1)); c.check(m * p <= 0. || m == 0. || p == 0. || (m > 0.) != (p > 0.), "not-root", S() << "returned " << x << " off by " << x - f.root); }
    if (f.kind <= 7 && f.kind != 1) c.check(std::fabs(x - f.root) <= tol + 1e-7, "distance", S() << x - f.root); if (w1 > 0. && w2 > 0.) c.nontrivial();
}
FACET(laguerre, 30000, 1000000, "degree at least three") {
    const int m = c.i(1, 8); std::vector<C> r, k(1, C(c.b() ? 1. : c.sr(1e-2, 1e2), 0.)); if (k[0] == 0.) k[0] = 1.; const bool raw = c.b(0.3), realOnly = c.b();
    if (raw) { k.clear(); for (int i = 0; i <= m; ++i) k.push_back(C(c.sr(1e-3, 1e3), realOnly ? 0. : c.sr(1e-3, 1e3))); if (k[m] == 0.) k[m] = 1.; }
    else for (int i = 0; i < m; ++i) { C z(c.b(0.2) ? (double)c.i(-2, 2) : c.sr(1e-2, 1e2), realOnly ? 0. : c.sr(1e-2, 1e2)); if (i && c.b(0.2)) z = r[c.raw(i)]; r.push_back(z); std::vector<C> q(k.size() + 1, 0.); for (size_t j = 0; j < k.size(); ++j) { q[j + 1] += k[j]; q[j] -= z * k[j]; } k = q; }
    C x(c.sr(1e-2, 1e2), c.b() ? 0. : c.sr(1e-2, 1e2)); c.log() << std::setprecision(17) << "start " << x << " coefficients (low to high)"; for (size_t i = 0; i < k.size(); ++i) c.log() << " " << k[i]; c.log() << "\n"; const std::vector<C> k0 = k; int n = 0;
    try { n = LaguerreMethod::solve(x, &k[0], m + 1); } catch (TsNumericalException&) { c.label("no convergence"); return; }
    c.check(n >= 1 && n <= 80, "count", S() << n); c.check(k == k0, "coefficients", "changed"); c.check(vpt::finite(x.real()) && vpt::finite(x.imag()), "finite", "");
    std::complex<long double> p = 0, X(x.real(), x.imag()); long double sc = 0, ax = std::abs(X); for (int i = m; i >= 0; --i) { p = p * X + std::complex<long double>(k[i].real(), k[i].imag()); sc = sc * ax + (long double)(i + 1) * std::abs(k[i]); }
    long double big = 0; for (int i = 0; i <= m; ++i) big = std::max(big, (long double)std::abs(k[i])); c.check(std::abs(p) <= 1e-30L * big + 64.L * m * DBL_EPSILON * sc, "not-root", S() << "p(" << x.real() << "," << x.imag() << ") = " << (double)std::abs(p) << " scale " << (double)sc);
    if (m == 1) c.check(std::abs(x + k[0] / k[1]) <= 1e-10 * (std::abs(x) + 1e-300), "linear", ""); c.label(S() << "degree " << m); if (m >= 3) c.nontrivial();
}
FACET(lambert, 60000, 2000000, "the argument is inside the domain") {
    const double e = std::exp(1.), lo = -1. / e; const int kind = c.i(0, 6); double x; switch (kind) { case 0: x = c.lr(1e-300, 1e300); break; case 1: x = -c.lr(1e-300, 0.36); break; case 2: x = lo + c.lr(1e-16, 0.3); break; case 3: x = c.r(lo, 10.); break; case 4: x = lo - c.lr(1e-15, 1e10); break; case 5: x = c.pickOf<double>({0., 1e300, 2e300, -1e-300, -1e-301, e, lo, 1., -1e-2, 1e-2, 0.1, 100., 1e10, -1e-20, -1e-3, -0.1, -0.364, -0.008}); break; default: x = c.sr(1e-3, 1e6); }
    c.log() << std::setprecision(17) << "x = " << x << "\n"; bool t0 = false, t1 = false, f0 = false, f1 = false; double w0 = 0, w1 = 0, q0 = 0, q1 = 0;
    try { w0 = LambertW::solveW0(x); } catch (TsOutOfBoundsException&) { t0 = true; } try { w1 = LambertW::solveW1(x); } catch (TsOutOfBoundsException&) { t1 = true; } try { q0 = LambertW::fastSolveW0(x); } catch (TsOutOfBoundsException&) { f0 = true; } try { q1 = LambertW::fastSolveW1(x); } catch (TsOutOfBoundsException&) { f1 = true; }
    const bool in0 = x >= lo && x <= 1e300, in1 = x >= lo && x <= -1e-300; c.check(t0 == !in0 && f0 == !in0, "domain-0", S() << x << " " << t0 << f0); c.check(t1 == !in1 && f1 == !in1, "domain-1", S() << x << " " << t1 << f1);
    const double nearB = x - lo; 
    if (in0) { c.check(w0 >= -1. - 1e-7 && vpt::finite(w0), "branch-0", S() << w0); const long double r = (long double)w0 * expl(w0) - x; c.check(fabsl(r) <= 1e-13L * std::fabs(x) * (1. + std::fabs(w0)) + (nearB < 1e-3 ? 3e-12L : 0.L), "equation-0", S() << "W0(" << x << ") = " << w0 << " residual " << (double)r); c.nontrivial();
        const double acc = x < 0.01 ? 0.01 : x < 0.1 ? 0.02 : x < 100. ? 0.008 : x <= 1e10 ? 0.003 : 0.03; c.check(std::fabs(q0 - w0) <= acc * 1.02 * std::fabs(w0) + 1e-300, "fast-0", S() << "W0(" << x << ") = " << w0 << " fast " << q0); }
    if (in1) { c.check(w1 <= -1. + 1e-7 && vpt::finite(w1), "branch-1", S() << w1); if (nearB < 1e-3) { const long double r = (long double)w1 * expl(w1) - x; c.check(fabsl(r) <= 3e-12L, "equation-1-near", S() << w1 << " residual " << (double)r); } else { const long double r = w1 + logl(-w1) - logl(-x); c.check(fabsl(r) <= 1e-12L * std::fabs(w1), "equation-1", S() << "W1(" << x << ") = " << w1 << " residual " << (double)r); }
        const double acc = x > -1e-20 || x < -0.364 ? 1e-9 : x > -0.1 ? 0.004 : 0.016; c.check(std::fabs(q1 - w1) <= acc * 1.02 * std::fabs(w1), "fast-1", S() << "W1(" << x << ") = " << w1 << " fast " << q1); c.check(w1 <= w0 + 1e-6, "order", S() << w1 << " " << w0); }
    // increasing on the principal branch, decreasing on the other; a loose convergence stays close
    if (in0 && x < 1e299) { const double x2 = x + std::fabs(x) * 0.01 + 1e-6, v = LambertW::solveW0(x2); c.check(v >= w0 - 1e-7, "monotone-0", S() << x << "->" << w0 << " " << x2 << "->" << v); const double loose = LambertW::solveW0(x, 1e-3); c.check(std::fabs(loose - w0) <= 2e-3 * (1. + std::fabs(w0)), "convergence", S() << loose << " " << w0); }
    if (in1 && x * 0.99 <= -1e-300) { const double v = LambertW::solveW1(x * 0.99); c.check(v <= w1 + 1e-7, "monotone-1", S() << x << "->" << w1 << " " << x * 0.99 << "->" << v); }
}
