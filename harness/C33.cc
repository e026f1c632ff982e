// C33 approximations.
// vpt: san
#include "vpt.hh"
#include "math/MsMath.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "math/approximation/TsLinearInterpolator.hh"
#include "math/approximation/TsBilinearInterpolator.hh"
#include "math/approximation/TsBilinearInterpolatorReverse.hh"
#include "math/approximation/LinearFit.hh"
#include "math/approximation/QuadraticFit.hh"
#include "math/approximation/CubicFit.hh"
#include "math/approximation/QuarticFit.hh"
#include "math/approximation/QuinticFit.hh"
#include "math/approximation/ExponentialFit.hh"
#include "math/approximation/InvLinearFit.hh"
#include "math/approximation/InvQuadraticFit.hh"
#include "math/approximation/PowerFit.hh"
#include "math/approximation/ProductFit.hh"
#include "math/approximation/QuotientFit.hh"
#include "math/approximation/QuadLinFit.hh"
#include "math/approximation/QuadLinInvFit.hh"
#include "math/approximation/QuadraticRootFit.hh"
#include "math/approximation/RationalFit.hh"
#include "math/approximation/ShowmateFit.hh"
#include "math/approximation/SutherlandFit.hh"
typedef std::vector<double> V;
static V axis(Case& c, int n) { V x(n); x[0] = c.sr(1e-2, 1e3); for (int i = 1; i < n; ++i) x[i] = x[i - 1] + c.lr(1e-2, 1e2); return x; }
static V rev(V v) { std::reverse(v.begin(), v.end()); return v; }
static double clampd(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static double ask(Case& c, const V& x) { switch (c.i(0, 4)) { case 0: return x[c.raw(x.size())]; case 1: return clampd(x[0], c.r(x[0], x.back()), x.back()); case 2: { int i = c.i(0, (int)x.size() - 2); return x[i] + (x[i + 1] - x[i]) * c.r(0., 1.); } case 3: return x[0] - c.lr(1e-9, 1e6); default: return x.back() + c.lr(1e-9, 1e6); } }
static void range(Case& c, const V& x, double& lo, double& hi) { lo = x[0]; hi = x.back(); if (c.b(0.3)) { double a = clampd(x[0], c.r(x[0], x.back()), x.back()), b = clampd(x[0], c.r(x[0], x.back()), x.back()); if (a > b) std::swap(a, b); if (b > a) { lo = a; hi = b; } } }
static void show(Case& c, const char* n, const V& v) { c.log() << std::setprecision(17) << n << ":"; for (size_t i = 0; i < v.size(); ++i) c.log() << " " << v[i]; c.log() << "\n"; }
static double lin1(const V& x, const V& z, double q) { size_t k = 0; while (k + 2 < x.size() && q > x[k + 1]) ++k; return z[k] + (z[k + 1] - z[k]) * (q - x[k]) / (x[k + 1] - x[k]); }

FACET(linear, 30000, 800000, "more than two points and queries in different cells") {
    TsLinearInterpolator t; const int tables = c.i(1, 3); size_t cells = 0;
    for (int k = 0; k < tables; ++k) {           // the object may be given one table after another
        const int n = c.i(2, 9); V x = axis(c, n), z(n); for (int i = 0; i < n; ++i) z[i] = c.sr(1e-3, 1e3); const bool desc = c.b(0.3); double lo, hi; range(c, x, lo, hi); show(c, "x", x); show(c, "z", z); c.log() << "range " << lo << "," << hi << (desc ? " given descending\n" : "\n");
        V gx = desc ? rev(x) : x, gz = desc ? rev(z) : z; t.init(&gx[0], &gz[0], n, lo, hi, "t"); c.check(t.isInitialized(), "initialized", ""); std::set<size_t> seen;
        for (int q = 0, m = c.i(1, 12); q < m; ++q) {
            const double a = ask(c, x), w = clampd(lo, a, hi), y = t.get(a), e = lin1(x, z, w); double sc = 0; size_t cell = 0; while (cell + 2 < x.size() && w > x[cell + 1]) ++cell; seen.insert(cell); sc = std::max(std::fabs(z[cell]), std::fabs(z[cell + 1]));
            c.checkNear(y, e, 1e-9, 1e-9 * sc, "value", S() << "at " << a); if (a == w) { for (int i = 0; i < n; ++i) if (a == x[i]) c.checkNear(y, z[i], 1e-12, 1e-12 * sc, "table-point", S() << "at " << a); c.check(y <= std::max(z[cell], z[cell + 1]) + 1e-9 * sc && y >= std::min(z[cell], z[cell + 1]) - 1e-9 * sc, "between", S() << "at " << a << " gives " << y); c.check(t.getExceptional(a) == t.get(a), "exceptional", ""); }
            else { bool th = false; try { t.getExceptional(a); } catch (TsOutOfBoundsException&) { th = true; } c.check(th, "out-of-range", S() << "at " << a); c.check(y == t.get(w), "clamped", S() << "at " << a); }
        }
        cells = std::max(cells, seen.size());
    }
    if (cells > 1) c.nontrivial();
}
static double bil(const V& x, const V& y, const V& z, double a, double b) { size_t i = 0, j = 0, n = y.size(); while (i + 2 < x.size() && a > x[i + 1]) ++i; while (j + 2 < n && b > y[j + 1]) ++j; const long double u = (a - x[i]) / (x[i + 1] - x[i]), v = (b - y[j]) / (y[j + 1] - y[j]); return (double)((1 - u) * (1 - v) * z[i * n + j] + u * (1 - v) * z[(i + 1) * n + j] + (1 - u) * v * z[i * n + j + 1] + u * v * z[(i + 1) * n + j + 1]); }
FACET(bilinear, 25000, 600000, "more than one cell and an axis given descending") {
    TsBilinearInterpolator t; bool nt = false;
    for (int k = 0, tables = c.i(1, 2); k < tables; ++k) {
        const int m = c.i(2, 6), n = c.i(2, 6); V x = axis(c, m), y = axis(c, n), z(m * n); for (int i = 0; i < m * n; ++i) z[i] = c.sr(1e-2, 1e3); const bool dx = c.b(0.4), dy = c.b(0.4); double lo, hi, ylo, yhi; range(c, x, lo, hi); range(c, y, ylo, yhi); show(c, "x", x); show(c, "y", y); show(c, "z", z); c.log() << "descending " << dx << dy << "\n";
        V gz(m * n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) gz[i * n + j] = z[(dx ? m - 1 - i : i) * n + (dy ? n - 1 - j : j)]; V gx = dx ? rev(x) : x, gy = dy ? rev(y) : y;
        t.init(&gx[0], &gy[0], &gz[0], m, n, lo, hi, ylo, yhi, "t"); c.check(t.isInitialized(), "initialized", "");
        for (int q = 0, p = c.i(1, 12); q < p; ++q) { const double a = ask(c, x), b = ask(c, y), ca = clampd(lo, a, hi), cb = clampd(ylo, b, yhi), v = t.get(a, b), e = bil(x, y, z, ca, cb); double zm = 0; for (int i = 0; i < m * n; ++i) zm = std::max(zm, std::fabs(z[i])); c.checkNear(v, e, 1e-9, 1e-10 * zm, "value", S() << "at " << a << "," << b);
            for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (ca == x[i] && cb == y[j]) c.checkNear(v, z[i * n + j], 1e-9, 1e-12 * zm, "table-point", S() << "at " << a << "," << b);
            bool th = false; try { c.check(t.getExceptional(a, b) == v, "exceptional", ""); } catch (TsOutOfBoundsException&) { th = true; } c.check(th == (a != ca || b != cb), "out-of-range", S() << "at " << a << "," << b); }
        if ((dx || dy) && (m > 2 || n > 2)) nt = true;
    }
    if (nt) c.nontrivial();
}
FACET(reverse, 25000, 600000, "the requested value lies on the table at that point and the table has several cells") {
    const int m = c.i(2, 5), n = c.i(2, 6), shape = c.i(0, 3); V x = axis(c, m), y = axis(c, n), z(m * n); for (int i = 0; i < m; ++i) { double v = c.sr(1., 100.); for (int j = 0; j < n; ++j) { if (shape == 0) z[i * n + j] = v = v + c.lr(0.1, 50.); else if (shape == 1) z[i * n + j] = v = v - c.lr(0.1, 50.); else if (shape == 2) z[i * n + j] = c.sr(1., 100.); else z[i * n + j] = c.i(0, 3); } }
    if (shape == 1 && c.b()) { std::sort(z.begin(), z.end()); z = rev(z); } show(c, "x", x); show(c, "y", y); show(c, "z", z); TsBilinearInterpolatorReverse t(&x[0], &y[0], &z[0], m, n, x[0], x.back(), y[0], y.back(), "t"); c.check(t.isInitialized(), "initialized", ""); double zlo = z[0], zhi = z[0]; for (int i = 0; i < m * n; ++i) { zlo = std::min(zlo, z[i]); zhi = std::max(zhi, z[i]); } bool hit = false;
    for (int q = 0, p = c.i(1, 10); q < p; ++q) {
        const double a = ask(c, x), ca = clampd(x[0], a, x.back()); double w; switch (c.i(0, 3)) { case 0: w = bil(x, y, z, ca, c.r(y[0], y.back())); break; case 1: w = z[c.raw(z.size())]; break; case 2: w = c.b() ? zlo : zhi; break; default: w = c.b() ? zlo - c.lr(1e-3, 1e3) : zhi + c.lr(1e-3, 1e3); } const double cw = clampd(zlo, w, zhi), g = t.get(a, w); const std::string at = S() << "x " << a << " z " << w << " gives y " << g;
        c.check(g >= y[0] - 1e-9 && g <= y.back() + 1e-9, "range", at); V row(n); double rlo = 1e300, rhi = -1e300; for (int j = 0; j < n; ++j) { row[j] = bil(x, y, z, ca, y[j]); rlo = std::min(rlo, row[j]); rhi = std::max(rhi, row[j]); }
        const double sc = std::max(std::fabs(zlo), std::fabs(zhi)); if (cw >= rlo && cw <= rhi) { c.checkNear(lin1(y, row, g), cw, 1e-8, 1e-8 * sc, "inverse", at); if (m > 2 || n > 2) hit = true; } else if (cw < rlo - 1e-9 * sc || cw > rhi + 1e-9 * sc) c.checkNear(lin1(y, row, g), cw < rlo ? rlo : rhi, 1e-8, 1e-8 * sc, "nearest", at);
        if (w != cw) { bool th = false; try { t.getExceptional(a, w); } catch (TsOutOfBoundsException&) { th = true; } c.check(th, "out-of-range", at); }
    }
    if (hit) c.nontrivial();
}
// ---- curve fits: the documented formula inside the range, its end value outside, and no accepted range with a singularity
template <class T, class... A> static void mk(std::unique_ptr<TsApproximation>& f, int route, A... a) { if (route == 0) f.reset(new T(a...)); else { if (!f) f.reset(new T); static_cast<T*>(f.get())->init(a...); } }
FACET(fits, 60000, 1500000, "the fit was accepted and evaluated inside its range") {
    const int kind = c.i(0, 16); V k(6); for (int i = 0; i < 6; ++i) k[i] = c.b(0.1) ? 0. : c.sr(1e-3, 1e2); double lo = c.b() ? c.lr(1e-2, 1e3) : c.sr(1e-2, 1e3), hi = lo + c.lr(1e-2, 1e3), ylo = c.sr(1e-2, 1e2), yhi = ylo + c.lr(1e-2, 1e2); if (kind == 8) { lo = c.r(-5., 5.); hi = lo + c.lr(1e-2, 10.); k[1] = c.lr(1e-2, 10.); } if (kind == 5 || kind == 7) for (int i = 0; i < 3; ++i) k[i] = c.sr(1e-3, 1.);
    if (c.b(0.05)) { hi = lo; } c.log() << std::setprecision(17) << "kind " << kind << " k " << k[0] << " " << k[1] << " " << k[2] << " " << k[3] << " " << k[4] << " " << k[5] << " x " << lo << "," << hi << " y " << ylo << "," << yhi << "\n"; const bool two = kind == 9 || kind == 10 || kind == 11 || kind == 12;
    // roots of the divisor inside the range
    std::vector<double> roots; bool bad = false; auto quad = [&](double a0, double a1, double a2) { if (a2 != 0.) { double d = a1 * a1 - 4. * a0 * a2; if (d >= 0.) { roots.push_back((-a1 + std::sqrt(d)) / (2. * a2)); roots.push_back((-a1 - std::sqrt(d)) / (2. * a2)); } } else if (a1 != 0.) roots.push_back(-a0 / a1); else if (a0 == 0.) bad = true; };
    if (kind == 5 || kind == 6 || kind == 7 || kind == 10 || kind == 15) roots.push_back(0.); if (kind == 12) quad(k[1], k[3], k[5]); if (kind == 14) quad(1., k[2], k[3]); if (kind == 16) roots.push_back(-k[1]); for (size_t i = 0; i < roots.size(); ++i) if (roots[i] > lo && roots[i] < hi) bad = true; if (kind == 13 && k[1] == 0.) bad = true; if (kind == 13 && k[1] != 0. ) { const double b = -k[0] * k[0] / (4. * k[1]); if (lo + 1e-6 < b && b < hi - 1e-6) bad = true; }
    std::unique_ptr<TsApproximation> f; bool threw = false;
    const int route = c.i(0, 2); c.log() << (route == 0 ? "constructed" : route == 1 ? "initialised" : "initialised twice") << "\n"; const V kk = k;
    for (int pass = route == 2 ? 0 : 1; pass < 2; ++pass) { k = kk; if (pass == 0) { for (int i = 0; i < 6; ++i) k[i] = kk[5 - i] + 1.; if (kind == 8) k[1] = std::fabs(k[1]); } threw = false;
        try { switch (kind) {
        case 0: mk<LinearFit>(f, route, k[0], k[1], lo, hi, std::string("f")); break; case 1: mk<QuadraticFit>(f, route, k[0], k[1], k[2], lo, hi, std::string("f")); break; case 2: mk<CubicFit>(f, route, k[0], k[1], k[2], k[3], lo, hi, std::string("f")); break; case 3: mk<QuarticFit>(f, route, k[0], k[1], k[2], k[3], k[4], lo, hi, std::string("f")); break; case 4: mk<QuinticFit>(f, route, k[0], k[1], k[2], k[3], k[4], k[5], lo, hi, std::string("f")); break;
        case 5: mk<ExponentialFit>(f, route, k[0], k[1], k[2], lo, hi, std::string("f")); break; case 6: mk<InvLinearFit>(f, route, k[0], k[1], k[2], lo, hi, std::string("f")); break; case 7: mk<InvQuadraticFit>(f, route, k[0], k[1], k[2], lo, hi, std::string("f")); break; case 8: mk<PowerFit>(f, route, k[0], k[1], lo, hi, std::string("f")); break; case 9: mk<ProductFit>(f, route, k[0], lo, hi, ylo, yhi, std::string("f")); break; case 10: mk<QuotientFit>(f, route, k[0], lo, hi, ylo, yhi, std::string("f")); break;
        case 11: mk<QuadLinFit>(f, route, k[0], k[1], k[2], k[3], k[4], k[5], lo, hi, ylo, yhi, std::string("f")); break; case 12: mk<QuadLinInvFit>(f, route, k[0], k[1], k[2], k[3], k[4], k[5], lo, hi, ylo, yhi, std::string("f")); break; case 13: mk<QuadraticRootFit>(f, route, k[0], k[1], lo, hi, std::string("f")); break; case 14: mk<RationalFit>(f, route, k[0], k[1], k[2], k[3], lo, hi, std::string("f")); break; case 15: mk<ShowmateFit>(f, route, k[0], k[1], k[2], k[3], k[4], lo, hi, std::string("f")); break; default: mk<SutherlandFit>(f, route, k[0], k[1], lo, hi, std::string("f")); break; } } catch (TsInitializationException&) { threw = true; } }
    k = kk;
    if (lo >= hi) { c.check(threw, "empty-range", ""); return; }
    if (bad && !threw && kind == 12) c.known("quadlininv-singularity"); if (bad && !threw && kind == 14) c.known("rational-singularity");
    if (bad) { c.check(threw, "singularity", "a range with a singularity inside it was accepted"); c.label("refused"); return; } if (threw) { bool near = kind == 12 || kind == 14 || kind == 13; for (size_t i = 0; i < roots.size(); ++i) if (roots[i] >= lo - 1e-6 && roots[i] <= hi + 1e-6) near = true; c.check(near, "refused", "a good range was refused"); return; }
    c.check(f->isInitialized(), "initialized", "");
    auto ref = [&](long double x, long double y) -> long double { switch (kind) { case 0: return k[0] + k[1] * x; case 1: return k[0] + k[1] * x + k[2] * x * x; case 2: return k[0] + k[1] * x + k[2] * x * x + k[3] * x * x * x; case 3: return k[0] + k[1] * x + k[2] * x * x + k[3] * x * x * x + k[4] * x * x * x * x; case 4: return k[0] + k[1] * x + k[2] * x * x + k[3] * x * x * x + k[4] * x * x * x * x + k[5] * x * x * x * x * x;
        case 5: return expl(k[0] + k[1] / x + k[2] / x / x); case 6: return k[0] * x + k[1] + k[2] / x; case 7: return k[0] + k[1] / x + k[2] / x / x; case 8: return k[0] * powl(k[1], x); case 9: return k[0] * x * y; case 10: return k[0] * y / x; case 11: return k[0] + k[1] * y + (k[2] + k[3] * y) * x + (k[4] + k[5] * y) * x * x; case 12: return (y - k[0] - k[2] * x - k[4] * x * x) / (k[1] + k[3] * x + k[5] * x * x); case 13: return (-k[0] + sqrtl(k[0] * k[0] + 4.L * k[1] * x)) / (2.L * k[1]); case 14: return (k[0] + k[1] * x) / (1.L + k[2] * x + k[3] * x * x); case 15: { long double t = x / 1000.L; return k[0] + k[1] * t + k[2] * t * t + k[3] * t * t * t + k[4] / t / t; } default: return k[0] * powl(x, 1.5L) / (k[1] + x); } };
    bool in = false; for (int q = 0; q < 4; ++q) { const double a = c.b(0.6) ? c.r(lo, hi) : c.b() ? lo - c.lr(1e-6, 1e4) : hi + c.lr(1e-6, 1e4), b = two ? (c.b(0.7) ? c.r(ylo, yhi) : c.b() ? ylo - c.lr(1e-6, 1e3) : yhi + c.lr(1e-6, 1e3)) : 0.; const double ca = clampd(lo, a, hi), cb = two ? clampd(ylo, b, yhi) : 0.; const long double e = ref(ca, cb); const double v = f->get(a, b);
        if (!std::isfinite((double)e) || fabsl(e) > 1e200L) continue; if (kind == 12 && fabsl(k[1] + k[3] * (long double)ca + k[5] * (long double)ca * ca) < 1e-9L * (std::fabs(k[1]) + std::fabs(k[3] * ca) + std::fabs(k[5] * ca * ca))) continue; if (kind == 14 && fabsl(1.L + k[2] * (long double)ca + k[3] * (long double)ca * ca) < 1e-9L * (1. + std::fabs(k[2] * ca) + std::fabs(k[3] * ca * ca))) continue; double sc = std::fabs((double)e); for (int i = 0; i < 6; ++i) { const double t = std::fabs(k[i]) * std::pow(std::max(1., std::fabs(ca)), kind == 12 || kind == 11 ? 2 : std::min(i, 5)); if (kind <= 4 || kind == 11) sc = std::max(sc, t * (kind == 11 ? std::max(1., std::fabs(cb)) : 1.)); } 
        double tol = 1e-11 * sc; if (kind == 12 || kind == 14 || kind == 16 || kind == 13) { const double h = 1e-12 * std::max(1., std::fabs(ca)); const long double e1 = ref(ca + h, cb), e2 = ref(ca - h, cb); tol += (double)(fabsl(e1 - e) + fabsl(e2 - e)) + 1e-9 * std::fabs((double)e); double num = std::fabs(cb) + std::fabs(k[0]) + std::fabs(k[2] * ca) + std::fabs(k[4] * ca * ca); if (kind == 12) { const long double d = k[1] + k[3] * (long double)ca + k[5] * (long double)ca * ca; const double dm = std::fabs(k[1]) + std::fabs(k[3] * ca) + std::fabs(k[5] * ca * ca); tol += 1e-13 * (num / (double)fabsl(d) + std::fabs((double)e) * dm / (double)fabsl(d)); } if (kind == 14) { const double dm = 1. + std::fabs(k[2] * ca) + std::fabs(k[3] * ca * ca); const long double d = 1.L + k[2] * (long double)ca + k[3] * (long double)ca * ca; tol += 1e-13 * (std::fabs(k[0]) + std::fabs(k[1] * ca) + std::fabs((double)e) * dm) / (double)fabsl(d); } if (kind == 13) tol += 1e-12 * std::fabs(k[0] / k[1]) + 1e-8 * std::fabs((double)e); } if (kind == 6 || kind == 7 || kind == 15) tol += 1e-12 * (std::fabs(k[0]) * std::max(1., std::fabs(ca)) + std::fabs(k[1]) * std::max(1., std::fabs(ca)) + std::fabs(k[2]) * (1. + ca * ca) + std::fabs(k[2] / ca) + std::fabs(k[2] / ca / ca) + std::fabs(k[3] * ca * ca * ca * 1e-9) + std::fabs(k[4] / ca / ca * 1e6)); if (kind == 5) tol = 1e-9 * std::fabs((double)e) * (1. + std::fabs(k[2] / ca / ca) + std::fabs(k[1] / ca));
        c.checkNear(v, (double)e, 1e-11, tol, "formula", S() << "at " << a << "," << b); if (ca == a && cb == b) { in = true; c.check(f->getExceptional(a, b) == v, "exceptional", ""); } else { bool th = false; try { f->getExceptional(a, b); } catch (TsOutOfBoundsException&) { th = true; } c.check(th, "out-of-range", ""); c.check(f->get(ca, cb) == v, "clamp", ""); } }
    if (in) c.nontrivial();
}
// ---- tables that cannot be interpolated are refused, and a refused object can be initialised again or destroyed
FACET(refuse, 15000, 300000, "a two-dimensional table was refused after a good one or before one") {
    const int m = c.i(2, 5), n = c.i(2, 5); V x = axis(c, m), y = axis(c, n), z(m * n, 1.); const int how = c.i(0, 6); const bool before = c.b(), after = c.b(); c.log() << "how " << how << " before " << before << " after " << after << "\n"; V bx = x, by = y; double lo = x[0], hi = x.back(), ylo = y[0], yhi = y.back(); int bm = m, bn = n; const double* pz = &z[0];
    switch (how) { case 0: if (m < 3) return; { int i = c.i(0, m - 2); bx[i + 1] = bx[i]; if (i + 1 == m - 1) hi = bx[i]; if (lo >= hi) return; } break; case 1: lo = x[0] - 1.; break; case 2: hi = x.back() + 1.; break; case 3: bm = 1; break; case 4: bn = 1; break; case 5: pz = 0; break; default: yhi = y.back() + 1.; }
    { TsBilinearInterpolator t; if (before) t.init(&x[0], &y[0], &z[0], m, n, x[0], x.back(), y[0], y.back(), "t"); bool th = false; try { t.init(&bx[0], &by[0], pz, bm, bn, lo, hi, ylo, yhi, "t"); } catch (TsInitializationException&) { th = true; } c.check(th && !t.isInitialized(), "accepted", S() << how); if (after) { t.init(&x[0], &y[0], &z[0], m, n, x[0], x.back(), y[0], y.back(), "t"); c.check(t.isInitialized() && std::fabs(t.get(x[0], y[0]) - 1.) < 1e-12, "again", ""); } }
    if (how < 4 || how == 5) { TsLinearInterpolator t; V z1(m, 2.); if (before) t.init(&x[0], &z1[0], m, x[0], x.back(), "t"); bool th = false; try { t.init(&bx[0], pz ? &z1[0] : 0, bm, lo, hi, "t"); } catch (TsInitializationException&) { th = true; } c.check(th && !t.isInitialized(), "linear-accepted", S() << how); if (after) { t.init(&x[0], &z1[0], m, x[0], x.back(), "t"); c.check(t.isInitialized() && std::fabs(t.get(x[0]) - 2.) < 1e-12, "linear-again", ""); } }
    c.nontrivial();
}
