// C34 unit conversions, random numbers, intersections and queue helpers.
// vpt: san
#include "vpt.hh"
#include "math/UnitConversion.hh"
#include "math/TS_random.hh"
#include "math/time/Time.hh"
#include "math/intersect/LineSegmentIntersect.hh"
#include "software/SimBus/SimBusQutils.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "simulation/hs/TsHsMsgWrapper.hh"
static int logs = 0;
#undef hsSendMsgC
#define hsSendMsgC(...) (++logs)
#include "units/TS_conversions.c"
typedef UnitConversion U;
typedef long double L;
// ---- each conversion against its defining relation, through the selector and directly; inverse pairs round trip
struct Cv { U::Type t; const char* n; L mul, add, tol; };      // y = (x * mul) + add
static const L LB = 0.45359237L, PSI = 6.8947572931683613L, MMHG = 0.133322387415L, C0 = 273.15L, F0 = 459.67L;
static const Cv LIN[] = { {U::NO_CONVERSION, "none", 1, 0, 0}, {U::UNIT_TO_MICRO, "micro", 1e6L, 0, 1e-14}, {U::UNIT_TO_MILLI, "milli", 1e3L, 0, 1e-14}, {U::UNIT_TO_KILO, "kilo", 1e-3L, 0, 1e-14}, {U::UNIT_TO_MEGA, "mega", 1e-6L, 0, 1e-14}, {U::FRAC_TO_PERCENT, "percent", 100, 0, 1e-14}, {U::UNIT_PER_SEC_TO_UNIT_PER_HOUR, "per-hour", 3600, 0, 1e-14},
    {U::F_TO_R, "F-R", 1, F0, 1e-14}, {U::F_TO_C, "F-C", 1 / 1.8L, -32 / 1.8L, 1e-12}, {U::F_TO_K, "F-K", 1 / 1.8L, F0 / 1.8L, 1e-12}, {U::R_TO_F, "R-F", 1, -F0, 1e-14}, {U::R_TO_C, "R-C", 1 / 1.8L, -C0, 1e-12}, {U::R_TO_K, "R-K", 1 / 1.8L, 0, 1e-12}, {U::C_TO_F, "C-F", 1.8L, 32, 1e-14}, {U::C_TO_R, "C-R", 1.8L, C0 * 1.8L, 1e-14}, {U::C_TO_K, "C-K", 1, C0, 1e-14}, {U::K_TO_C, "K-C", 1, -C0, 1e-14}, {U::K_TO_F, "K-F", 1.8L, -F0, 1e-14}, {U::K_TO_R, "K-R", 1.8L, 0, 1e-14},
    {U::KPA_TO_PSI, "kPa-psi", 1 / PSI, 0, 1e-6}, {U::KPA_TO_MMHG, "kPa-mmHg", 1 / MMHG, 0, 1e-6}, {U::KPA_TO_MILLITORR, "kPa-mTorr", 1e6L * 760.L / 101325.L, 0, 1e-6}, {U::KPA_TO_INH2O, "kPa-inH2O", 1000 / 9.80665L / 25.4L, 0, 1e-6}, {U::PSI_TO_KPA, "psi-kPa", PSI, 0, 1e-6}, {U::KG_PER_SEC_TO_LBM_PER_HOUR, "kg/s-lbm/h", 3600 / LB, 0, 1e-6}, {U::KG_PER_SEC_TO_SCFM0C, "kg/s-scfm", 60 / 1.2922L * 35.3146667L, 0, 2e-3}, {U::LBM_PER_HOUR_TO_KG_PER_SEC, "lbm/h-kg/s", LB / 3600, 0, 1e-6},
    {U::RAD_TO_DEG, "rad-deg", 57.295779513082320877L, 0, 1e-12}, {U::DEG_TO_RAD, "deg-rad", 0.017453292519943295769L, 0, 1e-12}, {U::RADPERSEC_TO_RPM, "rad/s-rpm", 9.549296585513720146L, 0, 1e-12}, {U::RPM_TO_RADPERSEC, "rpm-rad/s", 0.10471975511965977462L, 0, 1e-12} };
static const int PAIRS[][2] = { {U::F_TO_R, U::R_TO_F}, {U::F_TO_C, U::C_TO_F}, {U::F_TO_K, U::K_TO_F}, {U::R_TO_C, U::C_TO_R}, {U::R_TO_K, U::K_TO_R}, {U::C_TO_K, U::K_TO_C}, {U::KPA_TO_PSI, U::PSI_TO_KPA}, {U::KG_PER_SEC_TO_LBM_PER_HOUR, U::LBM_PER_HOUR_TO_KG_PER_SEC}, {U::RAD_TO_DEG, U::DEG_TO_RAD}, {U::RADPERSEC_TO_RPM, U::RPM_TO_RADPERSEC} };
FACET(units, 40000, 1000000, "the value is not zero and the conversion is not the identity") {
    const double x = c.sr(1e-6, 1e6); const int n = sizeof(LIN) / sizeof(LIN[0]), k = c.i(0, n - 1); const Cv& v = LIN[k]; c.log() << std::setprecision(17) << v.n << " " << x << "\n";
    const double y = U::convert(v.t, x); c.checkNear(y, (double)(x * v.mul + v.add), (double)v.tol, (double)(fabsl(v.add) * v.tol + fabsl(x * v.mul) * 1e-15L) + 1e-300, "factor", v.n);
    for (size_t p = 0; p < sizeof(PAIRS) / sizeof(PAIRS[0]); ++p) for (int d = 0; d < 2; ++d) if (PAIRS[p][d] == v.t) c.checkNear(U::convert((U::Type)PAIRS[p][1 - d], y), x, 1e-11, 1e-9 * (double)(v.add != 0), "inverse", v.n);
    const double f = c.lr(1e-30, 1e30), db = U::convert(U::PR_TO_DB, f > 1e-15 ? f : 1e-15); c.checkNear(U::convert(U::DB_TO_PR, db), f > 1e-15 ? f : 1e-15, 1e-10, 0, "dB-inverse", S() << f); c.checkNear(db, 10 * log10(f > 1e-15 ? f : 1e-15), 1e-12, 1e-12, "dB", S() << f);
    c.checkNear(U::convert(U::W_TO_DBW, f), f < 2e-16 && U::convert(U::W_TO_DBW, f) == 0. ? 0. : 10 * log10(f), 1e-12, 1e-12, "dBW", S() << f);
    const double bad = -c.lr(1e-30, 1e6) * c.i(0, 1); c.check(U::convert(U::W_TO_DBW, bad) == 0., "dBW-nonpositive", S() << bad); bool th = false; try { U::convert(U::PR_TO_DB, bad); } catch (TsOutOfBoundsException&) { th = true; } c.check(th, "dB-nonpositive", S() << bad);
    th = false; try { U::convert((U::Type)(c.b() ? U::NUM_CONVERSIONS + c.i(0, 3) : -c.i(1, 3)), x); } catch (std::exception&) { th = true; } catch (TsOutOfBoundsException&) { th = true; } c.check(th, "unknown-conversion", "");
    const double b = c.lr(1e-3, 1e3); c.checkNear(U::convertFromPercent(U::convertToPercent(x, 1. / b), b), x, 1e-12, 0, "percent-basis", ""); c.checkNear(U::convertToPercent(x, 1. / b), 100. * x / b, 1e-12, 0, "percent-of", "");
    // the C functions
    struct T { U::Type t; double (*f)(double); const char* n; }; static const T ts[] = { {U::F_TO_R, TS_convert_degF_to_degR, "F-R"}, {U::F_TO_C, TS_convert_degF_to_degC, "F-C"}, {U::F_TO_K, TS_convert_degF_to_degK, "F-K"}, {U::R_TO_F, TS_convert_degR_to_degF, "R-F"}, {U::R_TO_C, TS_convert_degR_to_degC, "R-C"}, {U::R_TO_K, TS_convert_degR_to_degK, "R-K"}, {U::C_TO_F, TS_convert_degC_to_degF, "C-F"}, {U::C_TO_R, TS_convert_degC_to_degR, "C-R"}, {U::C_TO_K, TS_convert_degC_to_degK, "C-K"}, {U::K_TO_C, TS_convert_degK_to_degC, "K-C"}, {U::K_TO_F, TS_convert_degK_to_degF, "K-F"}, {U::K_TO_R, TS_convert_degK_to_degR, "K-R"} };
    const T& t = ts[c.i(0, 11)]; c.checkNear(t.f(x), U::convert(t.t, x), 1e-11, 1e-9, "c-functions", S() << t.n << " at " << x); c.checkNear(TS_convert_dB_to_PR(TS_convert_PR_to_dB(f)), f, 1e-10, 0, "c-dB", ""); c.checkNear(TS_convert_W_to_dBW(f), 10 * log10(f), 1e-12, 1e-12, "c-dBW", ""); c.check(TS_convert_W_to_dBW(bad) == 0., "c-dBW-nonpositive", "");
    if (x != 0. && k) c.nontrivial();
}
// ---- constants: reciprocal pairs and defining values
FACET(constants, 2000, 4000, "every case compares one pair") {
#define PR(a, b) { #a, U::a * U::b, 1. }
#define DV(a, v) { #a, U::a, v }
    struct K { const char* n; double a, b; }; static const K ks[] = { PR(MILLI_PER_UNIT, UNIT_PER_MILLI), PR(KILO_PER_UNIT, UNIT_PER_KILO), PR(MEGA_PER_UNIT, UNIT_PER_MEGA), PR(SEC_PER_HR, HR_PER_SEC), PR(MIN_PER_HR, HR_PER_MIN), PR(SEC_PER_MIN, MIN_PER_SEC), PR(SEC_PER_MSEC, MSEC_PER_SEC), PR(HZ_PER_MHZ, MHZ_PER_HZ), PR(IN_PER_FT_UTIL, FT_PER_IN), PR(FT_PER_YD, YD_PER_FT), PR(CM_PER_IN, IN_PER_CM), PR(M_PER_IN, IN_PER_M), PR(M_PER_FT, FT_PER_M), PR(M_PER_KM, KM_PER_M), PR(IN2_PER_FT2_UTIL, FT2_PER_IN2), PR(IN2_PER_M2, M2_PER_IN2_UTIL), PR(M2_PER_FT2, FT2_PER_M2), PR(IN3_PER_FT3, FT3_PER_IN3), PR(IN3_PER_M3, M3_PER_IN3), PR(FT3_PER_M3, M3_PER_FT3), PR(M3_PER_ML, ML_PER_M3), PR(PA_PER_PSI, PSI_PER_PA), PR(KPA_PER_PSI, PSI_PER_KPA), PR(TORR_PER_PSI, PSI_PER_TORR), PR(ATM_PER_PSI, PSI_PER_ATM), PR(ATM_PER_PA, PA_PER_ATM), PR(PA_PER_KPA, KPA_PER_PA), PR(KG_PER_LBM, LBM_PER_KG), PR(G_PER_LBM, LBM_PER_G), PR(KG_PER_SEC_PER_LBM_PER_HR, LBM_PER_HR_PER_KG_PER_SEC), PR(KG_PER_SEC_PER_LBM_PER_SEC, LBM_PER_SEC_PER_KG_PER_SEC), PR(N_PER_LBF, LBF_PER_N), PR(N_M_PER_IN_LBF, IN_LBF_PER_N_M), PR(BTU_PER_J, J_PER_BTU), PR(KJ_PER_BTU, BTU_PER_KJ), PR(BTU_PER_W_S, W_S_PER_BTU), PR(W_PER_BTU_PER_HR, BTU_PER_HR_PER_W), PR(BTU_PER_HR_PER_KW, KW_PER_BTU_PER_HR), PR(BTU_OVER_LBMF_PER_KJ_OVER_KGK, KJ_OVER_KGK_PER_BTU_OVER_LBMF), PR(F_PER_C, C_PER_F), PR(DEG_PER_RAD_UTIL, RAD_PER_DEG), PR(RAD_PER_REV, REV_PER_RAD), PR(DEG_PER_REV, REV_PER_DEG), PR(MIL_PER_RAD, RAD_PER_MIL), PR(MIL_PER_DEG, DEG_PER_MIL), PR(STD_DENSITY_WATER, STD_SPECIFIC_VOLUME_WATER), PR(STD_DENSITY_AIR, STD_SPECIFIC_VOLUME_AIR),
        DV(SEC_PER_MSEC, 1e-3), DV(SEC_PER_DAY, 86400.), DV(M_PER_IN, .0254), DV(M_PER_FT, .3048), DV(KG_PER_LBM, .45359237), DV(PA_PER_PSI, 6894.757293168), DV(TORR_PER_PSI, 51.714932572), DV(TORR_PER_KPA, 7.500616827), DV(PA_PER_ATM, 101325.), DV(MMHG_PER_PSI, 51.714924), DV(KPA_PER_MMHG, .133322387), DV(KPA_PER_MMH2O, .00980665), DV(KPA_PER_KGF_PER_CM2, 98.0665), DV(N_PER_LBF, 4.4482216152605), DV(N_M_PER_IN_LBF, .1129848290276), DV(J_PER_BTU, 1055.05585262), DV(W_PER_BTU_PER_HR, .29307107017), DV(KJ_OVER_KGK_PER_BTU_OVER_LBMF, 4.1868), DV(LBF_OVER_FTHR_PER_CP, 2.4190883), DV(MIL_PER_DEG, 6400. / 360.), DV(RAD_PER_ARCSEC, 4.84813681109536e-6), DV(RAD_PER_ARCMIN, 2.90888208665722e-4), DV(SEC_PER_YEAR, 31536000.), DV(LEAP_YEAR_SEC, 31622400.), DV(COMMON_YEAR_SEC, 31536000.), DV(PI_UTIL, M_PI), DV(TWO_PI, 2 * M_PI), DV(PI_OVER_2, M_PI / 2), DV(PI_OVER_3, M_PI / 3), DV(PI_OVER_4, M_PI / 4), DV(PI_OVER_6, M_PI / 6), DV(FOUR_PI_OVER_3, 4 * M_PI / 3), DV(SQRT_PI, std::sqrt(M_PI)), DV(SQRT_2PI, std::sqrt(2 * M_PI)), DV(SQRT2, M_SQRT2), DV(SQRT1_2, M_SQRT1_2), DV(SQRT3, std::sqrt(3.)), DV(SQRT3_2, std::sqrt(.75)), DV(MILLIRAD_TO_MICROGRAY, 10.), DV(FARADAY, 96485.33), DV(STEFAN_BOLTZMANN_CONST_SI, 5.670374e-8), DV(UNIV_GAS_CONST_SI, 8.314462618), DV(STD_GRAVITY_SI, 9.80665), DV(SPEED_LIGHT_SI, 299792458.), DV(BOLTZMANN_CONST, 1.380649e-23), DV(ELECTRON_CHARGE, 1.602176634e-19) };
    const K& k = ks[c.i(0, sizeof(ks) / sizeof(ks[0]) - 1)]; c.log() << k.n << "\n"; c.nontrivial(); if (std::string(k.n) == "SEC_PER_MSEC" && k.b != 1. && k.a == 1000.) c.known("sec-per-msec"); c.checkNear(k.a, k.b, 2e-5, 0, "constant", k.n);
}
// ---- random numbers
FACET(random, 20000, 400000, "draws from several overloads with a seed outside the table") {
    int seed = c.pickOf<int>({ 0, 1, 999, 1000, -1, -5000, c.i(-2000, 2000), INT_MAX, INT_MIN, INT_MIN + 1, c.i(-2000000000, 2000000000) }); const int s0 = seed; c.log() << "seed " << seed << "\n"; int other = seed; std::vector<double> seen;
    for (int k = 0, n = c.i(1, 20); k < n; ++k) {
        const int how = c.i(0, 6); switch (how) {
        case 0: { double v = TS_random::randomDouble(seed); c.check(v >= 0. && v < 1., "unit", S() << v); c.check(v == TS_random::randomDouble(other), "repeat", ""); break; }
        case 1: { double m = c.sr(1e-6, 1e9), v = TS_random::randomDouble(seed, m); c.check(v >= std::min(0., m) && v <= std::max(0., m), "max", S() << v << " of " << m); c.check(v == TS_random::randomDouble(other, m), "repeat", ""); break; }
        case 2: { double a = c.sr(1e-6, 1e9), b = c.sr(1e-6, 1e9), v = TS_random::randomDouble(seed, a, b); c.check(v >= std::min(a, b) - 1e-9 && v <= std::max(a, b) + 1e-9, "range", S() << v); c.check(v == TS_random::randomDouble(other, b, a), "order", S() << a << "," << b); break; }
        case 3: { int v = TS_random::randomInt(seed); c.check(v >= 0, "int", S() << v); c.check(v == TS_random::randomInt(other), "repeat", ""); break; }
        case 4: { int m = c.b(0.2) ? c.pickOf<int>({ INT_MAX, INT_MAX - 1, INT_MIN, -INT_MAX }) : c.i(-1000000, 1000000), v = TS_random::randomInt(seed, m); c.log() << "max " << m << " gives " << v << "\n"; c.check(v >= std::min(0, m) && v <= std::max(0, m), "int-max", S() << v << " of " << m); c.check(v == TS_random::randomInt(other, m), "repeat", ""); break; }
        case 5: { int a = c.b(0.2) ? c.i(INT_MIN, INT_MAX) : c.i(-100, 100), b = c.b(0.2) ? c.i(INT_MIN, INT_MAX) : c.i(-100, 100), v = TS_random::randomInt(seed, a, b); c.log() << a << ".." << b << " gives " << v << "\n"; c.check(v >= std::min(a, b) && v <= std::max(a, b), "int-range", S() << v << " of " << a << ".." << b); c.check(v == TS_random::randomInt(other, b, a), "int-order", ""); break; }
        default: { double a = c.sr(1., 1e3), b = a + c.lr(1e-2, 1e3), v = TS_random::uniqueRandomDouble(seed, a, b, seen); for (size_t i = 0; i < seen.size(); ++i) c.check(std::fabs(seen[i] - v) > 1e-16, "unique", S() << v); c.check(v == TS_random::uniqueRandomDouble(other, b, a, seen), "repeat", ""); seen.push_back(v); } }
        c.check(seed == other && seed >= 0 && seed < 1000, "seed", S() << seed); if (k && (s0 < 0 || s0 > 999)) c.nontrivial();
    }
    if (c.b(0.01)) { int s = s0, hist[10] = { 0 }; double sum = 0, q = 0; std::set<int> ints; for (int i = 0; i < 1000; ++i) { int t = s; double v = TS_random::randomDouble(s); sum += v; q += v * v; hist[(int)(v * 10)]++; ints.insert(TS_random::randomInt(t, -2, 3)); } c.check(std::fabs(sum / 1000 - .5) < .03 && std::fabs(q / 1000 - sum * sum / 1e6 - 1. / 12) < .01, "moments", S() << sum / 1000 << " " << q / 1000); for (int i = 0; i < 10; ++i) c.check(hist[i] > 60 && hist[i] < 140, "histogram", S() << i << ": " << hist[i]); c.check(ints.size() == 6, "all-integers", S() << ints.size()); }
}
// ---- geometry against exact interval arithmetic in long double
struct V3 { L v[3]; L& operator[](int i) { return v[i]; } L operator[](int i) const { return v[i]; } };
static V3 of(const double* p) { V3 r = { { p[0], p[1], p[2] } }; return r; }
static V3 sub(V3 a, V3 b) { for (int i = 0; i < 3; ++i) a[i] -= b[i]; return a; }
static L dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { V3 r = { { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] } }; return r; }
static void point(Case& c, double* p, double s) { for (int i = 0; i < 3; ++i) p[i] = c.b(0.25) ? (double)c.i(-5, 5) : c.r(-s, s); }
static std::string str(const double* p) { return S() << "(" << p[0] << "," << p[1] << "," << p[2] << ")"; }
static bool clip(L a, L b, L lo, L hi, L& t0, L& t1) { if (a == 0) return b >= lo && b <= hi; L u = (lo - b) / a, w = (hi - b) / a; if (u > w) std::swap(u, w); t0 = std::max(t0, u); t1 = std::min(t1, w); return t0 <= t1; }
FACET(segments, 60000, 1500000, "the segment meets the shape") {
    double p[3], q[3], x[3] = { -99, -99, -99 }; point(c, p, 10); point(c, q, 10); const int shape = c.i(0, 3); L t0 = -1e30L, t1 = 1e30L; bool hit = false, unsure = false, inside = false, got; std::string what = S() << "segment " << str(p) << str(q); const bool want = c.b(0.8); V3 P = of(p), d = sub(of(q), P); const L len2 = dot(d, d); if (len2 < 1e-6L) return;
    if (shape == 0) { double a[3], b[3], e[3]; point(c, a, 8); point(c, b, 8); point(c, e, 8); what += S() << " triangle " << str(a) << str(b) << str(e); V3 A = of(a), ab = sub(of(b), A), ac = sub(of(e), A), n = cross(ab, ac); L den = dot(d, n), size = sqrtl(dot(n, n)); if (size < 1e-3L || fabsl(den) < 1e-4L * size * sqrtl(len2) || fabsl(den) < 1e-4L) return;
        L t = -dot(sub(P, A), n) / den; V3 h; for (int i = 0; i < 3; ++i) h[i] = P[i] + t * d[i] - A[i]; L nn = dot(n, n), v = dot(cross(h, ac), n) / nn, w = dot(cross(ab, h), n) / nn, u = 1 - v - w; L m = std::min(std::min(u, std::min(v, w)), std::min(t, 1 - t)); hit = m >= 0; unsure = fabsl(m) < 1e-6L; t0 = t; got = want ? LineSegmentIntersect::triangle(p, q, a, b, e, x) : LineSegmentIntersect::triangle(p, q, a, b, e); }
    else if (shape == 1) { double a[3], b[3], r = c.lr(0.5, 5.); point(c, a, 6); point(c, b, 6); what += S() << " cylinder " << str(a) << str(b) << " r " << r; V3 A = of(a), ax = sub(of(b), A); L h2 = dot(ax, ax); if (h2 < 0.25L) return; V3 m = sub(P, A); L md = dot(m, ax), nd = dot(d, ax); L aa = h2 * len2 - nd * nd; const bool par = c.b(0.1); if (par) { L k = c.sr(0.2, 3.); for (int i = 0; i < 3; ++i) q[i] = p[i] + (double)(k * ax[i]); d = sub(of(q), P); nd = dot(d, ax); what += S() << " parallel to " << str(q); }
        if (!par && aa < 1e-3L * h2 * len2) return; hit = clip(nd, md, 0, h2, t0, t1); // slab
        if (hit) { V3 mp = m, dp = d; for (int i = 0; i < 3; ++i) { mp[i] -= md / h2 * ax[i]; dp[i] -= nd / h2 * ax[i]; } L A2 = par ? 0 : dot(dp, dp), B = dot(mp, dp), C = dot(mp, mp) - (L)r * r; if (par) { hit = C <= 0; if (fabsl(C) < 1e-6L) unsure = true; } else { L D = B * B - A2 * C; if (fabsl(D) < 1e-7L * (B * B + A2 * r * r)) unsure = true; if (D < 0) hit = false; else { t0 = std::max(t0, (-B - sqrtl(D)) / A2); t1 = std::min(t1, (-B + sqrtl(D)) / A2); if (fabsl(t1 - t0) < 1e-7L) unsure = true; hit = t0 <= t1; } } }
        if (hit) { if (fabsl(t0 - 1) < 1e-7L || fabsl(t1) < 1e-7L || fabsl(t0) < 1e-7L) unsure = true; inside = t0 < 0 && t1 >= 0; hit = t0 >= 0 && t0 <= 1; } if (fabsl(md) < 1e-7L * h2 || fabsl(md - h2) < 1e-7L * h2 || fabsl(md + nd) < 1e-7L * h2 || fabsl(md + nd - h2) < 1e-7L * h2) unsure = true;
        got = want ? LineSegmentIntersect::cylinder(p, q, a, b, r, x) : LineSegmentIntersect::cylinder(p, q, a, b, r); if (inside) { c.label("starts inside"); return; } }
    else { double s[3], r[3]; point(c, s, 6); for (int i = 0; i < 3; ++i) r[i] = i && shape == 2 ? r[0] : c.lr(0.3, 6.); what += S() << (shape == 2 ? " sphere " : " spheroid ") << str(s) << str(r); V3 m, e; for (int i = 0; i < 3; ++i) { m[i] = (P[i] - s[i]) / r[i]; e[i] = d[i] / r[i]; } L A = dot(e, e), B = dot(m, e), C = dot(m, m) - 1, D = B * B - A * C; if (fabsl(D) < 1e-7L * (B * B + A)) unsure = true; if (D >= 0) { t0 = (-B - sqrtl(D)) / A; t1 = (-B + sqrtl(D)) / A; hit = t1 >= 0 && t0 <= 1; if (fabsl(t1) < 1e-7L || fabsl(t0 - 1) < 1e-7L || fabsl(t0) < 1e-7L) unsure = true; t0 = std::max(t0, (L)0); }
        if (shape == 2) got = want ? LineSegmentIntersect::sphere(p, q, s, r[0], x) : LineSegmentIntersect::sphere(p, q, s, r[0]); else got = want ? LineSegmentIntersect::spheroid(p, q, s, r[0], r[1], r[2], x) : LineSegmentIntersect::spheroid(p, q, s, r[0], r[1], r[2]); }
    c.log() << std::setprecision(17) << what << "\n"; if (unsure) return; c.check(got == hit, "meets", S() << what << (got ? " reported as meeting" : " reported as missing")); if (hit) c.nontrivial();
    if (hit && want) for (int i = 0; i < 3; ++i) c.checkNear(x[i], (double)(P[i] + t0 * d[i]), 1e-6, 1e-5, "where", S() << what << " axis " << i);
}
// ---- sim bus queues and the clock
FACET(queues, 10000, 100000, "a queue of two or more") {
    const int n = c.i(0, 12); double v[12]; bool b[12], any = false; L s = 0, sa = 0; for (int i = 0; i < n; ++i) { v[i] = c.sr(1e-3, 1e6); b[i] = c.b(0.15); any |= b[i]; s += v[i]; sa += fabsl(v[i]); } c.checkNear(SimBusQutils::getSum(v, n), (double)s, 0, 1e-13 * (double)sa, "sum", ""); c.check(SimBusQutils::isPulseHigh(b, n) == any, "pulse", "");
    if (n) { c.check(SimBusQutils::getLatest(v) == v[0], "latest", ""); c.checkNear(SimBusQutils::getAverage(v, n), (double)(s / n), 0, 1e-13 * (double)sa, "average", ""); } else { bool th = false; try { SimBusQutils::getAverage(v, 0); } catch (TsOutOfBoundsException&) { th = true; } c.check(th, "average-of-none", ""); } if (n > 1) c.nontrivial();
    Time t; const double a = (double)time(0), w = t.getTimeOfDay(); c.check(w >= a - 1. && w <= a + 60., "clock", S() << w << " vs " << a);
}
