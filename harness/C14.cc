// Property C14: fluid properties are self-consistent over their supported range.
#define VPT_FRIEND_EXTRA \
    static TsApproximation* fit(FluidProperties& p, int k) { TsApproximation* a[] = {p.mDensity, p.mPressure, p.mSpecificHeat, p.mViscosity, p.mThermalConductivity, p.mPrandtlNumber, p.mAdiabaticIndex, p.mTemperature, p.mSaturationPressure, p.mSaturationTemperature, p.mHeatOfVaporization}; return a[k]; } \
    static double lox(FluidProperties& p, int k) { return fit(p, k)->mMinX; } \
    static double hix(FluidProperties& p, int k) { return fit(p, k)->mMaxX; } \
    static double loy(FluidProperties& p, int k) { return fit(p, k)->mMinY; } \
    static double hiy(FluidProperties& p, int k) { return fit(p, k)->mMaxY; }
#include "fluidnet.hh"
#include "properties/FluidTsatFit.hh"
#include "properties/FluidHvapFit.hh"
#include "software/exceptions/TsInitializationException.hh"
using namespace fn;
namespace {
const int N = FP::NO_FLUID; const double R = 8.314472;
enum { RHO, PRES, CP, MU, COND_, PR, GAMMA, TEMP, PSAT, TSAT, HVAP };
FluidProperties* fp(int t) { return props().getProperties((FP::FluidType)t); }
bool ideal(int t) { return t <= FP::GUNNS_AR; }
bool table(int t) { return (t >= FP::GUNNS_HE_REAL_GAS && t <= FP::GUNNS_H2_REAL_GAS) || t == FP::GUNNS_WATER_PVT; }
double pick(Case& c, double lo, double hi) { return c.b(0.06) ? lo : c.b(0.06) ? hi : c.r(lo, hi); }
double pressure(Case& c, int t) { FluidProperties* p = fp(t); return table(t) ? (c.b(0.5) ? pick(c, VptFriend::loy(*p, RHO), VptFriend::hiy(*p, RHO)) : std::min(VptFriend::hiy(*p, RHO), c.lr(1e-3, 1e5))) : t < FP::GUNNS_WATER ? c.lr(1e-9, 1e6) : c.b(0.5) ? c.r(0., 1000.) : c.lr(1e-6, 3e4); }
double atomic(const std::string& s, size_t& k) { static const std::map<std::string, double> m = {{"H", 1.00794}, {"C", 12.0107}, {"N", 14.0067}, {"O", 15.9994}, {"P", 30.973762}, {"CL", 35.453}, {"SI", 28.0855}, {"LI", 6.941}, {"HE", 4.002602}, {"AR", 39.948}, {"XE", 131.293}};
    std::string u; for (size_t q = 0; q < s.size(); ++q) u += (char)toupper(s[q]); if (k + 1 < u.size() && m.count(u.substr(k, 2))) { k += 2; return m.at(u.substr(k - 2, 2)); } if (m.count(u.substr(k, 1))) return m.at(u.substr(k++, 1)); k = std::string::npos; return 0.; }
double weight(const std::string& s) { if (s == "NH42HPO4") return 2. * weight("NH4") + weight("HPO4"); double w = 0.; for (size_t k = 0; k < s.size();) { double a = atomic(s, k); if (k == std::string::npos) return -1.; int n = 0; while (k < s.size() && isdigit(s[k])) n = 10 * n + (s[k++] - '0'); w += a * (n ? n : 1); } return w; }
}
FACET(pvt, 200000, 3000000, "density and pressure of any compound at any supported temperature and pressure; nontrivial = not an ideal gas") {
    const int t = (int)c.raw(N); FluidProperties* p = fp(t); const double T = pick(c, VptFriend::lox(*p, RHO), VptFriend::hix(*p, RHO)), P = pressure(c, t); c.log() << "fluid " << t << " T " << T << " P " << P << "\n"; if (!ideal(t)) c.nontrivial();
    const double rho = p->getDensity(T, P); c.check(finite(rho) && rho >= 0. && (rho > 0. || P < 1e-3), "density-sign", S() << rho); const double back = p->getPressure(T, rho); c.check(finite(back) && back >= 0., "pressure-sign", S() << back);
    if (t == FP::GUNNS_WATER_PVT || (t == FP::GUNNS_OXYGEN && T < 65.)) c.checkNear(p->getDensity(T, back), rho, 1e-9, 0., "density-of-pressure", S() << "density at the returned pressure " << back);   // the PVT table repeats densities below saturation; liquid oxygen is incompressible near 55 K
    else c.check(std::fabs(back - P) <= 1e-9 * P + 2e-8, "pressure-inverse", S() << "pressure " << P << " gives density " << rho << " which gives pressure " << back);
    const double MW = p->getMWeight(); if (ideal(t)) c.checkNear(rho, P * MW / R / T, 1e-5, 0., "ideal-gas", "density of an ideal gas");
    if (table(t) && t != FP::GUNNS_WATER_PVT && P <= 200. && P > 1. && T > std::max(250., 2. * p->getCriticalTemperature())) c.checkNear(rho, P * MW / R / T, 0.12, 0., "real-gas-limit", "density of a real gas at low pressure");
    const double P2 = P + c.lr(1e-6, 1.) * (VptFriend::hiy(*p, RHO) < 1e6 ? VptFriend::hiy(*p, RHO) - P : P + 1.); if (P2 > P && t != FP::GUNNS_OXYGEN && !(t == FP::GUNNS_WATER_PVT && P < p->getSaturationPressure(T) * 2. + 20.)) c.check(p->getDensity(T, P2) >= rho * (1. - 1e-12), "compression", S() << "density " << rho << " at " << P << " falls to " << p->getDensity(T, P2) << " at " << P2);
    if (t < FP::GUNNS_WATER) { double T2 = pick(c, T, VptFriend::hix(*p, RHO)); c.check(p->getDensity(T2, P) <= rho * (1. + 1e-12), "expansion", S() << "density " << rho << " at " << T << " rises to " << p->getDensity(T2, P) << " at " << T2); }
    // continuity, and values held outside the supported range
    const double e = 1e-9 * T, r2 = p->getDensity(T + e, P); c.check(std::fabs(r2 - rho) <= 1e-5 * rho, "density-continuous", S() << rho << " then " << r2); double lo = VptFriend::lox(*p, RHO), hi = VptFriend::hix(*p, RHO); c.check(p->getDensity(lo * c.r(0., 1.), P) == p->getDensity(lo, P) && p->getDensity(hi * c.r(1., 3.), P) == p->getDensity(hi, P), "density-limit", "outside the temperature range");
}
FACET(reference, 30000, 300000, "density near a handbook value for each liquid; nontrivial = all") {
    struct Ref { int t; double T, rho; }; static const Ref ref[] = {{FP::GUNNS_WATER, 293.15, 998.2}, {FP::GUNNS_HFE7000, 298.15, 1400}, {FP::GUNNS_HFE7100, 298.15, 1510}, {FP::GUNNS_PG30, 298.15, 1023}, {FP::GUNNS_PG40, 298.15, 1031}, {FP::GUNNS_PG50, 298.15, 1038}, {FP::GUNNS_AMMONIA, 240., 681.8}, {FP::GUNNS_OXYGEN, 90.2, 1141}, {FP::GUNNS_HYDROGEN, 20.3, 70.8}, {FP::GUNNS_METHANE, 111.7, 422.4}, {FP::GUNNS_NAK78, 373., 847}, {FP::GUNNS_GALDEN170, 298.15, 1770}, {FP::GUNNS_WATER_PVT, 293.15, 998.2}, {FP::GUNNS_NTO, 293.15, 1446}, {FP::GUNNS_MMH, 298.15, 874}, {FP::GUNNS_HYDRAZINE, 298.15, 1004}};
    const Ref& r = ref[c.raw(16)]; double T = r.T * c.r(0.99, 1.01), P = c.r(90., 300.), rho = fp(r.t)->getDensity(T, P); c.nontrivial();
    if (!c.near(rho, r.rho, 0.08, 0.)) { if (r.t == FP::GUNNS_NTO && rho > 7600. && rho < 7850. && c.isKnown("nto-density")) c.known("nto-density"); c.fail("reference-density", S() << "fluid " << r.t << " at " << T << " K has density " << rho << ", handbook " << r.rho); }
}
FACET(enthalpy, 120000, 1500000, "temperature and specific enthalpy; nontrivial = specific heat varies with temperature") {
    const int t = (int)c.raw(N); FluidProperties* p = fp(t); const double lo = VptFriend::lox(*p, CP), hi = VptFriend::hix(*p, CP), T = pick(c, lo, hi), P = pressure(c, t); c.log() << "fluid " << t << " T " << T << "\n"; const double h = p->getSpecificEnthalpy(T, P), cp = p->getSpecificHeat(T, P);
    c.check(finite(h) && cp > 0., "specific-heat-sign", S() << cp); c.checkNear(h, cp * T, 1e-12, 0., "enthalpy", "enthalpy is the specific heat times the temperature"); c.check(std::fabs(p->getTemperature(h, P) - T) <= (t == FP::GUNNS_NTO || t == FP::GUNNS_MMH ? 1e-2 : 1e-9 * T), "temperature-inverse", S() << "temperature " << T << " gives enthalpy " << h << " which gives " << p->getTemperature(h, P));
    const double T2 = c.r(T, hi); if (T2 > T * (1. + 1e-9)) c.check(p->getSpecificEnthalpy(T2, P) > h, "enthalpy-increases", S() << h << " at " << T << ", " << p->getSpecificEnthalpy(T2, P) << " at " << T2); if (p->getSpecificHeat(lo) != p->getSpecificHeat(hi)) c.nontrivial();
}
FACET(transport, 200000, 2000000, "specific heat, viscosity, conductivity, Prandtl number and adiabatic index; nontrivial = inside the supported range") {
    static const int which[] = {CP, MU, COND_, PR, GAMMA}; static const char* name[] = {"specific heat", "viscosity", "thermal conductivity", "Prandtl number", "adiabatic index"};
    const int t = (int)c.raw(N), q = (int)c.raw(5), k = which[q]; FluidProperties* p = fp(t); const double lo = VptFriend::lox(*p, k), hi = VptFriend::hix(*p, k), T = c.b(0.1) ? c.r(0., 4000.) : pick(c, lo, hi), P = pressure(c, t); struct G { FluidProperties* p; int q; double P; double operator()(double T) const { return q == 0 ? p->getSpecificHeat(T, P) : q == 1 ? p->getViscosity(T, P) : q == 2 ? p->getThermalConductivity(T, P) : q == 3 ? p->getPrandtlNumber(T, P) : p->getAdiabaticIndex(T, P); } } get = {p, q, P};
    const double v = get(T); c.log() << "fluid " << t << " " << name[q] << " at " << T << " is " << v << "\n"; c.check(finite(v), "finite", S() << v); if (T < hi && T > lo) c.nontrivial(); c.check(T > lo || v == get(lo), "limit-low", S() << v); c.check(T < hi || v == get(hi), "limit-high", S() << v); c.check(v == VptFriend::fit(*p, k)->get(T, P), "delegates", S() << v);
    c.check(std::fabs(get(T * (1. + 1e-9)) - v) <= 1e-6 * (std::fabs(get(lo)) + std::fabs(get(hi)) + std::fabs(v)), "continuous", S() << v << " then " << get(T * (1. + 1e-9)));
    if (v <= 0.) { if (q == 1 && t == FP::GUNNS_HFE7000 && T > 199. && T < 293. && c.isKnown("hfe7000-viscosity")) c.known("hfe7000-viscosity"); if (q == 1 && t == FP::GUNNS_HYDROGEN && T > 21. && T < 32. && c.isKnown("hydrogen-viscosity")) c.known("hydrogen-viscosity"); c.fail("positive", S() << name[q] << " of fluid " << t << " at " << T << " K is " << v); }
}
FACET(saturation, 150000, 1500000, "saturation pressure and temperature and heat of vaporization; nontrivial = between the triple and critical points") {
    const int t = (int)c.raw(N); FluidProperties* p = fp(t); const double Tc = p->getCriticalTemperature(), lo = Tc / VptFriend::hix(*p, PSAT), hi = Tc / VptFriend::lox(*p, PSAT), T = c.b(0.1) ? c.lr(1e-3, 4000.) : pick(c, lo, hi); const bool in = T >= lo && T <= hi; const double P = p->getSaturationPressure(T), back = p->getSaturationTemperature(P), tol = t == FP::GUNNS_XE_REAL_GAS ? 0.06 : t == FP::GUNNS_PG40 ? 0.01 : 2e-4; if (in) c.nontrivial();
    c.log() << "fluid " << t << " T " << T << " Psat " << P << " Tsat " << back << "\n"; c.check(finite(P) && P > 0. && finite(back) && back > 0., "saturation-sign", S() << P << " " << back); c.check(std::fabs(back - std::min(hi, std::max(lo, T))) <= tol, "saturation-inverse", S() << "temperature " << T << " of " << lo << ".." << hi << " gives pressure " << P << " which gives " << back);
    const double T2 = c.r(T, 1.2 * Tc); if (T2 > T) c.check(p->getSaturationPressure(T2) >= P * (1. - 1e-12), "saturation-increases", S() << P << " then " << p->getSaturationPressure(T2)); const double P2 = P * c.r(1., 10.); c.check(p->getSaturationTemperature(P2) >= back * (1. - 1e-12) && p->getSaturationTemperature(P2) <= Tc * (1. + 1e-3), "saturation-temperature", S() << back << " then " << p->getSaturationTemperature(P2));
    if (in && T < hi && T > lo && !(t == FP::GUNNS_XE_REAL_GAS)) { double q = p->getSaturationPressure(p->getSaturationTemperature(P)); c.checkNear(q, P, t == FP::GUNNS_PG40 ? 5e-3 : 1e-3, 0., "saturation-pressure-inverse", "pressure"); }
    const double h = p->getHeatOfVaporization(T), h2 = p->getHeatOfVaporization(T2), eps = t == FP::GUNNS_H2 || t == FP::GUNNS_H2_REAL_GAS || t == FP::GUNNS_HYDROGEN || t == FP::GUNNS_HE || t == FP::GUNNS_HE_REAL_GAS ? 0.3 : 1e-9; c.check(finite(h) && h >= 0., "vaporization-sign", S() << h); if (T2 > T) c.check(h2 <= h * (1. + eps), "vaporization-decreases", S() << h << " then " << h2); if (t < FP::GUNNS_NTO) c.check(p->getHeatOfVaporization(Tc * c.r(1., 2.)) <= 1e-9 * p->getHeatOfVaporization(lo), "vaporization-critical", "heat of vaporization beyond the critical point");
}
FACET(history, 4000, 60000, "table look-ups after any sequence of other look-ups give what a fresh object gives; nontrivial = 4 or more look-ups") {
    DefinedFluidProperties a, b; int t[] = {12, 13, 14, 15, 16, 17, 30}; const int f = t[c.raw(7)]; FluidProperties* p = a.getProperties((FP::FluidType)f); FluidProperties* q = b.getProperties((FP::FluidType)f); const int n = c.i(1, 12); if (n >= 4) c.nontrivial(); double T = 0., P = 0., d = 0.;
    for (int k = 0; k < n; ++k) { T = c.b(0.2) ? T : pick(c, VptFriend::lox(*p, RHO), VptFriend::hix(*p, RHO)); P = c.b(0.2) ? P : pressure(c, f); c.log() << "fluid " << f << " T " << T << " P " << P << "\n"; if (c.b()) d = p->getDensity(T, P); else if (d > 0.) p->getPressure(T, d); }
    const double r0 = p->getDensity(T, P), r1 = q->getDensity(T, P); c.checkNear(r0, r1, 1e-12, 0., "density-history", S() << "density at T " << T << " P " << P); if (f != FP::GUNNS_WATER_PVT) { const double p0 = p->getPressure(T, r0), p1 = q->getPressure(T, r0); c.checkNear(p0, p1, 1e-9, 1e-9, "pressure-history", S() << "pressure at T " << T << " density " << r0); }
}
FACET(registry, 20000, 200000, "identity and molecular weight of fluids and compounds; nontrivial = defined type") {
    const int t = c.i(-3, N + 3); FluidProperties* p = fp(t); c.check((p != 0) == (t >= 0 && t < N), "registered", S() << t);
    if (p) { c.nontrivial(); c.check(p->getType() == t, "identity", S() << "type " << t << " returns " << p->getType()); c.check(p->getPhase() == (t < FP::GUNNS_WATER ? FP::GAS : FP::LIQUID), "phase", S() << t); static const char* f[] = {"CO", "CO2", "H2O", "N2", "O2", "NH3", "H2", "CH4", "HCL", "HCN", "HE", "AR", "HE", "XE", "N2", "O2", "CH4", "H2", "H2O", 0, 0, 0, 0, 0, "NH3", "O2", "H2", "CH4", 0, 0, "H2O", "N2O4", "CH3N2H3", "N2H4"}; if (f[t]) c.checkNear(p->getMWeight(), weight(f[t]), 1e-4, 0., "fluid-weight", S() << f[t]); c.check(p->getMWeight() > 0. && p->getCriticalTemperature() > 0., "weight-sign", S() << t); }
    const int k = c.i(-3, ChemicalCompound::NO_COMPOUND + 3); const ChemicalCompound* x = chem().getCompound((ChemicalCompound::Type)k); c.check((x != 0) == (k >= 0 && k < ChemicalCompound::NO_COMPOUND), "compound-registered", S() << k);
    if (x) { c.check(x->mType == k, "compound-identity", S() << "type " << k << " returns " << x->mType); double w = weight(x->mName); if (w > 0.) c.checkNear(x->mMWeight, w, 1e-4, 0., "compound-weight", x->mName); if (x->mFluidType != FP::NO_FLUID) { c.check(fp(x->mFluidType) != 0 && fp(x->mFluidType)->getPhase() == FP::GAS, "compound-fluid", x->mName); c.checkNear(fp(x->mFluidType)->getMWeight(), x->mMWeight, 1e-6, 0., "compound-fluid-weight", x->mName); }
        for (int z = 0; z < ChemicalCompound::NO_COMPOUND; ++z) if (z != k) { c.check(*x != *chem().getCompound((ChemicalCompound::Type)z), "compound-different", S() << k << " and " << z); if (x->mFluidType != FP::NO_FLUID) c.check(chem().getCompound((ChemicalCompound::Type)z)->mFluidType != x->mFluidType, "compound-fluid-unique", S() << k << " and " << z); } c.check(!(*x != *x), "compound-same", x->mName); }
}
FACET(fits, 60000, 600000, "saturation and vaporization fits with random coefficients; nontrivial = valid coefficients") {
    const double a = c.r(-5., 8.), b = c.r(-8., -0.1), k = c.b(0.05) ? 0. : c.sr(1e-3, 2.), x0 = c.r(0.9, 1.2), x1 = x0 + c.r(0.1, 4.); struct Q { double a, b, k; double operator()(double x) const { return a + x * (b + x * k); } } q = {a, b, k}; const double y0 = std::pow(10., q(x1)), y1 = std::pow(10., q(x0)); const double lo = std::min(y0, y1), hi = std::max(y0, y1); c.log() << a << " " << b << " " << k << " x " << x0 << ".." << x1 << " P " << lo << ".." << hi << "\n";
    bool ok = true; FluidTsatFit f; try { f.init(a, b, k, lo, hi, "f"); } catch (const TsInitializationException&) { ok = false; } if (k == 0.) c.check(!ok, "zero-coefficient", "accepted");
    const bool mono = b + 2. * k * x0 < 0. && b + 2. * k * x1 < 0.; if (mono && k != 0. && hi > lo) { c.check(ok, "valid-rejected", "coefficients of a decreasing saturation curve"); c.nontrivial(); double x = c.r(x0, x1), y = std::pow(10., q(x)); const double cond = std::fabs(b + 2. * k * x); c.checkNear(f.get(y), x, 1e-7 / cond / cond + 1e-9, 1e-9, "tsat-inverse", S() << "at " << y); c.check(f.get(hi * 3.) == f.get(hi) && f.get(lo * 0.3) == f.get(lo), "tsat-limit", "range"); }
    const double A = c.lr(1., 1e4), al = c.b(0.1) ? c.sr(50.1, 100.) : c.sr(1e-3, 5.), be = c.b(0.1) ? c.sr(50.1, 100.) : c.r(0., 2.), m0 = c.r(0.1, 0.5); bool okh = true; FluidHvapFit g; try { g.init(A, al, be, m0, 1., "g"); } catch (const TsInitializationException&) { okh = false; } c.check(okh == (std::fabs(al) <= 50. && std::fabs(be) <= 50.), "vaporization-validation", S() << al << " " << be);
    if (okh && be >= 0.) { double x = c.r(0., 1.2), xx = std::min(1., std::max(m0, x)); double want = A * std::exp(-al * xx) * std::pow(1. - xx, be); c.checkNear(g.get(x), want, 1e-9, 1e-300, "vaporization-fit", S() << "at " << x); }
}
