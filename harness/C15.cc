// Property C15: fluid utility conversions and mixing invert, bound and normalise.
#include "fluidnet.hh"
#include "core/GunnsFluidUtils.hh"
#include "math/MsMath.hh"
#include "math/UnitConversion.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
using namespace fn;
typedef GunnsFluidUtils U;
namespace {
struct Set { std::vector<FP::FluidType> t; std::unique_ptr<PolyFluidConfigData> cfg; int n() const { return (int)t.size(); } };
Set gasSet(Case& c, int lo, int hi) { Set s; s.t = idealGases(); c.shuffle(s.t); s.t.resize(c.i(lo, hi)); s.cfg.reset(new PolyFluidConfigData(&props(), &s.t[0], s.n())); return s; }
typedef std::unique_ptr<PolyFluid> PF;
PF fluid(Case& c, const Set& s, double T, double P) { std::vector<double> mf = genFractions(c, s.n()); PolyFluidInputData in(T, P, 0., 1., &mf[0]); return PF(new PolyFluid(*s.cfg, in)); }
PF fluid(Case& c, const Set& s) { double T = c.r(120., 1000.), P = c.lr(1e-3, 1e4); PF f = fluid(c, s, T, P); if (c.b(0.1)) f->setPressure(0.); return f; }
PF liquid(Case& c, Set& s) { std::vector<Liquid> l = liquids(); Liquid x = c.pick(l); s.t.assign(1, x.t); s.cfg.reset(new PolyFluidConfigData(&props(), &s.t[0], 1)); double one = 1.; PolyFluidInputData in(c.r(x.lo, x.hi), c.lr(10., 1e3), 0., 1., &one); return PF(new PolyFluid(*s.cfg, in)); }
template<class E, class F> bool throws(F f) { try { f(); } catch (const E&) { return true; } return false; }
}
FACET(flow_law, 120000, 2000000, "conductivity, admittance and mass flow between random fluid states; nontrivial = pressure difference above the linearisation minimum") {
    Set s = gasSet(c, 1, 5); PF a = fluid(c, s), b = fluid(c, s); const double g = c.lr(1e-8, 10.), e = c.b(0.3) ? c.pickOf({0.5, 1.0, 0.3, 1.7}) : c.r(0.5, 1.), el = std::min(1., std::max(0.5, e)), minP = c.b(0.3) ? 0. : c.lr(1e-6, 10.);
    const double dP = std::fabs(a->getPressure() - b->getPressure()), lin = std::max(minP, dP), rho = 0.5 * (a->getDensity() + b->getDensity()), mw = 0.5 * (a->getMWeight() + b->getMWeight()); const double A = U::computeAdmittance(g, minP, a.get(), b.get(), e);
    c.check(finite(A) && A >= 0., "admittance-sign", S() << A); c.check(A == U::computeAdmittance(g, minP, b.get(), a.get(), e), "admittance-symmetric", S() << A);
    if (lin > 1e-15) { const double want = g * std::pow(rho * 1000. * lin, el) / lin / mw; c.checkNear(A, want, 1e-10, 0., "admittance", "admittance against the flow law"); c.checkNear(U::computeAdmittance(2. * g, minP, a.get(), b.get(), e), 2. * A, 1e-12, 0., "admittance-linear", "doubled conductivity"); }
    c.check(U::computeAdmittance(0., minP, a.get(), b.get(), e) == 0., "admittance-zero", "no conductivity");
    if (dP > 1e-12 && rho > 1e-12) { const double flow = A * dP * mw; if (dP >= minP) { c.checkNear(U::predictConductivity(flow, minP, a.get(), b.get(), e), g, 1e-9, 0., "predict-inverse", "predicted conductivity of the flow"); c.check(U::predictConductivity(-flow, minP, b.get(), a.get(), e) == U::predictConductivity(flow, minP, a.get(), b.get(), e), "predict-direction", "direction of flow"); c.nontrivial(); }
        double want = c.lr(1e-9, 10.), gp = U::predictConductivity(want, minP, a.get(), b.get(), e); c.checkNear(U::computeAdmittance(gp, minP, a.get(), b.get(), e) * lin * mw, want, 1e-9, 0., "predict-flow", "flow of the predicted conductivity"); }
    if (a->getPressure() == b->getPressure()) c.check(U::predictConductivity(1., minP, a.get(), b.get(), e) == 0., "predict-no-dp", "no pressure difference");
    // a larger pressure difference at the same mean density and composition drives more flow, a lower admittance or equal
    double more = lin * c.r(1., 10.); const double A2 = U::computeAdmittance(g, more, a.get(), b.get(), e); c.check(A2 * more >= A * lin * (1. - 1e-12) && A2 <= A * (1. + 1e-12), "linearisation-monotone", S() << "A " << A << " at " << lin << " and " << A2 << " at " << more);
}
FACET(capacitance, 40000, 500000, "capacitance of gases and liquids; nontrivial = mixture or liquid") {
    Set s; PF f; bool liq = c.b(0.3); if (liq) f = liquid(c, s); else { s = gasSet(c, 1, 5); f = fluid(c, s); } double v = c.b(0.1) ? 0. : c.lr(1e-6, 1e3), k = U::computeCapacitance(f.get(), v); c.check(finite(k) && k >= 0., "capacitance-sign", S() << k); c.checkNear(U::computeCapacitance(f.get(), 3. * v), 3. * k, 1e-12, 0., "capacitance-linear", "volume");
    if (!liq) c.checkNear(k, v / (8.314472 * f->getTemperature()), 1e-4, 0., "capacitance-ideal", "ideal gas capacitance V/RT"); if (s.n() > 1 || liq) c.nontrivial();
}
FACET(expansion, 60000, 800000, "expansion temperature and its inverse factor; nontrivial = pressure drop by at least 1 percent") {
    Set s = gasSet(c, 1, 5); const double p1 = c.lr(1e-2, 1e4), p2 = c.b(0.1) ? p1 : c.lr(1e-2, 1e4), sf = c.b(0.2) ? c.pickOf({0., 1.}) : c.r(0., 1.); PF f = fluid(c, s, c.r(120., 1000.), p1), z = fluid(c, s, c.r(120., 1000.), p2); const double T = f->getTemperature(), ga = f->getAdiabaticIndex(); const double t = U::computeIsentropicTemperature(sf, p1, p2, f.get());
    c.checkNear(t, T + sf * (T * std::pow(p2 / p1, (ga - 1.) / ga) - T), 1e-12, 0., "isentropic", "isentropic temperature"); if (ga > 1.) c.check(p2 <= p1 ? t <= T * (1. + 1e-12) : t >= T * (1. - 1e-12), "expansion-direction", S() << "expanding " << p1 << " to " << p2 << " took " << T << " to " << t); c.checkNear(U::computeIsentropicTemperature(0., p1, p2, f.get()), T, 1e-12, 0., "no-expansion", "scale factor 0"); c.check(U::computeIsentropicTemperature(sf, 0., p2, f.get()) == T && f->getTemperature() == T, "expansion-vacuum", "from zero pressure");
    if (p1 > p2 * 1.01 && ga > 1.01) { const double dT = T - t; const double want = U::predictExpansionScaleFactor(dT, f.get(), z.get()); c.checkNear(want, sf, 1e-7, 1e-7, "factor-inverse", "scale factor that gives the temperature drop"); c.checkNear(U::predictExpansionScaleFactor(-dT, z.get(), f.get()), sf, 1e-7, 1e-7, "factor-inverse-reversed", "reversed"); c.check(U::predictExpansionScaleFactor(c.lr(1e-3, 1e4), f.get(), z.get()) <= 1., "factor-bound", "bound"); c.nontrivial(); }
    Set l; PF q = liquid(c, l); c.check(U::computeIsentropicTemperature(sf, p1, p2, q.get()) == q->getTemperature(), "liquid-no-expansion", "liquid");
}
FACET(heat, 80000, 1200000, "convective and conductive heat flux; nontrivial = flow and conductance with a temperature difference") {
    Set s; PF f; if (c.b(0.3)) f = liquid(c, s); else { s = gasSet(c, 1, 4); f = fluid(c, s, c.r(200., 900.), c.lr(1e-1, 1e4)); } const double T = f->getTemperature(), h = f->getSpecificEnthalpy(), cp = f->getSpecificHeat(), P = f->getPressure(); const bool gas = f->getPhase() == FP::GAS; const double wall = c.b(0.1) ? T : gas ? c.r(200., 900.) : T + c.r(-5., 5.); const double m = (c.b() ? 1. : -1.) * (c.b(0.1) ? 0. : c.lr(1e-6, 10.)), ua = c.b(0.1) ? 0. : c.lr(1e-3, 1e6);
    c.log() << "T " << T << " wall " << wall << " flow " << m << " UA " << ua << "\n"; const double q = U::computeConvectiveHeatFlux(f.get(), m, ua, wall), t = f->getTemperature();
    if (m == 0. || ua == 0.) c.check(q == 0. && t == T, "no-flow-no-heat", S() << q << " " << t);
    const double tol = 1e-9 * T; c.check(t >= std::min(T, wall) - tol && t <= std::max(T, wall) + tol, "overshoot", S() << "fluid at " << T << " met a wall at " << wall << " and left at " << t); c.check(std::fabs(q) <= 1e-7 * std::fabs(m) * h || (q > 0.) == (T > wall), "heat-direction", S() << "heat " << q << " fluid " << T << " wall " << wall); c.checkNear(q, std::fabs(m) * (h - f->getSpecificEnthalpy()), 1e-9, 1e-9, "heat-balance", "heat equals the enthalpy lost");
    if (m != 0. && ua > 0.) c.checkNear(t, wall + std::exp(-std::min(ua, 100. * std::fabs(m) * cp) / std::fabs(m) / cp) * (T - wall), 1e-9, 0., "effectiveness", "outlet temperature");
    c.check(f->getPressure() == P, "heat-pressure", "pressure"); if (m != 0. && ua > 0. && T != wall) c.nontrivial();
    f->setTemperature(T); const double rod = c.b(0.2) ? 0. : c.lr(1e-7, 0.5), d = c.lr(1e-3, 1.), area = c.lr(1e-3, 10.); const double htc = U::computeConvectiveHeatTransferCoefficient(m, f.get(), rod, d); c.check(finite(htc) && htc >= 0. && (m != 0. || htc == 0.), "coefficient", S() << htc); c.check(htc == U::computeConvectiveHeatTransferCoefficient(-m, f.get(), rod, d) && U::computeConvectiveHeatTransferCoefficient(m, f.get(), rod, 0.) == 0., "coefficient-direction", S() << htc);
    const double q1 = U::computeConvectiveHeatFlux(f.get(), m, rod, d, area, wall); f->setTemperature(T); const double q2 = U::computeConvectiveHeatFlux(f.get(), m, htc * area, wall); c.checkNear(q1, q2, 1e-12, 0., "coefficient-flux", "flux by geometry"); f->setTemperature(T);
    Set g = gasSet(c, 1, 4); PF a = fluid(c, g), b = fluid(c, g); const double l0 = c.lr(1e-2, 10.), l1 = c.b(0.1) ? 0. : c.lr(1e-2, 10.); const double k = U::computeConductiveHeatFlux(area, a.get(), b.get(), l0, l1), want = area * (a->getThermalConductivity() * l0 + b->getThermalConductivity() * l1) / (l0 + l1) * (a->getTemperature() - b->getTemperature()) / (l0 + l1); c.checkNear(k, want, 1e-9, 1e-15, "conduction", "conducted heat"); c.checkNear(U::computeConductiveHeatFlux(area, b.get(), a.get(), l1, l0), -k, 1e-9, 1e-15, "conduction-antisymmetric", "swapped ends"); c.check(throws<TsOutOfBoundsException>([&] { U::computeConductiveHeatFlux(area, a.get(), b.get(), 0., 0.); }), "conduction-length", "zero length accepted");
}
FACET(friction, 80000, 1500000, "flow regime, friction and Nusselt numbers against laminar theory and the Colebrook equation; nontrivial = turbulent") {
    const double re = c.b(0.3) ? c.r(1500., 5000.) : c.lr(1e-3, 1e8), rod = c.b(0.2) ? 0. : c.lr(1e-7, 0.05); const double reg = U::computeFlowRegimeFactor(re); c.check(reg >= 0. && reg <= 1. && (re > 2300. || reg == 0.) && (re < 4000. || reg == 1.), "regime", S() << "Re " << re << " factor " << reg); const double f = U::computeDarcyFrictionFactor(rod, re); c.check(finite(f) && f > 0., "friction-sign", S() << f);
    if (re <= 2300.) c.checkNear(f, 64. / re, 1e-12, 0., "laminar-friction", "friction factor");
    if (re > 2300. && re < 4000.) { const double lam = U::computeDarcyFrictionFactor(rod, 2300.), tur = U::computeDarcyFrictionFactor(rod, 4000.); c.checkNear(f, lam * (1. - reg) + tur * reg, 1e-12, 0., "transition-friction", "interpolated"); }
    c.check(U::computeDarcyFrictionFactor(std::min(0.5, rod * 2. + 1e-6), re) >= f * (1. - 2e-3), "friction-roughness", "rougher pipe"); 
    Set s; PF p; if (c.b(0.3)) p = liquid(c, s); else { s = gasSet(c, 1, 4); p = fluid(c, s, c.r(200., 900.), c.lr(1., 1e3)); } const double nu = U::computeNusseltNumber(p.get(), rod, re); c.check(finite(nu) && nu > 0., "nusselt-sign", S() << "Nu " << nu << " Re " << re); if (re <= 2300.) c.check(nu == 3.66, "nusselt-laminar", S() << nu);
    if (re >= 4000.) { double pr = p->getPrandtlNumber(), d8 = f / 8.; c.checkNear(nu, d8 * (re - 1000.) * pr / (1. + 12.7 * std::sqrt(d8) * (std::pow(pr, 2. / 3.) - 1.)), 1e-9, 0., "nusselt-turbulent", "Gnielinski"); }
    const double v = c.lr(1e-3, 100.), l = c.lr(1e-3, 10.); c.checkNear(U::computeReynoldsNumber(p.get(), v, l), p->getDensity() * v * l / p->getViscosity(), 1e-12, 0., "reynolds", "Reynolds number");
    if (re >= 4000.) { const double x = 1. / std::sqrt(f), rhs = -2. * std::log10(rod / 3.7 + 2.51 * x / re); c.nontrivial();
        if (!c.near(x, rhs, 2e-3, 0.)) { // listed finding: exactly this third iterate (10.04*a*b where Serghides' formula has -5.02*b)
            const double rr = rod / 3.7, a = std::log10(rr + 12. / re), b = std::log10(rr - 5.02 * a / re), k = std::log10(rr + 10.04 * a * b / re); if (c.isKnown("darcy-serghides") && c.near(f, 0.25 / std::pow(a - (b - a) * (b - a) / (k - 2. * b + a), 2.), 1e-12, 0.)) c.known("darcy-serghides"); c.fail("turbulent-friction", S() << "friction factor " << f << " at Re " << re << " roughness " << rod << ": 1/sqrt(f) " << x << " against the Colebrook equation's " << rhs); } }
}
FACET(diffusion, 60000, 1000000, "gas diffusion between two fluids; nontrivial = different compositions of 2 or more gases") {
    Set s = gasSet(c, 1, 5); const int n = s.n(); const double T0 = c.r(250., 350.), P0 = c.lr(1., 1e3); PF a = fluid(c, s, T0, P0), b = fluid(c, s, T0 + c.r(-5., 5.), P0 * c.r(0.99, 1.01)); const double area = c.lr(1e-3, 10.), l0 = c.lr(1e-2, 5.), l1 = c.lr(1e-2, 5.), bulk = c.b(0.5) ? 0. : c.sr(1e-10, 1e-1); const double L = l0 + l1;
    PF x(new PolyFluid(*a, "x")), y(new PolyFluid(*a, "x")); const double net = U::computeGasDiffusion(x.get(), area, a.get(), b.get(), 0., l0, l1);
    const double lam = 1.380658e-23 / (1000. * 3e-19) * (a->getTemperature() / a->getPressure() * l0 + b->getTemperature() / b->getPressure() * l1) / L, mT = (a->getTemperature() * l0 + b->getTemperature() * l1) / L, mw = (a->getMWeight() * l0 + b->getMWeight() * l1) / L, D = lam * std::sqrt(3000. * 8.314472 * mT / mw) / 3., md = (a->getDensity() / a->getMWeight() * l0 + b->getDensity() / b->getMWeight() * l1) / L;
    double want = 0., sc = 0., pos = 0., neg = 0.; std::vector<double> J(n); for (int i = 0; i < n; ++i) { J[i] = D * md * (a->getMoleFraction(i) - b->getMoleFraction(i)) / L; want += J[i] * prop(s.t[i])->getMWeight() * area; sc += std::fabs(J[i]) * prop(s.t[i])->getMWeight() * area; (J[i] > 0. ? pos : neg) += J[i]; }
    c.check(std::fabs(net - want) <= 1e-4 * sc + 1e-15, "diffusion-net", S() << "net diffusion " << net << " expected " << want << " of " << sc); c.check(std::fabs(pos + neg) <= 1e-6 * (pos - neg) + 1e-18, "equimolar", "model");
    const double net2 = U::computeGasDiffusion(y.get(), area, b.get(), a.get(), 0., l1, l0); c.check(std::fabs(net + net2) <= 1e-9 * sc + 1e-15, "diffusion-antisymmetric", S() << net << " and swapped " << net2);
    if (std::fabs(net) > 1e-2 * sc) for (int i = 0; i < n; ++i) c.check(std::fabs(x->getMassFraction(i) * net - J[i] * prop(s.t[i])->getMWeight() * area) <= 1e-3 * sc + 1e-15, "diffusion-mixture", S() << "compound " << i << " diffuses " << x->getMassFraction(i) * net << " expected " << J[i] * prop(s.t[i])->getMWeight() * area);
    PF z(new PolyFluid(*a, "x")); const double lim = U::computeGasDiffusion(z.get(), area, a.get(), b.get(), bulk, l0, l1); double ratio = 1.; if (bulk > 0. && neg < 0.) ratio = std::max(0., 1. - bulk / a->getMWeight() / area / -neg); else if (bulk < 0. && pos > 0.) ratio = std::max(0., 1. + bulk / b->getMWeight() / area / pos);
    c.check(std::fabs(lim - want * ratio) <= 1e-3 * sc + 1e-15, "diffusion-opposed", S() << "net " << lim << " with bulk flow " << bulk << " expected " << want * ratio); c.check(z->getTemperature() == (lim > 0. ? b : a)->getTemperature(), "diffusion-temperature", "receiver's temperature"); c.check(throws<TsOutOfBoundsException>([&] { U::computeGasDiffusion(z.get(), area, a.get(), b.get(), 0., 0., 0.); }), "diffusion-length", "zero length accepted");
    if (n > 1 && sc > 0.) c.nontrivial();
}
FACET(mixtures, 120000, 2000000, "fraction conversions, normalisation, mixing and translation between fluid sets; nontrivial = 2 or more compounds") {
    Set s = gasSet(c, 1, 6); const int n = s.n(); std::vector<double> mf = genFractions(c, n), y(n), back(n), pp(n), y2(n); if (n > 1) c.nontrivial();
    U::convertMassFractionToMoleFraction(&y[0], &mf[0], s.cfg.get()); U::convertMoleFractionToMassFraction(&back[0], &y[0], s.cfg.get()); double sum = 0., mw = 0.; for (int i = 0; i < n; ++i) mw += mf[i] / prop(s.t[i])->getMWeight(); for (int i = 0; i < n; ++i) { sum += y[i]; c.checkNear(y[i], mf[i] / prop(s.t[i])->getMWeight() / mw, 1e-9, 0., "mole-fraction", S() << i); c.checkNear(back[i], mf[i], 1e-7, 1e-15, "fraction-round-trip", S() << i); } c.checkNear(sum, 1., 1e-12, 0., "mole-sum", "sum");
    std::vector<double> in = mf; U::convertMassFractionToMoleFraction(&in[0], &in[0], s.cfg.get()); for (int i = 0; i < n; ++i) c.check(in[i] == y[i], "in-place", S() << i);
    const double P = c.lr(1e-3, 1e4); U::convertMoleFractionToPartialPressure(&pp[0], &y[0], s.cfg.get(), P); U::convertPartialPressureToMoleFraction(&y2[0], &pp[0], s.cfg.get()); for (int i = 0; i < n; ++i) { c.checkNear(pp[i], y[i] * P, 1e-12, 0., "partial-pressure", S() << i); c.checkNear(y2[i], y[i], 1e-9, 1e-15, "partial-round-trip", S() << i); }
    { std::vector<double> a(n); for (int i = 0; i < n; ++i) a[i] = c.b(0.2) ? 0. : c.b(0.1) ? -c.lr(1e-12, 1.) : c.b(0.2) ? c.lr(1e-40, 1e-30) : c.lr(1e-9, 10.); if (c.b(0.3)) a = mf; std::vector<double> o = a; double tot = 0.; for (int i = 0; i < n; ++i) tot += a[i] < (DBL_EPSILON * DBL_EPSILON) ? 0. : a[i]; bool ch = U::normalizeArray(&a[0], n); double t2 = 0.; for (int i = 0; i < n; ++i) { c.check(a[i] >= 0., "normalise-negative", S() << a[i]); t2 += a[i]; }
        if (tot > 0.) { c.checkNear(t2, 1., 1.3e-7, 0., "normalise-sum", "sum"); for (int i = 0; i < n; ++i) if (o[i] >= (DBL_EPSILON * DBL_EPSILON)) c.checkNear(a[i], ch ? o[i] / tot : o[i], 1e-9, 0., "normalise-value", S() << i); else c.check(a[i] == 0., "normalise-tiny", S() << a[i]); } else c.check(t2 == 0., "normalise-zero", "zero"); if (std::fabs(std::fabs(tot - 1.) - FLT_EPSILON) > 1e-12) c.check(ch == (std::fabs(tot - 1.) > FLT_EPSILON), "normalise-flag", S() << ch); }
    { PF a = fluid(c, s), b = fluid(c, s); std::vector<double> f(n); const double m0 = c.b(0.1) ? 0. : c.lr(1e-9, 100.), m1 = c.b(0.1) ? 0. : c.lr(1e-9, 100.); for (int i = 0; i < n; ++i) f[i] = (m0 * a->getMassFraction(i) + m1 * b->getMassFraction(i)); if (m0 + m1 == 0.) c.check(throws<TsOutOfBoundsException>([&] { U::mixFluidMasses(a.get(), m0, b.get(), m1, n); }), "mix-nothing", "no mass"); else { U::mixFluidMasses(a.get(), m0, b.get(), m1, n); for (int i = 0; i < n; ++i) c.checkNear(a->getMassFraction(i) * a->getMass(), f[i], 1e-6, 1e-15 * (m0 + m1), "mix", S() << "mass of compound " << i); c.checkNear(a->getMass(), m0 + m1, 1e-12, 0., "mix-mass", "total"); } }
    { Set o = gasSet(c, 1, 6); const bool conv = c.b(0.4); FP::FluidType ct = conv ? c.pick(o.t) : FP::NO_FLUID; std::vector<int> map(n + 1); std::vector<int> want(n); bool any = false; for (int i = 0; i < n; ++i) { std::vector<FP::FluidType>::iterator q = std::find(o.t.begin(), o.t.end(), s.t[i]); want[i] = q != o.t.end() ? (int)(q - o.t.begin()) : conv ? (int)(std::find(o.t.begin(), o.t.end(), ct) - o.t.begin()) : -1; any = any || want[i] >= 0; }
        if (!any) c.check(throws<TsInitializationException>([&] { U::buildTransformMap(&map[0], s.cfg.get(), o.cfg.get(), ct); }), "empty-map-accepted", "no common fluid");
        else { U::buildTransformMap(&map[0], s.cfg.get(), o.cfg.get(), ct); c.check(map[0] == n, "map-size", "size"); for (int i = 0; i < n; ++i) c.check(map[i + 1] == want[i], "map", S() << i << " -> " << map[i + 1]); PF f = fluid(c, o); std::vector<double> old(o.n()), w(o.n(), 0.); for (int i = 0; i < o.n(); ++i) old[i] = f->getMassFraction(i); double tot = 0.; for (int i = 0; i < n; ++i) if (want[i] >= 0) { w[want[i]] += mf[i]; tot += mf[i]; } const double p = c.lr(1., 1e3), t = c.r(200., 600.); U::transformState(f.get(), p, t, &mf[0], &map[0]); for (int i = 0; i < o.n(); ++i) c.checkNear(f->getMassFraction(i), tot > 0. ? w[i] / tot : old[i], 1e-7, 1e-12, "transform", S() << "mass fraction " << i); c.check(f->getPressure() == p && f->getTemperature() == t, "transform-state", "state"); }
        FP::FluidType absent = FP::GUNNS_WATER; c.check(throws<TsInitializationException>([&] { U::buildTransformMap(&map[0], s.cfg.get(), o.cfg.get(), absent); }), "absent-conversion-accepted", "conversion to an absent fluid"); }
    { std::vector<FP::FluidType> t = {FP::GUNNS_N2, FP::GUNNS_H2O}; PolyFluidConfigData cf(&props(), &t[0], 2); double x = c.lr(1e-6, 1.); double f[2] = {1. - x, x}; PolyFluidInputData i(c.r(280., 360.), c.lr(1., 200.), 0., 1., f); PolyFluid w(cf, i); c.checkNear(U::computeRelativeHumidityH2O(&w), w.getPartialPressure(FP::GUNNS_H2O) / prop(FP::GUNNS_H2O)->getSaturationPressure(w.getTemperature()), 1e-12, 0., "humidity", "relative humidity"); }
}
FACET(math, 200000, 4000000, "numeric helpers over their documented domains; nontrivial = every case") {
    c.nontrivial(); const double pi = M_PI;
    { double k = c.r(-3., 3.), a = k * pi, r = MsMath::anglePi(a); if (a >= -3. * pi && a < 3. * pi) { c.check(r >= -pi && r <= pi && std::fabs(std::remainder(r - a, 2. * pi)) < 1e-12, "angle-pi", S() << a << " -> " << r); } a = c.r(-4., 4.) * pi; r = MsMath::angle2Pi(a); if (a < 4. * pi) c.check(r >= 0. && r <= 2. * pi && std::fabs(std::remainder(r - a, 2. * pi)) < 1e-12, "angle-2pi", S() << a << " -> " << r);
      a = c.r(-540., 540.); r = MsMath::angle180(a); if (a < 540.) c.check(r >= -180. && r < 180. && std::fabs(std::remainder(r - a, 360.)) < 1e-9, "angle-180", S() << a << " -> " << r); a = c.r(-720., 720.); r = MsMath::angle360(a); if (a < 720.) c.check(r >= 0. && (r < 360. || std::fabs(a) < 1e-10) && std::fabs(std::remainder(r - a, 360.)) < 1e-9, "angle-360", S() << a << " -> " << r); }
    { double x = c.b(0.3) ? c.r(-2., 2.) : c.r(-1., 1.); double a = MsMath::protectedAsin(x), b = MsMath::protectedAcos(x), l = std::min(1., std::max(-1., x)); c.checkNear(a, std::asin(l), 0., 5e-8, "asin", S() << x); c.checkNear(b, std::acos(l), 0., 5e-8, "acos", S() << x); double y = c.b(0.3) ? -c.lr(1e-20, 10.) : c.lr(1e-20, 1e20); c.checkNear(MsMath::protectedSqrt(y), y < DBL_EPSILON ? 0. : std::sqrt(y), 1e-14, 0., "sqrt", S() << y); c.checkNear(MsMath::protectedLog(y), y < DBL_EPSILON ? 0. : std::log(y), 1e-14, 0., "log", S() << y); c.checkNear(MsMath::protectedLog10(y), y < DBL_EPSILON ? 0. : std::log10(y), 1e-14, 0., "log10", S() << y);
      double n = c.sr(1e-6, 1e6), d = c.sr(1e-20, 1e6), th = c.b(0.5) ? DBL_EPSILON : c.lr(1e-12, 1.), rv = c.r(-5., 5.); c.check(MsMath::protectedDiv(n, d, th, rv) == (std::fabs(d) <= th ? rv : n / d), "div", S() << n << "/" << d); c.check(MsMath::protectedDiv(n, 0.) == 0., "div-zero", "zero"); }
    { double lo = c.r(-10., 10.), hi = lo + c.r(0., 10.), x = c.r(-20., 20.); double l = MsMath::limitRange(lo, x, hi); c.check(l == (x < lo ? lo : x > hi ? hi : x), "limit", S() << x); c.check(MsMath::isInRange(lo, x, hi) == (x >= lo && x <= hi), "in-range", S() << x); double q = MsMath::innerLimit(lo, x, hi); c.check((q <= lo || q >= hi) && ((x > lo && x < hi) ? (q == lo || q == hi) && std::fabs(q - x) <= (hi - lo) / 2. + 1e-12 : q == x), "inner-limit", S() << lo << " " << x << " " << hi << " -> " << q);
      int il = c.i(-10, 10), ih = il + c.i(0, 10), ix = c.i(-25, 25); int r = MsMath::limitRange(il, ix, ih); c.check(r == (ix < il ? il : ix > ih ? ih : ix), "limit-int", S() << ix); int w = MsMath::innerLimit(il, ix, ih); c.check((w <= il || w >= ih) && ((ix > il && ix < ih) ? 2 * std::abs(w - ix) <= ih - il + 1 : w == ix), "inner-limit-int", S() << ix); float fl = (float)lo, fh = (float)hi, fx = (float)x; c.check(MsMath::limitRange(fl, fx, fh) == (fx < fl ? fl : fx > fh ? fh : fx) && MsMath::isInRange(fl, fx, fh) == (fx >= fl && fx <= fh) && MsMath::isInRange(il, ix, ih) == (ix >= il && ix <= ih), "limit-float", S() << fx); }
    { double x = c.sr(1e-3, 1e6); int r = MsMath::round(x); c.check(std::fabs(r - x) <= 0.5 + 1e-9 && r == std::floor(x + 0.5), "round", S() << x); double in = c.sr(1e-6, 1e9), res = c.lr(1e-6, 1e3); double q = MsMath::quantize(in, res); c.check(std::fabs(q - in) <= 0.5 * res * (1. + 1e-9) + 1e-15 * std::fabs(in), "quantize-near", S() << in << " by " << res << " gave " << q); double k = q / res; c.checkNear(k, std::floor(k + 0.5), 1e-14, 1e-9, "quantize-multiple", S() << in << " by " << res); c.checkNear(MsMath::quantize(q, res), q, 1e-12, 0., "quantize-idempotent", S() << in); c.check(MsMath::quantize(in, 0.) == in, "quantize-off", S() << in); }
    { double x = c.sr(1e-8, 1e12); c.checkNear(MsMath::asinh(x), std::asinh(x), 1e-9, 1e-15, "asinh", S() << x); c.check(MsMath::asinh(-x) == -MsMath::asinh(x), "asinh-odd", S() << x); double b = c.lr(1e-2, 1e2), e = c.r(-8., 8.); c.checkNear(MsMath::fastPow(b, e), std::pow(b, e), 1e-6, 0., "fast-pow", S() << b << "^" << e); int k = c.i(-8, 8); double nb = c.b() ? b : -b; c.checkNear(MsMath::fastPow(nb, k), std::pow(nb, k), 1e-12, 0., "fast-pow-integer", S() << nb << "^" << k); }
}
