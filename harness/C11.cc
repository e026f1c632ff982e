// Property C11: fluid mixture objects keep their properties mutually consistent.
#include "fluidnet.hh"
#include "aspects/fluid/fluid/MonoFluid.hh"
using namespace fn;
namespace {
struct Mix { std::vector<FP::FluidType> t; bool gas; double lo, hi; int n() const { return (int)t.size(); } };
Mix genMix(Case& c) {
    Mix m; m.gas = c.b(0.8); if (m.gas) { std::vector<FP::FluidType> a = idealGases(); c.shuffle(a); a.resize(c.i(1, 6)); m.t = a; m.lo = 110.; m.hi = 1400.; }
    else { std::vector<Liquid> l = liquids(); Liquid x = c.pick(l); m.t.push_back(x.t); m.lo = x.lo; m.hi = x.hi; if (c.b(0.3)) { std::vector<FP::FluidType> a = idealGases(); m.t.push_back(c.pick(a)); } }
    return m;
}
std::vector<double> genMf(Case& c, const Mix& m) { if (m.gas) return genFractions(c, m.n()); std::vector<double> f(m.n(), 0.); f[0] = 1.; return f; }
double genT(Case& c, const Mix& m) { return c.r(m.lo, m.hi); }
double genP(Case& c, const Mix& m) { return m.gas ? c.lr(1e-2, 1e4) : c.lr(10., 1e3); }
// The reference: composition, state and the documented mixing rules.
struct Ref { std::vector<double> mf; double T, P, flow, mass;
    double cp(const Mix& m, double t) const { double s = 0.; for (int i = 0; i < m.n(); ++i) s += mf[i] * prop(m.t[i])->getSpecificHeat(t); return s; }
    double h(const Mix& m) const { return cp(m, T) * T; }
    double mw(const Mix& m) const { double s = 0.; for (int i = 0; i < m.n(); ++i) s += mf[i] / prop(m.t[i])->getMWeight(); return 1. / s; }
    double y(const Mix& m, int i) const { return mf[i] * mw(m) / prop(m.t[i])->getMWeight(); } };
void checkComposition(Case& c, const Mix& m, const PolyFluid& f, const Ref& r, const std::string& w) {
    double sm = 0., sy = 0.; for (int i = 0; i < m.n(); ++i) { c.checkNear(f.getMassFraction(i), r.mf[i], 1e-7, 1e-12, "mass-fraction", S() << w << ": mass fraction " << i); c.checkNear(f.getMoleFraction(i), r.y(m, i), 1e-7, 1e-12, "mole-fraction", S() << w << ": mole fraction " << i); sm += f.getMassFraction(i); sy += f.getMoleFraction(i); c.check(f.getMassFraction(m.t[i]) == f.getMassFraction(i) && f.getMoleFraction(m.t[i]) == f.getMoleFraction(i), "fraction-by-type", w); }
    c.checkNear(sm, 1., 2e-7, 0., "mass-fractions-sum", w); c.checkNear(sy, 1., 2e-7, 0., "mole-fractions-sum", w); c.checkNear(f.getMWeight(), r.mw(m), 1e-7, 0., "molar-mass", w + ": molar mass");
}
void checkAmount(Case& c, const Mix& m, const PolyFluid& f, const Ref& r, const std::string& w) { c.checkNear(f.getMass(), r.mass, 1e-7, 1e-14, "mass", w + ": mass"); c.checkNear(f.getMole(), r.mass / r.mw(m), 1e-7, 1e-14, "moles", w + ": moles"); }
void checkState(Case& c, const Mix& m, PolyFluid& f, const Ref& r, const std::string& w) {
    c.checkNear(f.getTemperature(), r.T, 1e-9, 0., "temperature", w + ": temperature"); c.checkNear(f.getPressure(), r.P, 1e-9, 0., "pressure", w + ": pressure"); c.checkNear(f.getFlowRate(), r.flow, 1e-9, 1e-18, "flow-rate", w + ": flow rate");
    double rho = 0., cp = 0., mu = 0., k = 0., pr = 0., ga = 0.;
    for (int i = 0; i < m.n(); ++i) { const FluidProperties& q = *prop(m.t[i]); const double y = r.y(m, i), p = r.P * y; if (y < 1e-14) continue; rho += q.getDensity(r.T, p); mu += y * q.getViscosity(r.T, p); k += r.mf[i] * q.getThermalConductivity(r.T, p); pr += y * q.getPrandtlNumber(r.T, p); ga += y * q.getAdiabaticIndex(r.T, p); cp += r.mf[i] * q.getSpecificHeat(r.T, p);
        c.checkNear(f.getPartialPressure(m.t[i]), p, 1e-6, 1e-12, "partial-pressure", S() << w << ": partial pressure " << i); c.checkNear(f.getConstituent(m.t[i])->getTemperature(), r.T, 1e-9, 0., "constituent-temperature", w); }
    c.checkNear(f.getDensity(), rho, 1e-6, 1e-14, "density", w + ": density"); c.checkNear(f.getViscosity(), mu, 1e-6, 0., "viscosity", w + ": viscosity"); c.checkNear(f.getSpecificHeat(), cp, 1e-6, 0., "specific-heat", w + ": specific heat");
    c.checkNear(f.getThermalConductivity(), k, 1e-6, 0., "conductivity", w + ": thermal conductivity"); c.checkNear(f.getPrandtlNumber(), pr, 1e-6, 0., "prandtl", w + ": Prandtl number"); c.checkNear(f.getAdiabaticIndex(), ga, 1e-6, 0., "adiabatic-index", w + ": adiabatic index"); c.checkNear(f.getSpecificEnthalpy(), cp * r.T, 1e-6, 0., "specific-enthalpy", w + ": specific enthalpy");
    c.checkNear(f.computeDensity(r.T, r.P), rho, 1e-6, 1e-14, "compute-density", w + ": computed density"); c.checkNear(f.computeSpecificEnthalpy(r.T, r.P), cp * r.T, 1e-6, 0., "compute-enthalpy", w + ": computed enthalpy");
}
struct Obj { PolyFluid* f; Ref r; };
}
FACET(operations, 60000, 1500000, "1-3 mixtures of up to 6 gases or a liquid, 1-20 random updates, every property compared with a reference after each; nontrivial = at least 2 compounds and 3 updates") {
    Mix m = genMix(c); PolyFluidConfigData cfg(&props(), &m.t[0], m.n()); const int k = c.i(1, 3); std::vector<Obj> o(k); int done = 0;
    for (int j = 0; j < k; ++j) { Obj& x = o[j]; x.r.mf = genMf(c, m); x.r.T = genT(c, m); x.r.P = genP(c, m); x.r.flow = c.b() ? 0. : c.lr(1e-6, 10.); x.r.mass = c.b(0.2) ? 0. : c.lr(1e-6, 100.); PolyFluidInputData in(x.r.T, x.r.P, x.r.flow, x.r.mass, &x.r.mf[0]); x.f = new PolyFluid(cfg, in); }
    std::unique_ptr<std::vector<Obj>, void(*)(std::vector<Obj>*)> clean(&o, [](std::vector<Obj>* v) { for (size_t j = 0; j < v->size(); ++j) delete (*v)[j].f; });
    for (int j = 0; j < k; ++j) { checkComposition(c, m, *o[j].f, o[j].r, "constructed"); checkAmount(c, m, *o[j].f, o[j].r, "constructed"); checkState(c, m, *o[j].f, o[j].r, "constructed"); c.check(o[j].f->isInitialized() && o[j].f->getPhase() == prop(m.t[0])->getPhase(), "phase", "phase"); }
    const int steps = c.i(1, 20);
    for (int s = 0; s < steps; ++s) {
        Obj& x = o[c.raw(k)]; PolyFluid& f = *x.f; Ref& r = x.r; std::string w = S() << "update " << s << " "; bool state = true, amount = true; ++done;
        switch (c.i(0, 11)) {
        case 0: r.T = genT(c, m); f.setTemperature(r.T); w += "setTemperature"; break;
        case 1: r.P = genP(c, m); f.setPressure(r.P); c.checkNear(f.getDensity(), f.computeDensity(r.T, r.P), 1e-9, 0., "density-after-setPressure", w + "setPressure density"); f.setTemperature(r.T); w += "setPressure"; break;
        case 2: r.mass = c.b(0.1) ? 0. : c.lr(1e-9, 1e3); f.setMass(r.mass); w += "setMass"; for (int i = 0; i < m.n(); ++i) c.checkNear(f.getConstituent(m.t[i])->getMass(), r.mass * r.mf[i], 1e-6, 1e-14, "constituent-mass", w); break;
        case 3: { double mole = c.lr(1e-9, 1e2); f.setMole(mole); r.mass = mole * r.mw(m); w += "setMole"; for (int i = 0; i < m.n(); ++i) c.checkNear(f.getConstituent(m.t[i])->getMole(), mole * r.y(m, i), 1e-6, 1e-14, "constituent-moles", w); break; }
        case 4: r.flow = c.b(0.2) ? 0. : c.lr(1e-9, 10.); f.setFlowRate(r.flow); w += "setFlowRate"; for (int i = 0; i < m.n(); ++i) c.checkNear(f.getConstituent(m.t[i])->getFlowRate(), r.flow * r.mf[i], 1e-6, 1e-15, "constituent-flow", w); break;
        case 5: { r.mf = genMf(c, m); r.mass = c.lr(1e-9, 1e3); std::vector<double> a = r.mf; if (c.b(0.2)) { double e = 1. + c.sr(3e-7, 9e-5); for (int i = 0; i < m.n(); ++i) a[i] *= e; w += "(off by 1e-4) "; } f.setMassAndMassFractions(r.mass, &a[0]); f.setTemperature(r.T); w += "setMassAndMassFractions"; break; }
        case 6: { r.mf = genMf(c, m); double mole = c.lr(1e-9, 1e2); std::vector<double> y(m.n()); for (int i = 0; i < m.n(); ++i) y[i] = r.y(m, i); f.setMoleAndMoleFractions(mole, &y[0]); r.mass = mole * r.mw(m); f.setTemperature(r.T); w += "setMoleAndMoleFractions"; break; }
        case 7: { Obj& z = o[c.raw(k)]; if (z.f == x.f) { --done; continue; } f.setState(z.f); double keep = r.mass; Ref q = z.r; r = q; r.mass = keep; w += "setState"; amount = false; checkComposition(c, m, f, r, w); checkState(c, m, f, r, w); f.setMass(r.mass); amount = true; break; }
        case 8: { Obj& z = o[c.raw(k)]; if (z.f == x.f) { --done; continue; } double rate = c.lr(1e-6, 10.); const double fl = r.flow + rate, h = (r.h(m) * r.flow + z.r.h(m) * rate) / fl; std::vector<double> nf(m.n()); for (int i = 0; i < m.n(); ++i) nf[i] = (r.flow * r.mf[i] + rate * z.r.mf[i]) / fl;
                f.setFlowRate(r.flow); f.addState(z.f, rate); w += "addState"; const double T1 = r.T, T2 = z.r.T; r.mf = nf; r.flow = fl; checkComposition(c, m, f, r, w); c.checkNear(f.getFlowRate(), fl, 1e-9, 0., "added-flow", w); c.checkNear(f.getSpecificEnthalpy(), h, 1e-6, 1e-6, "added-enthalpy", w + " enthalpy"); r.T = f.getTemperature(); c.checkNear(r.cp(m, r.T) * r.T, h, 1e-6, 1e-6, "added-temperature", w + " temperature against mixed enthalpy");
                c.check(r.T >= std::min(T1, T2) * (1. - 1e-7) && r.T <= std::max(T1, T2) * (1. + 1e-7), "added-temperature-range", S() << w << ": " << T1 << " and " << T2 << " mixed to " << r.T); for (int i = 0; i < m.n(); ++i) c.checkNear(f.getConstituent(m.t[i])->getFlowRate(), r.flow * r.mf[i], 1e-6, 1e-15, "added-constituent-flow", w); f.setPressure(r.P); f.setTemperature(r.T); f.setMass(r.mass); break; }
        case 9: r.T = genT(c, m); r.P = genP(c, m); f.edit(r.T, r.P); w += "edit"; break;
        case 10: { if (!m.gas) { --done; continue; } r.mf = genMf(c, m); r.T = genT(c, m); r.P = genP(c, m); std::vector<double> pp(m.n()); for (int i = 0; i < m.n(); ++i) pp[i] = r.P * r.y(m, i); const double mole = f.getMole(); f.edit(r.T, &pp[0]); w += "edit partial pressures"; r.mass = mole * r.mw(m); break; }
        case 11: { r.mf = genMf(c, m); r.mass = c.lr(1e-9, 1e3); for (int i = 0; i < m.n(); ++i) f.setMass(i, r.mass * r.mf[i]); f.updateMass(); f.setTemperature(r.T); w += "setMass by compound"; break; }
        }
        c.log() << w << "\n"; checkComposition(c, m, f, r, w); if (amount) checkAmount(c, m, f, r, w); if (state) { f.setFlowRate(r.flow); checkState(c, m, f, r, w); }
    }
    if (m.n() > 1 && done >= 3) c.nontrivial();
}
FACET(inverses, 120000, 3000000, "temperature and enthalpy, density and pressure invert each other; enthalpy grows with temperature; includes mixtures whose specific heat slopes nearly cancel; nontrivial = mixture of 2 or more") {
    Mix m = genMix(c); std::vector<double> mf = genMf(c, m);
    if (c.b(0.3)) { m.gas = true; m.lo = 110.; m.hi = 1400.; FP::FluidType neg = c.pickOf({FP::GUNNS_CO, FP::GUNNS_AR, FP::GUNNS_HE}), pos = c.pickOf({FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}); m.t.clear(); m.t.push_back(neg); m.t.push_back(pos);
        const double dn = prop(neg)->getSpecificHeat(400.) - prop(neg)->getSpecificHeat(300.), dp = prop(pos)->getSpecificHeat(400.) - prop(pos)->getSpecificHeat(300.); double x = dp / (dp - dn) + c.sr(1e-17, 1e-3); if (x < 0. || x > 1.) c.discard(); mf.clear(); mf.push_back(x); mf.push_back(1. - x); c.label("cancelling slopes"); }
    PolyFluidConfigData cfg(&props(), &m.t[0], m.n()); double T = genT(c, m), P = genP(c, m); PolyFluidInputData in(T, P, 0., 1., &mf[0]); PolyFluid f(cfg, in);
    c.log() << "T " << T << " P " << P << " compounds"; for (int i = 0; i < m.n(); ++i) c.log() << " " << (int)m.t[i] << ":" << mf[i]; c.log() << "\n";
    double t2 = genT(c, m), h = f.computeSpecificEnthalpy(t2); c.checkNear(f.computeTemperature(h), t2, 1e-8, 0., "temperature-inverse", "temperature of the enthalpy of a temperature"); c.check(f.getTemperature() == T, "compute-pure", "computing changed the state");
    double t3 = genT(c, m); if (t3 > t2 * (1. + 1e-9)) c.check(f.computeSpecificEnthalpy(t3) > h, "enthalpy-grows", S() << "enthalpy at " << t3 << " not above that at " << t2);
    if (m.gas) { double rho = f.computeDensity(t2, P); c.checkNear(f.computePressure(t2, rho), P, 1e-8, 0., "pressure-inverse", "pressure of the density of a pressure"); }
    else { double rho = f.computeDensity(t2, P); c.checkNear(f.computeDensity(t2, f.computePressure(t2, rho)), rho, 1e-6, 0., "density-inverse", "density of the pressure of a density"); }
    if (m.n() > 1) c.nontrivial();
}
FACET(copies, 30000, 500000, "a named copy has the same state as its source; nontrivial = mixture of 2 or more") {
    Mix m = genMix(c); PolyFluidConfigData cfg(&props(), &m.t[0], m.n()); std::vector<double> mf = genMf(c, m); PolyFluidInputData in(genT(c, m), genP(c, m), c.lr(1e-6, 10.), c.lr(1e-6, 100.), &mf[0]); PolyFluid a(cfg, in); PolyFluid b(a, "copy");
    c.check(a.getTemperature() == b.getTemperature() && a.getPressure() == b.getPressure() && a.getFlowRate() == b.getFlowRate() && a.getMass() == b.getMass() && a.getMole() == b.getMole() && a.getMWeight() == b.getMWeight() && a.getDensity() == b.getDensity() && a.getViscosity() == b.getViscosity() && a.getSpecificHeat() == b.getSpecificHeat() && a.getSpecificEnthalpy() == b.getSpecificEnthalpy() && a.getThermalConductivity() == b.getThermalConductivity() && a.getPrandtlNumber() == b.getPrandtlNumber() && a.getAdiabaticIndex() == b.getAdiabaticIndex() && a.getPhase() == b.getPhase() && a.isInitialized() == b.isInitialized() && a.getNConstituents() == b.getNConstituents(), "copy", "a property of the copy differs");
    for (int i = 0; i < m.n(); ++i) c.check(a.getMassFraction(i) == b.getMassFraction(i) && a.getMoleFraction(i) == b.getMoleFraction(i) && a.getType(i) == b.getType(i), "copy-fractions", S() << "compound " << i);
    // the copy is a mixture of its own
    double t = genT(c, m), t0 = a.getTemperature(); b.setTemperature(t); c.check(a.getTemperature() == t0 && b.getTemperature() == t, "copy-shares", "setting the copy's temperature"); for (int i = 0; i < m.n(); ++i) { c.checkNear(a.getConstituent(m.t[i])->getTemperature(), t0, 0., 0., "copy-shares", "constituent"); c.checkNear(b.getPartialPressure(m.t[i]), a.getPressure() * a.getMoleFraction(i), 1e-9, 0., "copy-partial", "partial pressure of the copy after an update"); }
    if (m.n() > 1) c.nontrivial();
}
FACET(copied_partials, 2000, 20000, "partial pressures of a fresh copy; nontrivial = mixture of 2 or more") {
    Mix m = genMix(c); PolyFluidConfigData cfg(&props(), &m.t[0], m.n()); std::vector<double> mf = genMf(c, m); PolyFluidInputData in(genT(c, m), genP(c, m), 0., c.lr(1e-6, 100.), &mf[0]); PolyFluid a(cfg, in); PolyFluid b(a, "copy");
    if (m.n() > 1) c.nontrivial();
    for (int i = 0; i < m.n(); ++i) if (!c.near(b.getPartialPressure(m.t[i]), a.getPartialPressure(m.t[i]), 1e-12, 0.)) { if (c.isKnown("copy-partial-pressure") && b.getPartialPressure(m.t[i]) == a.getPressure()) c.known("copy-partial-pressure"); c.fail("copy-partial-pressure", S() << "compound " << i << " partial pressure " << a.getPartialPressure(m.t[i]) << " copied as " << b.getPartialPressure(m.t[i])); }
}
FACET(mono, 40000, 600000, "single-compound fluid objects against their property tables; nontrivial = every case") {
    std::vector<FP::FluidType> a = idealGases(); FP::FluidType t = c.pick(a); const FluidProperties* p = prop(t); double T = c.r(110., 1400.), P = c.lr(1e-2, 1e4), fl = c.lr(1e-6, 10.), ma = c.lr(1e-6, 10.); MonoFluidInputData in(T, P, fl, ma); MonoFluid f(p, in), g; g.initialize(p, in);
    MonoFluid* v[] = {&f, &g}; for (int k = 0; k < 2; ++k) { MonoFluid& x = *v[k]; c.checkNear(x.getMole(), ma / p->getMWeight(), 1e-12, 0., "mono-moles", "moles"); c.check(x.getTemperature() == T && x.getPressure() == P && x.getFlowRate() == fl && x.getMass() == ma && x.getType() == t && x.getDensity() == p->getDensity(T, P) && x.getSpecificEnthalpy() == p->getSpecificEnthalpy(T, P) && x.getViscosity() == p->getViscosity(T, P) && x.getSpecificHeat() == p->getSpecificHeat(T, P) && x.getThermalConductivity() == p->getThermalConductivity(T, P) && x.getPrandtlNumber() == p->getPrandtlNumber(T, P) && x.getAdiabaticIndex() == p->getAdiabaticIndex(T, P), "mono-state", "property differs"); }
    double mo = c.lr(1e-6, 10.); f.setMole(mo); c.checkNear(f.getMass(), mo * p->getMWeight(), 1e-12, 0., "mono-set-moles", "mass"); f.setMass(ma); c.checkNear(f.getMole(), ma / p->getMWeight(), 1e-12, 0., "mono-set-mass", "moles");
    double T2 = c.r(110., 1400.), P2 = c.lr(1e-2, 1e4), f2 = c.lr(1e-6, 10.), r = c.b() ? 0. : c.lr(1e-6, 10.); MonoFluidInputData in2(T2, P2, f2, 1.); MonoFluid s(p, in2); f.addState(&s, r); const double q = r > 0. ? r : f2; c.checkNear(f.getFlowRate(), fl + q, 1e-12, 0., "mono-add-flow", "flow"); c.checkNear(f.getTemperature(), (T * fl + T2 * q) / (fl + q), 1e-12, 0., "mono-add-T", "temperature"); c.checkNear(f.getPressure(), (P * fl + P2 * q) / (fl + q), 1e-12, 0., "mono-add-P", "pressure");
    f.setState(&s); c.check(f.getTemperature() == T2 && f.getPressure() == P2 && f.getFlowRate() == f2 && f.getMass() == ma, "mono-set-state", "state"); c.checkNear(f.computeTemperature(f.computeSpecificEnthalpy(T2)), T2, 1e-3, 0., "mono-inverse", "temperature"); c.checkNear(f.computePressure(T2, f.getDensity()), P2, 1e-9, 0., "mono-pressure", "pressure");
    f.resetState(); c.check(f.getTemperature() == 0. && f.getPressure() == 0. && f.getFlowRate() == 0. && f.getMass() == 0. && f.getMole() == 0., "mono-reset", "reset"); c.nontrivial();
}
