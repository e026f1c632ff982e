// C37: defined reactions balance; combustion keeps atoms, fractions and energy; sorption equilibria behave like isotherms.
#include "vpt.hh"
#include "properties/ChemicalCompound.hh"
#include "properties/ChemicalReaction.hh"
#include "properties/CombustCH4.hh"
#include "properties/CombustFactory.hh"
#include "properties/SorbantProperties.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include <cmath>
#include <map>
using namespace vpt;
class VptFriend { public: static int warnEquil(const Combust& b) { return b.mWarningCountEquil; } static double tothT(const SorbateProperties& s, double T) { return s.mTothT0 + s.mTothC0 / T; } static double toth(const SorbateProperties& s, double p, double T) { const double e = std::exp(std::min(s.mTothE / T, 100.)), t = s.mTothT0 + s.mTothC0 / T; return s.mTothA0 * e * p / std::pow(1. + std::pow(s.mTothB0 * e * p, t), 1. / t); } static int warnAll(const Combust& b) { return b.mWarningCountEquil + b.mWarningCountCombust; } };

typedef std::map<std::string, int> Atoms;
static const struct { const char* s; double w; } ELEM[] = {{"SI", 28.0855}, {"LI", 6.941}, {"CL", 35.453}, {"Ar", 39.948}, {"He", 4.0026}, {"C", 12.0107}, {"H", 1.00794}, {"O", 15.9994}, {"N", 14.0067}, {"P", 30.973762}};
// reads a compound's name such as C3H10OSI; NH42HPO4 stands for (NH4)2HPO4
static Atoms atoms(std::string f) {
    Atoms a; if (f == "NH42HPO4") f = "N2H9PO4";
    for (size_t i = 0; i < f.size();) { bool hit = false; for (size_t e = 0; e < sizeof ELEM / sizeof *ELEM && !hit; ++e) { const std::string s = ELEM[e].s; if (f.compare(i, s.size(), s) == 0) { i += s.size(); int n = 0; while (i < f.size() && isdigit(f[i])) n = 10 * n + f[i++] - '0'; a[s] += n ? n : 1; hit = true; } } if (!hit) return Atoms(); }
    return a;
}

FACET(reactions, 400, 400, "always (every defined reaction and compound is visited)") {
    static DefinedChemicalCompounds cs; static DefinedChemicalReactions rs; c.nontrivial();
    const ChemicalCompound::Type t = ChemicalCompound::Type(c.i(0, ChemicalCompound::NO_COMPOUND - 1)); const ChemicalCompound* k = cs.getCompound(t);
    c.check(k != 0 && k->mType == t, "compound", S() << "compound " << int(t) << " is not itself"); Atoms a = atoms(k->mName); c.check(!a.empty(), "compound-name", k->mName);
    double w = 0.; for (Atoms::iterator i = a.begin(); i != a.end(); ++i) for (size_t e = 0; e < sizeof ELEM / sizeof *ELEM; ++e) if (i->first == ELEM[e].s) w += ELEM[e].w * i->second;
    c.checkNear(k->mMWeight, w, 2e-4, 0., "molecular-weight", k->mName);
    const double scale = c.lr(1e-6, 1e3); const ChemicalReaction::Type rt = ChemicalReaction::Type(c.i(0, ChemicalReaction::NO_REACTION - 1)); const ChemicalReaction* r = rs.getReaction(rt);
    c.check(r != 0 && r->mType == rt, "reaction", S() << "reaction " << int(rt) << " is not itself");
    Atoms in, out; double mi = 0., mo = 0.;
    auto add = [&](Atoms& x, double& m, ChemicalCompound::Type ty, double n) { if (ty == ChemicalCompound::NO_COMPOUND || n == 0.) return; const ChemicalCompound* q = cs.getCompound(ty); Atoms b = atoms(q->mName); for (Atoms::iterator i = b.begin(); i != b.end(); ++i) x[i->first] += int(std::lround(i->second * n)); m += scale * n * q->mMWeight; };
    add(in, mi, r->mReactantType, r->mReactantMoleRatio); add(in, mi, r->mReagentType, r->mReagentMoleRatio); add(out, mo, r->mProduct1Type, r->mProduct1MoleRatio); add(out, mo, r->mProduct2Type, r->mProduct2MoleRatio);
    c.check(in == out, "atoms", S() << "reaction " << int(rt) << " does not balance its atoms"); c.checkNear(mo, mi, 2e-5, 0., "mass", S() << "mass of the products of reaction " << int(rt));
    c.check(r->mReactantEfficiency > 0. && r->mReactantEfficiency <= 1., "efficiency", S() << r->mReactantEfficiency); c.check(r->mMaxReactantRate >= 0., "rate", "negative rate");
    c.check(cs.getCompound(ChemicalCompound::NO_COMPOUND) == 0 && rs.getReaction(ChemicalReaction::NO_REACTION) == 0, "none", "an undefined compound or reaction is returned");
    // the two ranges of each thermodynamic fit meet at 1000 K
    const double *lo = k->mThermoCoeffLowTemp, *hi = k->mThermoCoeffHighTemp;
    if (lo && hi && lo[0] != 0.) { double v[2][3]; for (int q = 0; q < 2; ++q) { const double *p = q ? hi : lo, T = 1000.; v[q][0] = p[0] + T * (p[1] + T * (p[2] + T * (p[3] + T * p[4]))); v[q][1] = p[0] + T * (p[1] / 2 + T * (p[2] / 3 + T * (p[3] / 4 + T * p[4] / 5))) + p[5] / T; v[q][2] = p[0] * std::log(T) + T * (p[1] + T * (p[2] / 2 + T * (p[3] / 3 + T * p[4] / 4))) + p[6]; }
        for (int j = 0; j < 3; ++j) c.check(std::fabs(v[0][j] - v[1][j]) <= 2e-3 * std::max(1., std::fabs(v[0][j])), "thermo-fit", S() << k->mName << " property " << j << " jumps from " << v[0][j] << " to " << v[1][j] << " at 1000 K"); }
}

enum { xO2, xCH4, xH2O, xCO2, xOH, xCO, xO, xH2, xH, xHe, NX };
static const ChemicalCompound::Type TY[NX] = {ChemicalCompound::O2, ChemicalCompound::CH4, ChemicalCompound::H2O, ChemicalCompound::CO2, ChemicalCompound::OH, ChemicalCompound::CO, ChemicalCompound::O, ChemicalCompound::H2, ChemicalCompound::H, ChemicalCompound::He};
static const double RU = 8.314472e-3;
static double hOf(const ChemicalCompound* k, double T) { const double* p = T < 1000. ? k->mThermoCoeffLowTemp : k->mThermoCoeffHighTemp; return RU * T * (p[0] + T * (p[1] / 2 + T * (p[2] / 3 + T * (p[3] / 4 + T * p[4] / 5))) + p[5] / T); }
static double sOf(const ChemicalCompound* k, double T, double P) { const double* p = T < 1000. ? k->mThermoCoeffLowTemp : k->mThermoCoeffHighTemp; return RU * (p[0] * std::log(T) + T * (p[1] + T * (p[2] / 2 + T * (p[3] / 3 + T * p[4] / 4))) + p[6] - std::log(std::max(P, 2.2e-16) / 101325.)); }

FACET(combustion, 12000, 300000, "the mixture burned outside the interpolated band") {
    static DefinedChemicalCompounds cs; const ChemicalCompound* k[NX]; for (int i = 0; i < NX; ++i) k[i] = cs.getCompound(TY[i]);
    double he = c.b(0.5) ? 0. : c.b(0.1) ? c.r(0.6, 0.97) : c.r(0., 0.5), other = c.b(0.15) ? c.r(0., 0.3) * (1. - he) : 0., f = c.b(0.03) ? c.i(0, 1) : c.r(0.03, 0.75);
    std::vector<double> x; std::vector<FluidProperties::FluidType> ty; std::vector<int> ord(4); for (int i = 0; i < 4; ++i) ord[i] = i; c.shuffle(ord);
    const double O = (1. - he - other) * (1. - f), F = (1. - he - other) * f;
    for (int i = 0; i < 4; ++i) { if (ord[i] == 0) { x.push_back(O); ty.push_back(FluidProperties::GUNNS_O2); } if (ord[i] == 1) { x.push_back(F); ty.push_back(FluidProperties::GUNNS_CH4); } if (ord[i] == 2 && (he > 0. || c.b(0.5))) { x.push_back(he); ty.push_back(FluidProperties::GUNNS_HE); } if (ord[i] == 3 && other > 0.) { x.push_back(other); ty.push_back(FluidProperties::GUNNS_N2); } }
    CombustFactory fac; Combust* b = fac.createCombustor(CombustFactory::CH4); c.check(b != 0, "factory", "no combustor");
    const double P = c.lr(50., 8e3), Tin = c.r(200., 900.), guess = c.r(800., 3800.), total = O + F + he;
    const bool burns = !(O == 0. || F == 0. || F < 0.05 || F > 2.5 * O - 0.3928), band = O > 1.65957 * F && O < 2. * F, edge = (!band && O > 1.63 * F && O < 2.03 * F && F > 0.05) || std::fabs(F - 0.05) < 1e-9 || std::fabs(F - 2.5 * O + 0.3928) < 1e-9 || std::fabs(O - 1.65957 * F) < 1e-9 || std::fabs(O - 2. * F) < 1e-9;
    if (edge) c.discard();
    auto run = [&](double g) { try { b->updateCombustionMixture(g, P, Tin, &x[0], &ty[0], int(x.size())); } catch (TsInitializationException&) { return false; } return true; };
    if (!run(guess)) { c.label("no solution"); c.check(burns, "unburned-throws", "a mixture that does not burn was refused"); c.discard(); }
    double h0 = 0., w0 = 0.; h0 = O * hOf(k[xO2], Tin) + F * hOf(k[xCH4], Tin) + he * hOf(k[xHe], Tin); w0 = O * k[xO2]->mMWeight + F * k[xCH4]->mMWeight + he * k[xHe]->mMWeight; h0 /= w0;
    if (burns && !band && guess != 3000.) { const double* m = b->getMoles(); if (VptFriend::warnEquil(*b) > 0 || std::fabs(b->getEnth() - h0) > 0.03 + 0.01 * std::fabs(h0) || std::fabs(m[xCH4] + m[xCO2] + m[xCO] - F) > 2e-3 * total || std::fabs(4. * (m[xCH4] - F) + 2. * (m[xH2O] + m[xH2]) + m[xOH] + m[xH]) > 8e-3 * total || std::fabs(2. * (m[xO2] + m[xCO2] - O) + m[xH2O] + m[xOH] + m[xCO] + m[xO]) > 4e-3 * total) { c.label("guess too far"); b = fac.createCombustor(CombustFactory::CH4); if (!run(3000.)) c.discard(); } }
    const double T1 = b->getTemp();
    bool heGrew = false;
    auto state = [&](const char* when) {
        const double *m = b->getMoles(), *r = b->getMoleFractions(), T = b->getTemp(); double sum = 0., tot = 0., h = 0., s = 0., w = 0.;
        for (int i = 0; i < NX; ++i) { c.check(std::isfinite(m[i]) && m[i] >= 0. && r[i] >= 0. && r[i] <= 1. + 1e-12, "fractions", S() << when << ": " << m[i] << " mol, fraction " << r[i] << " of product " << i); sum += r[i]; tot += m[i]; }
        c.checkNear(sum, 1., 1e-9, 0., "fraction-sum", when);
        for (int i = 0; i < NX; ++i) { c.check(std::fabs(r[i] - m[i] / tot) < 1e-9, "fraction-moles", S() << when << ": fraction " << r[i] << " of product " << i << " with " << m[i] << " of " << tot << " mol"); h += r[i] * hOf(k[i], T); s += r[i] * sOf(k[i], T, P * 1000. * r[i]); w += r[i] * k[i]->mMWeight; }
        c.check(T > 0. && T < 6000., "temperature", S() << when << ": " << T << " K");
        if (!band) {
            c.checkNear(b->getEnth(), h / w, 1e-4, 1e-6, "enthalpy", S() << when << " enthalpy of the reported mixture"); c.checkNear(b->getMolecWeight(), w, 1e-6, 0., "weight", S() << when << " molecular weight");
            const double C = m[xCH4] + m[xCO2] + m[xCO], H = 4. * m[xCH4] + 2. * m[xH2O] + m[xOH] + 2. * m[xH2] + m[xH], Ox = 2. * m[xO2] + m[xH2O] + 2. * m[xCO2] + m[xOH] + m[xCO] + m[xO];
            const double tol = 2e-3;
            c.check(std::fabs(C - F) <= tol * total, "carbon", S() << when << ": " << C << " mol of C from " << F); c.check(std::fabs(H - 4. * F) <= 4 * tol * total, "hydrogen", S() << when << ": " << H << " mol of H from " << 4. * F); c.check(std::fabs(Ox - 2. * O) <= 2 * tol * total, "oxygen", S() << when << ": " << Ox << " mol of O from " << 2. * O);
            const bool grew = std::fabs(m[xHe] - he) > 1e-9 + 1e-6 * he, rich = burns && 2. * F > O && he > 0.; if (rich && grew) heGrew = true;
            c.check(std::fabs(m[xHe] - he) <= 1e-9 + 1e-6 * he || (rich && grew && m[xHe] < 20. * he + 1e-7 && c.isKnown("fuel-rich-helium")), "helium", S() << when << ": " << m[xHe] << " mol of He from " << he);
        }
        c.check(b->getGamma() > 1. && b->getGamma() < 1.7, "gamma", S() << when << ": " << b->getGamma());
    };
    c.log() << "O2 " << O << " CH4 " << F << " He " << he << " P " << P << " Tin " << Tin << " guess " << guess << " T " << T1 << " warn " << VptFriend::warnEquil(*b) << " " << VptFriend::warnAll(*b) << (band ? " band" : 2 * F > O ? " rich" : " lean"); if (burns && VptFriend::warnEquil(*b) > 0) { c.label("flagged as not converged"); return; }
    state("after combustion"); c.checkNear(b->getPress(), P, 1e-12, 0., "pressure", "pressure");
    if (!burns) { c.label("does not burn"); c.checkNear(T1, Tin, 1e-12, 0., "unburned", "temperature of a mixture that does not burn"); const double* m = b->getMoles(); c.check(std::fabs(m[xO2] - O) < 1e-12 && std::fabs(m[xCH4] - F) < 1e-12 && std::fabs(m[xHe] - he) < 1e-12, "unburned-mixture", S() << "O2 " << O << " -> " << m[xO2] << ", CH4 " << F << " -> " << m[xCH4] << ", He " << he << " -> " << m[xHe]); }
    else {
        c.check(T1 > Tin, "hotter", S() << "burning cooled the mixture from " << Tin << " to " << T1 << " K");
        c.check(std::fabs(b->getEnth() - h0) <= (band ? 0.4 : 0.03) + 0.01 * std::fabs(h0), "energy", S() << "enthalpy " << h0 << " -> " << b->getEnth() << " kJ/g at " << T1 << " K");
        if (!band && he == 0.) { // independent gas-phase equilibria at the reported temperature, to the solver's coarse convergence
            struct Eq { const char* n; int sp[4]; double nu[4]; }; static const Eq EQ[] = {{"CO + O2/2 = CO2", {xCO, xO2, xCO2, xHe}, {-1, -.5, 1, 0}}, {"H2 + O2/2 = H2O", {xH2, xO2, xH2O, xHe}, {-1, -.5, 1, 0}}, {"CO + H2O = CO2 + H2", {xCO, xH2O, xCO2, xH2}, {-1, -1, 1, 1}}, {"H2 = 2 H", {xH2, xH, xHe, xHe}, {-1, 2, 0, 0}}, {"O2 = 2 O", {xO2, xO, xHe, xHe}, {-1, 2, 0, 0}}, {"H2 + O2 = 2 OH", {xH2, xO2, xOH, xHe}, {-1, -1, 2, 0}}};
            auto off = [&](const Eq& q, const Combust* w) { const double T = w->getTemp(), lp = std::log(P * 1000. / 101325.), *r = w->getMoleFractions(); double d = 0.; for (int j = 0; j < 4; ++j) if (q.nu[j] != 0.) { const int i = q.sp[j]; if (r[i] < 2e-3) return 0.; d += q.nu[j] * (std::log(r[i]) + lp + hOf(k[i], T) / (RU * T) - sOf(k[i], T, 101325.) / RU); } return d; };
            for (size_t e = 0; e < sizeof EQ / sizeof *EQ; ++e) { double d = off(EQ[e], b); if (d == 0.) continue; c.label(EQ[e].n);
                // the solver stops at a coarse change: a point off by more than 15% (30% in the retries) must be reached from no other first guess
                const double G[] = {T1, T1 + 30., T1 - 30., 3000., T1 + 150.}; bool ok = std::fabs(d) < 0.15; for (int j = 0; j < 5 && !ok; ++j) { Combust* w = fac.createCombustor(CombustFactory::CH4); try { w->updateCombustionMixture(G[j], P, Tin, &x[0], &ty[0], int(x.size())); ok = std::fabs(off(EQ[e], w)) < 0.3; } catch (TsInitializationException&) {} }
                c.check(ok, "equilibrium", S() << EQ[e].n << " is off its equilibrium constant by exp(" << d << ") at " << T1 << " K, " << P << " kPa"); }
        }
        if (!band) c.nontrivial(); else c.label("interpolated");
    }
    if (burns && c.b(0.5)) {
        const bool ok1 = VptFriend::warnEquil(*b) == 0; const int w0 = VptFriend::warnAll(*b); const double s1 = b->getEnt(), P2 = P * c.r(0.3, 1.); double g2 = T1; try { b->updateRecombinationMixture(g2, P2); } catch (TsInitializationException&) { c.label("no expansion solution"); return; }
        if (VptFriend::warnAll(*b) != w0 || !ok1) { c.label("expansion did not converge"); if (heGrew) c.known("fuel-rich-helium"); return; }
        c.check(std::fabs(b->getEnt() - s1) <= (band ? 0.04 : 0.003) * std::fabs(s1) + 1e-4, "entropy", S() << (band ? "band " : "") << "O2 " << O << " CH4 " << F << " He " << he << " expanding from " << P << " to " << P2 << " kPa at " << T1 << " -> " << b->getTemp() << " K changes entropy " << s1 << " -> " << b->getEnt());
        c.check(b->getTemp() <= T1 + (band ? 400. : 60.), "expansion", S() << "expanding from " << P << " to " << P2 << " kPa heats " << T1 << " -> " << b->getTemp() << " K"); c.label("expansion");
    } else if (burns && !band && c.b(0.5)) {
        const int e0 = VptFriend::warnEquil(*b); if (run(c.r(std::max(800., T1 - 400.), T1 + 400.))) if (e0 == 0 && VptFriend::warnEquil(*b) == 0) { c.check(std::fabs(b->getTemp() - T1) <= (heGrew || (2. * F > O && he > 0.) ? 400. : 60.), "guess", S() << "another first guess gives " <<  b->getEnth() << " vs " << h0 << " kJ/g, " << b->getTemp() << " K instead of " << T1); c.label("other guess"); }
    }
    if (heGrew) c.known("fuel-rich-helium");
}

FACET(sorption, 10000, 400000, "the sorbate's equilibrium loading is above zero") {
    static DefinedSorbantProperties d; const SorbantProperties::Type t = SorbantProperties::Type(c.i(0, SorbantProperties::CUSTOM - 1)); const SorbantProperties* p = d.getSorbant(t);
    c.check(p != 0 && p->getType() == t, "sorbant", S() << "sorbant " << int(t) << " is not itself"); const double v = c.lr(1e-4, 10.), vol = p->computeVolume(v); c.check(vol > 0. && vol <= v, "volume", S() << vol << " m3 of material in " << v); c.check(p->computeThermalCapacity(v) > 0., "capacity", "no heat capacity");
    const std::vector<SorbateProperties>& s = *p->getSorbates(); if (s.empty()) return; const SorbateProperties& k = s[c.i(0, int(s.size()) - 1)];
    const double T = c.r(250., 500.), p1 = c.b(0.1) ? 0. : c.lr(1e-4, 1e2), p2 = p1 + c.lr(1e-4, 1e2), w1 = k.computeLoadingEquil(p1, T), w2 = k.computeLoadingEquil(p2, T), w3 = k.computeLoadingEquil(p1, T + c.r(0., 100.));
    c.check(w1 >= 0. && std::isfinite(w1), "loading", S() << w1); if (p1 == 0.) c.check(w1 == 0., "loading-vacuum", S() << w1);
    c.check(w2 >= w1 * (1. - 1e-12), "loading-pressure", S() << "sorbant " << int(t) << " holds " << w1 << " at " << p1 << " kPa and " << w2 << " at " << p2 << " kPa, " << T << " K"); c.check(w3 <= w1 * (1. + 1e-4), "loading-temperature", S() << "sorbant " << int(t) << " at " << p1 << " kPa, " << T << " K: loading " << w1 << " rises to " << w3 << " when warmer");
    if (p1 > 2e-7 && w1 > 0. && VptFriend::tothT(k, T) > 0.1) c.checkNear(w1, VptFriend::toth(k, p1, T), 1e-9, 0., "toth", "Toth isotherm");
    const double load = c.r(0., 2.) * w1, rate = k.computeLoadingRate(w1, load); c.check((rate > 0.) == (w1 > load) && (rate < 0.) == (w1 < load), "loading-rate", S() << "rate " << rate << " at loading " << load << " with equilibrium " << w1);
    c.check(k.computeHeatFlux(rate) * rate >= 0., "sorption-heat", S() << "heat " << k.computeHeatFlux(rate) << " at rate " << rate); c.checkNear(k.computeHeatFlux(2. * rate), 2. * k.computeHeatFlux(rate), 1e-12, 0., "sorption-heat-linear", "heat"); if (w1 > 0.) c.nontrivial();
}
