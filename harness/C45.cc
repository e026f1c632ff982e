// C45: sorption beds, sublimators, type changers and the island report account for the matter they hold and move.
// vpt: san
#include "aspects/fluid/source/GunnsFluidSorptionBed.hh"
#include "aspects/fluid/source/GunnsFluidSublimator.hh"
#include "aspects/fluid/conductor/GunnsFluidTypeChangeConductor.hh"
#include "core/GunnsFluidIslandAnalyzer.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    static double pv(const GunnsBasicLink& l, int i) { return l.mPotentialVector[i]; } static double src(const GunnsBasicLink& l, int i) { return l.mSourceVector[i]; } static PolyFluid* flu(GunnsFluidLink& l) { return l.mInternalFluid; } \
    typedef GunnsFluidSublimator Su; static double therm(const Su& s) { return s.mThermalConductivity; } static double cond(const Su& s) { return s.mSystemConductance; } static bool through(const Su& s) { return s.mLiquidBreakthrough; } static void bias(Su& s, bool f, double v) { s.setMalfFeedRateBias(f, v); } \
    typedef GunnsFluidSorptionBedSorbate So; static double& rate(So& s) { return s.mLoadingRate; } static double& load(So& s) { return s.mLoading; } static double& frac(So& s) { return s.mLoadingFraction; } static double& equil(So& s) { return s.mLoadingEquil; } static double& held(So& s) { return s.mLoadedMass; } static double& ads(So& s) { return s.mAdsorptionRate; } typedef GunnsFluidSorptionBedSegment Sx; static double vs(Sx& s) { return s.computeEffectiveSorbantVolume(); } static double v0(Sx& s) { return s.mVolSorbant; } static const SorbantProperties* sp(Sx& s) { return s.mProperties; }
#include "fluidnet.hh"
using namespace fn;
typedef ChemicalCompound CC;
static double lim(double a, double x, double b) { return std::min(b, std::max(a, x)); }
static bool stepped(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
static int idx(const FSpec& s, FP::FluidType t) { return (int)(std::find(s.types.begin(), s.types.end(), t) - s.types.begin()); }
static double mass(const State& s, int i) { return s.mass * s.mf[i]; }
static FSpec gasSpec(Case& c, std::vector<FP::FluidType> need, int n, double Tlo = 270., double Thi = 400.) {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; g.liquids = false; FSpec s = genFluid(c, g); s.links.clear();
    const FP::FluidType extra[] = {FP::GUNNS_N2, FP::GUNNS_NH3, FP::GUNNS_O2}; s.types = need; for (int i = 0; i < 3; ++i) if (c.b(0.5)) s.types.push_back(extra[i]); if (s.types.empty()) s.types.push_back(FP::GUNNS_N2); c.shuffle(s.types);
    for (int k = 0; k < n; ++k) { if (k > 0) s.nodes.push_back(s.nodes[0]); FNode& x = s.nodes[k]; x.T = c.r(Tlo, Thi); x.P = c.lr(20., 500.); x.vol = c.lr(1., 100.); x.mf = genFractions(c, (int)s.types.size()); for (size_t q = 0; q < x.tc.size(); ++q) x.tc[q] = c.b(0.2) ? 0. : c.lr(1e-8, 1e-4); }
    return s;
}
struct Inv { std::vector<double> m, tc; double sum; };
static Inv inventory(FluidNet& f) { Inv v; v.m.assign(f.spec.types.size(), 0.); v.tc.assign(f.spec.tcs.size(), 0.); v.sum = 0.; for (int k = 0; k < f.n(); ++k) { State s = snap(*f.nodes[k].getContent()); for (size_t i = 0; i < v.m.size(); ++i) { v.m[i] += s.mass * s.mf[i]; v.sum += s.mass * s.mf[i]; } for (size_t i = 0; i < v.tc.size(); ++i) v.tc[i] += s.tcMass[i]; } return v; }
// The Toth isotherm.
struct Toth { CC::Type t; double a0, b0, E, t0, c0, dh, km; std::vector<std::pair<CC::Type, double> > block, off; };
static double toth(const Toth& x, double pp, double T) { if (x.E == 0. || pp < (double)FLT_EPSILON) return 0.; const double e = std::exp(lim(0., x.E / T, 100.)); double t = lim(-100., x.t0 + x.c0 / T, 100.); if (t >= 0. && t < 0.1) t = 0.1; else if (t < 0. && t > -0.1) t = -0.1; return x.a0 * e * pp / std::max(std::pow(1. + std::pow(x.b0 * e * pp, t), 1. / t), DBL_EPSILON); }

FACET(isotherm, 20000, 400000, "loading between the linear and the saturated part of the isotherm, or a defined sorbant") {
    Toth x; x.t = CC::CO2; x.a0 = c.lr(1e-9, 1e2); x.b0 = c.lr(1e-10, 1.); x.E = c.b(0.1) ? 0. : c.b(0.1) ? -c.r(0., 1e3) : c.r(0., 1e4); x.t0 = c.r(-1., 1.); x.c0 = c.b() ? 0. : c.r(-200., 250.); x.dh = -c.r(0., 60.); x.km = c.lr(1e-4, 1e-1);
    std::vector<SorbateInteractingCompounds> none; const bool def = c.b(0.3); const double T = c.r(200., 500.), pp = c.b(0.1) ? c.pickOf<double>({0., 1e-8, -1.}) : c.lr(1e-6, 100.); DefinedSorbantProperties* d = 0; std::unique_ptr<DefinedSorbantProperties> own; const SorbateProperties* p; SorbateProperties mine(chem().getCompound(CC::CO2), 0, 0, x.a0, x.b0, x.E, x.t0, x.c0, x.dh, x.km); p = &mine;
    if (def) { own.reset(d = new DefinedSorbantProperties); const SorbantProperties* s = d->getSorbant((SorbantProperties::Type)c.i(0, 4)); const std::vector<SorbateProperties>* v = s->getSorbates(); c.check(v->size() == 2, "sorbates", ""); p = &v->at(c.i(0, 1)); const double q1 = p->computeLoadingEquil(pp, T), q2 = p->computeLoadingEquil(pp * 1.5, T); c.check(q1 >= 0. && (pp <= 0. || q2 >= q1), "monotonic", S() << q1 << " " << q2 << " at " << pp << " kPa " << T << " K"); c.nontrivial(); }
    else { const double w = toth(x, pp, T); if (std::isfinite(w)) c.checkNear(p->computeLoadingEquil(pp, T), w, 1e-9, 0., "toth", S() << "pp " << pp << " T " << T); const double lin = w > 0. ? w / (x.a0 * std::exp(lim(0., x.E / T, 100.)) * pp) : 0.; if (lin > 1e-3 && lin < 0.999) c.nontrivial(); }
    const double l = c.b(0.2) ? 0. : c.lr(1e-6, 1e4), e = c.b(0.2) ? 0. : c.lr(1e-6, 1e4); if (!def) { c.checkNear(p->computeLoadingRate(e, l), x.km * (e - l), 1e-12, 1e-15, "rate", ""); c.checkNear(p->computeHeatFlux(e), -e * x.dh * 1e6, 1e-12, 0., "heat", ""); }
}

FACET(sorption_bed, 5000, 120000, "two sorbates were adsorbed or one desorbed, in two or more segments or with interactions") {
    FSpec s = gasSpec(c, {FP::GUNNS_CO2, FP::GUNNS_H2O}, 2, 280., 360.); for (int k = 0; k < 2; ++k) { const int w = idx(s, FP::GUNNS_H2O); if (s.types.size() > 2 || c.b()) s.nodes[k].mf[w] *= 0.02; double t = 0.; for (size_t i = 0; i < s.types.size(); ++i) t += s.nodes[k].mf[i]; for (size_t i = 0; i < s.types.size(); ++i) s.nodes[k].mf[i] /= t; }
    FluidNet f(s, false); const int nt = (int)s.types.size(), nc = (int)s.tcs.size(), ns = c.i(1, 3); GunnsFluidSorptionBedConfigData cfg("bed", &f.nl, c.lr(1e-6, 1e-3)); struct Seg { std::vector<Toth> s; double vol, por, dens, cp, htc; bool custom; }; std::vector<Seg> sg(ns); GunnsFluidSorptionBedInputData in(false, 0., c.r(280., 350.));
    for (int g = 0; g < ns; ++g) { Seg& x = sg[g]; x.vol = c.lr(1e-4, 0.1); x.htc = c.lr(1e-3, 1e2); x.custom = c.b(0.85); if (!x.custom) { cfg.addSegment((SorbantProperties::Type)c.i(0, 4), x.vol, x.htc); continue; } x.por = c.r(0., 0.9); x.dens = c.r(100., 3000.); x.cp = c.r(100., 2000.);
        std::vector<CC::Type> can; for (int t = 0; t < CC::NO_COMPOUND; ++t) { const CC* d = chem().getCompound((CC::Type)t); if (!d) continue; bool is = c.b(0.02); for (int i = 0; i < nt; ++i) is = is || s.types[i] == d->mFluidType; for (int i = 0; i < nc; ++i) is = is || s.tcs[i] == t; bool dup = false; for (size_t q = 0; q < can.size(); ++q) dup = dup || (chem().getCompound(can[q])->mFluidType == d->mFluidType && d->mFluidType != FP::NO_FLUID); if (is && !dup) can.push_back((CC::Type)t); } std::vector<CC::Type> all = can; c.shuffle(can); can.resize(c.i(0, std::min(4, (int)can.size())));
        SorbantProperties* p = cfg.addCustomSorbant(x.dens, x.por, x.cp); for (size_t q = 0; q < can.size(); ++q) { Toth y; y.t = can[q]; y.E = c.r(500., 3000.); const double T = 310., e = std::exp(y.E / T), full = c.lr(1., 3e3); y.b0 = c.lr(1e-3, 10.) / e; y.a0 = full * y.b0; y.t0 = c.r(0.3, 1.); y.c0 = c.b() ? 0. : c.r(-30., 30.); y.dh = -c.r(1., 60.); y.km = c.lr(1e-4, 5e-2); for (size_t r = 0; r < can.size(); ++r) if (r != q && c.b(0.4)) y.block.push_back(std::make_pair(can[r], c.r(-1.2, 1.2))); for (size_t r = 0; r < all.size(); ++r) if (all[r] != y.t && c.b(0.12)) y.off.push_back(std::make_pair(all[r], c.r(0., 1.))); x.s.push_back(y);
            std::vector<SorbateInteractingCompounds> b, o; for (size_t r = 0; r < y.block.size(); ++r) { SorbateInteractingCompounds z; z.mCompound = y.block[r].first; z.mInteraction = y.block[r].second; b.push_back(z); } for (size_t r = 0; r < y.off.size(); ++r) { SorbateInteractingCompounds z; z.mCompound = y.off[r].first; z.mInteraction = y.off[r].second; o.push_back(z); } p->addSorbate(y.t, &b, &o, y.a0, y.b0, y.E, y.t0, y.c0, y.dh, y.km); if (c.b()) in.addSegmentSorbateLoading(g, y.t, c.lr(0.1, 1.) * full); }
        cfg.addSegment(p, x.vol, x.htc); }
    GunnsFluidSorptionBed B; B.initialize(cfg, in, f.links, 0, 1); GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec); double vol = 0.; for (int g = 0; g < ns; ++g) vol += sg[g].vol; int took = 0; bool gave = false, inter = false;
    for (int k = 0, e = c.i(3, 20); k < e; ++k) {
        if (c.b(0.4)) { const double m = std::min(snap(*f.nodes[0].getContent()).mass, snap(*f.nodes[1].getContent()).mass); src.setFlowDemand(c.b(0.15) ? 0. : c.sr(1e-6, 1e-2) * m / dt); } if (c.b(0.1)) { const int g = c.raw(ns); if (B.mSegments[g].getNSorbates()) { GunnsFluidSorptionBedSorbate& z = B.mSegments[g].mSorbates[c.raw(B.mSegments[g].getNSorbates())]; z.mMalfLoadingEquilFlag = c.b(); z.mMalfLoadingEquilValue = c.r(-0.2, 2.); } }
        const std::vector<State> old = snapAll(f); const Inv i0 = inventory(f); std::vector<std::vector<double> > l0(ns), fr0(ns), h0(ns); for (int g = 0; g < ns; ++g) for (unsigned q = 0; q < B.mSegments[g].getNSorbates(); ++q) { l0[g].push_back(VptFriend::load(B.mSegments[g].mSorbates[q])); fr0[g].push_back(VptFriend::frac(B.mSegments[g].mSorbates[q])); }
        if (!stepped(f, dt)) break; const double fl = VptFriend::flow(B); const int up = fl >= 0. ? 0 : 1; const State& u = old[up]; double most = std::fabs(fl);
        for (int k2 = 0; k2 < 2; ++k2) if (f.nodes[k2].getContent()->getMass() < 20. * most * dt || f.nodes[k2].getContent()->getPressure() < 0.5) return;
        std::vector<double> dm(nt, 0.), dtc(nc, 0.), repR(nt, 0.), repM(nt, 0.), repTR(nc, 0.), repTM(nc, 0.), turn(nt, 1e-15), turnT(nc, 1e-15); std::vector<int> both(nt, -1); const Inv i1 = inventory(f); double moles = 0.; bool clean = true;
        for (int g = 0; g < ns; ++g) for (unsigned q = 0; q < B.mSegments[g].getNSorbates(); ++q) { GunnsFluidSorptionBedSorbate& z = B.mSegments[g].mSorbates[q]; const CC* d = z.getProperties()->getCompound(); int fi = -1, ti = -1; for (int i = 0; i < nt; ++i) if (s.types[i] == d->mFluidType) fi = i; for (int i = 0; i < nc; ++i) if (s.tcs[i] == d->mType) ti = i; c.check(fi == z.getFluidIndexes()->mFluid && ti == z.getFluidIndexes()->mTc, "index", S() << "compound " << d->mType);
            const double r = VptFriend::ads(z), ld = VptFriend::load(z), rt = VptFriend::rate(z), eq = VptFriend::equil(z), vs = VptFriend::vs(B.mSegments[g]), m = r * d->mMWeight; const std::string at = S() << "step " << k << " segment " << g << " compound " << d->mType << " flow " << fl << " loading " << l0[g][q] << " to " << ld << " equilibrium " << eq << " rate " << rt;
            c.checkNear(ld, std::max(0., l0[g][q] + rt * dt), 1e-12, 1e-15, "loading", at); c.check(rt * (eq - l0[g][q]) >= 0., "direction", at); c.checkNear(r, rt * vs, 1e-12, 0., "adsorption-rate", at); c.checkNear(VptFriend::held(z), ld * vs * d->mMWeight, 1e-12, 0., "held", at);
            c.log() << at << " moles " << r * dt << " fluid " << fi << " tc " << ti; for (size_t o = 0; o < z.getProperties()->getOffgasCompounds()->size(); ++o) c.log() << " offgas " << (int)(*z.getProperties()->getOffgasCompounds())[o].mCompound << " x " << (*z.getProperties()->getOffgasCompounds())[o].mInteraction; c.log() << "\n"; if (r > DBL_EPSILON) ++took; else if (r < -DBL_EPSILON) gave = true; if (r != 0. && (ns > 1 || !z.getProperties()->getBlockingCompounds()->empty() || !z.getProperties()->getOffgasCompounds()->empty())) inter = true;
            if (fi >= 0) { dm[fi] -= m * dt; repR[fi] += m; repM[fi] += VptFriend::held(z); turn[fi] += std::fabs(m * dt); if (ti >= 0) both[fi] = ti; } else { dtc[ti] -= m * dt; repTR[ti] += m; repTM[ti] += VptFriend::held(z); turnT[ti] += std::fabs(m * dt); }
            if (r > DBL_EPSILON) for (size_t o = 0; o < z.getProperties()->getOffgasCompounds()->size(); ++o) { const SorbateInteractingCompounds& y = z.getProperties()->getOffgasCompounds()->at(o); const CC* od = chem().getCompound(y.mCompound); int oi = -1, ot = -1; for (int i = 0; i < nt; ++i) if (s.types[i] == od->mFluidType) oi = i; for (int i = 0; i < nc; ++i) if (s.tcs[i] == y.mCompound) ot = i; const double w = r * y.mInteraction; if (w < DBL_EPSILON) continue; if (oi >= 0) { dm[oi] += w * prop(s.types[oi])->getMWeight() * dt; turn[oi] += w * od->mMWeight * dt; if (ot >= 0) both[oi] = ot; } else if (ot >= 0) { dtc[ot] += w * od->mMWeight * dt; turnT[ot] += w * od->mMWeight * dt; } } }
        for (int i = 0; i < nt; ++i) { double have = i1.m[i] - i0.m[i], want = dm[i]; if (both[i] >= 0) { have += i1.tc[both[i]] - i0.tc[both[i]]; want += dtc[both[i]]; clean = false; } c.checkNear(have, want, both[i] >= 0 ? 1e-3 : 1e-6, 1e-11 * i1.sum + 1e-7 * turn[i] + 5e-12 * dt, "conserve", S() << "step " << k << " flow " << fl << " constituent " << (int)s.types[i]); moles += dm[i] / dt / prop(s.types[i])->getMWeight(); }
        if (std::fabs(fl) > 1e-10) for (int j = 0; j < nc; ++j) { bool b2 = false; for (int i = 0; i < nt; ++i) b2 = b2 || both[i] == j; if (!b2) c.checkNear(i1.tc[j] - i0.tc[j], dtc[j], 1e-6, 2e-8 * (i1.tc[j] + i0.tc[j]) + 1e-7 * turnT[j] + 1e-13 * i1.sum + 5e-12 * dt, "tc-conserve", S() << "step " << k << " flow " << fl << " trace compound " << (int)s.tcs[j]); }
        for (int i = 0; i < nt; ++i) { c.checkNear(B.getAdsorptionFluidRate(s.types[i]), repR[i], 1e-5, 1e-18, "report-rate", S() << "step " << k << " " << i); c.checkNear(B.getAdsorbedFluidMass(s.types[i]), repM[i], 1e-12, 1e-18, "report-mass", S() << "step " << k << " " << i); } for (int j = 0; j < nc; ++j) { c.checkNear(B.getAdsorptionTcRate(s.tcs[j]), repTR[j], 1e-5, 1e-18, "report-tc-rate", S() << "step " << k << " " << j); c.checkNear(B.getAdsorbedTcMass(s.tcs[j]), repTM[j], 1e-12, 1e-18, "report-tc-mass", S() << "step " << k << " " << j); }
        if (clean) c.checkNear(VptFriend::src(B, 1 - up), moles, 1e-6, 1e-12 + 1e-10 * std::fabs(fl), "source", S() << "step " << k << " flow " << fl); c.check(VptFriend::src(B, up) == 0., "source-upstream", "");
        // the segment the flow enters first, from the upstream node alone
        if (std::fabs(fl) > 1e-10) { const int g = fl > 0. ? 0 : ns - 1; GunnsFluidSorptionBedSegment& z = B.mSegments[g]; PolyFluid& of = *f.nodes[up].getOutflow(); const double wall = z.mTemperature, md = std::fabs(fl), cp = of.getSpecificHeat(), ua = std::min(sg[g].htc, 100. * md * cp), To = wall + std::exp(-ua / md / cp) * (of.getTemperature() - wall), Ta = 0.5 * (of.getTemperature() + To), pi = VptFriend::pv(B, up), po = pi - std::fabs(VptFriend::pv(B, 0) - VptFriend::pv(B, 1)) / vol * sg[g].vol, nd = md / u.MW, v0 = VptFriend::v0(z); double heat = md * (of.getSpecificEnthalpy() - of.computeSpecificEnthalpy(To, of.getPressure())), cap = VptFriend::sp(z)->computeThermalCapacity(v0); std::vector<double> fr = fr0[g]; if (sg[g].custom) { c.checkNear(v0, sg[g].vol * (1. - sg[g].por), 1e-12, 0., "sorbant-volume", ""); c.checkNear(cap, sg[g].cp * sg[g].dens * v0, 1e-12, 0., "sorbant-capacity", ""); }
            for (unsigned q = 0; q < z.getNSorbates(); ++q) { GunnsFluidSorptionBedSorbate& y = z.mSorbates[q]; const SorbateProperties* pr = y.getProperties(); const int fi = y.getFluidIndexes()->mFluid, ti = y.getFluidIndexes()->mTc; const double xb = fi >= 0 ? u.mf[fi] * u.MW / prop(s.types[fi])->getMWeight() : 0., xt = ti >= 0 ? u.tcMole[ti] : 0.; const Toth* my = 0; for (size_t r = 0; r < sg[g].s.size(); ++r) if (sg[g].s[r].t == pr->getCompound()->mType) my = &sg[g].s[r]; double eq = my ? toth(*my, pi * (xb + xt), Ta) : pr->computeLoadingEquil(pi * (xb + xt), Ta);
                const std::vector<SorbateInteractingCompounds>* bl = pr->getBlockingCompounds(); if (my) c.check(bl->size() == my->block.size(), "blocking", ""); for (size_t b = 0; b < bl->size(); ++b) for (unsigned r = 0; r < z.getNSorbates(); ++r) if (z.mSorbates[r].getProperties()->getCompound()->mType == (*bl)[b].mCompound) { const double it = (*bl)[b].mInteraction; eq *= 1. - lim(0., it >= 0. ? it * fr[r] : it * (fr[r] - 1.), 1.); break; } if (y.mMalfLoadingEquilFlag) eq *= std::max(0., y.mMalfLoadingEquilValue);
                const double in = nd * (xb + xt) / v0; double de = FLT_MAX; if (fi >= 0) de = std::max(0., nd * of.getProperties(s.types[fi])->getSaturationPressure(To) / std::max(po, DBL_EPSILON) - nd * (xb + xt)); const double km = my ? my->km : pr->computeLoadingRate(1., 0.); double rt = km * (eq - l0[g][q]); if (rt >= 0.) rt = std::min(rt, 0.99 * in); else rt = std::max(rt, std::max(-l0[g][q] / dt, -de / v0)); const std::string at = S() << "step " << k << " inlet segment " << g << " sorbate " << q << " flow " << fl << " pp " << pi * (xb + xt) << " T " << Ta << " loading " << l0[g][q] << " blocked to " << eq;
                c.checkNear(VptFriend::equil(y), eq, 1e-6, 1e-12 + 1e-7 * (fr[q] > 0. ? 0. : 0.), "equilibrium", at); c.checkNear(VptFriend::rate(y), rt, 1e-6, 1e-8 * km * (eq + l0[g][q]) + 1e-15 / dt, "inlet-rate", at); fr[q] = VptFriend::frac(y); c.checkNear(fr[q], VptFriend::load(y) / std::max(VptFriend::equil(y), DBL_EPSILON), 1e-9, 0., "fraction", at); const double dh = my ? my->dh : pr->computeHeatFlux(-1e-6); heat += -VptFriend::ads(y) * dh * 1e6; if (fi >= 0) cap += of.getProperties(s.types[fi])->getSpecificHeat(wall) * VptFriend::held(y); }
            c.checkNear(z.mHeatFlux, heat, 1e-6, 1e-6 * md * cp * (1. + std::fabs(of.getTemperature() - wall)) + 1e-12, "heat", S() << "step " << k << " flow " << fl); c.checkNear(z.mThermCap, cap, 1e-6, 0., "capacity", S() << "step " << k); } }
    if ((took > 1 || gave) && inter) c.nontrivial();
}

// A conductor that renames some of the fluids flowing through it.
FACET(type_change, 5000, 120000, "flow in both directions, or with two or more converted types") {
    FSpec s = gasSpec(c, {FP::GUNNS_CO2, FP::GUNNS_H2O}, 2); const int nt = (int)s.types.size(), nc = (int)s.tcs.size(); std::vector<int> perm; for (int i = 0; i < nt; ++i) perm.push_back(i); c.shuffle(perm); const int np = c.i(0, nt / 2); std::vector<FP::FluidType> t0, t1; std::vector<int> to1(nt), to0(nt); for (int i = 0; i < nt; ++i) to1[i] = to0[i] = i;
    for (int q = 0; q < np; ++q) { const int a = perm[2 * q], b = perm[2 * q + 1]; t0.push_back(s.types[a]); t1.push_back(s.types[b]); to1[a] = b; to0[b] = a; if (c.b(0.7)) for (int k = 0; k < 2; ++k) { s.nodes[k].mf[k ? a : b] = 0.; double t = 0.; for (int i = 0; i < nt; ++i) t += s.nodes[k].mf[i]; if (t <= 0.) { s.nodes[k].mf[k ? b : a] = 1.; t = 1.; } for (int i = 0; i < nt; ++i) s.nodes[k].mf[i] /= t; } }
    FluidNet f(s, false); const double G = c.b(0.1) ? 0. : c.lr(1e-9, 1e-5); GunnsFluidTypeChangeConductor l; l.initialize(GunnsFluidTypeChangeConductorConfigData("tc", &f.nl, G, &t0, &t1), GunnsFluidTypeChangeConductorInputData(), f.links, 0, 1); GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 2); f.start(); const double dt = c.pickOf<double>({0.1, 0.05}); logFluid(c.log(), s); bool fwd = false, bck = false; double blk = 0.; std::string moles;
    for (int k = 0, e = c.i(2, 15); k < e; ++k) {
        if (c.b(0.1)) { blk = c.b() ? 0. : c.r(0., 1.); l.setMalfBlockage(blk > 0., blk); } double sf = 0.; const std::vector<State> old = snapAll(f); if (c.b(0.3)) sf = c.lr(1e-6, 1e-2) * old[1].mass / dt; src.setFlowDemand(sf);
        if (!stepped(f, dt)) break; const std::vector<State> now = snapAll(f); const double fl = VptFriend::flow(l); const std::string at = S() << "step " << k << " flow " << fl << " pairs " << np << " drain " << sf; for (int q = 0; q < 2; ++q) if (now[q].mass < 20. * (std::fabs(fl) + sf) * dt || now[q].P < 0.5) return;
        if (blk >= 1. || G == 0.) c.checkNear(fl, 0., 0., 0., "blocked", at); const int up = fl >= 0. ? 0 : 1; const double af = std::fabs(fl) > 1e-13 ? std::fabs(fl) : 0.; const State& u = old[up];
        // the moles leave the upstream node under one name and arrive under the other; the flow keeps its mass (moles: see below)
        std::vector<double> x(nt, 0.), w(nt, 0.); double W = 0.; for (int i = 0; i < nt; ++i) { const double mol = u.mf[i] / prop(s.types[i])->getMWeight(); const int j = up ? to0[i] : to1[i]; w[j] += mol * prop(s.types[j])->getMWeight(); } for (int i = 0; i < nt; ++i) W += w[i];
        for (int i = 0; i < nt; ++i) { const double out = u.mf[i] * af, in = w[i] / W * af, dr = old[1].mf[i] * sf; c.checkNear(mass(now[0], i) - mass(old[0], i), (up ? in : -out) * dt, 1e-6, 1e-11 * now[0].mass + 2e-12 * dt, "port0", S() << at << " fluid type " << (int)s.types[i]); c.checkNear(mass(now[1], i) - mass(old[1], i), ((up ? -out : in) - dr) * dt, 1e-6, 1e-11 * now[1].mass + 2e-12 * dt, "port1", S() << at << " fluid type " << (int)s.types[i]); }
        if (fl == 0. || af > 1e-10) for (int j = 0; j < nc; ++j) { const double t = u.tcMass[j] / u.mass * af, dr = old[1].tcMass[j] / old[1].mass * sf; c.checkNear(now[0].tcMass[j] - old[0].tcMass[j], (up ? t : -t) * dt, 1e-4, 1e-8 * (now[0].tcMass[j] + old[0].tcMass[j]) + 1e-13 * now[0].mass, "port0-tc", S() << at << " trace compound " << (int)s.tcs[j]); c.checkNear(now[1].tcMass[j] - old[1].tcMass[j], ((up ? -t : t) - dr) * dt, 1e-4, 1e-8 * (now[1].tcMass[j] + old[1].tcMass[j]) + 1e-13 * now[1].mass, "port1-tc", S() << at << " trace compound " << (int)s.tcs[j]); }
        // documented: as many moles arrive as left
        double nOut = 0., nIn = 0.; for (int i = 0; i < nt; ++i) { nOut += u.mf[i] / prop(s.types[i])->getMWeight(); nIn += w[i] / W / prop(s.types[i])->getMWeight(); } if (af > 1e-10 && std::fabs(nIn - nOut) > 1e-9 * nOut) moles = S() << at << ": moles arriving per mole leaving " << nIn / nOut;
        if (af > 0.) (up ? bck : fwd) = true; }
    if ((fwd && bck) || ((fwd || bck) && np > 1)) c.nontrivial();
    if (!moles.empty()) { if (c.isKnown("type-change-moles")) c.known("type-change-moles"); c.fail("moles", moles); }
}

struct Island : GunnsFluidIslandAnalyzer { Island(GunnsNodeList& l) : GunnsFluidIslandAnalyzer(l) {}
    void check(Case& c, FluidNet& f, int at, const std::string& where) {
        const int n = f.n(), nt = (int)f.spec.types.size(), nc = (int)f.spec.tcs.size(); const bool off = at >= 0 && at < n && (!f.nodes[at].getIslandVector() || f.nodes[at].getIslandVector()->empty()), on = at >= 0 && at < n && !off; const std::vector<int> none, &v = on ? *f.nodes[at].getIslandVector() : none; std::vector<bool> in(n + 1, false); bool self = !on; for (size_t q = 0; q < v.size(); ++q) { in[v[q]] = true; self = self || v[q] == at; }
        c.check(self, "members", where); c.check(mIslandSize == (int)v.size(), "size", S() << where << " " << mIslandSize); for (int k = 0; k <= n; ++k) c.check(mIslandNodes[k] == in[k], "members", S() << where << " node " << k);
        double V = 0., M = 0., E = 0.; std::vector<double> m(nt, 0.), t(nc, 0.); for (int k = 0; k < n; ++k) if (in[k]) { const PolyFluid& x = *f.nodes[k].getContent(); const State s = snap(x); V += f.nodes[k].getVolume(); M += s.mass; E += s.mass * x.getSpecificEnthalpy(); for (int i = 0; i < nt; ++i) m[i] += s.mass * s.mf[i]; for (int j = 0; j < nc; ++j) t[j] += s.tcMass[j]; }
        c.checkNear(mIslandVolume, V, 1e-12, 0., "volume", where); c.checkNear(mIslandMass, M, 1e-12, 0., "mass", where); c.checkNear(mIslandEnergy, E, 1e-9, 1e-9 * M * 1e5, "energy", where); for (int i = 0; i < nt; ++i) c.checkNear(mIslandConstituentMass[i], m[i], 1e-12, 1e-18, "constituent-mass", S() << where << " " << i); for (int j = 0; j < nc; ++j) c.checkNear(mIslandTcMass[j], t[j], 1e-12, 1e-18, "tc-mass", S() << where << " " << j);
        for (int q = 0; q < 2 + nt + nc; ++q) { double hi = -1e300, lo = 1e300; std::vector<double> x(n + 1, 0.); for (int k = 0; k < n; ++k) if (in[k]) { PolyFluid& z = *f.nodes[k].getContent(); x[k] = q == 0 ? z.getPressure() : q == 1 ? z.getTemperature() : q < 2 + nt ? z.getMoleFraction(q - 2) : z.getTraceCompounds()->getMoleFractions()[q - 2 - nt]; hi = std::max(hi, x[k]); lo = std::min(lo, x[k]); } if (!on) hi = lo = 0.;
            const double gh = q == 0 ? mHiPressure : q == 1 ? mHiTemperature : q < 2 + nt ? mHiMoleFraction[q - 2] : mHiTcMoleFraction[q - 2 - nt], gl = q == 0 ? mLoPressure : q == 1 ? mLoTemperature : q < 2 + nt ? mLoMoleFraction[q - 2] : mLoTcMoleFraction[q - 2 - nt]; const int nh = q == 0 ? mHiPressureNode : q == 1 ? mHiTemperatureNode : q < 2 + nt ? mHiMoleFractionNode[q - 2] : mHiTcMoleFractionNode[q - 2 - nt], nlo = q == 0 ? mLoPressureNode : q == 1 ? mLoTemperatureNode : q < 2 + nt ? mLoMoleFractionNode[q - 2] : mLoTcMoleFractionNode[q - 2 - nt];
            const std::string w2 = S() << where << " quantity " << q; if (!off) { c.checkNear(gh, hi, 1e-15, 0., "highest", w2); c.checkNear(gl, lo, 1e-15, 0., "lowest", w2); } c.check(on ? nh >= 0 && nh < n && in[nh] && x[nh] == hi : nh == -1, "highest-node", S() << w2 << " node " << nh); c.check(on ? nlo >= 0 && nlo < n && in[nlo] && x[nlo] == lo : nlo == -1, "lowest-node", S() << w2 << " node " << nlo); } }
    void attach(int k) { mAttachedNode = k; } };
FACET(fluid_islands, 5000, 120000, "an island of several but not all nodes was reported, with trace compounds or two constituents") {
    FOpt g; g.maxN = 7; g.maxLinks = 8; g.zeroVol = false; g.chk = g.fctl = g.pot = false; g.srcScale = 0.01; FSpec s = genFluid(c, g); logFluid(c.log(), s); FluidNet f(s); const bool mode = c.b(); f.net.setIslandMode(mode ? Gunns::FIND : Gunns::SOLVE); Island a(f.nl); GunnsFluidIslandAnalyzerConfigData cfg("a"); GunnsFluidIslandAnalyzerInputData in; a.initialize(&cfg, &in); c.check(a.isInitialized(), "initialized", "");
    { Island b(f.nl); GunnsNetworkSpotterConfigData* no = 0; bool threw = false; try { b.initialize(no, &in); } catch (TsInitializationException&) { threw = true; } c.check(threw && !b.isInitialized(), "refused", ""); }
    for (int k = 0, e = c.i(1, 5); k < e; ++k) {
        for (size_t q = 0; q < s.links.size(); ++q) if (c.b(0.3)) { s.links[q].blk = c.b(0.7); s.links[q].blkV = c.b(0.7) ? 1. : c.u(); } f.apply(s); const bool off = c.b(0.1); f.net.setIslandMode(off ? Gunns::OFF : mode ? Gunns::FIND : Gunns::SOLVE);
        try { f.net.step(0.05); } catch (TsOutOfBoundsException&) { return; } for (int r = c.i(1, 2); r > 0; --r) { const int at = c.i(-1, s.n()); a.attach(at); a.stepPreSolver(0.05); a.stepPostSolver(0.05); a.check(c, f, at, S() << "step " << k << " attached to " << at << (off ? " islands off" : "")); if (!off && at >= 0 && at < s.n() && f.nodes[at].getIslandVector()) { const int z = (int)f.nodes[at].getIslandVector()->size(); if (z > 1 && z < s.n() && s.types.size() + s.tcs.size() > 1) c.nontrivial(); } } }
}

FACET(sublimator, 10000, 250000, "ice formed and sublimated or melted, and the feed, breakthrough, blockage or the bias changed") {
    FSpec s = gasSpec(c, {FP::GUNNS_H2O}, 2, 280., 350.); s.tcs.clear(); s.types.push_back(FP::GUNNS_WATER); c.shuffle(s.types); const int nt = (int)s.types.size(), w = idx(s, FP::GUNNS_WATER), g = idx(s, FP::GUNNS_H2O); for (int k = 0; k < 2; ++k) s.nodes[k].tc.clear(); FNode &L = s.nodes[0], &V = s.nodes[1]; L.vol = c.lr(1., 100.); L.T = c.r(275., 320.); L.P = c.lr(5., 400.); L.mf.assign(nt, 0.); L.mf[w] = 1.; V.P = c.b(0.7) ? c.lr(0.01, 5.) : c.lr(5., 100.); V.mf = genFractions(c, nt); V.mf[w] = 0.; if (c.b(0.4)) V.mf.assign(nt, 0.); if (c.b(0.7)) V.mf[g] = std::max(V.mf[g], 0.2); { double t = 0.; for (int i = 0; i < nt; ++i) t += V.mf[i]; if (t <= 0.) V.mf[g] = t = 1.; for (int i = 0; i < nt; ++i) V.mf[i] /= t; }
    const double hv = c.r(1500., 3000.), hf = c.r(100., 600.), tp = c.r(260., 290.), mx = c.lr(1e-4, 1.), cov = c.b(0.1) ? c.i(0, 1) : c.r(0.05, 1.), mc = c.lr(1., 1e4), pl = c.lr(1e-10, 1e-6), gain = c.b(0.2) ? 1. : c.r(0., 1.), Ts = c.r(240., 320.); double ice = c.b(0.3) ? 0. : c.r(0., 1.) * mx, th = 0., hb = 0., blk = 0., bias = 0.; bool bf = false; FluidNet f(s, false); GunnsFluidSublimator l;
    if (c.b(0.1)) { double v[10] = {hv, hf, tp, mx, cov, mc, pl, gain, ice, Ts}; const int q = c.i(0, 9); v[q] = q == 4 || q == 7 ? (c.b() ? -c.lr(1e-6, 1.) : 1. + c.lr(1e-6, 1.)) : q == 0 && c.b() ? hf * c.r(0., 1.) : q < 8 ? -c.lr(1e-9, 1.) * c.i(0, 1) : -c.lr(1e-9, 1.); bool threw = false; try { l.initialize(GunnsFluidSublimatorConfigData("su", &f.nl, FP::GUNNS_H2O, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), GunnsFluidSublimatorInputData(v[8], v[9]), f.links, 0, 1); } catch (TsInitializationException&) { threw = true; } c.check(threw && !l.isInitialized(), "refused", S() << "field " << q << " value " << v[q]); return; }
    l.initialize(GunnsFluidSublimatorConfigData("su", &f.nl, FP::GUNNS_H2O, hv, hf, tp, mx, cov, mc, pl, gain), GunnsFluidSublimatorInputData(ice, Ts), f.links, 0, 1); GunnsFluidSource drain, vent; drain.initialize(GunnsFluidSourceConfigData("d", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 0, 2); vent.initialize(GunnsFluidSourceConfigData("v", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 2); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 0.5}); logFluid(c.log(), s); bool froze = false, lost = false, odd = false; const FP* gp = prop(FP::GUNNS_H2O); double dr = 0., ve = 0.;
    for (int k = 0, e = c.i(3, 25); k < e; ++k) {
        const std::vector<State> old = snapAll(f); if (c.b(0.4)) { hb = c.b(0.15) ? 0. : (c.b(0.7) ? -1. : 1.) * c.lr(1e-3, 1.) * mx * 3e6 * (c.b(0.7) ? 0.05 : 1.); l.setHeatBalance(hb); } if (c.b(0.1)) { blk = c.b() ? 0. : c.r(0., 1.); l.setMalfBlockage(blk > 0., blk); odd = true; } if (c.b(0.15)) { bf = c.b(0.7); bias = bf ? c.sr(1e-8, 1e-3) : 0.; VptFriend::bias(l, bf, bias); } dr = c.b(0.15) ? c.lr(1e-7, 1e-5) * old[0].mass / dt : 0.; drain.setFlowDemand(dr); ve = c.b(0.2) ? c.lr(1e-4, 3e-2) * old[1].mass / dt : 0.; vent.setFlowDemand(ve);
        const double p0 = VptFriend::pv(l, 0), p1 = VptFriend::pv(l, 1), rh = lim(0., old[1].P * (old[1].mf[g] * old[1].MW / gp->getMWeight()) / gp->getSaturationPressure(old[1].T), 1.), dp = p0 - p1, rho = f.nodes[0].getContent()->getDensity(), MW = old[0].MW, eff = mx * (1. - blk); if (p0 < 0.5 || std::fabs(dp - 0.1) < 1e-9 || std::fabs(rh - 1.) < 1e-9 || std::fabs(ice - eff * cov) < 1e-12 * mx) break; const bool sub = rh < 1., feed = dp > 0.1, bare = feed && ice < eff * cov;
        double sr = sub && ice > 0. ? std::max(0., -hb / (hv + hf) / 1000.) : 0., melt = std::max(0., -hb / hf / 1000.), rate = -melt, G = 1e-12; bool thru = false; const double fb = feed && bf ? std::max(bias, -sr) : 0.;
        if (bare) { G += pl * (1. - ice / (eff * cov)) * (1. - blk) * std::sqrt(1000. * rho / dp) / MW + (sr + fb) / p0 / MW; const double ps = gp->getSaturationPressure(Ts); if (std::fabs(ps - p1) < 1e-9 * ps) break; if (sub && ps > f.nodes[1].getPotential()) rate = (sr + G * dp * MW * (1. - rh)) * hv / hf; else thru = true; } else if (feed && sub) { rate = sr * hv / hf; G += (sr + fb) / p0 / MW; } else if (sub) rate = -sr; if (G * dp * MW * dt > 0.02 * old[0].mass || sr * dt > old[1].mass) break;
        const double i0 = ice; ice = lim(0., ice + rate * dt, eff); th = (1. - gain) * th + gain * mc * (1. - rh) * ice / mx; if (th < DBL_EPSILON) th = 0.; if (!stepped(f, dt)) break; const std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << " heat " << hb << " ice " << i0 << " of " << mx << " humidity " << rh << " pressures " << p0 << " and " << p1 << " blockage " << blk << " bias " << fb;
        if (now[0].P < 0.5 || now[1].mass < 0.3 * old[1].mass) break; c.checkNear(l.getIceMass(), ice, 1e-9, 1e-12 * mx, "ice", at); c.checkNear(VptFriend::cond(l), G, 1e-9, 0., "conductance", at); c.check(VptFriend::through(l) == thru, "breakthrough", at); c.checkNear(VptFriend::therm(l), th, 1e-9, 1e-12 * mc, "heat-conduction", at); c.checkNear(VptFriend::src(l, 1), sr / gp->getMWeight(), 1e-9, 0., "sublimation", at); ice = l.getIceMass();
        const double fx = VptFriend::flux(l), q = fx * MW > 1e-13 ? fx * MW : 0., sv = sr > 1e-13 ? sr : 0.; c.checkNear(fx, G * (VptFriend::pv(l, 0) - p1), 1e-6, 1e-12 * G * (VptFriend::pv(l, 0) + p1), "feed", at); c.checkNear(VptFriend::flow(l), fx * MW, 1e-6, 1e-15, "feed-rate", at);
        for (int i = 0; i < nt; ++i) { c.checkNear(mass(now[0], i) - mass(old[0], i), i == w ? -(q + dr) * dt : 0., 1e-6, 1e-12 * now[0].mass + 2e-12 * dt, "liquid", S() << at << " fluid type " << (int)s.types[i]); c.checkNear(mass(now[1], i) - mass(old[1], i), (i == g ? sv * dt : 0.) - old[1].mf[i] * ve * dt, 1e-6, 1e-11 * now[1].mass + 2e-12 * dt, "vent", S() << at << " fluid type " << (int)s.types[i]); }
        if (sv > 1e-12) { PolyFluid& z = *f.nodes[1].getContent(); const double in = sv * dt * (gp->getSpecificEnthalpy(tp) - gp->getSpecificEnthalpy(old[1].T)) / (z.getMass() * z.getSpecificHeat()); c.checkNear(now[1].T - old[1].T, in, 0.6, 1e-7 + 1e-4 * sv * dt / now[1].mass * old[1].T, "vent-temperature", S() << at << " triple point " << tp << " K gas " << old[1].T << " K"); }
        if (ice > i0) froze = true; if (ice < i0) lost = true; if (thru || (fb != 0. && feed) || (bare && !feed)) odd = true; }
    if (froze && lost && odd) c.nontrivial();
}
