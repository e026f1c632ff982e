// C16: edits of fluid volumes give exactly the requested state; accumulators and balloons keep their geometry and laws.
#include "aspects/fluid/capacitor/GunnsFluidTank.hh"
#include "aspects/fluid/capacitor/GunnsFluidBalloon.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccumGas.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    typedef GunnsFluidTank Tk; typedef GunnsFluidBalloon Bl; typedef GunnsFluidAccum Ac; typedef GunnsFluidAccumGas Ag; \
    static bool tp(const Tk& l) { return l.mEditTemperaturePressureFlag; } static bool tpp(const Tk& l) { return l.mEditTemperaturePartialPressureFlag; } static bool te(const Tk& l) { return l.mEditTemperatureFlag; } static bool ppr(const Tk& l, int i) { return l.mEditPartialPressureRateFlag[i]; } \
    static double dpdt(const Tk& l) { return l.mDpdt; } static double hfs(const Tk& l) { return l.mHeatFluxFromShell; } static double hts(const Tk& l) { return l.mHeatFluxToShell; } static double pv(const GunnsBasicLink& l, int i) { return l.mPotentialVector[i]; } \
    static double infl(const Bl& l) { return l.mInflation; } static void stuck(Bl& l, bool b) { l.mMalfStuckFlag = b; } static void scale(Bl& l, bool b, double v) { l.mMalfInflatabilityScaleFlag = b; l.mMalfInflatabilityScaleValue = v; } static double flexG(const Bl& l) { return l.mActualInflatability; } \
    static PolyFluid& liq(Ac& l) { return *l.mInternalFluid; } static double posn(const Ac& l) { return l.mBellowsPosition; } static double vl(const Ac& l) { return l.mLiquidVolume; } static double vg(const Ac& l) { return l.mPressurizerVolume; } static double spring(const Ac& l) { return l.mSpringPressure; } static double vflow(const Ac& l) { return l.mVolFlowRate; } static double effS(const Ac& l) { return l.mEffConductivityScale; } static double effC(const Ac& l) { return l.mEffectiveConductivity; } static double lcap(const Ac& l) { return l.mLiqCapacitance; } \
    static void editB(Ac& l, bool b, double p, double r) { l.mEditBellowsFlag = b; l.mEditBellowsPosition = p; l.mEditBellowsRate = r; } static bool editB(const Ac& l) { return l.mEditBellowsFlag; } static void editT(Ac& l, bool b, double t) { l.mEditTemperatureFlag = b; l.mEditTemperatureValue = t; } static bool editT(const Ac& l) { return l.mEditTemperatureFlag; } static void hold(Ac& l, bool b) { l.mHoldAccumFlag = b; } static void holdT(Ac& l, bool b) { l.mHoldTemperatureFlag = b; } static int fill(const Ac& l) { return l.mFillMode; } static int zone(const Ac& l) { return l.mBellowsZone; } \
    static PolyFluid& gas(Ag& l) { return *l.mGasInternalFluid; } static double gflow(const Ag& l) { return l.mGasFlowRate; } static double gflux(const Ag& l) { return l.mGasFlux; } static void editP(Ag& l, bool b, double p, double r) { l.mEditPressureFlag = b; l.mEditPressureValue = p; l.mEditPressureRate = r; } static bool editP(const Ag& l) { return l.mEditPressureFlag; } static bool oride(const Ag& l) { return l.mPressurizerOrideBellowsFlag; } static double gcap(const Ag& l) { return l.mGasCapacitance; } static double gcond(const Ag& l) { return l.mGasEffectiveConductivity; } static void gq(Ag& l, double q) { l.mGasHousingQ = q; }
#include "fluidnet.hh"
using namespace fn;
static double lim(double a, double x, double b) { return std::min(b, std::max(a, x)); }
static FSpec one(Case& c, int n, bool gas = true) { FOpt o; o.maxN = 1; o.maxLinks = 1; o.zeroVol = false; o.liquids = !gas; FSpec s = genFluid(c, o); s.links.clear(); if (s.tcs.size() && c.b(0.6)) { s.tcs.clear(); s.nodes[0].tc.clear(); } while (s.n() < n) { FNode x = s.nodes[0]; x.T = c.r(s.Tlo + 20., s.Thi - 20.); x.P = s.gas ? c.lr(1., 1e3) : c.lr(50., 1e3); x.vol = c.lr(0.05, 100.); x.mf = genFractions(c, (int)s.types.size()); s.nodes.push_back(x); } return s; }

// ---- Tank edits on a tank with nothing else attached.
FACET(tank, 12000, 300000, "three different kinds of edit were made") {
    FSpec s = one(c, 1); FNode nd = s.nodes[0]; nd.vol = c.lr(1e-2, 100.); s.nodes[0].cap = false; s.nodes[0].vol = 0.; FluidNet f(s, false); const int nt = (int)s.types.size(); const double gain = c.b(0.3) ? 0. : c.r(0., 1.), damp = c.b(0.7) ? 0. : c.lr(0.1, 100.); const float area = c.b(0.85) ? 0.f : (float)c.lr(0.1, 50.), radius = (float)c.lr(0.1, 5.); const double ex = c.b(0.6) ? 0. : c.r(0., 1.), shellT = c.r(200., 400.);
    GunnsFluidTank t; PolyFluidInputData in(nd.T, nd.P, 0., 0., &nd.mf[0]); t.initialize(GunnsFluidTankConfigData("t", &f.nl, ex, gain, damp, 1e-6, area, radius), GunnsFluidTankInputData(false, 0., nd.vol, &in, (float)shellT, 0.f), f.links, 0, 1); f.start();
    PolyFluid& x = *f.nodes[0].getContent(); State a = snap(x); double V = nd.vol, dp = 0.; c.checkNear(a.T, nd.T, 1e-12, 0., "initial-T", ""); c.checkNear(a.P, nd.P, 1e-12, 0., "initial-P", ""); c.checkNear(a.mass, a.rho * V, 1e-9, 0., "initial-mass", ""); for (int i = 0; i < nt; ++i) c.checkNear(a.mf[i], nd.mf[i], 1e-9, 1e-12, "initial-mixture", "");
    std::set<int> kinds; const double dt = c.pickOf<double>({0.1, 0.05, 0.5}); std::vector<double> target(nt, 0.), rate(nt, 0.); std::vector<bool> on(nt, false); int left = 0; double wT = a.T, wP = a.P; std::vector<double> wx; bool moved = false; int active = 0; // 1: T/P, 2: T/pp
    for (int k = 0, m = c.i(5, 40); k < m; ++k) {
        const State old = a = snap(x); std::vector<double> pp; bool rating = false; for (int i = 0; i < nt; ++i) { pp.push_back(x.getPartialPressure(s.types[i])); rating = rating || on[i]; } int op = active || rating || area > 0.f ? 0 : c.weighted({4, 2, 3, 3, 3, 4, 1}); if (rating && c.b(0.15)) op = 5; wT = old.T; double wV = V;
        switch (op) {
            case 1: wT = c.b(0.1) ? 0. : c.r(150., 600.); t.editTemperature(true, wT); if (wT == 0.) wT = old.T; kinds.insert(1); break;
            case 2: wT = c.b(0.1) ? old.T : c.r(150., 600.); wP = c.lr(0.5, 2e3); t.editTemperaturePressure(true, wT, wP); active = 1; left = 6; kinds.insert(2); break;
            case 3: { wT = c.b(0.1) ? old.T : c.r(150., 600.); wx.assign(nt, 0.); wP = 0.; for (int i = 0; i < nt; ++i) wP += wx[i] = (c.b(0.2) && nt > 1) ? 0. : c.lr(0.1, 500.); if (wP < 0.1) wP = wx[0] = 10.; t.editTemperaturePartialPressure(true, wT, &wx[0]); active = 2; left = 6; kinds.insert(3); } break;
            case 4: wV = V * c.lr(0.1, 10.); t.editVolume(true, wV); kinds.insert(4); break;
            case 5: { const int i = c.i(0, nt - 1); on[i] = c.b(0.9); target[i] = c.b(0.2) ? pp[i] * c.r(0.8, 1.2) : c.lr(0.1, 200.); rate[i] = c.b(0.05) ? 0. : c.lr(1e-2, 1.) * std::max(1., old.P) / dt * 0.3; t.editPartialPressureRate(s.types[i], on[i], target[i], c.b() ? rate[i] : -rate[i]); kinds.insert(5); moved = true; } break;
            case 6: t.editTemperaturePressure(false, 0., 0.); t.editTemperature(false, 0.); break;
            default: break; }
        double thermal = 0., molesIn = 0.; std::vector<double> dpp(nt, 0.); bool any = false; for (int i = 0; i < nt; ++i) if (on[i]) { if (rate[i] == 0.) on[i] = false; else if (pp[i] < target[i] - rate[i] * dt * (1. - 1e-9)) { dpp[i] = rate[i] * dt; any = true; if (pp[i] >= target[i] - rate[i] * dt * (1. + 1e-9)) return; } else if (pp[i] > target[i] + rate[i] * dt * (1. - 1e-9)) { dpp[i] = -rate[i] * dt; any = true; if (pp[i] <= target[i] + rate[i] * dt * (1. + 1e-9)) return; } else on[i] = false; } (void)thermal;
        for (int i = 0; i < nt; ++i) molesIn += dpp[i];
        for (int i = 0; i < nt; ++i) c.log() << "  step " << k << " op " << op << " x" << i << " pp " << pp[i] << " move " << dpp[i] << (on[i] ? " on" : "") << " target " << target[i] << "\n"; const double k0 = x.getThermalConductivity(), pot0 = f.nodes[0].getPotential(); f.net.step(dt); const State z = snap(x); const std::string at = S() << "step " << k << " operation " << op << " T " << old.T << " to " << z.T << " P " << old.P << " to " << z.P << " mass " << old.mass << " to " << z.mass << " V " << V;
        c.check(std::isfinite(z.T) && std::isfinite(z.P) && std::isfinite(z.mass) && z.mass >= 0., "finite", at); double sum = 0.; for (int i = 0; i < nt; ++i) { sum += z.mf[i]; c.check(z.mf[i] >= -1e-9, "negative", at); } c.checkNear(sum, 1., 1e-9, 0., "fractions", at); V = wV;
        const double dpw = gain != 0. ? dp + gain * ((f.nodes[0].getPotential() - pot0) / dt - dp) : 0.; if (std::fabs(dpw) > 1e-12 && op != 4) c.checkNear(VptFriend::dpdt(t), dpw, 1e-6, 1e-6 * old.P / dt, "dpdt", at); dp = VptFriend::dpdt(t);
        if (area > 0.f && !active && old.P > 1.01 && z.P > 1.01) { c.checkNear(VptFriend::hfs(t), k0 * ((double)(float)shellT - old.T) * area / radius, 1e-5, 1e-9, "shell-heat", at); } c.check(VptFriend::hts(t) == -VptFriend::hfs(t), "shell-balance", at);
        if (op == 1) { c.check(!VptFriend::te(t), "edit-stays", at); c.checkNear(z.T, wT, 1e-9 , area > 0.f ? 1e9 : 0., "edit-T", at); c.checkNear(z.P, old.P, 1e-6, 0., "edit-T-pressure", at); c.checkNear(z.mass, z.rho * V, 1e-6, 0., "edit-T-mass", at); for (int i = 0; i < nt; ++i) c.checkNear(z.mf[i], old.mf[i], 1e-9, 1e-12, "edit-T-mixture", at); }
        else if (active) { --left; const bool over = !(active == 1 ? VptFriend::tp(t) : VptFriend::tpp(t)); c.check(over || left > 0, "edit-never-ends", at); if (over) { const int was = active; active = 0; c.checkNear(z.T, wT, 1e-6, area > 0.f ? 1e9 : 0., "edit-TP-temperature", at); c.checkNear(z.P, wP, 1e-6, 1e-6, "edit-TP-pressure", at); c.checkNear(z.mass, z.rho * V, 1e-6, 0., "edit-TP-mass", at); if (was == 1) for (int i = 0; i < nt; ++i) c.checkNear(z.mf[i], old.mf[i], 1e-9, 1e-12, "edit-TP-mixture", at); else for (int i = 0; i < nt; ++i) c.checkNear(x.getPartialPressure(s.types[i]), wx[i], 1e-6, 1e-6 * wP, "edit-pp", at); } }
        else if (op == 4) { c.checkNear(VptFriend::volume(f.nodes[0]), V, 1e-12, 0., "edit-volume", at); c.checkNear(z.P, old.P, 1e-6, 0., "edit-volume-pressure", at); c.checkNear(z.T, old.T, 1e-9, area > 0.f ? 1e9 : 0., "edit-volume-temperature", at); c.checkNear(z.mass, old.rho * V, 1e-6, 0., "edit-volume-mass", at); for (int i = 0; i < nt; ++i) c.checkNear(z.mf[i], old.mf[i], 1e-9, 1e-12, "edit-volume-mixture", at); }
        else if (any) { double big = 0.; for (int i = 0; i < nt; ++i) big = std::max(big, std::fabs(dpp[i])); if (area == 0.f) c.checkNear(z.T, old.T, 1e-6, 0., "rate-temperature", at); for (int i = 0; i < nt; ++i) { const double got = x.getPartialPressure(s.types[i]); c.checkNear(got - pp[i], dpp[i], 1e-3, 1e-6 * old.P + (area > 0.f ? 1e-2 * (old.P + big) : 0.), "rate", S() << at << " constituent " << i << " from " << pp[i] << " toward " << target[i] << " by " << rate[i] * dt << " now " << got); } }
        else { if (area == 0.f) { c.checkNear(z.mass, old.mass, 1e-9, 0., "idle-mass", at); c.checkNear(z.T, old.T, 1e-6, 0., "idle-temperature", at); c.checkNear(z.P, old.P, 1e-6, 0., "idle-pressure", at); } for (int i = 0; i < nt; ++i) c.checkNear(z.mf[i], old.mf[i], 1e-9, 1e-12, "idle-mixture", at); }
        for (int i = 0; i < nt; ++i) if (!on[i]) c.check(!VptFriend::ppr(t, i), "rate-flag", at);
    }
    (void)moved; if (kinds.size() >= 3) c.nontrivial();
}

// ---- Balloons: the volume follows the wall law within its limits, and contents obey the gas law.
FACET(balloon, 8000, 200000, "the balloon was partly inflated and reached a limit or changed direction") {
    FSpec s = one(c, 2); FNode nd = s.nodes[0]; s.nodes[0].cap = false; s.nodes[0].vol = 0.; const bool inside = c.b(); const double maxV = c.lr(1e-2, 10.), flex = std::max(2e-7, c.lr(1e-5, 1e-1) * maxV); s.nodes[1].vol = 1e3 * std::max(maxV, 3000. * flex); FluidNet f(s, false); const int ext = inside ? 1 : 2; const double Pe = inside ? s.nodes[1].P : 0.; nd.P = Pe + c.r(0.02, 1.3) * maxV / flex; if (nd.P < 0.5) nd.P = 0.5; if (nd.P > 3000.) c.discard();
    GunnsFluidBalloon b; PolyFluidInputData in(nd.T, nd.P, 0., 0., &nd.mf[0]); b.initialize(GunnsFluidBalloonConfigData("b", &f.nl, 0., 0., 0., 1e-6, 0.f, 0.f, flex, maxV), GunnsFluidBalloonInputData(false, false, 0., &in), f.links, 0, ext);
    GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, ext == 1 ? 1 : 2, 0); f.start(); PolyFluid& x = *f.nodes[0].getContent(); const double dt = 0.1; c.log() << "flex " << flex << " max " << maxV << " P " << nd.P << " outside " << Pe << " T " << nd.T << "\n"; double g = flex; bool jump = false; (void)jump; bool stuck = false, part = false, limit = false, up = false, down = false; double flow = 0.; int calm = 0; const double Vmin = 1e-12;
    for (int k = 0, m = c.i(5, 40); k < m; ++k) {
        const State old = snap(x); c.log() << "step " << k << " P " << old.P << " T " << old.T << " m " << old.mass << " V " << VptFriend::volume(f.nodes[0]) << " flow " << flow << "\n"; const double V0 = VptFriend::volume(f.nodes[0]), in0 = VptFriend::infl(b); int op = c.weighted({10, 3, 1, 1}); bool changed = false;
        if (op == 1) { flow = c.b(0.4) ? 0. : (inside ? 1. : -1.) * 0. + c.sr(1e-4, 0.02) * std::min(1., 5. * maxV / flex / old.P) * std::max(1e-6, old.mass) / dt; if (!inside && flow > 0.) flow = -flow; src.setFlowDemand(flow); } if (op == 2) { stuck = c.b(); VptFriend::stuck(b, stuck); changed = true; } if (op == 3) { const bool on = c.b(); const double v = c.r(0.8, 1.2); VptFriend::scale(b, on, v); g = on ? flex * v : flex; changed = true; }
        if (old.mass < 1e-4 * maxV) return; if (changed && !stuck && std::fabs(V0 - lim(Vmin, g * (VptFriend::pv(b, 0) - VptFriend::pv(b, 1)), maxV)) > 0.05 * V0 * std::min(1., maxV / (g * old.P))) { jump = true; return; } const double Pi0 = VptFriend::pv(b, 0), dmass = old.mass; f.net.step(dt); const State z = snap(x); const double V = VptFriend::volume(f.nodes[0]), P0 = VptFriend::pv(b, 0), P1 = VptFriend::pv(b, 1), q = VptFriend::infl(b); const std::string at = S() << "step " << k << (stuck ? " stuck" : "") << " flow " << flow << " P " << old.P << " to " << z.P << " (outside " << P1 << ") V " << V0 << " to " << V << " of " << maxV << " inflation " << in0 << " to " << q << " T " << old.T << " to " << z.T; (void)Pi0;
        c.check(V >= Vmin * (1. - 1e-9) && V <= maxV * (1. + 1e-12), "volume-range", at); c.check(q >= -1e-12 && q <= 1. + 1e-12, "inflation-range", at); c.checkNear(V, q * (maxV - Vmin) + Vmin, 1e-9, 1e-18, "inflation", at);
        if (stuck) c.check(q == in0, "stuck", at); else c.checkNear(V, lim(Vmin, g * (P0 - P1), maxV), 1e-9, 1e-15, "wall-law", at);
        c.checkNear(z.mass, dmass + VptFriend::flow(src) * dt, 1e-9, 1e-15, "mass", at); c.check(std::isfinite(z.T) && z.T > 0. && std::isfinite(z.P) && z.P > 0., "finite", at);
        calm = (changed || op == 1) ? 0 : calm + 1; if (calm > 12 && flow == 0.) { const double law = z.mass * 8.314472 * z.T / z.MW / V; if (V > 1e-3 * maxV) c.checkNear(z.P, law, 0.02, 0.02, "gas-law", at); }
        if (V > 0.01 * maxV && V < 0.99 * maxV) part = true; if (V == maxV || V <= 2 * Vmin) limit = true; if (V > V0 * (1. + 1e-6)) up = true; if (V < V0 * (1. - 1e-6)) down = true; }
    if (part && (limit || (up && down))) c.nontrivial();
}

// ---- Bellows accumulators, with spring or gas pressurizers, on a liquid node (and a gas node).
struct AccumNet { PolyFluidConfigData lc, gc; GunnsFluidNode nodes[3]; GunnsNodeList nl; std::vector<GunnsBasicLink*> links; Gunns net; GunnsFluidCapacitor capL, capG; 
    AccumNet(FP::FluidType* l, FP::FluidType* g, int ng) : lc(&props(), l, 1, 0), gc(&props(), g, ng, 0) { nl.mNumNodes = 3; nl.mNodes = nodes; } };
FACET(accumulator, 12000, 300000, "fluid flowed both ways and an end of travel, edit or malfunction was met") {
    const bool withGas = c.b(0.6), gasNode = withGas && c.b(0.7); Liquid L = c.pick(liquids()); std::vector<FP::FluidType> gt = idealGases(); c.shuffle(gt); gt.resize(c.i(1, 3)); const int ng = (int)gt.size(); FP::FluidType lt[1] = {L.t}; AccumNet w(lt, &gt[0], ng); const double one1[1] = {1.}; double mfL[1] = {1.}; (void)one1; std::vector<double> mfN = genFractions(c, ng), mfA = c.b(0.85) ? mfN : genFractions(c, ng);
    const double Tl = c.r(L.lo + 5., L.hi - 5.), Ta = c.r(L.lo + 5., L.hi - 5.), Tg = c.r(250., 400.), Tag = c.r(250., 400.), Pl = c.lr(50., 1000.), Pg = c.lr(20., 1000.); const double lo = L.lo - 5., hi = L.hi + 40.;
    PolyFluidInputData il(Tl, Pl, 0., 0., mfL), ig(Tg, Pg, 0., 0., &mfN[0]), ia(Ta, Pl, 0., 0., mfL), iag(Tag, c.b(0.5) ? Pl : c.lr(50., 1000.), 0., 0., &mfA[0]);
    w.nodes[0].initialize("liquid", &w.lc, &il); w.nodes[1].initialize("gas", &w.gc, &ig); w.nodes[2].initialize("ground", &w.gc, &ig); w.net.initializeFluidNodes(w.nl); const double Vn = c.lr(0.1, 100.), Vg = c.lr(0.1, 100.);
    w.capL.initialize(GunnsFluidCapacitorConfigData("cl", &w.nl), GunnsFluidCapacitorInputData(false, 0., Vn, &il), w.links, 0, 2); w.capG.initialize(GunnsFluidCapacitorConfigData("cg", &w.nl), GunnsFluidCapacitorInputData(false, 0., Vg, &ig), w.links, 1, 2);
    const double vol = c.lr(1e-3, 1.), minP = c.lr(0.1, 10.), dead = minP + c.lr(0.1, 10.), maxG = c.lr(1e-7, 1e-4), rate = c.lr(0.01, 1.), holdT = c.b() ? 0. : c.r(0., 1.), maxP = c.b(0.2) ? 500. : 5000., thr = c.b() ? 0. : c.lr(1e-3, 5.), owr = c.lr(0.01, 5.), pRate = c.lr(1., 500.), dt = c.pickOf<double>({0.1, 0.05}); double c0 = withGas && c.b() ? 0. : c.r(0., 300.), c1 = withGas && c0 == 0. ? 0. : c.lr(10., 1000.), c2 = c.b(0.6) ? 0. : c.r(0., 200.); if (withGas && c1 == 0.) c2 = 0.; double pos = c.b(0.2) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.);
    std::unique_ptr<GunnsFluidAccum> A; GunnsFluidAccumGas* G = 0; const int p0 = gasNode ? 1 : 2;
    const double gMax = c.lr(1e-8, 1e-4);
    if (withGas) { A.reset(G = new GunnsFluidAccumGas); G->initialize(GunnsFluidAccumGasConfigData("a", &w.nl, maxG, 0.01, vol, minP, dead, rate, holdT, lo, hi, maxP, c0, c1, c2, gMax, std::min(gMax, 1e-12), pRate, thr, owr), GunnsFluidAccumGasInputData(false, 0., pos, &ia, &iag, 0.), w.links, 1, 0); if (!gasNode) c.discard(); }
    else { A.reset(new GunnsFluidAccum); A->initialize(GunnsFluidAccumConfigData("a", &w.nl, maxG, 0.01, vol, minP, dead, rate, holdT, lo, hi, maxP, c0, c1, c2, thr, owr), GunnsFluidAccumInputData(false, 0., pos, &ia, 0.), w.links, p0, 0); }
    GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &w.nl), GunnsFluidSourceInputData(false, 0., 0.), w.links, 2, 0); w.net.initialize(GunnsConfigData("net", 1e-9, 1e-8, 1, 1), w.links);
    PolyFluid &q = VptFriend::liq(*A), &nl = *w.nodes[0].getContent(), &ngc = *w.nodes[1].getContent(); const double vmin = vol * minP / 100., vmax = vol, act = vmax - vmin; bool in = false, out = false, end = false, odd = false, stick = false, stickTo = false, hold = false, holdTemp = false; double sv = 0., sr = 0., head = 0., Q = 0.; double eb = 0., er = 0., ep = 0., epr = 0.; double sflow = 0.; int wait = 0; bool stuckLast = false; bool cleanEdit = true;
    for (int k = 0, m = c.i(4, 40); k < m; ++k) {
        bool newMalf = false; const bool edB = VptFriend::editB(*A), edP = G && VptFriend::editP(*G); bool edT = false; double eT = 0.;
        switch (c.weighted({12, 3, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 1: sflow = c.b(0.3) ? 0. : c.sr(1e-4, 0.05) * vol * 1000. / dt; if (sflow < 0. && -sflow * dt > 0.01 * snap(nl).mass) sflow = 0.; src.setFlowDemand(sflow < 0. ? sflow : 0.); break;
            case 2: stick = c.b(); A->setMalfBellowsStick(stick); newMalf = true; odd = true; break;
            case 3: stickTo = c.b(); sv = c.r(-0.1, 1.1); sr = c.r(0., 2. * rate); A->setMalfBellowsStickToPos(stickTo, sv, sr); newMalf = true; odd = true; break;
            case 4: if (!stick && !stickTo) { eb = c.r(-0.1, 1.1); er = c.r(0., 2. * rate); cleanEdit = !VptFriend::editB(*A); VptFriend::editB(*A, true, eb, er); odd = true; wait = 0; } break;
            case 5: if (G && !stick && !stickTo) { ep = c.lr(50., 3000.) + c0 + c1 + c2; epr = c.r(0., 2. * pRate); VptFriend::editP(*G, true, ep, epr); odd = true; } break;
            case 6: eT = c.r(L.lo - 20., L.hi + 20.); VptFriend::editT(*A, true, eT); edT = true; break;
            case 7: hold = c.b(0.3); VptFriend::hold(*A, hold); break; case 8: holdTemp = c.b(0.5); VptFriend::holdT(*A, holdTemp); break;
            case 9: Q = c.sr(1., 1e3) * std::min(1., vol * 50.); A->setLiquidHousingQ(Q); break; default: break; }
        const bool editing = VptFriend::editB(*A), editP = G && VptFriend::editP(*G); (void)edB; (void)edP; (void)newMalf;
        const State a = snap(q), nA = snap(nl); State g0, gN; if (G) { g0 = snap(VptFriend::gas(*G)); gN = snap(ngc); } const double scWas = VptFriend::effS(*A), x0 = VptFriend::posn(*A), sp0 = VptFriend::spring(*A), fluxHin = nA.h; const bool ov = G && VptFriend::oride(*G), plain = !ov && !editing && !editP && !hold && !stick && !stickTo && !edT; (void)fluxHin;
        w.net.step(dt); const State z = snap(q), nZ = snap(nl); if (nZ.P < 1.) break; const double x = VptFriend::posn(*A), vl = VptFriend::vl(*A), vg = VptFriend::vg(*A), fl = VptFriend::flow(*A), sc = VptFriend::effS(*A), S0 = c0 + c1 * x + c2 * x * x; const double gp = G ? VptFriend::gas(*G).getPressure() : 0.;
        const std::string at = S() << "step " << k << (G ? " gas" : " spring") << (stick ? " stuck" : "") << (stickTo ? " stuck-to" : "") << (editing ? " bellows edit" : "") << (editP ? " pressure edit" : "") << (hold ? " hold" : "") << " position " << x0 << " to " << x << " liquid volume " << vl << " gas volume " << vg << " of " << vol << " mass " << a.mass << " to " << z.mass << " flow " << fl << " T " << a.T << " to " << z.T << " P " << a.P << " to " << z.P << " node P " << nA.P << " to " << nZ.P;
        c.check(x >= 0. && x <= 1., "position-range", at); c.check(vl >= vmin * (1. - 1e-12) && vl <= vmax * (1. + 1e-12), "volume-range", at); c.checkNear(vl + vg, vmax + vmin, 1e-12, 0., "volume-sum", at); c.checkNear(vl, vmin + x * act, 1e-9, 1e-12 * vol, "position", at); c.check(sc >= 0. && sc <= 1., "scale-range", at);
        c.checkNear(VptFriend::spring(*A), S0, 1e-12, 1e-12, "spring", at); c.checkNear(z.P, lim(DBL_EPSILON, S0 + head + gp, maxP), 1e-12, 0., "pressure", at); c.check(z.T >= lo && z.T <= hi, "temperature-range", at);
        c.check(fl <= 0. || VptFriend::pv(*A, 1) > a.P, "flow-in-direction", at); c.check(fl >= 0. || VptFriend::pv(*A, 1) < a.P, "flow-out-direction", at); if (sc == 0.) c.check(fl == 0., "closed", at);
        if (fl != 0.) c.checkNear(VptFriend::vflow(*A), fl / (fl > 0. ? nA.rho : a.rho), 1e-6, 0., "volume-flow", at);
        const bool wasStuck = stuckLast; stuckLast = stick || stickTo; if (!ov && !editing && !edB && !stick && !stickTo && !wasStuck) { const double band = vol * (dead - minP) / 100., v0 = vmin + x0 * act, sc0 = scWas; const double up = (v0 - vmin) / band, dn = (vmax - v0) / band; if (thr == 0.) { if (up > 1e-9 && up < 1. ) c.checkNear(sc, up, 1e-6, 1e-9, "scale", at); else if (up >= 1. + 1e-9 && dn >= 1. + 1e-9) c.check(sc == 1., "scale-open", at); else if (dn > 1e-9 && dn < 1. && up > 1.) c.checkNear(sc, dn, 1e-6, 1e-9, "scale", at); }
            else if (up >= 1. + 1e-9 && dn >= 1. + 1e-9) c.check(sc == 1., "scale-open", at); else if (nA.P > a.P + thr + 1e-9 && dn > 1e-9 && dn < 1.) c.checkNear(sc, dn, 1e-6, 1e-9, "scale-fill", at); else if (nA.P < a.P - thr - 1e-9 && up > 1e-9 && up < 1.) c.checkNear(sc, up, 1e-6, 1e-9, "scale-drain", at); else if (std::fabs(nA.P - a.P) > thr + 1e-9) { if ((nA.P > a.P && dn > 1. + 1e-9) || (nA.P < a.P && up > 1. + 1e-9)) c.checkNear(sc, std::min(1., sc0 + std::min(owr, 1. / dt) * dt), 1e-9, 1e-12, "scale-ramp", at); } }
        if (!ov && !editing) { if (x0 <= 0. && nA.P < a.P - 1e-6) c.check(fl >= -1e-9, "empty-drains", at); if (x0 >= 1. && nA.P > a.P + 1e-6) c.check(fl <= 1e-9, "full-fills", at); }
        if (z.P < 1e5 && std::fabs(fl) > 0. && VptFriend::flow(src) == 0.) c.checkNear(nZ.mass - nA.mass, -fl * dt, 1e-7, 1e-10 * nA.mass + 2e-12 * dt, "node-mass", at);
        if (plain) { c.checkNear(z.mass, std::max(DBL_EPSILON, a.mass + fl * dt), 1e-9, 1e-13, "mass", at); if (z.mass > a.rho * vmin && z.mass < a.rho * vmax * 0.999) c.checkNear(vl, lim(vmin, z.mass / q.getDensity(), vmax), 6e-3, 0., "volume", at);
            if (!holdTemp) { const double e0 = a.mass * a.h + dt * (Q + fl * (fl > 0. ? nA.h : a.h)); const double want = q.computeTemperature(e0 / z.mass); c.checkNear(z.T, lim(lo, want, hi), 1e-6, 1e-3, "energy", at); } else c.check(z.T == a.T, "hold-temperature", at); if (fl > 0.) in = true; if (fl < 0.) out = true; }
        if (edT && !editing && !stick && !stickTo && !ov && fl == 0. && (Q == 0. || holdTemp) && !hold) if (eT < lo || (eT > L.lo + 1. && eT < L.hi - 1.)) c.checkNear(z.T, lim(lo, eT, hi), 1e-5, 1e-2, "edit-temperature", at); c.check(!VptFriend::editT(*A), "edit-temperature-flag", at);
        if (hold && plain) c.check(z.mass == a.mass && x == x0, "hold", at);
        if (!ov && stick) { c.check(x == x0, "stick", at); } else if (!ov && stickTo) { const double r = lim(0., sr, rate) * dt, t = lim(0., sv, 1.); c.checkNear(x, t > x0 ? std::min(t, x0 + r) : std::max(t, x0 - r), 1e-12, 1e-12, "stick-to", at); }
        else if (!ov && editing) { const double r = lim(0., er, rate) * dt, t = lim(0., eb, 1.); c.checkNear(x, t > x0 ? std::min(t, x0 + r) : std::max(t, x0 - r), 1e-12, 1e-12, "edit-bellows", at); if (!VptFriend::editB(*A)) { c.checkNear(x, t, 1e-12, 1e-12, "edit-bellows-end", at); if (cleanEdit) c.check(wait * dt >= holdT - 1e-9, "edit-hold", at); } if (x == t) ++wait; else wait = 0; }
        if (x <= 0. || x >= 1.) end = true;
        if (G) { PolyFluid& gf = VptFriend::gas(*G); const State gz = snap(gf), gZ = snap(ngc); const double gfl = VptFriend::gflow(*G); const std::string ga = S() << at << " gas P " << g0.P << " to " << gz.P << " T " << g0.T << " to " << gz.T << " mass " << g0.mass << " to " << gz.mass << " flow " << gfl << " gas node P " << gN.P; 
            c.check(gfl <= 0. || VptFriend::pv(*G, 0) > g0.P, "gas-in", ga); c.check(gfl >= 0. || VptFriend::pv(*G, 0) < g0.P, "gas-out", ga); c.check(gz.mass > 0. && std::isfinite(gz.T) && std::isfinite(gz.P), "gas-finite", ga);
            if (gz.mass < 1e-9 || gz.P <= 0. || g0.P <= 0.) break; if (std::fabs(gfl) > 1e-12) c.checkNear(gZ.mass - gN.mass, -gfl * dt, 1e-7, 1e-10 * gN.mass + 2e-12 * dt, "gas-node-mass", ga);
            if (plain) { const double want = std::max(DBL_EPSILON, g0.mass + gfl * dt); c.checkNear(gz.mass, want, 1e-9, 1e-13, "gas-mass", ga); if (gz.P > 1e-9 && gz.P < maxP) c.checkNear(gz.P * VptFriend::vg(*G), gz.mass / gf.getMWeight() * 8.314472 * gz.T, 2e-2, 0., "gas-law", ga);
                if (gfl > 0. && c.isKnown("accum-gas-mixture")) { double dm = 0., dz = 0.; for (int i = 0; i < ng; ++i) { dm = std::max(dm, std::fabs(gN.mf[i] - g0.mf[i])); dz = std::max(dz, std::fabs(gz.mf[i] - g0.mf[i])); } if (dm > 1e-9 && dz < 1.5e-7) { c.nontrivial(); c.known("accum-gas-mixture"); } }
                for (int i = 0; i < ng; ++i) c.checkNear(gz.mass * gz.mf[i], g0.mass * g0.mf[i] + gfl * dt * (gfl > 0. ? gN.mf[i] : g0.mf[i]), 2e-7, 1e-9 * want, "gas-mixture", S() << ga << " constituent " << i); 
                bool same = true; for (int i = 0; i < ng; ++i) same = same && std::fabs(gN.mf[i] - g0.mf[i]) < 1e-9; if (!holdTemp && (same || gfl <= 0.)) { const double e0 = g0.mass * g0.h + dt * gfl * (gfl > 0. ? gN.h : g0.h); c.checkNear(gz.T, lim(lo, gf.computeTemperature(e0 / gz.mass), hi), 1e-5, 1e-3, "gas-energy", ga); } }
            if (!ov && editP && !stick && !stickTo) { const double r = lim(0., epr, pRate) * dt, t = lim(DBL_EPSILON, ep, maxP); (void)r; const double base = a.P; const double to = t > base ? std::min(t, base + r) : std::max(t, base - r); c.checkNear(gz.P, to - sp0, 1e-9, 1e-9, "edit-pressure", ga); } }
    }
    c.label(G ? "gas" : "spring"); if (in && out && (end || odd)) c.nontrivial();
}
