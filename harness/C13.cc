// C13 passive path resistance: what each passive element lets through for its state.
#include "aspects/fluid/conductor/GunnsFluidValve.hh"
#include "aspects/fluid/conductor/GunnsFluidLeak.hh"
#include "aspects/fluid/conductor/GunnsFluidSimpleQd.hh"
#include "aspects/fluid/conductor/GunnsFluidSensor.hh"
#include "aspects/fluid/conductor/GunnsFluidHatch.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayValve.hh"
#include "aspects/fluid/hi-fi/GunnsFluidHiFiValve.hh"
#define VPT_FRIEND_EXTRA \
    static double eff(const GunnsFluidConductor& l) { return l.mEffectiveConductivity; } \
    static double maxGet(const GunnsFluidConductor& l) { return l.mMaxConductivity; } \
    static double pos(const GunnsFluidCheckValve& l) { return l.mPosition; } \
    static double drop(const GunnsFluidLink& l) { return l.mPotentialDrop; } \
    static double& exSF(GunnsFluidConductor& l) { return l.mExpansionScaleFactor; } \
    static void state(GunnsFluidSimpleQd& l, int s) { l.mState = s; } \
    static double hatchDiff(GunnsFluidHatch& l) { return l.mDiffusiveFlowRate; } \
    static double hatchHeat(GunnsFluidHatch& l) { return l.mConductiveHeatFlux; } \
    static void pos3(GunnsFluid3WayValve& l, double p) { l.mPosition = p; } \
    static double vpos(GunnsFluidValve& l) { return l.mPosition; } \
    static double cd(GunnsFluidHiFiOrifice& l) { return l.mCdActual; } \
    static double cdDef(GunnsFluidHiFiOrifice& l) { return l.mCdDefault; } \
    static double leakArea(GunnsFluidHiFiValve& l) { return l.mLeakArea; } \
    static double sysG(const GunnsFluidConductor& l) { return l.mSystemConductance; } \
    static double minLin(const GunnsFluidConductor& l) { return l.mMinLinearizationPotential; } \
    template <class T> static void tune(T& l, int m, double v) { l.mTuneMode = (GunnsFluidUtils::TuningMode)m; if (m == GunnsFluidUtils::MASS) l.mTuneMassFlow = v; else if (m == GunnsFluidUtils::DELTA_T) l.mTuneDeltaT = v; else l.mTuneVolFlow = v; } \
    template <class T> static GunnsFluidSensor& sens(T& l) { return l; } \
    static double sT(GunnsFluidSensor& l) { return l.mTemperature; } static double sP(GunnsFluidSensor& l) { return l.mPressure; } static double sDP(GunnsFluidSensor& l) { return l.mDeltaPressure; } static double sM(GunnsFluidSensor& l) { return l.mMassFlowRate; } static double sV(GunnsFluidSensor& l) { return l.mVolumetricFlowRate; } static double* sPP(GunnsFluidSensor& l) { return l.mPartialPressure; }
#include "fluidnet.hh"
using namespace fn;

// The law the elements promise: mass flow g*(rho*dP)^x, made molar and linear in the pressure drop.
static double law(double g, const State& a, const State& b, double minLin, double ex = 0.5) {
    const double mw = a.MW < 1e-15 ? b.MW : b.MW < 1e-15 ? a.MW : 0.5 * (a.MW + b.MW), dp = std::max(minLin, std::fabs(a.P - b.P)); if (mw < 1e-15) return 0.;
    return g * std::pow(0.5 * (a.rho + b.rho) * 1000. * dp, ex) / dp / mw;
}
static double predict(double mdot, const State& a, const State& b, double minLin, double ex = 0.5) {
    double dp = std::fabs(a.P - b.P); if (dp < 1e-15) return 0.; dp = std::max(dp, minLin); return std::fabs(mdot) / std::pow(1000. * dp * 0.5 * (a.rho + b.rho), ex);
}
// The ground node has no fluid.
// A step starts from the contents.
static State out(FluidNet& f, int k) { if (k < f.n()) return snap(*f.nodes[k].getContent()); State g = snap(*f.nodes[0].getContent()); g.P = g.rho = g.MW = g.mass = g.moles = 0.; return g; }
static FSpec pair(Case& c, bool gasOnly = false) {
    FOpt o; o.maxN = 2; o.maxLinks = 1; o.zeroVol = false; o.liquids = !gasOnly; FSpec s = genFluid(c, o); s.links.clear();
    if (s.n() < 2 && c.b(0.8)) { FNode x = s.nodes[0]; x.T = c.r(s.Tlo + 20., s.Thi - 20.); x.P = s.gas ? c.lr(1., 1e3) : c.lr(50., 1e3); x.mf = genFractions(c, (int)s.types.size()); s.nodes.push_back(x); }
    for (int k = 0; k < s.n(); ++k) s.nodes[k].vol = std::max(0.05, s.nodes[k].vol);
    if (s.n() == 2 && c.b(0.2)) s.nodes[1].P = s.nodes[0].P * c.r(0.999, 1.001);
    return s;
}

// ---- Valves, leaks, quick disconnects, sensors and check valves: conductivity for any command history.
FACET(path, 14000, 300000, "the element was open at least once and closed or malfunctioned at least once") {
    FSpec s = pair(c); FluidNet f(s, false); enum { K_COND, K_VALVE, K_LEAK, K_QD, K_SENSOR, K_CHECK }; const int kind = c.i(0, 5), n = s.n();
    const int p0 = c.b(0.8) ? 0 : n - 1, p1 = p0 == 0 ? (n == 1 ? n : c.b(0.8) ? 1 : n) : (n == 1 ? n : 0);
    const double G = s.gas ? c.lr(1e-8, 1e-4) : c.lr(1e-9, 1e-6); const double ex = kind == K_COND && c.b(0.4) ? c.pickOf<double>({1., 0.75, 0.6}) : 0.5;
    double close = c.r(-1., 2.), open = close + c.lr(0.01, 3.), rate = c.b() ? 100. : c.lr(0.05, 5.), pos = c.b(0.3) ? 0. : c.r(0., 1.);
    GunnsFluidConductor* L = 0; GunnsFluidValve* va = 0; GunnsFluidLeak* le = 0; GunnsFluidSimpleQd* qd = 0; GunnsFluidSensor* se = 0; GunnsFluidCheckValve* ck = 0;
    if (kind == K_COND) { L = new GunnsFluidConductor; L->initialize(GunnsFluidConductorConfigData("l", &f.nl, G, 0., ex), GunnsFluidConductorInputData(false, 0.), f.links, p0, p1); }
    if (kind == K_VALVE) { L = va = new GunnsFluidValve; va->initialize(GunnsFluidValveConfigData("l", &f.nl, G, 0.), GunnsFluidValveInputData(false, 0., pos), f.links, p0, p1); }
    if (kind == K_LEAK) { L = le = new GunnsFluidLeak; le->initialize(GunnsFluidLeakConfigData("l", &f.nl, 1.0, 0.), GunnsFluidLeakInputData(), f.links, p0, p1); }
    if (kind == K_QD) { L = qd = new GunnsFluidSimpleQd; qd->initialize(GunnsFluidSimpleQdConfigData("l", &f.nl, G, 0.), GunnsFluidSimpleQdInputData(), f.links, p0, p1); }
    if (kind == K_SENSOR) { L = se = new GunnsFluidSensor; se->initialize(GunnsFluidSensorConfigData("l", &f.nl, G, 0.), GunnsFluidSensorInputData(), f.links, p0, p1); }
    if (kind == K_CHECK) { L = va = ck = new GunnsFluidCheckValve; ck->initialize(GunnsFluidCheckValveConfigData("l", &f.nl, G, 0., 0., 0., 0., rate, close, open), GunnsFluidCheckValveInputData(false, 0., pos), f.links, p0, p1); }
    std::unique_ptr<GunnsFluidLink> own(L); f.start();
    const char* names[] = {"conductor", "valve", "leak", "quick disconnect", "sensor", "check valve"};
    c.log() << names[kind] << " " << p0 << "->" << p1 << " G=" << G << " exp=" << ex << "\n"; logFluid(c.log(), s);
    // model state
    bool blk = false, leakOn = false, holeOn = false, conn = false, stuck = false, failTo = false; double blkV = 0., leakV = 0., holeV = 0., failV = 0., maxG = kind == K_LEAK ? 1. : G; double leakG = 0.; int leakKind = 0; double leakKey = 0.; double lastDrop = 0.; bool sawOpen = false, sawMod = false; int tune = 0; double tuneV = 0.;
    const double ml = VptFriend::minLin(*L); const int steps = c.i(2, 14);
    for (int t = 0; t < steps; ++t) {
        const double dt = c.pickOf<double>({0.1, 0.05, 0.5});
        int ops = c.i(0, 2);
        for (int q = 0; q < ops; ++q) switch (c.i(0, 5)) {
            case 0: blk = c.b(0.6); blkV = c.b(0.3) ? 1. : c.r(0., 1.); L->setMalfBlockage(blk, blkV); break;
            case 1: if (va && !ck) { pos = c.b(0.3) ? (double)c.i(0, 1) : c.r(0., 1.); va->setPosition(pos); } else if (qd) { conn = c.b(0.6); VptFriend::state(*qd, conn ? GunnsFluidSimpleQd::CONNECTED : GunnsFluidSimpleQd::DISCONNECTED); } else if (le) { holeOn = c.b(0.6); if (holeOn) holeV = c.b(0.4) && holeV > 0. ? holeV : c.lr(1e-9, 1e-5); le->setMalfLeakHole(holeOn, holeV); } else if (ck) { stuck = c.b(); ck->setMalfStuck(stuck); } break;
            case 2: leakOn = c.b(0.6); if (leakOn) leakV = c.b(0.4) && leakV > 0. ? leakV : c.lr(1e-7, 1e-3); if (va) va->setMalfLeakThru(leakOn, leakV); else if (le) le->setMalfLeakRate(leakOn, leakV); break;
            case 3: if (ck) { failTo = c.b(); failV = c.r(-0.2, 1.2); ck->setMalfFailTo(failTo, failV); } break;
            case 4: if (kind == K_COND || kind == K_VALVE || kind == K_SENSOR) { tune = c.pickOf<int>({(int)GunnsFluidUtils::MASS, (int)GunnsFluidUtils::TRUE_VOL, (int)GunnsFluidUtils::STD_VOL, (int)GunnsFluidUtils::DELTA_T}); tuneV = c.b() ? c.lr(1e-7, 1e-3) : -c.lr(1e-7, 1e-3); VptFriend::tune(*L, tune, tuneV); } break;
            default: break;
        }
        const State a = out(f, p0), b = out(f, p1); const double rho0 = a.rho, rho1 = b.rho;
        if ((leakOn || tune) && std::fabs(a.P - b.P) <= 1e-6 * std::max(1e-3, std::max(a.P, b.P))) return;   // the drop itself is rounding noise
        if (tune == GunnsFluidUtils::TRUE_VOL && (tuneV < 0. ? p1 : p0) == n) return;   // volume flow out of the ground node has no density
        // expected state
        double e = maxG;
        if (kind == K_LEAK) {
            const int wantKind = holeOn ? 1 : leakOn ? 2 : 0; const double key = holeOn ? holeV : leakV;
            if (wantKind != leakKind || key != leakKey) leakG = wantKind == 1 ? holeV : wantKind == 2 ? predict(leakV, a, b, ml) : 0.;
            leakKind = wantKind; leakKey = key; e = leakG;
        } else if (kind == K_QD) e = conn ? maxG : 0.;
        else if (va) {
            if (leakOn) { if (leakKey != leakV) { leakG = predict(leakV, a, b, ml); leakKey = leakV; } } else leakG = leakKey = 0.;
            if (ck && !stuck) {
                if (failTo) pos = std::min(1., std::max(0., failV));
                else { double w = lastDrop >= open ? 1. : lastDrop <= close ? 0. : (lastDrop - close) / (open - close); pos = std::min(std::min(1., pos + rate * dt), std::max(std::max(0., pos - rate * dt), w)); }
            }
            e = std::max(maxG * pos, leakG);
        }
        if (tune == GunnsFluidUtils::MASS || tune == GunnsFluidUtils::TRUE_VOL || tune == GunnsFluidUtils::STD_VOL) {
            double m = tune == GunnsFluidUtils::MASS ? tuneV : tune == GunnsFluidUtils::STD_VOL ? tuneV * UnitConversion::STD_DENSITY_AIR : tuneV >= 0. ? tuneV * rho0 : tuneV * rho1;
            maxG = predict(m, a, b, ml, ex); e = maxG; blk = false;
        }
        tune = 0; if (blk) e *= 1. - blkV;
        const State c0 = out(f, p0), c1 = out(f, p1); std::vector<double> pp0; if (p0 != n) for (size_t j = 0; j < s.types.size(); ++j) pp0.push_back(f.nodes[p0].getContent()->getPartialPressure(s.types[j]));
        f.net.step(dt);
        const std::string at = S() << names[kind] << " step " << t;
        c.checkNear(VptFriend::maxGet(*L), maxG, 1e-9, 1e-30, "max-conductivity", at);
        c.checkNear(VptFriend::eff(*L), e, 1e-9, 1e-30, "conductivity", at); if (ck) c.checkNear(VptFriend::pos(*ck), pos, 1e-9, 1e-9, "position", at);
        const double A = std::min(law(e, a, b, ml, ex), 1e15); c.checkNear(VptFriend::sysG(*L), A, 1e-9, 1e-30, "conductance", at);
        c.checkNear(VptFriend::admittance(*L), A, 1e-9, 1e-30, "admittance", at);
        const double* pv = L->getPotentialVector(); const double flux = VptFriend::flux(*L), dp = pv[0] - pv[1], hi = std::max(pv[0], pv[1]);
        if (std::fabs(dp) > 1e-12 * hi) c.checkNear(flux, A * dp, 1e-9, 1e-30, "flux", at); else c.check(std::fabs(flux) <= A * std::fabs(dp) * (1. + 1e-9), "tiny-flux", at);
        c.check(flux == 0. || flux * dp > 0., "direction", S() << at << ": flux " << flux << " against a drop of " << dp); if (e == 0.) c.check(flux == 0. && VptFriend::flow(*L) == 0., "closed", S() << at << ": flow through a closed path");
        const double mw = flux > 0. ? a.MW : b.MW, mol = flux > 0. ? a.moles : b.moles; const int from = flux > 0. ? p0 : p1; const double have = from == n ? 1e300 : snap(*f.nodes[from].getContent()).moles;
        if (from != n && std::fabs(flux) * dt < have * 0.5) c.checkNear(VptFriend::flow(*L), flux * mw, 1e-9, 1e-30, "mass-flow", at); (void)mol;
        lastDrop = VptFriend::drop(*L); c.checkNear(lastDrop, dp, 1e-9, 1e-12 * hi, "drop", at);
        if (se) { GunnsFluidSensor& q = VptFriend::sens(*se); const double pg = p1 == n ? f.nodes[n].getContent()->getPressure() : pv[1], pg0 = p0 == n ? f.nodes[n].getContent()->getPressure() : pv[0];
            if (p0 != n) c.checkNear(VptFriend::sT(q), c0.T, 1e-9, 1e-9, "sensed-temperature", at); c.checkNear(VptFriend::sP(q), pg0, 1e-9, 1e-9, "sensed-pressure", at); c.checkNear(VptFriend::sM(q), VptFriend::flow(*L), 1e-12, 0., "sensed-flow", at); c.checkNear(VptFriend::sDP(q), pg0 - pg, 1e-9, 1e-9, "sensed-drop", at);
            if (p0 != n) { double sum = 0.; for (int i = 0; i < FluidProperties::NO_FLUID; ++i) { sum += VptFriend::sPP(q)[i]; bool in = false; for (size_t j = 0; j < s.types.size(); ++j) if ((int)s.types[j] == i) { in = true; c.checkNear(VptFriend::sPP(q)[i], pp0[j], 1e-6, 1e-9 + std::fabs(pv[0] - c0.P), "sensed-partial-pressure", at); } if (!in) c.check(VptFriend::sPP(q)[i] == 0., "absent-fluid", at); } c.checkNear(sum, pv[0], 1e-6, 1e-6 + std::fabs(pv[0] - c0.P), "sensed-sum", at); } }
        if (e > 0.) sawOpen = true; if (blk || e == 0. || leakOn || holeOn) sawMod = true;
    }
    c.label(names[kind]); if (sawOpen && sawMod) c.nontrivial();
}

// ---- Three-way valve: the position selects between the two paths, with and without a non-mixing band.
FACET(threeway, 5000, 100000, "both paths were open for some position") {
    FSpec s = pair(c, true); while (s.n() < 3) { FNode x = s.nodes[0]; x.P = c.lr(1., 1e3); s.nodes.push_back(x); }
    FluidNet f(s, false); const bool posB = c.b(); const double ga = c.lr(1e-8, 1e-4), gb = c.lr(1e-8, 1e-4), band = c.b(0.4) ? 0. : c.r(0., 0.99); double pos = c.r(0., 1.);
    std::unique_ptr<GunnsFluid3WayValve> L(new GunnsFluid3WayValve); L->initialize(GunnsFluid3WayValveConfigData("v", &f.nl, posB, ga, gb, 0., 0., 0., 0., 0., 0., 0., 0., band), GunnsFluid3WayValveInputData(pos), f.links, 0, 1, 2);
    f.start(); c.log() << "3way posB=" << posB << " band=" << band << " ga=" << ga << " gb=" << gb << "\n"; logFluid(c.log(), s); const double ml = VptFriend::minLin(L->mPathA); bool both = false; double prevA = -1., prevPos = 0.;
    for (int t = 0, m = c.i(2, 8); t < m; ++t) {
        pos = c.b(0.2) ? (double)c.i(0, 1) : c.r(0., 1.); VptFriend::pos3(*L, pos);
        const State a = out(f, 0), b = out(f, 1), x = out(f, 2);
        f.net.step(0.1); const double q = VptFriend::vpos(L->mPathA), r = VptFriend::vpos(L->mPathB); const std::string at = S() << "position " << pos << " band " << band << ": A " << q << " B " << r;
        const double to = posB ? r : q, away = posB ? q : r; const double w = 0.5 - 0.5 * band;
        c.check(q >= 0. && q <= 1. + 1e-9 && r >= 0. && r <= 1. + 1e-9, "range", at);
        if (band == 0.) { c.checkNear(to, pos, 1e-9, 1e-9, "mixing", at); c.checkNear(away, 1. - pos, 1e-9, 1e-9, "mixing-away", at); }
        else { c.check(std::min(q, r) == 0., "band-both-open", at); if (pos >= w + 1e-9 && pos <= 1. - w - 1e-9) c.check(q == 0. && r == 0., "band-open", at); c.checkNear(away, std::max(0., 1. - pos / w), 1e-7, 1e-7, "ramp-away", at); c.checkNear(to, std::max(0., 1. - (1. - pos) / w), 1e-7, 1e-7, "ramp-to", at); }
        if (pos == 1.) c.check(std::fabs(to - 1.) < 1e-9 && away < 1e-9, "end", at); if (pos == 0.) c.check(std::fabs(away - 1.) < 1e-9 && to < 1e-9, "end", at);
        if (std::fabs(a.P - x.P) > 1e-4 * a.P) c.checkNear(VptFriend::admittance(L->mPathA), law(ga * q, a, x, ml), 1e-9 + 1e-12 * a.P / std::fabs(a.P - x.P), 1e-30, "path-a", at); if (std::fabs(b.P - x.P) > 1e-4 * b.P) c.checkNear(VptFriend::admittance(L->mPathB), law(gb * r, b, x, ml), 1e-9 + 1e-12 * b.P / std::fabs(b.P - x.P), 1e-30, "path-b", at);
        c.check(VptFriend::admittance(*L) == 0., "own-matrix", at); for (int k = 0; k < 2; ++k) { GunnsFluidValve& v = k ? L->mPathB : L->mPathA; c.checkNear(VptFriend::flux(v), VptFriend::admittance(v) * (f.nodes[k].getPotential() - f.nodes[2].getPotential()), 1e-6, 1e-14 + 2e-12 * VptFriend::admittance(v) * std::max(f.nodes[k].getPotential(), f.nodes[2].getPotential()), "path-flow", at); }
        if (q > 0. && r > 0.) both = true; if (band > 0. && q > 0.) both = true; if (prevA >= 0. && q != prevA && r >= 0.) both = true; prevA = q; prevPos = pos; (void)prevPos;
    }
    if (both) c.nontrivial();
}

// ---- Hatch: bulk flow plus diffusion; nothing is created or lost, and diffusion and heat run downhill.
FACET(hatch, 5000, 100000, "diffusion happened in some step") {
    FSpec s = pair(c, true); if (s.n() < 2) { FNode x = s.nodes[0]; x.T = c.r(220., 480.); s.nodes.push_back(x); } if (c.b(0.8)) { s.nodes[1].P = s.nodes[0].P * (1. + 1e-6 * c.r(-1., 1.)); s.nodes[1].T = s.nodes[0].T + c.r(-15., 15.); }
    for (int k = 0; k < 2; ++k) s.nodes[k].vol = c.lr(0.5, 100.);
    FluidNet f(s, false); const double G = c.lr(1e-3, 2.), l0 = c.lr(0.1, 10.), l1 = c.lr(0.1, 10.); double pos = 1.;
    std::unique_ptr<GunnsFluidHatch> L(new GunnsFluidHatch); L->initialize(GunnsFluidHatchConfigData("h", &f.nl, G, 0., 0., 0., 0., l0, l1), GunnsFluidHatchInputData(false, 0., pos), f.links, 0, 1);
    f.start(); c.log() << "hatch G=" << G << " lengths " << l0 << "," << l1 << "\n"; logFluid(c.log(), s); const int nt = (int)s.types.size();
    for (int t = 0, m = c.i(1, 10); t < m; ++t) {
        if (c.b(0.2)) { pos = c.b(0.4) ? 0. : c.r(0., 1.); L->setPosition(pos); } if (c.b(0.1)) L->setMalfBlockage(c.b(), c.r(0., 1.));
        const double dt = 0.1; std::vector<State> o = snapAll(f); const State a = out(f, 0), b = out(f, 1); f.net.step(dt); std::vector<State> w = snapAll(f);
        const double d = VptFriend::hatchDiff(*L), q = VptFriend::hatchHeat(*L), e = VptFriend::eff(*L); const std::string at = S() << "step " << t << " diffusive " << d << " heat " << q << " eff " << e;
        if (std::fabs(VptFriend::flux(*L)) * dt > 0.5 * std::min(o[0].moles, o[1].moles)) return;   // drawing more than a node holds is C07's exclusion
        const double mtot = o[0].mass + o[1].mass;
        for (int i = 0; i < nt; ++i) c.checkNear(w[0].mass * w[0].mf[i] + w[1].mass * w[1].mf[i], o[0].mass * o[0].mf[i] + o[1].mass * o[1].mf[i], 1e-9, 1e-11 * mtot, "compound-mass", at);
        for (size_t i = 0; i < s.tcs.size(); ++i) c.checkNear(w[0].tcMass[i] + w[1].tcMass[i], o[0].tcMass[i] + o[1].tcMass[i], 1e-8, 1e-14 * mtot, "trace-mass", at);
        if (e == 0.) c.check(d == 0. && q == 0. && VptFriend::flow(*L) == 0., "closed", at);
        c.check(q == 0. || q * (a.T - b.T) > 0., "heat-downhill", at); if (e > 0. && a.T != b.T) c.check(q != 0. || std::fabs(a.T - b.T) < 1e-6, "no-heat", at); 
        if (std::fabs(VptFriend::drop(*L)) >= 0.01 * 1.0000001 || std::fabs(a.T - b.T) >= 20. + 1e-9) c.check(d == 0., "diffusion-gate", at);
        if (d != 0.) { c.nontrivial(); c.check(std::fabs(d) <= mtot, "diffusion-size", at); }
        // diffusion never overshoots: with bulk flow negligible, composition differences shrink
        if (std::fabs(VptFriend::flow(*L)) * dt < 1e-9 * mtot) for (int i = 0; i < nt; ++i) c.check(std::fabs(w[0].mf[i] - w[1].mf[i]) <= std::fabs(o[0].mf[i] - o[1].mf[i]) + 1e-7, "diffusion-downhill", S() << at << " fluid " << i << " before " << o[0].mf[i] - o[1].mf[i] << " after " << w[0].mf[i] - w[1].mf[i]);
    }
}

// ---- High-fidelity orifice and valve: choked and unchoked gas flow, Bernoulli liquid flow.
FACET(hifi, 8000, 200000, "flow passed through the orifice") {
    FSpec s = pair(c); FluidNet f(s, false); const int n = s.n(), p0 = n == 1 ? 0 : c.i(0, 1), p1 = n == 1 ? 1 : c.b(0.8) ? 1 - p0 : 2; const bool valve = c.b(); const double Cd = c.r(0.1, 1.), d = c.lr(1e-4, 2e-2), re = c.b() ? c.lr(1., 1e4) : 0., tun = c.b(0.6) ? 1. : c.r(0.5, 2.); double pos = c.r(0., 1.);
    GunnsFluidHiFiOrifice* L; GunnsFluidHiFiValve* V = 0;
    if (valve) { V = new GunnsFluidHiFiValve; L = V; V->initialize(GunnsFluidHiFiValveConfigData("o", &f.nl, GunnsFluidHiFiOrificeConfigData::DISCHARGE_COEFF, Cd, d, re, 0., tun), GunnsFluidHiFiValveInputData(false, 0., pos, false, 0.), f.links, p0, p1); }
    else { L = new GunnsFluidHiFiOrifice; L->initialize(GunnsFluidHiFiOrificeConfigData("o", &f.nl, GunnsFluidHiFiOrificeConfigData::DISCHARGE_COEFF, Cd, d, re, 0., tun), GunnsFluidHiFiOrificeInputData(false, 0.), f.links, p0, p1); }
    std::unique_ptr<GunnsFluidLink> own(L); f.start(); c.log() << (valve ? "valve " : "orifice ") << p0 << "->" << p1 << " Cd=" << Cd << " d=" << d << " re=" << re << " tune=" << tun << " pos=" << pos << "\n"; logFluid(c.log(), s);
    const double area = M_PI * d * d / 4.; bool blk = false, leak = false; double blkV = 0., leakV = 0., A = 0.;
    for (int t = 0, m = c.i(2, 8); t < m; ++t) {
        if (c.b(0.3)) { blk = c.b(); blkV = c.b(0.2) ? 1. : c.r(0., 1.); L->setMalfBlockage(blk, blkV); } if (V && c.b(0.3)) { pos = c.b(0.3) ? 0. : c.r(0., 1.); V->setPosition(pos); } if (V && c.b(0.2)) { leak = c.b(); leakV = c.lr(1e-8, 1.); V->setMalfLeakThru(leak, leakV); }
        const double* pv = L->getPotentialVector(); int in = p0, ex = p1; if (p0 == n || pv[1] > pv[0]) std::swap(in, ex); const double flow0 = VptFriend::flow(*L);
        const State a = out(f, in), b = out(f, ex); const double g = f.nodes[in].getOutflow()->getAdiabaticIndex(), mu = f.nodes[in].getOutflow()->getViscosity(); const bool gas = f.nodes[in].getOutflow()->getPhase() == FluidProperties::GAS;
        if (in != n && !(mu > 0.)) c.discard();   // the viscosity data of the fluid is out of range (C14)
        f.net.step(0.1); const std::string at = S() << "step " << t;
        if (in != n) {
            const double rey = a.rho * std::fabs(flow0) / a.rho / area * d / mu; double cd = re > 0. ? Cd * std::sqrt(std::min(re, rey) / re) : 0.; if (cd < 1e-15) cd = Cd; c.checkNear(VptFriend::cd(*L), cd, 1e-7, 0., "discharge", at);
            double eff = area * (blk ? 1. - blkV : 1.); if (V) { eff *= pos; const double la = VptFriend::leakArea(*V); c.check(la >= 0. && la <= area * (1. + 1e-12), "leak-area", S() << at << " " << la); if (!leak) c.check(la == 0., "leak-off", at); if (leak) eff = std::max(eff, la); }
            const double ml = 1e-8; double mdot; double dpk;
            if (gas) { const double P1 = std::max(b.P, 0.), P0 = std::max(a.P, P1 + ml), r = P1 / P0, crit = std::pow(2. / (g + 1.), g / (g - 1.)); dpk = P0 - P1; const double rr = std::max(r, crit);
                mdot = std::sqrt(2. * g / (g - 1.) * P0 * 1000. * a.rho * (std::pow(rr, 2. / g) - std::pow(rr, (g + 1.) / g))); c.label(r < crit ? "choked" : "subcritical"); }
            else { dpk = std::max(a.P - b.P, ml); mdot = std::sqrt(2. * 0.5 * (a.rho + b.rho) * 1000. * dpk); c.label("liquid"); }
            const double mw = a.MW < 1e-15 ? b.MW : b.MW < 1e-15 ? a.MW : 0.5 * (a.MW + b.MW); A = std::min(1e15, tun * cd * eff * mdot / dpk / mw);
            if (dpk > 1e-6 * a.P) c.checkNear(VptFriend::admittance(*L), A, 1e-6, 1e-30, "law", S() << at << " gas " << gas << " P " << a.P << "," << b.P);
            // a leak of a requested size delivers it unless the throat is too small
        }
        const double flux = VptFriend::flux(*L), dp = pv[0] - pv[1]; if (std::fabs(dp) > 1e-12 * std::max(pv[0], pv[1])) c.checkNear(flux, VptFriend::admittance(*L) * dp, 1e-9, 1e-30, "flux", at); c.check(flux == 0. || flux * dp > 0., "direction", at);
        if (flux != 0.) c.nontrivial();
    }
}
