// C19: heat exchange moves heat from hot to cold, never past equilibrium, and reports what it moved.
#include "aspects/fluid/conductor/GunnsFluidHeatExchanger.hh"
#include "aspects/fluid/conductor/GunnsFluidHxDynHtc.hh"
#include "aspects/fluid/conductor/GunnsFluidPipe.hh"
#include "aspects/fluid/conductor/GunnsFluidCondensingHx.hh"
#include "aspects/fluid/conductor/GunnsFluidPhaseChangeConductor.hh"
#include "aspects/fluid/source/GunnsFluidHeater.hh"
#include "core/GunnsFluidUtils.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    static PolyFluid* flu(GunnsFluidLink& l) { return l.mInternalFluid; } static double src(const GunnsBasicLink& l, int i) { return l.mSourceVector[i]; } static double pv(const GunnsBasicLink& l, int i) { return l.mPotentialVector[i]; } \
    typedef GunnsFluidHeatExchanger Hx; static double htc(const Hx& h, int i) { return h.mSegHtc[i]; } static double gain(const Hx& h, int i) { return h.mSegEnergyGain[i]; } static double segT(const Hx& h, int i) { return h.mSegTemperature[i]; } \
    typedef GunnsFluidPipe Pi; static double wall(const Pi& p) { return p.mWallHeatFlux; } static double area(const Pi& p) { return p.mThermalSurfaceArea; } \
    typedef GunnsFluidCondensingHx Ch; static void wallT(Ch& h, int i, double t) { h.mSegmentTemperature[i] = t; } static double heat(const Ch& h, int i) { return h.mSegmentHeat[i]; } static double sens(const Ch& h) { return h.mSensibleHeat; } static double lat(const Ch& h) { return h.mLatentHeat; } static double tot(const Ch& h) { return h.mTotalHeat; } static double cond(const Ch& h) { return h.mCondensationRate; } static double chtc(const Ch& h) { return h.mSegmentHtc; } \
    typedef GunnsFluidPhaseChangeConductor Pc; static void wallT(Pc& h, double t) { h.mWallTemperature = t; } static double wall(const Pc& h) { return h.mWallHeatFlux; } static void eff(Pc& h, double e) { h.mEfficiency = e; } static PolyFluid& gas(Pc& h) { return *h.mGasFluid; } static PolyFluid& liq(Pc& h) { return *h.mLiquidFluid; } \
    static double hflux(const GunnsFluidHeater& h) { return h.mHeatFlux; } static void eff(GunnsFluidHeater& h, double e) { h.mHeaterEfficiency = e; }
#include "fluidnet.hh"
using namespace fn;
static double lim(double a, double x, double b) { return std::min(b, std::max(a, x)); }
// Two nodes of one fluid, with flow driven between them.
static FSpec twoNodes(Case& c, bool steam = false) {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; g.liquids = !steam; FSpec s = genFluid(c, g); s.links.clear(); s.nodes[0].exF = 0.;
    if (steam && std::find(s.types.begin(), s.types.end(), FP::GUNNS_H2O) == s.types.end()) s.types[0] = FP::GUNNS_H2O;
    s.nodes.push_back(s.nodes[0]); for (int k = 0; k < 2; ++k) { FNode& x = s.nodes[k]; x.T = s.gas ? c.r(steam ? 280. : 200., steam ? 360. : 600.) : c.r(s.Tlo, s.Thi); x.P = c.lr(s.gas ? 20. : 100., 500.); x.vol = c.lr(s.gas ? 1. : 0.01, s.gas ? 100. : 10.); x.mf = genFractions(c, (int)s.types.size()); }
    return s;
}
static double drive(Case& c, FluidNet& f, double dt) { const double m = std::min(snap(*f.nodes[0].getContent()).mass, snap(*f.nodes[1].getContent()).mass); return c.b(0.15) ? 0. : c.sr(1e-6, f.spec.gas ? 1e-2 : 1e-3) * m / dt; }
static bool calm(FluidNet& f, double dt, double flow) { for (int k = 0; k < f.n(); ++k) if (f.nodes[k].getContent()->getMass() < 20. * std::fabs(flow) * dt || f.nodes[k].getContent()->getPressure() < 0.5 || f.nodes[k].getContent()->getPressure() > 1e5) return false; return true; }
static bool stepped(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
static bool sane(const FSpec& s, double T) { return s.gas ? T > 110. && T < 1400. : T >= s.Tlo - 1e-9 && T <= s.Thi + 1e-9; }
static double wallTemp(Case& c, const FSpec& s) { return s.gas ? c.r(150., 1200.) : c.r(s.Tlo, s.Thi); }
static double energy(FluidNet& f) { double e = 0.; for (int k = 0; k < f.n(); ++k) { State s = snap(*f.nodes[k].getContent()); e += s.mass * s.h; } return e; }
// Heat given by a stream to a wall, and the temperature it leaves with.
static double convect(PolyFluid& x, double m, double UA, double Tw) {
    if (m <= DBL_EPSILON || UA <= DBL_EPSILON) return 0.; const double T = x.getTemperature(), h = x.getSpecificEnthalpy(), n = std::min(100., UA / (m * x.getSpecificHeat())); x.setTemperature(Tw + (T - Tw) * std::exp(-n)); return m * (h - x.getSpecificEnthalpy());
}
static void between(Case& c, double out, double in, double wlo, double whi, const std::string& at, double eps = 0.) { c.check(out >= std::min(in, wlo) - 1e-9 * in - eps && out <= std::max(in, whi) + 1e-9 * in + eps, "past-equilibrium", S() << at << " outlet " << out << " from " << in << " with walls " << wlo << " to " << whi); }

FACET(exchanger, 8000, 200000, "heat moved both ways or in reverse flow, with a malfunction, override or several segments") {
    FSpec s = twoNodes(c); FluidNet f(s, false); const bool dyn = c.b(0.4); const int n = c.i(1, 5); const double m0 = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()), mRef = (s.gas ? 1e-3 : 1e-4) * std::min(m0, 1e6), UA = mRef * 2000. * c.lr(1e-2, 30.), T0 = wallTemp(c, s), G = s.gas ? c.lr(1e-7, 1e-4) : c.lr(1e-9, 1e-6);
    struct Seg { double c0, c1, ex, lim, def, T, mv; bool malf; }; std::vector<Seg> sg(n); std::unique_ptr<GunnsFluidHeatExchanger> X; bool over = false, hxM = false; double ov = 0., hxV = 0.;
    for (int i = 0; i < n; ++i) { sg[i].T = T0; sg[i].malf = false; sg[i].mv = 0.; }
    if (dyn) { GunnsFluidHxDynHtc* d = new GunnsFluidHxDynHtc; X.reset(d); const double c0 = c.b(0.3) ? 0. : UA, c1 = c.b(0.3) ? 0. : UA * c.lr(0.1, 10.) / std::pow(mRef, 0.8), ex = c.b() ? 0.8 : c.r(0.05, 2.), lm = c.b() ? 1e9 : UA * c.lr(0.5, 3.); GunnsFluidHxDynHtcConfigData cd("x", &f.nl, G, 0., n, c0, c1, ex, lm); const bool each = c.b(); for (int i = 0; i < n; ++i) { Seg& q = sg[i]; if (each) { q.c0 = c.b(0.3) ? 0. : UA * c.r(0., 1.); q.c1 = UA * c.lr(0.1, 10.); q.ex = c.r(0.05, 2.); q.lim = c.b() ? 1e9 : UA; cd.addSegment(q.c0, q.c1, q.ex, q.lim); } else { q.c0 = c0 / n; q.c1 = c1 / n; q.ex = ex; q.lim = lm / n; } } GunnsFluidHxDynHtcInputData id(false, 0., T0); id.mTemperatureOverride = 0.; id.mHeatTransferCoefficient = 1.; d->initialize(cd, id, f.links, 0, 1); }
    else { X.reset(new GunnsFluidHeatExchanger); GunnsFluidHeatExchangerInputData id(false, 0., UA, T0); std::vector<double> o; const bool each = c.b(0.4); for (int i = 0; i < n; ++i) { o.push_back(each && c.b(0.7) ? UA * (c.b(0.2) ? 0. : c.r(0., 1.)) : -1.); sg[i].def = o[i] >= 0. ? o[i] : UA / n; } id.mSegmentHtcOverrides = each ? &o[0] : 0; id.mTemperatureOverride = 0.; X->initialize(GunnsFluidHeatExchangerConfigData("x", &f.nl, G, 0., n), id, f.links, 0, 1); }
    GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec); bool malf = false, rev = false, hot = false, cold = false; int used = 0; bool blk = false; double bv = 0.;
    for (int k = 0, N = c.i(4, 25); k < N; ++k) {
        switch (c.weighted({6, 4, 3, 1, 2, 1, 1})) {
            case 1: src.setFlowDemand(drive(c, f, dt)); break;
            case 2: { const int i = c.i(-1, n); const double T = wallTemp(c, s); X->setSegTemperature(i, T); if (i >= 0 && i < n) sg[i].T = T; break; }
            case 3: hxM = c.b(); hxV = c.r(-0.3, 1.5); X->setMalfHxDegrade(hxM, hxV); malf = true; break;
            case 4: { const int i = c.i(-1, n); const bool b = c.b(); const double v = c.r(-0.3, 1.5); X->setMalfSegDegrade(i, b, v); if (i >= 0 && i < n) { sg[i].malf = b; sg[i].mv = v; } malf = true; break; }
            case 5: over = c.b(); ov = over ? wallTemp(c, s) : -1.; X->setTemperatureOverride(ov); malf = true; break;
            case 6: blk = c.b(); bv = c.b() ? 1. : c.r(0., 1.); X->setMalfBlockage(blk, bv); break; default: break; }
        const std::vector<State> old = snapAll(f); const double e0 = energy(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(*X); if (!calm(f, dt, std::max(std::fabs(fl), std::fabs(VptFriend::flow(src))))) break; bool ok = true; for (int q = 0; q < 2; ++q) ok = ok && sane(s, f.nodes[q].getContent()->getTemperature()); if (!ok) break;
        if (std::fabs(fl) > 0. && std::fabs(fl) < 1e-12) continue;
        PolyFluid in(*f.nodes[fl >= 0. ? 0 : 1].getOutflow(), "in"); const double Tin = in.getTemperature(), m = std::fabs(fl); in.setPressure(VptFriend::flu(*X)->getPressure()); in.setTemperature(Tin); if (over) in.setTemperature(ov); double sum = 0., wlo = 1e30, whi = 0.; const std::string at = S() << "step " << k << (dyn ? " dynamic" : "") << " flow " << fl << " inlet " << Tin << (over ? " overridden" : "");
        for (int j = 0; j < n; ++j) { const int i = fl >= 0. ? j : n - 1 - j; const Seg& q = sg[i]; const double dg = q.malf ? q.mv : hxM ? hxV : 1.; const double u = dyn ? lim(0., (q.c0 + (m > (double)FLT_EPSILON ? q.c1 * std::pow(std::min(10., m), q.ex) : 0.)) * lim(0., dg, 1.), q.lim) : q.def * lim(0., dg, 1.); const std::string si = S() << at << " segment " << i << " wall " << q.T;
            const bool edge = dyn && m > 1.1e-7 && m < 1.3e-7; if (fl != 0. && !edge) c.checkNear(VptFriend::htc(*X, i), u, 1e-9, 1e-15, "htc", si); c.checkNear(VptFriend::segT(*X, i), q.T, 0., 0., "wall", si); const double Ts = in.getTemperature(), uu = edge ? VptFriend::htc(*X, i) : u, want = convect(in, m, uu, q.T), got = VptFriend::gain(*X, i); sum += got; c.checkNear(got, want, 1e-7, 1e-9 * m * in.getSpecificHeat() * 300. + 1e-12, "heat", si);
            if (got != 0.) { c.check((got > 0.) == (Ts > q.T) || std::fabs(Ts - q.T) < 1e-6, "direction", S() << si << " fluid " << Ts << " heat to wall " << got); (got > 0. ? hot : cold) = true; ++used; } wlo = std::min(wlo, q.T); whi = std::max(whi, q.T); if (over) in.setTemperature(ov); }
        c.checkNear(X->getTotalEnergyGain(), sum, 1e-9, 1e-12, "total", at); if (fl == 0.) continue; const double Tout = VptFriend::flu(*X)->getTemperature(); c.checkNear(Tout, in.getTemperature(), 1e-9, 1e-7, "outlet", at); if (over) c.checkNear(Tout, ov, 1e-12, 0., "override", at); else between(c, Tout, Tin, wlo, whi, at);
        c.checkNear(X->getDeltaTemperature(), Tout - Tin, 1e-7, 1e-5, "delta-temperature", at);
        if (blk && bv >= 1.) { c.check(fl == 0., "blocked", at); }
        if (!over) { const double e1 = energy(f); c.checkNear(e1 - e0, -sum * dt, 1e-6, 1e-11 * (std::fabs(e0) + std::fabs(e1)) + 1e-9 * m * dt * 1e6, "energy", S() << at << " heat out " << sum << " total energy " << e0 << " to " << e1); }
        if (fl < 0.) rev = true; }
    if (used > 1 && ((hot && cold) || rev) && (malf || n > 1)) c.nontrivial();
}
FACET(pipe, 6000, 150000, "heat moved both ways or in reverse flow") {
    FSpec s = twoNodes(c); FluidNet f(s, false); const double m0 = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()); (void)m0; const double D = c.b(0.1) ? 0. : c.lr(1e-3, 0.3), L = c.b(0.1) ? 0. : c.lr(0.05, 50.), e = c.b(0.3) ? 0. : D * c.lr(1e-6, 0.04), G = s.gas ? c.lr(1e-7, 1e-4) : c.lr(1e-9, 1e-6); double Tw = wallTemp(c, s), A = D * L * 3.14159265358979323846;
    GunnsFluidPipe X; X.initialize(GunnsFluidPipeConfigData("x", &f.nl, G, 0., L, D, e), GunnsFluidPipeInputData(false, 0., Tw), f.links, 0, 1); const double ks = A > DBL_EPSILON ? e / D : 0.; GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec); c.checkNear(VptFriend::area(X), A, 1e-12, 1e-15, "surface", "pipe wall"); bool hot = false, cold = false, rev = false; int used = 0;
    for (int k = 0, N = c.i(4, 25); k < N; ++k) {
        switch (c.weighted({6, 4, 3, 1, 1})) { case 1: src.setFlowDemand(drive(c, f, dt)); break; case 2: Tw = wallTemp(c, s); X.setWallTemperature(Tw); break; case 3: A = c.b(0.2) ? 0. : c.lr(1e-4, 10.); if (D <= 0.) A = 0.; X.setThermalSurfaceArea(A); break; case 4: X.setMalfBlockage(c.b(), c.r(0., 1.)); break; default: break; }
        const std::vector<State> old = snapAll(f); const double e0 = energy(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(X), m = std::fabs(fl); if (!calm(f, dt, std::max(m, std::fabs(VptFriend::flow(src))))) break; if (!sane(s, f.nodes[0].getContent()->getTemperature()) || !sane(s, f.nodes[1].getContent()->getTemperature())) break; if (m > 0. && m < 1e-12) continue;
        PolyFluid in(*f.nodes[fl >= 0. ? 0 : 1].getOutflow(), "in"); const double Tin = in.getTemperature(); in.setPressure(VptFriend::flu(X)->getPressure()); in.setTemperature(Tin); const std::string at = S() << "step " << k << " flow " << fl << " inlet " << Tin << " wall " << Tw << " area " << A; const double h = m > 0. && A > 0. ? GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(fl, &in, ks, D) : 0., want = convect(in, m, A * h, Tw), got = VptFriend::wall(X);
        c.checkNear(got, want, 1e-6, 1e-9 * m * in.getSpecificHeat() * 300. + 1e-12, "heat", at); if (fl == 0.) continue; const double Tout = VptFriend::flu(X)->getTemperature(); c.checkNear(Tout, in.getTemperature(), 1e-9, 1e-7, "outlet", at); between(c, Tout, Tin, Tw, Tw, at); if (got != 0.) { c.check((got > 0.) == (Tin > Tw) || std::fabs(Tin - Tw) < 1e-6, "direction", at); (got > 0. ? hot : cold) = true; ++used; if (fl < 0.) rev = true; }
        const double e1 = energy(f); c.checkNear(e1 - e0, -got * dt, 1e-6, 1e-11 * (std::fabs(e0) + std::fabs(e1)) + 1e-9 * m * dt * 1e6, "energy", S() << at << " heat out " << got << " total energy " << e0 << " to " << e1); }
    if (used > 1 && ((hot && cold) || rev)) c.nontrivial();
}
FACET(heater, 4000, 100000, "heat moved with a blockage or an efficiency under one") {
    FSpec s = twoNodes(c); FluidNet f(s, false); const double eff0 = c.b(0.3) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.), E = std::min(f.nodes[0].getContent()->getMass() * f.nodes[0].getContent()->getSpecificEnthalpy(), f.nodes[1].getContent()->getMass() * f.nodes[1].getContent()->getSpecificEnthalpy()); double P = c.sr(1e-8, 1e-3) * E, eff = eff0; const bool gnd = c.b(0.3); GunnsFluidHeater X; X.initialize(GunnsFluidHeaterConfigData("x", &f.nl, eff), GunnsFluidHeaterInputData(false, 0., P), f.links, gnd ? 2 : 0, 1); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec); bool blk = false, odd = eff < 1.; double bv = 0.; int used = 0;
    for (int k = 0, N = c.i(3, 15); k < N; ++k) { if (c.b(0.3)) { P = c.sr(1e-8, 1e-3) * E; X.setHeaterPower(P); } if (c.b(0.2)) { blk = c.b(0.7); bv = c.b(0.2) ? 1. : c.r(0., 1.); X.setMalfBlockage(blk, bv); odd = true; }
        const std::vector<State> old = snapAll(f); if (!stepped(f, dt)) break; const double q = P * eff * (blk ? 1. - bv : 1.); const std::vector<State> now = snapAll(f); if (!sane(s, now[0].T) || !sane(s, now[1].T)) break; c.checkNear(VptFriend::hflux(X), q, 1e-12, 1e-15, "power", S() << "step " << k);
        for (int j = 0; j < 2; ++j) { const double sg = j == 0 ? (gnd ? 0. : -1.) : 1.; c.checkNear(now[j].mass * now[j].h - old[j].mass * old[j].h, sg * q * dt, 1e-6, 1e-10 * old[j].mass * std::fabs(old[j].h), "energy", S() << "step " << k << " node " << j << " heat " << q << " T " << old[j].T << " to " << now[j].T); c.checkNear(now[j].mass, old[j].mass, 1e-12, 0., "mass", S() << "step " << k); } if (q != 0.) ++used; }
    if (used > 1 && odd) c.nontrivial();
}
FACET(condensing, 6000, 150000, "water condensed, and steps without condensation or with a malfunction were seen") {
    FSpec s = twoNodes(c, true); const int nt = (int)s.types.size(); int w = 0; for (int i = 0; i < nt; ++i) if (s.types[i] == FP::GUNNS_H2O) w = i; const double MWw = prop(FP::GUNNS_H2O)->getMWeight();
    for (int k = 0; k < 2; ++k) { FNode& x = s.nodes[k]; x.P = c.lr(50., 500.); const double hum = c.b(0.2) ? c.r(0., 0.3) : c.r(0.3, 1.), pw = std::min(0.9, hum * prop(FP::GUNNS_H2O)->getSaturationPressure(x.T) / x.P); if (nt == 1) { x.P = std::max(1., hum * prop(FP::GUNNS_H2O)->getSaturationPressure(x.T)); continue; } double dry = 0., rest = 0.; for (int i = 0; i < nt; ++i) if (i != w) { rest += x.mf[i]; } for (int i = 0; i < nt; ++i) if (i != w) { x.mf[i] = rest > 0. ? x.mf[i] / rest : 1. / (nt - 1); dry += x.mf[i] / prop(s.types[i])->getMWeight(); }
        const double wm = pw / (1. - pw) * dry * MWw; for (int i = 0; i < nt; ++i) x.mf[i] = i == w ? wm / (1. + wm) : x.mf[i] / (1. + wm); }
    FluidNet f(s, false); const int n = c.i(1, 5); const double mRef = 1e-3 * std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()), UA = mRef * 1500. * c.lr(3e-2, 10.), c0 = c.b(0.2) ? 0. : UA, c1 = c.b(0.5) ? 0. : UA * c.lr(0.1, 10.), ex = c.r(0.05, 2.), lm = c.b(0.7) ? 1e9 : UA * c.lr(0.5, 3.); double T0 = c.r(274., 340.);
    GunnsFluidCondensingHx X; X.initialize(GunnsFluidCondensingHxConfigData("x", &f.nl, c.lr(1e-7, 1e-4), n, c0, c1, ex, lm), GunnsFluidCondensingHxInputData(false, 0., T0), f.links, 0, 1); GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec); c.log() << "UA " << c0 << " + " << c1 << " segments " << n << " wall " << T0 << "\n"; std::vector<double> tw(n, T0); bool malf = false, mf = false; double mv = 0.; int wet = 0, drySteps = 0; bool gap = false;
    for (int k = 0, N = c.i(4, 25); k < N; ++k) {
        switch (c.weighted({6, 4, 2, 2})) { case 1: { double d = drive(c, f, dt); src.setFlowDemand(c.b(0.8) ? std::fabs(d) : d); break; } case 2: { const int i = c.raw(n); tw[i] = c.r(274., 340.); VptFriend::wallT(X, i, tw[i]); break; } case 3: malf = c.b(); mv = c.b(0.2) ? 0. : c.r(-0.2, 1.5); X.setMalfHxDegrade(malf, mv); mf = true; break; default: break; }
        const std::vector<State> old = snapAll(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(X), q = VptFriend::cond(X); if (!calm(f, dt, std::max(std::fabs(fl), std::fabs(VptFriend::flow(src))))) break; if (!sane(s, f.nodes[0].getContent()->getTemperature()) || !sane(s, f.nodes[1].getContent()->getTemperature())) break; if (fl != 0. && std::fabs(fl) < 1e-12) continue; const std::vector<State> now = snapAll(f); PolyFluid in(*f.nodes[fl >= 0. ? 0 : 1].getOutflow(), "in"); const double Tin = in.getTemperature(); in.setPressure(in.getPressure()); in.setTemperature(Tin); PolyFluid& out = *VptFriend::flu(X); const double Tout = out.getTemperature(); double wlo = 1e9, whi = 0.; for (int i = 0; i < n; ++i) { wlo = std::min(wlo, tw[i]); whi = std::max(whi, tw[i]); }
        const double pp = in.getPartialPressure(FP::GUNNS_H2O), xw = in.getMassFraction(w), tDew = pp > 1e-3 ? prop(FP::GUNNS_H2O)->getSaturationTemperature(pp) : 0.; const std::string at = S() << "step " << k << " flow " << fl << " inlet " << Tin << " dew point " << tDew << " outlet " << Tout << " walls " << wlo << " to " << whi << " condensing " << q << " sensible " << VptFriend::sens(X) << " latent " << VptFriend::lat(X) << (malf ? " degraded " : "") << (malf ? mv : 0.);
        double hs = 0.; for (int i = 0; i < n; ++i) hs += VptFriend::heat(X, i); c.checkNear(VptFriend::tot(X), VptFriend::sens(X) + VptFriend::lat(X), 1e-12, 1e-12, "total", at); c.checkNear(VptFriend::tot(X), hs, 1e-9, 1e-9, "segments", at);
        const double u = lim(0., c0 + (std::fabs(fl) > (double)FLT_EPSILON ? c1 * std::pow(std::min(10., std::fabs(fl)), ex) : 0.), lm) / n * (malf ? std::max(0., mv) : 1.); if (std::fabs(fl) > 1.3e-7) c.checkNear(VptFriend::chtc(X), u, 1e-9, 1e-15, "htc", at);
        c.checkNear(VptFriend::src(X, 1), -q / MWw, 1e-9, 1e-10, "source", at); c.check(q >= 0. && q <= xw * std::fabs(fl) * (1. + 1e-9), "condensation-range", at); if (fl <= 0.) { c.check(VptFriend::tot(X) == 0. && q == 0., "no-forward-flow", at); if (fl < 0.) c.checkNear(Tout, Tin, 1e-9, 0., "reverse-outlet", at); continue; }
        for (int i = 0; i < nt; ++i) c.checkNear(now[0].mass * now[0].mf[i] + now[1].mass * now[1].mf[i] - old[0].mass * old[0].mf[i] - old[1].mass * old[1].mf[i], i == w ? -q * dt : 0., 1e-8, 1e-11 * (now[0].mass + now[1].mass), "conserve", S() << at << " constituent " << i);
        between(c, Tout, std::max(Tin, tDew), std::min(Tin, wlo), whi, at, q > 0. ? 1. : 0.01); if (wlo >= tDew + 0.5 + 60. * std::fabs(old[0].P / in.getPressure() - 1.)) c.check(q < 1e-12 * fl, "no-condensation", at); if (u == 0.) { c.check(q == 0. && hs == 0., "no-exchange", at); c.checkNear(Tout, Tin, 1e-9, 0., "no-exchange-outlet", at); }
        const double lv = prop(FP::GUNNS_H2O)->getHeatOfVaporization(std::min(Tin, tDew > 0. ? tDew : Tin)) * 1000.; if (q > 0.) { c.checkNear(VptFriend::lat(X) / q, lv, 0.2, 0., "latent", at); if (whi <= tDew) c.check(Tout <= tDew + 1e-2, "condensed-above-dew", at); const double po = out.getPartialPressure(FP::GUNNS_H2O); c.check(po <= prop(FP::GUNNS_H2O)->getSaturationPressure(Tout) * 1.2, "supersaturated", S() << at << " partial pressure " << po); ++wet; } else ++drySteps;
        // A single condensing segment: below the dew point the stream's effective heat capacity includes the latent heat of what must condense to stay saturated.
        if (q > 0. && n == 1 && tw[0] < tDew - 0.5 && tDew < Tin) { const FluidProperties* W = prop(FP::GUNNS_H2O); const double cpd = in.computeSpecificEnthalpy(tDew, in.getPressure()) / Tin; double tc = tw[0], L = 0., cl = 0.; for (int j = 0; j < 30; ++j) { const double ta = 0.5 * (tDew + tc); L = W->getHeatOfVaporization(ta) * 1000.; cl = xw * (W->getSaturationPressure(ta + 5e-4) - W->getSaturationPressure(ta - 5e-4)) / 1e-3 / pp * L; tc = tw[0] + std::exp(-std::min(100., u / (fl * (cl + cpd)))) * (tDew - tw[0]); } const double want = fl * (cl + cpd) * (tDew - tc) / (1. + cpd / cl) / L; if (tDew - tw[0] > 3. && std::fabs(old[0].P / in.getPressure() - 1.) < 3e-3) c.checkNear(q, want, 0.1, 1e-12 * fl, "condensation-rate", at); }
        // Without condensation: each segment's stream relaxes to its wall with the mean of the specific heats at inlet and dew point.
        PolyFluid r(in, "r"); if (q == 0.) r.setPressure(out.getPressure()); r.setTemperature(Tin); bool wetModel = false; double want = 0., margin = 1e9; for (int i = 0; i < n && !wetModel; ++i) { const double T = r.getTemperature(), td = prop(FP::GUNNS_H2O)->getSaturationTemperature(r.getPartialPressure(FP::GUNNS_H2O)), cp = 0.5 * (r.getSpecificHeat() + r.computeSpecificEnthalpy(td, r.getPressure()) / T), To = tw[i] + (T - tw[i]) * std::exp(-std::min(u / (fl * cp), 100.)), hq = fl * cp * (T - To), hd = std::max(0., (T - td) * cp * fl); margin = std::min(margin, std::fabs(hq - hd) / (fl * cp)); wetModel = hq > hd && r.getPartialPressure(FP::GUNNS_H2O) > DBL_EPSILON; if (!wetModel) { if (q == 0.) c.checkNear(VptFriend::heat(X, i), hq, 1e-5, 1e-6 * fl * cp, "segment-heat", S() << at << " segment " << i); want += hq; r.setTemperature(To); } }
        if (margin > 0.05 + 60. * std::fabs(old[0].P / in.getPressure() - 1.)) c.check(wetModel == (q > 0.), "condenses", at); PolyFluid o(in, "o"); o.setTemperature(Tout); const double sense = fl * (in.getSpecificEnthalpy() - o.getSpecificEnthalpy());
        if (q == 0.) { if (tDew < Tin) c.checkNear(Tout, r.getTemperature(), 1e-9, 1e-3, "outlet", at); c.checkNear(VptFriend::sens(X), want, 1e-5, 1e-6 * fl * 1000., "sensible-model", at); if (!c.near(VptFriend::sens(X), sense, 0.02, 1e-3 * fl * 1000.)) gap = true; }
        double ha = 0.; for (int i = 0; i < n; ++i) ha += std::fabs(VptFriend::heat(X, i)); if (whi < Tin - 0.1 && (q == 0. || whi < tDew - 0.1)) c.check(VptFriend::tot(X) >= -0.2 * ha, "direction", at); if (wlo > Tin + 0.1) c.check(VptFriend::tot(X) <= 0.2 * ha || q > 0., "direction", at); }
    if (wet > 1 && (drySteps > 0 || mf)) c.nontrivial(); if (gap) c.known("condenser-sensible");
}
struct Pair { FP::FluidType l, g; double Tl, Th; };
static std::vector<Pair> pairs() { Pair p[] = {{FP::GUNNS_WATER, FP::GUNNS_H2O, 285., 360.}, {FP::GUNNS_AMMONIA, FP::GUNNS_NH3, 230., 300.}, {FP::GUNNS_OXYGEN, FP::GUNNS_O2_REAL_GAS, 70., 120.}, {FP::GUNNS_METHANE, FP::GUNNS_CH4_REAL_GAS, 100., 160.}}; std::vector<Pair> v; for (size_t i = 0; i < sizeof(p) / sizeof(p[0]); ++i) if (prop(p[i].l)->getMWeight() == prop(p[i].g)->getMWeight()) v.push_back(p[i]); return v; }
FACET(phase_change, 6000, 150000, "liquid boiled or gas condensed with heat from or to the wall, and the wall or efficiency changed") {
    std::vector<Pair> ps = pairs(); const Pair p = c.pick(ps); FP::FluidType ty[2] = {p.l, p.g}; PolyFluidConfigData cfg(&props(), ty, 2, 0); double mfl[2] = {1., 0.}, mfg[2] = {0., 1.}; GunnsFluidNode nodes[3]; GunnsNodeList nl; nl.mNumNodes = 3; nl.mNodes = nodes; std::vector<GunnsBasicLink*> links; Gunns net; const double Tl = c.r(p.Tl, p.Th), Tg = p.Tl < 200. ? c.r(std::max(p.Tl, 120.), 300.) : c.r(p.Tl, 500.), Ps = prop(p.g)->getSaturationPressure(c.r(p.Tl, p.Th)), Pg = Ps, Pl = c.b(0.7) ? Ps * c.r(1., 1.5) : Ps * c.r(0.7, 1.);
    PolyFluidInputData il(Tl, Pl, 0., 0., mfl), ig(Tg, Pg, 0., 0., mfg); nodes[0].initialize("l", &cfg, &il); nodes[1].initialize("g", &cfg, &ig); nodes[2].initialize("gnd", &cfg, &ig); net.initializeFluidNodes(nl); GunnsFluidCapacitor a, b; a.initialize(GunnsFluidCapacitorConfigData("a", &nl), GunnsFluidCapacitorInputData(false, 0., c.lr(0.1, 10.), &il), links, 0, 2); b.initialize(GunnsFluidCapacitorConfigData("b", &nl), GunnsFluidCapacitorInputData(false, 0., c.lr(1., 100.), &ig), links, 1, 2);
    GunnsFluidPhaseChangeConductor X; double eff = c.b(0.2) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.), Tw = c.r(p.Tl - 20., p.Th + 100.); X.initialize(GunnsFluidPhaseChangeConductorConfigData("x", &nl, c.lr(1e-9, 1e-6), p.l, p.g, eff), GunnsFluidPhaseChangeConductorInputData(false, 0., Tw), links, 0, 1); net.initialize(GunnsConfigData("net", 1e-9, 1e-8, 1, 1), links); const double dt = c.pickOf<double>({0.1, 0.05}); bool odd = false; int used = 0; const double lc = prop(p.l)->getSpecificEnthalpy(Tl) * 0.; (void)lc;
    for (int k = 0, N = c.i(3, 15); k < N; ++k) {
        switch (c.weighted({4, 2, 1, 1})) { case 1: Tw = c.r(p.Tl - 20., p.Th + 100.); VptFriend::wallT(X, Tw); odd = true; break; case 2: eff = c.b(0.3) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.); VptFriend::eff(X, eff); odd = true; break; case 3: X.setMalfBlockage(c.b(), c.r(0., 1.)); break; default: break; }
        const State l0 = snap(*nodes[0].getContent()), g0 = snap(*nodes[1].getContent()); try { net.step(dt); } catch (TsOutOfBoundsException&) { break; } const double fl = VptFriend::flow(X), m = std::fabs(fl); const State l1 = snap(*nodes[0].getContent()), g1 = snap(*nodes[1].getContent()); if (m * dt > 0.02 * std::min(l0.mass, g0.mass) || l1.P < 0.3 * Pl || g1.P < 0.3 * Pg || l1.T < p.Tl - 30. || l1.T > p.Th + 30. || g1.T < 75. || g1.T > 700.) break;
        const FluidProperties *L = prop(p.l), *V = prop(p.g); const double Tin = fl >= 0. ? nodes[0].getOutflow()->getTemperature() : nodes[1].getOutflow()->getTemperature(), Pe = fl >= 0. ? VptFriend::pv(X, 1) : VptFriend::pv(X, 0); double Te = Tin, q = 0.; if (eff != 0.) { Te = V->getSaturationTemperature(Pe); q = fl >= 0. ? L->getSpecificEnthalpy(Tin) - L->getSpecificEnthalpy(Te) - L->getHeatOfVaporization(Te) * 1000. : V->getSpecificEnthalpy(Tin) - V->getSpecificEnthalpy(Te) + V->getHeatOfVaporization(Te) * 1000.; q *= eff * m; if ((q < 0. && Tw < Te) || (q > 0. && Tw > Te)) q = 0.; }
        const std::string at = S() << "step " << k << " liquid " << (int)p.l << " flow " << fl << " inlet " << Tin << " exit pressure " << Pe << " saturation " << Te << " wall " << Tw << " efficiency " << eff; const double got = VptFriend::wall(X); if (m > 0. && m < 1e-12) continue; c.checkNear(got, q, 1e-9, 1e-12, "heat", at); c.check(got == 0. || (got > 0.) == (Tw <= Te), "direction", S() << at << " heat " << got);
        c.checkNear(l1.mass - l0.mass, -fl * dt, 1e-9, 1e-13 * l0.mass + 1e-13, "liquid-mass", at); c.checkNear(g1.mass - g0.mass, fl * dt, 1e-9, 1e-13 * g0.mass + 1e-13, "gas-mass", at); c.check(l1.mf[0] > 1. - 1e-12 && g1.mf[1] > 1. - 1e-12, "phase", at);
        if (m > 0.) { PolyFluid& o = fl > 0. ? VptFriend::gas(X) : VptFriend::liq(X); c.checkNear(o.getTemperature(), Te, 1e-12, 0., "exit-temperature", at); const State &d0 = fl > 0. ? g0 : l0, &d1 = fl > 0. ? g1 : l1, &s0 = fl > 0. ? l0 : g0, &s1 = fl > 0. ? l1 : g1; c.checkNear(d1.mass * d1.h - d0.mass * d0.h, m * dt * o.getSpecificEnthalpy(), 1e-6, 1e-11 * d0.mass * std::fabs(d0.h) + 1e-8, "delivered-heat", at); c.checkNear(s1.T, s0.T, 1e-9, 1e-6, "source-temperature", at); if (got != 0.) ++used; } }
    if (used > 1 && odd) c.nontrivial();
}
