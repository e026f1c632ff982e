// C18: processing links move, store and convert matter by their stated laws and conserve it.
#include "aspects/fluid/source/GunnsFluidAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidHotAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidMultiAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidSeparatorGas.hh"
#include "aspects/fluid/source/GunnsFluidMultiSeparator.hh"
#include "aspects/fluid/source/GunnsFluidHotReactor.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic3.hh"
#include "aspects/fluid/source/GunnsFluidSourceBoundary.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    static double src(const GunnsBasicLink& l, int i) { return l.mSourceVector[i]; } static double pv(const GunnsBasicLink& l, int i) { return l.mPotentialVector[i]; } \
    static void desorb(GunnsFluidAdsorber& a, bool b) { a.mDesorbtionCycle = b; } static double tcAds(const GunnsFluidAdsorber& a, int i) { return a.mTcAdsorbedMass[i]; } static double held(const GunnsFluidAdsorber& a) { return a.mAdsorbedMass; } \
    static double sheat(const GunnsFluidMultiAdsorber& a) { return a.mSorptionHeat; } static double wallq(const GunnsFluidMultiAdsorber& a) { return a.mWallHeatFlux; } \
    typedef GunnsFluidSeparatorGas Sg; static void speed(Sg& s, double v, double t) { s.mSeparatorSpeed = v; s.mTransferFlowRate = t; } static double liq(const Sg& s) { return s.mLiquidMass; } static double err(const Sg& s) { return s.mLiquidMassError; } static double rh(const Sg& s) { return s.mRelativeHumidity; } static double sep(const Sg& s) { return s.mSeparationRate; } static bool over(const Sg& s) { return s.mLiquidOverflow; } static double ldp(const Sg& s) { return s.mLiquidDeltaP; } static double tp(const Sg& s) { return s.mTransferPressure; } \
    static PolyFluid* flu(GunnsFluidLink& l) { return l.mInternalFluid; } static double rheat(const GunnsFluidReactor& r) { return r.mProducedHeat; } static double rtemp(const GunnsFluidReactor& r) { return r.mFluidTemperature; } static CompoundState& rcs(GunnsFluidReactor& r, int i) { return r.mCompounds[i]; } \
    typedef GunnsFluidMultiSeparator Ms; static double thru(const Ms& s, int i) { return s.mSepBufferThru[i]; } static double exitB(const Ms& s, int i) { return s.mSepBufferExit[i]; }
#include "fluidnet.hh"
using namespace fn;
static double lim(double a, double x, double b) { return std::min(b, std::max(a, x)); }
struct NetOpt { bool tcs, steam; int n; NetOpt() : tcs(true), steam(false), n(2) {} };
// n gas nodes, with flow driven between the first two.
static FSpec gasSpec(Case& c, const NetOpt& o) {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; g.liquids = false; g.tcs = o.tcs; FSpec s = genFluid(c, g); s.links.clear();
    if (o.steam && std::find(s.types.begin(), s.types.end(), FP::GUNNS_H2O) == s.types.end()) s.types[0] = FP::GUNNS_H2O;
    for (int k = 0; k < o.n; ++k) { if (k > 0) s.nodes.push_back(s.nodes[0]); FNode& x = s.nodes[k]; x.T = c.r(o.steam ? 280. : 250., o.steam ? 320. : 450.); x.P = c.lr(20., 500.); x.vol = c.lr(1., 100.); x.mf = genFractions(c, (int)s.types.size()); for (size_t q = 0; q < x.tc.size(); ++q) x.tc[q] = c.b(0.2) ? 0. : c.lr(1e-8, 1e-4); }
    return s;
}
struct Inv { std::vector<double> m, tc; double n0, n1; };
static Inv inventory(FluidNet& f) { Inv v; v.m.assign(f.spec.types.size(), 0.); v.tc.assign(f.spec.tcs.size(), 0.); for (int k = 0; k < f.n(); ++k) { State s = snap(*f.nodes[k].getContent()); for (size_t i = 0; i < v.m.size(); ++i) v.m[i] += s.mass * s.mf[i]; for (size_t i = 0; i < v.tc.size(); ++i) v.tc[i] += s.tcMass[i]; } return v; }
static double total(const Inv& v) { double s = 0.; for (size_t i = 0; i < v.m.size(); ++i) s += v.m[i]; return s; }
// A flow demand that moves at most a small part of what a node holds.
static double drive(Case& c, FluidNet& f, double dt) { const double m = std::min(snap(*f.nodes[0].getContent()).mass, snap(*f.nodes[1].getContent()).mass); return c.b(0.15) ? 0. : c.sr(1e-6, 1e-2) * m / dt; }
static bool calm(FluidNet& f, double dt, double flow) { for (int k = 0; k < f.n(); ++k) if (f.nodes[k].getContent()->getMass() < 20. * std::fabs(flow) * dt || f.nodes[k].getContent()->getPressure() < 0.5) return false; return true; }

// The orchestrator refuses steps in which nodes would pass on more than they hold.
static bool stepped(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
// ---- Adsorbers.
FACET(adsorber, 6000, 150000, "gas was adsorbed, the flow reversed or stopped, and a limit was reached or gas desorbed") {
    NetOpt o; FSpec s = gasSpec(c, o); const bool hot = c.b(0.4); FluidNet f(s, false); const int nt = (int)s.types.size(), nc = (int)s.tcs.size(), g = c.raw(nt); const double m0 = std::min(f.nodes[0].getContent()->getMass(), 1e9); (void)m0;
    const double scale = c.lr(1e-5, 1e-1), eff = c.b(0.2) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.), rmax = c.b(0.3) ? 1e3 : scale * c.lr(1e-2, 1.), mmax = c.b(0.3) ? 1e3 : scale * c.lr(0.1, 50.), des = scale * c.lr(1e-2, 1.), held0 = std::min(mmax, c.b() ? 0. : mmax * c.r(0., 1.)), bias = c.r(-1.5, 1.5), slope = c.sr(1e-4, 5e-3); bool cyc = !hot && c.b(0.3), malf = false; double mv = 0.;
    std::vector<double> te, tm, ta; for (int i = 0; i < nc; ++i) { te.push_back(c.b(0.3) ? 0. : c.r(0., 1.)); tm.push_back(c.b(0.3) ? 0. : c.lr(1e-9, 1e-3)); ta.push_back(c.b() ? 0. : c.r(0., 1.) * tm[i]); }
    GunnsFluidTraceCompoundsInputData e(nc ? &te[0] : 0), x(nc ? &tm[0] : 0), a(nc ? &ta[0] : 0); std::unique_ptr<GunnsFluidAdsorber> A; const double G = c.lr(1e-6, 1e-3);
    if (hot) { GunnsFluidHotAdsorber* h = new GunnsFluidHotAdsorber; A.reset(h); h->initialize(GunnsFluidHotAdsorberConfigData("a", &f.nl, G, 0., s.types[g], eff, rmax, mmax, des, 0.1, 0.01, 1e-6, bias, slope), GunnsFluidHotAdsorberInputData(false, 0., false, held0, 300., nc ? &e : 0, nc ? &x : 0, nc ? &a : 0), f.links, 0, 1); }
    else { A.reset(new GunnsFluidAdsorber); A->initialize(GunnsFluidAdsorberConfigData("a", &f.nl, G, 0., s.types[g], eff, rmax, mmax, des, 0.1, 0.01, 1e-6), GunnsFluidAdsorberInputData(false, 0., cyc, held0, 300., nc ? &e : 0, nc ? &x : 0, nc ? &a : 0), f.links, 0, 1); }
    GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec);
    bool took = false, odd = false, rev = false; for (int k = 0, n = c.i(4, 30); k < n; ++k) {
        switch (c.weighted({10, 3, 1, 1})) { case 1: src.setFlowDemand(drive(c, f, dt)); break; case 2: if (!hot) VptFriend::desorb(*A, cyc = c.b()); break; case 3: malf = c.b(); mv = c.r(-1., 1.); A->setMalfEfficiency(malf, mv); break; default: break; }
        const std::vector<State> old = snapAll(f); const Inv i0 = inventory(f); const double h0 = VptFriend::held(*A); std::vector<double> t0; for (int i = 0; i < nc; ++i) t0.push_back(VptFriend::tcAds(*A, i)); 
        if (!stepped(f, dt)) break; const double fl = VptFriend::flow(*A), fx = VptFriend::flux(*A), h1 = VptFriend::held(*A); if (!calm(f, dt, std::max(std::fabs(fl), des))) break; const Inv i1 = inventory(f); const int up = fl >= 0. ? 0 : 1, dn = 1 - up; const State& u = old[up];
        if (fl != 0. && h1 - h0 > 0.9999 * std::fabs(fl) * dt) break; const std::string at = S() << "step " << k << (hot ? " hot" : "") << (cyc ? " desorbing" : "") << (malf ? " malf" : "") << " flow " << fl << " held " << h0 << " to " << h1 << " of " << mmax << " inlet fraction " << u.mf[g];
        double ef = eff; if (!hot && cyc) ef = -1.; if (hot) ef = lim(-1., bias + slope * (fl == 0. ? 0. : VptFriend::flu(*A)->getTemperature()), 1.); if (malf) ef = mv; const bool out = hot ? ef < 0. : cyc; if (hot && fl == 0.) { if (h1 != h0) c.label("hot sorption without flow"); }
        if (!(hot && fl == 0.) && (std::fabs(ef) > 1e-9 || !hot)) { const double want = out ? -std::max(0., std::min(h0, -ef * des * dt)) : std::max(0., std::min(u.mf[g] * std::fabs(fl) * dt * ef, std::min(rmax * dt, mmax - h0))); c.checkNear(h1 - h0, want, 1e-9, 1e-13 * mmax + 1e-15, "rate", at); }
        if (std::fabs(fl) > 1e-12) c.checkNear(VptFriend::flu(*A)->getTemperature(), 0.5 * (u.T + 300.), 0., 0.5 * std::fabs(u.T - 300.) + 0.01, "inlet-temperature", at); c.check(h1 >= 0. && h1 <= mmax * (1. + 1e-12), "held-range", at); const double tm1 = total(i1);
        for (int i = 0; i < nt; ++i) c.checkNear(i1.m[i] - i0.m[i], i == g ? h0 - h1 : 0., 1e-9, 1e-11 * tm1 + 2e-12 * dt, "conserve", S() << at << " constituent " << i);
        for (int i = 0; i < nc; ++i) { const double t1 = VptFriend::tcAds(*A, i), got = t1 - t0[i]; const double taper = tm[i] > DBL_EPSILON ? std::max(0., (tm[i] - t0[i]) / tm[i]) : 1., in = std::fabs(fx) * u.tcMole[i] * f.tcCfg.mCompounds[i]->mMWeight * dt; const std::string ti = S() << at << " trace compound " << i << " held " << t0[i] << " to " << t1 << " inflow " << in;
            c.checkNear(got, out ? 0. : in * te[i] * taper, 1e-8, 1e-20 + 1e-15 * t0[i], "tc-rate", ti); if (std::fabs(fl) * dt - (h1 - h0) > 1e-6 * std::fabs(fl) * dt || h1 <= h0) c.checkNear(i1.tc[i] - i0.tc[i], -got, 2e-8, 2e-8 * (i1.tc[i] + i0.tc[i]) + 5e-14 * total(i1), "tc-conserve", ti); c.check(t1 >= -1e-18, "tc-negative", ti); }
        const double sr = (h0 - h1) / dt / prop(s.types[g])->getMWeight(); c.checkNear(VptFriend::src(*A, dn), sr, 1e-9, 1e-13 + 1e-15 * h0 / dt, "source", at); c.checkNear(VptFriend::src(*A, up), 0., 0., 1e-13, "source-inlet", at);
        if (h1 > h0) took = true; if (h1 < h0 || h1 >= mmax * 0.999) odd = true; if (fl < 0.) rev = true; }
    if (took && (odd || rev)) c.nontrivial();
}
FACET(multi_adsorber, 6000, 150000, "two compounds were sorbed, one of them a trace compound, dependent, tapering or desorbing") {
    NetOpt o; FSpec s = gasSpec(c, o); FluidNet f(s, false); const int nt = (int)s.types.size(), nc = (int)s.tcs.size();
    struct Cmp { ChemicalCompound::Type t; bool tc; int idx; double max, e0, e1, dpp, drf, heat; bool taper; int dep; bool malf; double mv, held, ex, mw; }; std::vector<Cmp> av;
    for (int t = 0; t < ChemicalCompound::NO_COMPOUND; ++t) { const ChemicalCompound* d = chem().getCompound((ChemicalCompound::Type)t); if (!d) continue; int fi = -1, ti = -1; for (int i = 0; i < nt; ++i) if (s.types[i] == d->mFluidType) fi = i; for (int i = 0; i < nc; ++i) if (s.tcs[i] == t) ti = i; if ((fi < 0) == (ti < 0)) continue; Cmp x; x.t = (ChemicalCompound::Type)t; x.tc = ti >= 0; x.idx = x.tc ? ti : fi; x.mw = d->mMWeight; bool dup = false; for (size_t j = 0; j < av.size(); ++j) dup = dup || (!x.tc && !av[j].tc && av[j].idx == x.idx); if (!dup) av.push_back(x); }
    if (av.empty()) c.discard(); c.shuffle(av); av.resize(c.i(1, (int)av.size())); GunnsFluidMultiAdsorberConfigData cfg("a", &f.nl, c.lr(1e-6, 1e-3), 0., 0.1, 0.01, 1e-6); const int na = (int)av.size();
    for (int i = 0; i < na; ++i) { Cmp& x = av[i]; const double sc = x.tc ? 1e-5 : 1.; x.max = sc * c.lr(1e-3, 1.); x.e0 = c.r(-0.5, 1.2); x.e1 = c.b() ? 0. : c.sr(1e-4, 2e-3); x.dpp = c.b() ? 0. : c.lr(1e-3, 10.) * sc; x.drf = c.b() ? 0. : c.lr(1e-4, 1e-2); x.heat = c.b() ? 0. : c.sr(1., 100.); x.taper = c.b(); x.dep = c.b(0.75) || na < 2 ? -1 : c.raw(na); if (x.dep == i) x.dep = -1; x.malf = c.b(0.1); x.mv = c.r(0., 1.); x.held = c.b() ? 0. : std::min(x.max, c.r(0., 1.) * x.max); x.ex = c.b() ? 1. : c.r(1., 10.); }
    for (int i = 0; i < na; ++i) { Cmp& x = av[i]; cfg.addCompound(x.t, x.max, x.e0, x.e1, x.dpp, x.drf, x.heat, x.taper, x.dep < 0 ? ChemicalCompound::NO_COMPOUND : av[x.dep].t, x.malf, x.mv, x.held, x.ex); }
    GunnsFluidMultiAdsorber A; A.initialize(cfg, GunnsFluidMultiAdsorberInputData(false, 0., 300.), f.links, 0, 1); GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec);
    int sorbed = 0; bool odd = false; for (int k = 0, n = c.i(4, 25); k < n; ++k) {
        if (c.b(0.25)) src.setFlowDemand(drive(c, f, dt)); if (c.b(0.05)) { const int i = c.raw(na); av[i].malf = c.b(); av[i].mv = c.r(0., 1.); A.mCompounds[i].setMalfEfficiency(av[i].malf, av[i].mv); }
        const std::vector<State> old = snapAll(f); const Inv i0 = inventory(f); std::vector<double> h0; for (int i = 0; i < na; ++i) h0.push_back(A.mCompounds[i].mAdsorbedMass);
        if (!stepped(f, dt)) break; const double fl = VptFriend::flow(A), fx = VptFriend::flux(A); double worst = std::fabs(fl); for (int i = 0; i < na; ++i) worst = std::max(worst, std::fabs(A.mCompounds[i].mAdsorptionRate)); double took = 0.; for (int i = 0; i < na; ++i) if (!av[i].tc) took += A.mCompounds[i].mAdsorptionRate; if (!calm(f, dt, worst) || (took > 0. && took > 0.9999 * std::fabs(fl))) break; if (fl == 0.) continue; const Inv i1 = inventory(f); const int up = fl >= 0. ? 0 : 1, dn = 1 - up; const State& u = old[up]; const double pa = 0.5 * (VptFriend::pv(A, 0) + VptFriend::pv(A, 1)), ta = 0.5 * (u.T + VptFriend::flu(A)->getTemperature()); if (std::fabs(fl) > 1e-12) c.checkNear(ta, 0.5 * (u.T + 300.), 0., 0.5 * std::fabs(u.T - 300.) + 0.01, "inlet-temperature", S() << "step " << k); double heat = 0., flux = 0.; std::vector<double> hm(na), fill(na); for (int i = 0; i < na; ++i) fill[i] = h0[i] / av[i].max;
        for (int i = 0; i < na; ++i) { Cmp& x = av[i]; const double h1 = A.mCompounds[i].mAdsorbedMass, rate = A.mCompounds[i].mAdsorptionRate, ef = lim(-1., x.e0 + x.e1 * ta, 1.), frac = x.tc ? u.tcMole[x.idx] : u.mf[x.idx] / u.mf.size() * 0. + u.mf[x.idx] * u.MW / prop(s.types[x.idx])->getMWeight(), pp = pa * frac, in = x.tc ? std::fabs(fx) * u.tcMole[x.idx] * x.mw : u.mf[x.idx] * std::fabs(fl);
            double want; bool edge = std::fabs(ef) < 1e-9 || std::fabs(pp - x.dpp) < 1e-9 * x.dpp; if (pp < x.dpp || ef < 0.) want = std::min(0., pp - x.dpp) * x.drf * std::fabs(ef); else want = ef * in; if (x.taper) want *= want > 0. ? 1. - std::pow(std::max(0.1, fill[i]), x.ex) : fill[i]; if (x.dep >= 0) { const double df = A.mCompounds[x.dep].mAdsorbedMass / av[x.dep].max, d0 = fill[x.dep]; const double use = x.dep < i ? df : d0; want *= want > 0. ? use : 1. - use; } if (x.malf) want *= x.mv; want = want > 0. ? std::min(want, (x.max - h0[i]) / dt) : std::max(want, -h0[i] / dt);
            const std::string at = S() << "step " << k << " compound " << (int)x.t << (x.tc ? " (trace)" : "") << " flow " << fl << " pp " << pp << " switch " << x.dpp << " efficiency " << ef << " held " << h0[i] << " to " << h1 << " of " << x.max << " rate " << rate;
            if (!edge) c.checkNear(rate, want, 1e-6, 1e-14, "rate", at); c.checkNear(h1 - h0[i], rate * dt, 1e-9, 1e-15, "held", at); c.check(h1 >= 0. && h1 <= x.max, "held-range", at); heat += -x.heat * rate * 1e6 / x.mw; if (!x.tc) flux += rate / prop(s.types[x.idx])->getMWeight(); if (rate != 0.) { ++sorbed; odd = odd || x.tc || x.dep >= 0 || x.taper || rate < 0.; } }
        c.checkNear(VptFriend::sheat(A), heat, 1e-9, 1e-9, "heat", S() << "step " << k); if (std::fabs(fl) > 1e-12) { PolyFluid* x = VptFriend::flu(A); const double conv = std::fabs(fl) * (u.h - x->getSpecificEnthalpy()); c.checkNear(VptFriend::wallq(A), heat + conv, 1e-6, 1e-3 * std::fabs(fl) * x->getSpecificHeat() + 1e-9, "wall-heat", S() << "step " << k << " flow " << fl << " T in " << u.T << " out " << x->getTemperature() << " cp " << x->getSpecificHeat() << " h in " << u.h << " out " << x->getSpecificEnthalpy() << " outflow T " << f.nodes[up].getOutflow()->getTemperature() << " sorption heat " << heat << " convection " << conv); }
        for (int j = 0; j < nt; ++j) { double d = 0.; for (int i = 0; i < na; ++i) if (!av[i].tc && av[i].idx == j) d += A.mCompounds[i].mAdsorbedMass - h0[i]; c.checkNear(i1.m[j] - i0.m[j], -d, 1e-9, 1e-11 * total(i1) + 2e-12 * dt, "conserve", S() << "step " << k << " flow " << fl << " constituent " << j); }
        for (int j = 0; j < nc; ++j) { double d = 0.; for (int i = 0; i < na; ++i) if (av[i].tc && av[i].idx == j) d += A.mCompounds[i].mAdsorbedMass - h0[i]; c.checkNear(i1.tc[j] - i0.tc[j], -d, 1e-9, 2e-8 * (i1.tc[j] + i0.tc[j]) + 5e-14 * total(i1), "tc-conserve", S() << "step " << k << " flow " << fl << " trace compound " << j); }
        c.checkNear(VptFriend::src(A, dn), -flux, 1e-9, 1e-13, "source", S() << "step " << k << " flow " << fl); }
    if (sorbed > 1 && odd) c.nontrivial();
}

// ---- Separators.
FACET(separator_gas, 6000, 150000, "condensate was separated at a limit, and liquid was drawn off") {
    NetOpt o; o.steam = true; FSpec s = gasSpec(c, o); const int nt = (int)s.types.size(); int w = 0; for (int i = 0; i < nt; ++i) if (s.types[i] == FP::GUNNS_H2O) w = i; for (int k = 0; k < 2; ++k) if (c.b(0.7)) { for (int i = 0; i < nt; ++i) s.nodes[k].mf[i] = i == w ? 0.7 : 0.3 / std::max(1, nt - 1); if (nt == 1) s.nodes[k].mf[0] = 1.; }
    const int g = c.b(0.8) ? w : c.raw(nt); FluidNet f(s, false); const double ex = c.r(0.1, 10.), mmax = c.lr(1e-3, 10.), rs = c.lr(10., 1e4), rp = c.lr(1., 500.), rr = c.lr(1e-6, 1e-1); double sp = c.r(0., 2.) * rs, tf = 0.;
    GunnsFluidSeparatorGas A; A.initialize(GunnsFluidSeparatorGasConfigData("a", &f.nl, c.lr(1e-6, 1e-3), s.types[g], ex, mmax, rs, rp, rr), GunnsFluidSeparatorGasInputData(false, 0., sp, 0., std::min(mmax, c.b() ? 0. : c.r(0., 1.) * mmax)), f.links, 0, 1); GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); bool atLimit = false, drawn = false;
    for (int k = 0, n = c.i(4, 30); k < n; ++k) {
        if (c.b(0.25)) src.setFlowDemand(drive(c, f, dt)); if (c.b(0.2)) { sp = c.b(0.2) ? 0. : c.r(0., 2.) * rs; tf = c.b(0.4) ? 0. : c.sr(1e-3, 2.) * rr; VptFriend::speed(A, sp, tf); }
        const std::vector<State> old = snapAll(f); const Inv i0 = inventory(f); const double l0 = VptFriend::liq(A), e0 = VptFriend::err(A); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(A), l1 = VptFriend::liq(A), e1 = VptFriend::err(A), q = VptFriend::sep(A); if (!calm(f, dt, fl) || (q > 0. && q > 0.9999 * fl)) break; const Inv i1 = inventory(f); const State& u = old[0]; const double take = std::max(0., tf * dt);
        const double pp = VptFriend::pv(A, 0) * 0. + u.P * u.mf[w] * u.MW / prop(FP::GUNNS_H2O)->getMWeight(), sat = prop(FP::GUNNS_H2O)->getSaturationPressure(u.T), hum = pp / sat; const std::string at = S() << "step " << k << " flow " << fl << " humidity " << VptFriend::rh(A) << " speed " << sp << " transfer " << tf << " liquid " << l0 << " to " << l1 << " of " << mmax << " separated " << q;
        if (fl > 1e-9) { c.checkNear(VptFriend::rh(A), hum, 5e-2, 1e-9, "humidity", at); }
        const double left = std::max(0., l0 - take), cond = std::min(u.mf[g] * std::fabs(fl), rr / rs * sp) * dt, want = fl < 1e-13 || VptFriend::rh(A) < 1. ? 0. : std::min(cond, mmax - left); if (fl > 1e-12 || fl < 0.) { c.checkNear(q * dt, want, 1e-9, 1e-15, "rate", at); c.checkNear(l1, left + q * dt, 1e-12, 1e-15, "liquid", at); c.checkNear(e1 - e0, std::max(0., take - l0), 1e-9, 1e-15, "error", at); c.check(VptFriend::over(A) == (want > 0. && cond > want) || std::fabs(cond - want) < 1e-15 || std::fabs(want) < 1e-15 || (want == 0. && cond > 0. && mmax == left), "overflow", at); }
        c.check(l1 >= 0. && l1 <= mmax * (1. + 1e-12), "range", at); c.checkNear(VptFriend::ldp(A), rp / rs / std::pow(mmax, ex) * sp * std::pow(l1, ex), 1e-9, 1e-12, "pressure", at); c.checkNear(VptFriend::tp(A), f.nodes[0].getPotential() + VptFriend::ldp(A), 1e-12, 0., "transfer-pressure", at);
        for (int i = 0; i < nt; ++i) c.checkNear(i1.m[i] - i0.m[i], i == g ? -q * dt : 0., 1e-9, 1e-11 * total(i1) + 2e-12 * dt, "conserve", S() << at << " constituent " << i); for (size_t i = 0; i < i1.tc.size(); ++i) c.checkNear(i1.tc[i], i0.tc[i], 2e-8, 5e-14 * total(i1), "tc-conserve", at);
        c.checkNear(VptFriend::src(A, 1), -q / prop(s.types[g])->getMWeight(), 1e-9, 1e-13, "source", at); if (q > 0. && q * dt < u.mf[g] * fl * dt * 0.999) atLimit = true; if (take > 0. && l0 > 0.) drawn = true; }
    if (atLimit && drawn) c.nontrivial();
}
FACET(multi_separator, 6000, 150000, "two things were separated and the flow changed") {
    NetOpt o; o.n = c.i(3, 5); FSpec s = gasSpec(c, o); const int nt = (int)s.types.size(), nc = (int)s.tcs.size(); FluidNet f(s, false); std::vector<int> order(nt), ord2(nc); for (int i = 0; i < nt; ++i) order[i] = i; for (int i = 0; i < nc; ++i) ord2[i] = i; c.shuffle(order); c.shuffle(ord2); const int ns = c.i(0, nt), ntc = nc ? c.i(0, nc) : 0; if (ns + ntc < 1) c.discard();
    std::vector<FP::FluidType> ft; std::vector<int> fp, tp; std::vector<ChemicalCompound::Type> tt; std::vector<double> ff, tf; for (int i = 0; i < ns; ++i) { ft.push_back(s.types[order[i]]); fp.push_back(c.i(2, o.n - 1)); ff.push_back(c.b(0.2) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.)); } for (int i = 0; i < ntc; ++i) { tt.push_back(s.tcs[ord2[i]]); tp.push_back(c.i(2, o.n - 1)); tf.push_back(c.b(0.2) ? c.pickOf<double>({0., 1.}) : c.r(0., 1.)); }
    std::vector<int> ports; for (int k = 0; k < o.n; ++k) ports.push_back(k); GunnsFluidMultiSeparatorConfigData cd("a", &f.nl, c.lr(1e-6, 1e-3), &ft, &fp, &tt, &tp); GunnsFluidMultiSeparatorInputData id(false, 0., &ff, &tf); GunnsFluidMultiSeparator A; A.initialize(cd, id, f.links, &ports);
    GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); logFluid(c.log(), f.spec); for (int i = 0; i < ns; ++i) c.log() << "separate " << order[i] << " to port " << fp[i] << " fraction " << ff[i] << "\n"; std::vector<double> b0(ns, 0.); int moved = 0; bool swung = false;
    for (int k = 0, n = c.i(4, 25); k < n; ++k) {
        if (c.b(0.25)) { src.setFlowDemand(drive(c, f, dt)); swung = true; } if (ns && c.b(0.1)) { const int i = c.raw(ns); ff[i] = c.r(0., 1.); A.setSeparationFraction(ft[i], ff[i]); } if (ntc && c.b(0.1)) { const int i = c.raw(ntc); tf[i] = c.r(0., 1.); A.setTcFraction(tt[i], tf[i]); }
        const std::vector<State> old = snapAll(f); const Inv i0 = inventory(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(A), fx = VptFriend::flux(A), sfl = VptFriend::flow(src); double part = 0.; for (int i = 0; i < ns; ++i) part += VptFriend::thru(A, i); if (!calm(f, dt, 5. * std::fabs(fl)) || part > 0.9999 * std::fabs(fx)) break; const Inv i1 = inventory(f); const int up = fx >= 0. ? 0 : 1; const State& u = old[up]; std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << " flow " << fl;
        for (int i = 0; i < ns; ++i) { const double mole = u.mf[order[i]] * u.MW / prop(ft[i])->getMWeight(); if (fx != 0.) c.checkNear(VptFriend::thru(A, i), ff[i] * std::fabs(fx) * mole, 1e-9, 1e-18, "separation", S() << at << " fluid " << i); c.checkNear(VptFriend::exitB(A, i), b0[i], 1e-12, 0., "exit", at); if (ff[i] * mole * std::fabs(fx) > 0.) ++moved; }
        for (int j = 0; j < nt; ++j) { double d = 0.; for (int i = 0; i < ns; ++i) if (order[i] == j) d = (VptFriend::thru(A, i) - b0[i]) * dt * prop(ft[i])->getMWeight(); c.checkNear(i1.m[j] - i0.m[j], -d, 1e-9, 1e-11 * total(i1) + 2e-12 * dt, "conserve", S() << at << " constituent " << j); }
        for (int j = 0; j < nc; ++j) c.checkNear(i1.tc[j], i0.tc[j], 2e-8, 5e-14 * total(i1), "tc-conserve", S() << at << " trace compound " << j);
        for (int p = 2; p < o.n; ++p) { for (int j = 0; j < nt; ++j) { double d = 0.; for (int i = 0; i < ns; ++i) if (order[i] == j && fp[i] == p) d += b0[i] * dt * prop(ft[i])->getMWeight(); c.checkNear(now[p].mass * now[p].mf[j] - old[p].mass * old[p].mf[j], d, 1e-7, 1e-11 * now[p].mass + 2e-12 * dt, "exit-node", S() << at << " port " << p << " constituent " << j); } 
            for (int j = 0; j < nc; ++j) { double d = 0.; for (int i = 0; i < ntc; ++i) if (ord2[i] == j && tp[i] == p) d += tf[i] * std::fabs(fx) * u.tcMole[j] * f.tcCfg.mCompounds[j]->mMWeight * dt; c.checkNear(now[p].tcMass[j] - old[p].tcMass[j], d, 1e-7, 2e-8 * now[p].tcMass[j] + 5e-14 * now[p].mass, "exit-node-tc", S() << at << " port " << p << " trace compound " << j); if (d > 0.) ++moved; }
            double sv = 0.; for (int i = 0; i < ns; ++i) if (fp[i] == p) sv += b0[i]; c.checkNear(VptFriend::src(A, p), sv, 1e-9, 1e-15, "exit-source", S() << at << " port " << p); }
        (void)sfl; for (int i = 0; i < ns; ++i) b0[i] = VptFriend::thru(A, i); }
    if (moved > 3 && swung) c.nontrivial();
}

// ---- Reactors: a fixed table of reactions, stated here as the chemistry they stand for.
typedef ChemicalCompound CC;
struct Rx { ChemicalReaction::Type t; CC::Type a; double na; CC::Type b; double nb; CC::Type p; double np; CC::Type q; double nq; };
static const std::vector<Rx>& reactions() { static std::vector<Rx> v; if (v.empty()) { const Rx a[] = { {ChemicalReaction::CO_REMOVAL, CC::CO, 2, CC::O2, 1, CC::CO2, 2, CC::NO_COMPOUND, 0}, {ChemicalReaction::CH4_REMOVAL, CC::CH4, 1, CC::O2, 2, CC::CO2, 1, CC::H2O, 2}, {ChemicalReaction::H2_REMOVAL, CC::H2, 2, CC::O2, 1, CC::H2O, 2, CC::NO_COMPOUND, 0}, {ChemicalReaction::LIOHH2O_SYNTHESIS, CC::H2O, 1, CC::LIOH, 1, CC::LIOHH2O, 1, CC::NO_COMPOUND, 0}, {ChemicalReaction::LI2CO3_FORMATION, CC::CO2, 1, CC::LIOHH2O, 2, CC::LI2CO3, 1, CC::H2O, 3}, {ChemicalReaction::NH3_REMOVAL, CC::NH3, 2, CC::H3PO4, 1, CC::NH42HPO4, 1, CC::NO_COMPOUND, 0}, {ChemicalReaction::SABATIER_RXN, CC::CO2, 1, CC::H2, 4, CC::H2O, 2, CC::CH4, 1} }; v.assign(a, a + 7); } return v; }
FACET(reactor, 6000, 150000, "two reactions ran, and the flow reversed or a reagent ran short") {
    static DefinedChemicalReactions known; NetOpt o; FSpec s = gasSpec(c, o); const FP::FluidType all[] = {FP::GUNNS_CO, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_CH4, FP::GUNNS_H2O, FP::GUNNS_H2, FP::GUNNS_NH3}; s.types.assign(all, all + 7); s.types.resize(7); if (c.b()) { s.types.push_back(FP::GUNNS_N2); } const int nt = (int)s.types.size(); for (int k = 0; k < 2; ++k) { s.nodes[k].mf = genFractions(c, nt); s.nodes[k].T = c.r(290., 450.); }
    const bool hot = c.b(0.4); FluidNet f(s, false); std::vector<Rx> rx = reactions(); c.shuffle(rx); rx.resize(c.i(1, 4)); const int nr = (int)rx.size(); std::vector<CC::Type> cs; for (int i = 0; i < nr; ++i) { const CC::Type q[] = {rx[i].a, rx[i].b, rx[i].p, rx[i].q}; for (int j = 0; j < 4; ++j) if (q[j] != CC::NO_COMPOUND && std::find(cs.begin(), cs.end(), q[j]) == cs.end()) cs.push_back(q[j]); } c.shuffle(cs); const int nc = (int)cs.size();
    std::vector<int> at(nc, -1); std::vector<double> solid(nc, 0.), mw(nc); for (int i = 0; i < nc; ++i) { const ChemicalCompound* d = chem().getCompound(cs[i]); mw[i] = d->mMWeight; for (int j = 0; j < nt; ++j) if (d->mFluidType == s.types[j]) at[i] = j; if (at[i] < 0) solid[i] = c.b(0.2) ? 0. : c.lr(1e-4, 10.); }
    std::vector<ChemicalReaction::Type> rt; for (int i = 0; i < nr; ++i) rt.push_back(rx[i].t); std::vector<double> er(nr), eg(nr); for (int i = 0; i < nr; ++i) { er[i] = c.b(0.3) ? 0. : c.r(0., 1.2); eg[i] = c.b(0.6) ? 0. : c.lr(0.1, 10.); }
    const double bias = c.r(-1., 1.), slope = c.sr(1e-4, 5e-3), G = c.lr(1e-6, 1e-3), wall = 300.; std::unique_ptr<GunnsFluidReactor> R; const bool over = c.b(0.7);
    auto arr = [&](const std::vector<double>& v) { double* p = new double[v.size()]; std::copy(v.begin(), v.end(), p); return p; };
    if (hot) { GunnsFluidHotReactor* h = new GunnsFluidHotReactor; R.reset(h); GunnsFluidHotReactorConfigData cd("r", &f.nl, G, 0., &known, &rt[0], nr, &chem(), &cs[0], nc, 0., 0., 0., bias, slope); GunnsFluidHotReactorInputData id(false, 0., 0, wall); id.mTotalMasses = arr(solid); if (over) { cd.mReactantEfficiency = arr(er); cd.mReagentEfficiency = arr(eg); } h->initialize(cd, id, f.links, 0, 1); }
    else { R.reset(new GunnsFluidReactor); GunnsFluidReactorConfigData cd("r", &f.nl, G, 0., &known, &rt[0], nr, &chem(), &cs[0], nc); GunnsFluidReactorInputData id(false, 0., 0, wall); id.mTotalMasses = arr(solid); if (over) { cd.mReactantEfficiency = arr(er); cd.mReagentEfficiency = arr(eg); } R->initialize(cd, id, f.links, 0, 1); }
    GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); int ran = 0; bool odd = false; double rtemp = 0.;
    for (int k = 0, n = c.i(4, 25); k < n; ++k) {
        if (c.b(0.3)) src.setFlowDemand(drive(c, f, dt)); rtemp = VptFriend::rtemp(*R); const std::vector<State> old = snapAll(f); const Inv i0 = inventory(f); std::vector<double> tot(nc), d(nc, 0.); for (int i = 0; i < nc; ++i) tot[i] = solid[i] = at[i] < 0 ? VptFriend::rcs(*R, i).mTotalMass : 0.;
        if (!stepped(f, dt)) break; const double fl = VptFriend::flow(*R); if (!calm(f, dt, 2. * fl)) break; const Inv i1 = inventory(f); const State& u = old[fl >= 0. ? 0 : 1]; const std::string where = S() << "step " << k << (hot ? " hot" : "") << " flow " << fl; double heat = 0.; int live = 0;
        if (std::fabs(fl) > 2e-7) { for (int i = 0; i < nc; ++i) if (at[i] >= 0) tot[i] = u.mf[at[i]] * std::fabs(fl) * dt;
            for (int j = 0; j < nr; ++j) { int a = 0, b = 0, p = 0, q = -1; for (int i = 0; i < nc; ++i) { if (cs[i] == rx[j].a) a = i; if (cs[i] == rx[j].b) b = i; if (cs[i] == rx[j].p) p = i; if (cs[i] == rx[j].q) q = i; }
                double e = hot ? lim(0., bias + slope * rtemp, 1.) : (over && er[j] > 0. ? er[j] : known.getReaction(rt[j])->mReactantEfficiency); if (over && eg[j] > 0.) e *= eg[j] * tot[b]; e = std::min(e, 0.9999);
                const double ext = std::min(tot[a] * e / (rx[j].na * mw[a]), 0.9999 * tot[b] / (rx[j].nb * mw[b])); if (0.9999 * tot[b] / (rx[j].nb * mw[b]) < tot[a] * e / (rx[j].na * mw[a]) && ext > 0.) odd = true; d[a] -= ext * rx[j].na * mw[a]; tot[a] -= ext * rx[j].na * mw[a]; d[b] -= ext * rx[j].nb * mw[b]; tot[b] -= ext * rx[j].nb * mw[b]; d[p] += ext * rx[j].np * mw[p]; tot[p] += ext * rx[j].np * mw[p]; if (q >= 0) { d[q] += ext * rx[j].nq * mw[q]; tot[q] += ext * rx[j].nq * mw[q]; } heat += known.getReaction(rt[j])->mReactionHeat * 1e6 * ext; if (ext * rx[j].na * mw[a] > 1e-9 * std::fabs(fl) * dt) ++live; } if (fl < 0.) odd = true; } else if (std::fabs(fl) > 5e-8) continue;
        if (live > 1) ++ran; double scale = std::fabs(fl) * dt; for (int i = 0; i < nc; ++i) scale = std::max(scale, std::fabs(d[i]));
        for (int i = 0; i < nc; ++i) { if (at[i] < 0) c.checkNear(VptFriend::rcs(*R, i).mTotalMass, tot[i], 1e-9, 1e-15, "solid", S() << where << " compound " << (int)cs[i]); else c.check(tot[i] >= -1e-15, "over-consumed", where); }
        for (int j = 0; j < nt; ++j) { double want = 0.; for (int i = 0; i < nc; ++i) if (at[i] == j) want += d[i]; c.checkNear(i1.m[j] - i0.m[j], want, 1e-8, 1e-11 * total(i1) + 1e-8 * scale + 2e-12 * dt, "conserve", S() << where << " constituent " << j << " of flow " << u.mf[j] * std::fabs(fl) * dt); }
        if (std::fabs(fl) > 2e-7) { c.checkNear(VptFriend::rheat(*R), heat, 1e-8, 1e-6, "heat", where); PolyFluid* x = VptFriend::flu(*R); const double h0 = x->computeSpecificEnthalpy(u.T, x->getPressure()), t1 = x->getTemperature(), rise = heat / (dt * std::fabs(fl)), cp = x->getSpecificHeat(); (void)cp; if (t1 > 150. && t1 < 1400.) c.checkNear(x->computeSpecificEnthalpy(t1, x->getPressure()) - h0, rise, 1e-3, 1e-3 * std::fabs(h0) * 1e-2 + 5., "outlet-heat", S() << where << " inlet " << u.T << " outlet " << t1 << " heat " << heat / dt << " W"); }
        double sv = 0.; for (int i = 0; i < nc; ++i) if (at[i] >= 0) sv += d[i] / dt / mw[i]; if (std::fabs(fl) > 2e-7) { const int dn = fl >= 0. ? 1 : 0; c.checkNear(VptFriend::src(*R, dn), sv, 1e-6, 1e-12 + 1e-7 * scale / dt, "source", where); c.checkNear(VptFriend::src(*R, 1 - dn), 0., 0., 1e-15, "source-inlet", where); } else if (std::fabs(fl) < 5e-8) { c.checkNear(VptFriend::src(*R, 0), 0., 0., 1e-12, "source-stale", where); c.checkNear(VptFriend::src(*R, 1), 0., 0., 1e-12, "source-stale", where); } }
    if (ran > 1 && odd) c.nontrivial();
}
// ---- Crew metabolism.
FACET(metabolic, 5000, 120000, "several crew states were populated, crew moved between them and oxygen or blockage limited the exchange") {
    NetOpt o; FSpec s = gasSpec(c, o); const FP::FluidType all[] = {FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O, FP::GUNNS_NH3, FP::GUNNS_CO, FP::GUNNS_H2, FP::GUNNS_CH4, FP::GUNNS_N2}; const CC::Type tcOf[] = {CC::NH3, CC::CO, CC::H2, CC::CH4}; s.types.assign(all, all + 3); for (int i = 0; i < 4; ++i) if (c.b() && std::find(s.tcs.begin(), s.tcs.end(), tcOf[i]) == s.tcs.end()) s.types.push_back(all[3 + i]); s.types.push_back(all[7]); c.shuffle(s.types); const int nt = (int)s.types.size(); for (int k = 0; k < 2; ++k) s.nodes[k].mf = genFractions(c, nt); FluidNet f(s, false); const int nc = (int)s.tcs.size();
    typedef GunnsFluidMetabolic3 M; GunnsFluidMetabolic3ConfigData cd("m", &f.nl); const double sc = c.lr(1e-7, 1e-4);
#define VPT_STATES(X) { &cd.m##X##_Nominal, &cd.m##X##_Sleep, &cd.m##X##_Recovery0, &cd.m##X##_Recovery1, &cd.m##X##_Recovery2, &cd.m##X##_Recovery3, &cd.m##X##_Aerobic0, &cd.m##X##_Aerobic1, &cd.m##X##_Resistive0, &cd.m##X##_Resistive1, &cd.m##X##_Resistive2, &cd.m##X##_Resistive3 }
    double* r[4][12] = { VPT_STATES(O2ConsumptionRate), VPT_STATES(CO2ProductionRate), VPT_STATES(H2OProductionRate), VPT_STATES(HeatProductionRate) }; for (int q = 0; q < 4; ++q) for (int i = 0; i < 12; ++i) *r[q][i] = c.b(0.1) ? 0. : q == 3 ? c.r(10., 500.) : sc * c.r(0.1, 1.) * (q == 0 && c.b(0.9) ? 0.5 : 1.);
    struct Tr { CC::Type t; double* p; FP::FluidType f; }; const Tr tr[] = { {CC::CH4O, &cd.mCH4OProductionRate, FP::NO_FLUID}, {CC::C2H6O, &cd.mC2H6OProductionRate, FP::NO_FLUID}, {CC::C4H10O, &cd.mC4H10OProductionRate, FP::NO_FLUID}, {CC::CH2O, &cd.mCH2OProductionRate, FP::NO_FLUID}, {CC::C2H4O, &cd.mC2H4OProductionRate, FP::NO_FLUID}, {CC::C6H6, &cd.mC6H6ProductionRate, FP::NO_FLUID}, {CC::C7H8, &cd.mC7H8ProductionRate, FP::NO_FLUID}, {CC::C8H10, &cd.mC8H10ProductionRate, FP::NO_FLUID}, {CC::CH2CL2, &cd.mCH2CL2ProductionRate, FP::NO_FLUID}, {CC::C3H6O, &cd.mC3H6OProductionRate, FP::NO_FLUID}, {CC::NH3, &cd.mNH3ProductionRate, FP::GUNNS_NH3}, {CC::CO, &cd.mCOProductionRate, FP::GUNNS_CO}, {CC::H2, &cd.mH2ProductionRate, FP::GUNNS_H2}, {CC::CH4, &cd.mCH4ProductionRate, FP::GUNNS_CH4} }; for (int i = 0; i < 14; ++i) *tr[i].p = c.b(0.2) ? 0. : sc * c.lr(1e-5, 1e-2);
    std::vector<double> n0(12, 0.); for (int i = 0; i < 12; ++i) if (c.b(0.4)) n0[i] = c.b() ? c.i(0, 6) : c.r(0., 5.); M m; m.initialize(cd, GunnsFluidMetabolic3InputData(false, 0., 0., n0[0], n0[1], n0[2], n0[3], n0[4], n0[5], n0[6], n0[7], n0[8], n0[9], n0[10], n0[11]), f.links, f.n(), 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); double blk = 0.; bool moved = false, limited = false; 
    for (int k = 0, n = c.i(3, 20); k < n; ++k) {
        if (c.b(0.3)) { const int a = c.i(0, 12), b = c.i(0, 12); const double q = c.b(0.1) ? -c.r(0., 3.) : c.r(0., 4.); m.transition(q, (M::MetabolicType)a, (M::MetabolicType)b); if (q >= 0.) { double x = q; if (a < 12) { x = std::min(q, n0[a]); n0[a] -= x; } if (b < 12) n0[b] += x; moved = true; } } if (c.b(0.1)) { blk = c.b() ? 0. : c.r(0., 1.); m.setMalfBlockage(blk > 0., blk); }
        for (int i = 0; i < 12; ++i) c.checkNear(m.mNCrew[i], n0[i], 1e-12, 1e-12, "crew", S() << "step " << k << " state " << i); double rate[3] = {0., 0., 0.}, heat = 0., crew = 0.; for (int i = 0; i < 12; ++i) { for (int q = 0; q < 3; ++q) rate[q] += n0[i] * *r[q][i]; heat += n0[i] * *r[3][i]; crew += n0[i]; }
        const std::vector<State> old = snapAll(f); std::vector<double> d(nt, 0.), dtc(nc, 0.); double net = 0.; for (int i = 0; i < nt; ++i) { if (s.types[i] == FP::GUNNS_O2) { const double have = old[0].mf[i] * old[0].mass / dt; if (have < rate[0]) limited = true; d[i] = -std::min(rate[0], have); } if (s.types[i] == FP::GUNNS_CO2) d[i] = rate[1]; if (s.types[i] == FP::GUNNS_H2O) d[i] = rate[2]; for (int q = 10; q < 14; ++q) if (tr[q].f == s.types[i]) d[i] = crew * *tr[q].p; net += d[i]; } for (int i = 0; i < nc; ++i) for (int q = 0; q < 14; ++q) if (tr[q].t == s.tcs[i]) dtc[i] = crew * *tr[q].p;
        double big = 0.; for (int i = 0; i < nt; ++i) big = std::max(big, std::fabs(d[i])); double netMol = 0.; for (int i = 0; i < nt; ++i) netMol += d[i] / prop(s.types[i])->getMWeight(); if (std::fabs(net) < 1e-3 * big || (net > 0. && netMol * 20. < net * 0.1) || big > 0.02 * old[0].mass / dt) break; const double on = net > 0. ? 1. - blk : 0.; if (blk > 0. && net > 0.) limited = true; if (!stepped(f, dt)) break; const std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << " net production " << net << " blockage " << blk << " crew " << crew; if (on * net > 0. && on * net < 1e-12) continue;
        for (int i = 0; i < nt; ++i) c.checkNear(now[0].mass * now[0].mf[i] - old[0].mass * old[0].mf[i], on * d[i] * dt, 1e-7, 1e-11 * now[0].mass + 2e-12 * dt, "exchange", S() << at << " fluid type " << (int)s.types[i]); for (int i = 0; i < nc; ++i) c.checkNear(now[0].tcMass[i] - old[0].tcMass[i], on * dtc[i] * dt, 1e-7, 1e-10 * now[0].tcMass[i] + 5e-14 * now[0].mass, "trace", S() << at << " trace compound " << (int)s.tcs[i]);
        c.checkNear(now[1].mass, old[1].mass, 1e-12, 0., "bystander", at); }
    if (moved && limited) c.nontrivial();
}
// ---- Boundary sources from other models.
FACET(boundary, 6000, 150000, "flow with trace compounds went both ways, or several constituents were overridden") {
    NetOpt o; FSpec s = gasSpec(c, o); FluidNet f(s, false); const int nt = (int)s.types.size(), nc = (int)s.tcs.size(); const bool flip = c.b(0.3), only = nc > 0 && c.b(0.3); bool over = false; std::vector<double> mf = genFractions(c, nt), tcr(nc), ov(nt, 0.), otc(nc, 0.); for (int i = 0; i < nc; ++i) tcr[i] = c.b(0.2) ? 0. : c.lr(1e-7, 1e-3); const double T = c.r(250., 450.); GunnsFluidTraceCompoundsInputData ti(nc ? &tcr[0] : 0); PolyFluidInputData fi(T, 100., 0., 0., &mf[0], nc ? &ti : 0);
    GunnsFluidSourceBoundary b; b.initialize(GunnsFluidSourceBoundaryConfigData("b", &f.nl, flip, only), GunnsFluidSourceBoundaryInputData(false, 0., 0., &fi), f.links, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); double dem = 0., blk = 0., oh = 0., ot = 0.; bool in = false, out = false; int mix = 0;
    for (int k = 0, n = c.i(4, 25); k < n; ++k) {
        const double m = snap(*f.nodes[0].getContent()).mass; switch (c.weighted({4, 4, 1, 1})) { case 1: if (!over) b.setFlowDemand(dem = c.b(0.15) ? 0. : (c.b() ? 1. : -1.) * c.lr(1e-6, 1e-2) * m / dt); else for (int i = 0; i < nt; ++i) b.mOverrideFlowRates[i] = ov[i] = c.b(0.3) ? 0. : (c.b(0.8) ? 1. : -1.) * c.lr(1e-6, 1e-2) * m / dt; break; case 2: blk = c.b() ? 0. : c.r(0., 1.); b.setMalfBlockage(blk > 0., blk); break;
            case 3: if (!only && c.b(0.3)) { over = b.mOverrideMode = true; for (int i = 0; i < nt; ++i) b.mOverrideFlowRates[i] = ov[i] = c.lr(1e-6, 1e-2) * m / dt; for (int i = 0; i < nc; ++i) b.mOverrideTcFlowRates[i] = otc[i] = c.b(0.3) ? 0. : c.lr(1e-9, 1e-5); b.mOverrideTemperature = ot = c.b(0.3) ? 0. : c.r(250., 450.); b.mOverrideHeat = oh = c.b() ? 0. : c.r(-100., 100.); } break; default: break; }
        const std::vector<State> old = snapAll(f); double net = 0., big = 0.; std::vector<double> d(nt), dtc(nc); const double sg = (flip ? -1. : 1.) * (1. - blk); if (over) { for (int i = 0; i < nt; ++i) { net += ov[i]; big = std::max(big, std::fabs(ov[i])); } if (std::fabs(net) < 1e-2 * big) continue; for (int i = 0; i < nt; ++i) d[i] = sg * ov[i]; } else for (int i = 0; i < nt; ++i) { d[i] = only ? 0. : sg * dem * mf[i]; net = dem; }
        const bool pastCut = std::fabs(sg * net) > 1e-12 || sg * net == 0.; for (int i = 0; i < nc; ++i) dtc[i] = over ? (flip ? -1. : 1.) * otc[i] : sg * dem * tcr[i]; bool hold = true; for (int i = 0; i < nt; ++i) if (old[0].mass * old[0].mf[i] < -1.01 * d[i] * dt) hold = false; for (int i = 0; i < nc; ++i) if (old[0].tcMass[i] < -1.01 * dtc[i] * dt) hold = false; if (!hold) break;
        if (!stepped(f, dt)) break; if (!calm(f, dt, big)) break; if (!pastCut) continue; const std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << (over ? " override" : "") << (only ? " trace only" : "") << (flip ? " flipped" : "") << " demand " << (over ? net : dem) << " blockage " << blk; double dm = 0.; for (int i = 0; i < nt; ++i) dm += d[i];
        for (int i = 0; i < nt; ++i) c.checkNear(now[0].mass * now[0].mf[i] - old[0].mass * old[0].mf[i], d[i] * dt, 1e-6, 1e-11 * now[0].mass + 2e-12 * dt, "flow", S() << at << " constituent " << i); for (int i = 0; i < nc; ++i) if (!(over && blk > 0.)) c.checkNear(now[0].tcMass[i] - old[0].tcMass[i], dtc[i] * dt, 1e-6, 1e-10 * now[0].tcMass[i] + 5e-14 * now[0].mass, "trace", S() << at << " trace compound " << i);
        if (over && blk == 0. && dm > 0.) { int neg = 0; for (int i = 0; i < nt; ++i) neg += d[i] < 0.; PolyFluid* x = VptFriend::flu(b); const double want = ot > 0. ? ot : old[0].T; if (!neg) c.checkNear(x->getTemperature(), want, 1e-9, 1e-6, "override-temperature", at); }
        c.checkNear(now[1].mass, old[1].mass, 1e-12, 0., "bystander", at); if (dem > 0. && nc) in = true; if (dem < 0. && nc) out = true; int cnt = 0; for (int i = 0; i < nt; ++i) cnt += d[i] != 0.; if (over && cnt > 1) ++mix; (void)oh; }
    if ((in && out) || mix > 2) c.nontrivial();
}
