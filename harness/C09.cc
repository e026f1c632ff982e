// Property C09: fluid states stay physically valid.
#define VPT_FRIEND_EXTRA static double influx(const GunnsFluidNode& n) { return n.mInfluxRate; }
#include "fluidnet.hh"
#include "software/exceptions/TsNumericalException.hh"
using namespace fn;
static double pickDt(Case& c) { return c.b(0.4) ? 0.1 : c.lr(1e-3, 100.); }

static void checkFluid(Case& c, const FSpec& s, const State& x, const std::string& who, bool hasFlow) {
    c.check(std::isfinite(x.T) && std::isfinite(x.P) && std::isfinite(x.rho) && std::isfinite(x.mass) && std::isfinite(x.moles) && std::isfinite(x.h) && std::isfinite(x.MW), "finite", S() << who << ": T " << x.T << " P " << x.P << " rho " << x.rho << " mass " << x.mass << " h " << x.h);
    c.check(x.T > 0., "temperature-positive", S() << who << ": T " << x.T);
    c.check(x.mass >= 0., "mass-not-negative", S() << who << ": mass " << x.mass);
    double sm = 0., mw = 0.; for (size_t i = 0; i < s.types.size(); ++i) { c.check(x.mf[i] >= -1e-15 && x.mf[i] <= 1. + 1e-12, "fraction-range", S() << who << ": mass fraction " << i << " = " << x.mf[i]); sm += x.mf[i]; mw += x.mf[i] / prop(s.types[i])->getMWeight(); }
    c.checkNear(sm, 1., 1e-6, 0., "fractions-sum", who + ": mass fractions");
    c.checkNear(x.MW, 1. / mw, 1e-6, 0., "molar-mass", who + ": molar mass");
    if (x.mass > 0.) c.checkNear(x.moles * x.MW, x.mass, 1e-9, 1e-15, "moles-mass", who + ": moles times molar mass");
    (void)hasFlow;
}
static void checkNode(Case& c, const FSpec& s, FluidNet& f, int k, const std::string& who) {
    const PolyFluid& p = *f.nodes[k].getContent(); State x = snap(p); checkFluid(c, s, x, who, false);
    double so = 0., rho = 0., mw = 0.; for (size_t i = 0; i < s.types.size(); ++i) mw += x.mf[i] / prop(s.types[i])->getMWeight();
    for (size_t i = 0; i < s.types.size(); ++i) { const double y = p.getMoleFraction(i), w = x.mf[i] / prop(s.types[i])->getMWeight() / mw; so += y; c.checkNear(y, w, 1e-6, 1e-9, "mole-mass-fractions", S() << who << ": mole fraction " << i);
        if (y > 1e-15) rho += prop(s.types[i])->getDensity(x.T, x.P * y); }
    c.checkNear(so, 1., 1e-6, 0., "mole-fractions-sum", who + ": mole fractions");
    if (std::fabs(x.P) < 1e8) c.checkNear(x.rho, rho, 1e-6, 1e-12, "density", S() << who << ": density against P " << x.P << " T " << x.T << " and mixture, flows into it " << VptFriend::influx(f.nodes[k]));
    c.checkNear(x.P, f.nodes[k].getPotential(), 1e-12, 1e-12, "pressure-potential", who + ": content pressure and node potential");
    for (size_t i = 0; i < s.tcs.size(); ++i) c.check(x.tcMass[i] >= 0. && std::isfinite(x.tcMass[i]) && x.tcMole[i] >= 0. && std::isfinite(x.tcMole[i]), "trace-valid", S() << who << ": trace compound " << i << " mass " << x.tcMass[i] << " fraction " << x.tcMole[i]);
    c.check(f.nodes[k].getMass() >= 0., "node-mass", who);
}
static void run(Case& c, FOpt o, double wild) {
    FSpec s = genFluid(c, o); for (size_t q = 0; q < s.links.size(); ++q) if (c.b(wild)) { s.links[q].a = c.lr(1e-6, 1.); s.links[q].s *= c.lr(1., 1e4); }
    logFluid(c.log(), s); FluidNet f(s); const int steps = c.i(1, 15), n = f.n(); double dt = pickDt(c); int act = 0;
    for (int t = 0; t < steps; ++t) {
        if (t && c.b(0.4)) { FLink& l = s.links[c.raw(s.links.size())]; params(c, l, s, o); if (c.b(wild)) l.a = c.lr(1e-6, 1.); f.apply(s); c.log() << "step " << t << " changes a " << tname(l.type) << " to G=" << l.a << " s=" << l.s << "\n"; }
        if (c.b(0.2)) dt = pickDt(c);
        for (int k = 0; k < n; ++k) if (f.caps[k] && c.b(0.1)) { double v = c.b(0.2) ? s.nodes[k].vol : s.nodes[k].vol * c.lr(0.1, 10.); f.caps[k]->editVolume(true, v); c.log() << "step " << t << " volume of " << k << " set to " << v << "\n"; }
        try { f.net.step(dt); } catch (TsNumericalException&) { c.label("ended: solver reported a numerical failure"); return; }
        for (size_t q = 0; q < f.user.size(); ++q) if (VptFriend::flow(*f.user[q]) != 0.) ++act;
        for (int k = 0; k < n; ++k) { checkNode(c, s, f, k, S() << "step " << t << " dt " << dt << " node " << k << (f.caps[k] ? "" : " (no volume)")); }
    }
    if (act) c.nontrivial(); if (!s.gas) c.label("liquid"); if (!s.tcs.empty()) c.label("trace compounds");
}
FACET(wild, 200000, 1500000, "anything: huge conductances, sources beyond what nodes hold, long steps, volume edits; nontrivial = some flow") { FOpt o; run(c, o, 0.5); }
FACET(pressure, 120000, 1500000, "gas networks of conductors, check valves and flow controllers; nontrivial = some flow") { FOpt o; o.src = false; o.pot = false; o.liquids = false; run(c, o, 0.3); }

FACET(bounded, 120000, 1500000, "isothermal single-gas networks of conductors and check valves only: no pressure ever leaves the range of the previous pressures and the boundary; nontrivial = at least 2 nodes with flow") {
    FOpt o; o.src = o.pot = o.fctl = o.liquids = false; FSpec s = genFluid(c, o); s.types.resize(1); for (int k = 0; k < s.n(); ++k) { s.nodes[k].mf.assign(1, 1.); s.nodes[k].T = s.nodes[0].T; }
    for (size_t q = 0; q < s.links.size(); ++q) if (c.b(0.3)) s.links[q].a = c.lr(1e-6, 1e-3);
    logFluid(c.log(), s); FluidNet f(s); const int steps = c.i(1, 15), n = f.n(); bool flow = false; double p0 = 1.; for (int k = 0; k < n; ++k) p0 = std::max(p0, s.nodes[k].P);
    for (int t = 0; t < steps; ++t) {
        const double dt = c.b(0.4) ? 0.1 : c.lr(1e-3, 100.);
        std::vector<State> old = snapAll(f); double hi = 0., lo = 1e300; bool ground = false; for (size_t q = 0; q < s.links.size(); ++q) if (s.links[q].p0 == n || s.links[q].p1 == n) ground = true;
        for (int k = 0; k < n; ++k) if (f.caps[k]) { hi = std::max(hi, old[k].P); lo = std::min(lo, old[k].P); } if (ground) lo = 0.;
        f.net.step(dt); std::vector<State> now = snapAll(f); Account a = account(f, old, dt); if (a.anyFlow) flow = true;
        for (int k = 0; k < n; ++k) { if (!f.caps[k]) continue;
            c.check(now[k].P <= hi * (1. + 1e-6) + 1e-4 * p0 && now[k].P >= lo * (1. - 1e-6) - 1e-4 * p0, "pressure-range", S() << "step " << t << " dt " << dt << " node " << k << " P " << old[k].P << " -> " << now[k].P << " outside [" << lo << ", " << hi << "]");
            c.checkNear(now[k].T, old[k].T, 1e-5, 0., "isothermal", S() << "step " << t << " node " << k << " temperature");
            if (now[k].mass > 1e-9) c.checkNear(now[k].mass, now[k].rho * s.nodes[k].vol, 2e-3, 1e-5, "mass-volume", S() << "step " << t << " node " << k << " mass against density times volume"); }
    }
    if (flow && n > 1) c.nontrivial();
}
FACET(settle, 30000, 600000, "gas network, random histories, then every link is closed: pressures settle to what mass, volume and temperature imply; nontrivial = some mass error to settle") {
    FOpt o; o.liquids = false; o.zeroVol = false; FSpec s = genFluid(c, o); logFluid(c.log(), s); FluidNet f(s); const int n = f.n(), steps = c.i(1, 8); const double dt = 0.1; double e0 = 0.;
    for (int t = 0; t < steps; ++t) { std::vector<State> old = snapAll(f); f.net.step(dt); Account a = account(f, old, dt); if (a.overDemand || a.cycle || a.floating) c.discard(); }
    for (size_t q = 0; q < s.links.size(); ++q) { s.links[q].blk = true; s.links[q].blkV = 1.; } f.apply(s);
    std::vector<State> x = snapAll(f); for (int k = 0; k < n; ++k) if (x[k].mass > 1e-6) e0 = std::max(e0, std::fabs(x[k].mass - x[k].rho * s.nodes[k].vol) / x[k].mass);
    for (int t = 0; t < 400; ++t) f.net.step(dt);
    x = snapAll(f); for (int k = 0; k < n; ++k) if (x[k].mass > 1e-6) c.checkNear(x[k].mass, x[k].rho * s.nodes[k].vol, 1e-3, 1e-5 * s.nodes[k].vol, "settled", S() << "node " << k << " mass against density times volume after settling (error was " << e0 << " of the mass)");
    if (e0 > 1e-4) c.nontrivial();
}
