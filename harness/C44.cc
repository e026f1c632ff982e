// C44: crew, fire, fuel-cell, membrane and phase-change links exchange matter and heat by their stated laws.
#include "aspects/fluid/source/GunnsFluidMetabolic.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic2.hh"
#include "aspects/fluid/source/GunnsFluidFireSource.hh"
#include "aspects/fluid/source/GunnsFluidSimpleH2Redox.hh"
#include "aspects/fluid/source/GunnsFluidSelectiveMembrane.hh"
#include "aspects/fluid/source/GunnsFluidPhaseChangeSource.hh"
#include "aspects/fluid/source/GunnsFluidEvaporation.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    static double heatIn(const GunnsFluidNode& n) { return n.mInflowHeatFlux; } static PolyFluid* flu(GunnsFluidLink& l) { return l.mInternalFluid; } static double power(const GunnsFluidLink& l) { return l.mPower; } static double pv(const GunnsBasicLink& l, int i) { return l.mPotentialVector[i]; } static double src(const GunnsBasicLink& l, int i) { return l.mSourceVector[i]; } static int dir(const GunnsFluidLink& l, int i) { return l.mPortDirections[i]; } \
    static void bias(GunnsFluidMetabolic2& m, bool on, double o, double h, double c, double w) { m.mShouldApplyBias = on; m.mO2ConsumptionBias = o; m.mHeatProductionBias = h; m.mCO2ProductionBias = c; m.mH2OProductionBias = w; } static const double* crew(const GunnsFluidMetabolic& m) { return m.mNCrew; } \
    typedef GunnsFluidFireSource Fs; static void fire(Fs& f, bool on, double h) { f.mMalfFireFlag = on; f.mMalfFireHeat = h; } static bool fireOn(const Fs& f) { return f.mMalfFireFlag; } \
    typedef GunnsFluidSimpleH2Redox Hr; static void amps(Hr& h, double i) { h.mCurrent = i; } static void trip(Hr& h, bool b) { h.mTrippedOff = b; } static bool tripped(const Hr& h) { return h.mTrippedOff; } static double volts(const Hr& h) { return h.mOutputStackVoltage; } static double heat(const Hr& h) { return h.mOutputHeat; } \
    typedef GunnsFluidSelectiveMembrane Sm; static double mflow(const Sm& s) { return s.mMembraneFlowRate; } static double mheat(const Sm& s) { return s.mPhaseChangeHeat; } static bool mphase(const Sm& s) { return s.mPhaseChange; } \
    typedef GunnsFluidPhaseChangeSource Pc; static void pin(Pc& p, double w) { p.mPowerInput = w; } \
    static double dp(const GunnsFluidEvaporation& e) { return e.mPotentialDrop; }
#include "fluidnet.hh"
using namespace fn;
static bool stepped(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
static FSpec gasSpec(Case& c, std::vector<FP::FluidType> need, int n, double Tlo = 250., double Thi = 450.) {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; g.liquids = false; FSpec s = genFluid(c, g); s.links.clear();
    const FP::FluidType extra[] = {FP::GUNNS_N2, FP::GUNNS_AR, FP::GUNNS_HE}; s.types = need; for (int i = 0; i < 3; ++i) if (c.b(0.5)) s.types.push_back(extra[i]); c.shuffle(s.types);
    for (int k = 0; k < n; ++k) { if (k > 0) s.nodes.push_back(s.nodes[0]); FNode& x = s.nodes[k]; x.T = c.r(Tlo, Thi); x.P = c.lr(20., 500.); x.vol = c.lr(1., 100.); x.mf = genFractions(c, (int)s.types.size()); for (size_t q = 0; q < x.tc.size(); ++q) x.tc[q] = c.b(0.2) ? 0. : c.lr(1e-8, 1e-4); }
    return s;
}
static int idx(const FSpec& s, FP::FluidType t) { return (int)(std::find(s.types.begin(), s.types.end(), t) - s.types.begin()); }
static double mass(const State& s, int i) { return s.mass * s.mf[i]; }
static double part(const State& s, const FSpec& sp, int i, double p) { return p * s.mf[i] * s.MW / prop(sp.types[i])->getMWeight(); }

FACET(crew_simple, 5000, 120000, "two crew states were populated, crew moved, and oxygen ran short or the exchange was blocked") {
    FSpec s = gasSpec(c, {FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}, 2); const int nt = (int)s.types.size(), o2 = idx(s, FP::GUNNS_O2), co2 = idx(s, FP::GUNNS_CO2), h2o = idx(s, FP::GUNNS_H2O); if (c.b(0.3)) s.nodes[0].mf[o2] *= c.lr(1e-9, 1e-4); { double t = 0.; for (int i = 0; i < nt; ++i) t += s.nodes[0].mf[i]; for (int i = 0; i < nt; ++i) s.nodes[0].mf[i] /= t; }
    typedef GunnsFluidMetabolic M; FluidNet f(s, false); const double sc = c.lr(1e-7, 1e-4), ro = sc * (c.b(0.1) ? 0. : c.r(0.1, 1.)), rc = sc * c.r(0.6, 1.5), rw = sc * c.r(0.5, 1.5), rh = c.b(0.1) ? 0. : c.r(10., 500.), r1 = c.r(1., 2.), fac[4] = {1., c.r(0.01, 0.99), r1, r1 * c.r(1., 3.)}; double n[4]; for (int i = 0; i < 4; ++i) n[i] = c.b(0.4) ? 0. : c.b() ? c.i(0, 6) : c.r(0., 5.);
    M m; m.initialize(GunnsFluidMetabolicConfigData("m", &f.nl, ro, rc, rw, rh, fac[1], fac[2], fac[3]), GunnsFluidMetabolicInputData(false, 0., 0., n[0], n[1], n[2], n[3]), f.links, f.n(), 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); double blk = 0.; bool moved = false, odd = false, many = false; logFluid(c.log(), s);
    for (int k = 0, e = c.i(3, 20); k < e; ++k) {
        if (c.b(0.3)) { const int a = c.i(0, 4), b = c.i(0, 4); const double q = c.b(0.1) ? -c.r(0., 3.) : c.r(0., 4.); m.transition(q, (M::MetabolicType)a, (M::MetabolicType)b); if (q >= 0.) { double x = q; if (a < 4) { x = std::min(q, n[a]); n[a] -= x; } if (b < 4) n[b] += x; moved = true; } } if (c.b(0.15)) { blk = c.b() ? 0. : c.r(0., 1.); m.setMalfBlockage(blk > 0., blk); }
        const std::vector<State> old = snapAll(f); const double have = mass(old[0], o2) / dt; double use = 0., co = 0., wa = 0., he = 0.; int pop = 0, shortOf = 0; for (int i = 0; i < 4; ++i) { c.checkNear(m.getNCrew()[i], n[i], 1e-12, 1e-12, "crew", S() << "step " << k << " state " << i); use += n[i] * ro * fac[i]; if (n[i] * ro * fac[i] > have) ++shortOf; co += n[i] * rc * fac[i]; wa += n[i] * rw * fac[i]; he += n[i] * rh * fac[i]; pop += n[i] > 0.; } (void)shortOf;
        const double o = std::min(use, have), net = co + wa - o; double mol = co / prop(FP::GUNNS_CO2)->getMWeight() + wa / prop(FP::GUNNS_H2O)->getMWeight() - o / prop(FP::GUNNS_O2)->getMWeight(); if (net < 1e-3 * (co + wa) || mol * 40. < 0.1 * net || co + wa > 0.02 * old[0].mass / dt) { if (pop) break; }
        if (!stepped(f, dt)) break; const std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << " O2 use " << use << " available " << have << " net " << net << " blockage " << blk; if (pop && net * (1. - blk) < 1e-12) continue; const double on = pop ? 1. - blk : 0.;
        for (int i = 0; i < nt; ++i) c.checkNear(mass(now[0], i) - mass(old[0], i), on * dt * (i == o2 ? -o : i == co2 ? co : i == h2o ? wa : 0.), 1e-7, 1e-11 * now[0].mass + 2e-12 * dt, "exchange", S() << at << " fluid type " << (int)s.types[i]);
        c.checkNear(m.getConsumedO2(), o, 1e-9, 1e-18, "consumed", at); c.checkNear(m.getProducedCO2(), co, 1e-12, 0., "produced-co2", at); c.checkNear(m.getProducedH2O(), wa, 1e-12, 0., "produced-h2o", at); c.checkNear(m.getProducedHeat(), he, 1e-12, 0., "produced-heat", at);
        if (pop) { const double fl = VptFriend::flow(m), in = fl * VptFriend::flu(m)->getSpecificEnthalpy(); c.checkNear(VptFriend::heatIn(f.nodes[0]) - in, he, 1e-7, 1e-9 * std::fabs(in) + 1e-9, "heat", at); }
        c.checkNear(now[1].mass, old[1].mass, 1e-12, 0., "bystander", at); if (pop > 1) many = true; if (use > have || (blk > 0. && pop)) odd = true; }
    if (moved && odd && many) c.nontrivial();
}
FACET(crew_traces, 4000, 100000, "several crew states were populated, crew moved, and biases, blockage or oxygen shortage applied") {
    const FP::FluidType ex[] = {FP::GUNNS_NH3, FP::GUNNS_CO, FP::GUNNS_H2, FP::GUNNS_CH4}; const ChemicalCompound::Type exTc[] = {ChemicalCompound::NH3, ChemicalCompound::CO, ChemicalCompound::H2, ChemicalCompound::CH4}; std::vector<FP::FluidType> need = {FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}; FSpec s = gasSpec(c, need, 2); bool used[4]; for (int i = 0; i < 4; ++i) { used[i] = c.b() && std::find(s.tcs.begin(), s.tcs.end(), exTc[i]) == s.tcs.end(); if (used[i]) s.types.push_back(ex[i]); } c.shuffle(s.types); const int nt = (int)s.types.size(); for (int k = 0; k < 2; ++k) s.nodes[k].mf = genFractions(c, nt);
    const int o2 = idx(s, FP::GUNNS_O2), co2 = idx(s, FP::GUNNS_CO2), h2o = idx(s, FP::GUNNS_H2O); typedef GunnsFluidMetabolic2 M; FluidNet f(s, false); const int nc = (int)s.tcs.size(); GunnsFluidMetabolic2ConfigData cd("m", &f.nl); const double sc = c.lr(1e-7, 1e-4);
#define VPT_STATES(X) { &cd.m##X##_Nominal, &cd.m##X##_Sleep, &cd.m##X##_Recovery0, &cd.m##X##_Recovery1, &cd.m##X##_Recovery2, &cd.m##X##_Recovery3, &cd.m##X##_Exercise0, &cd.m##X##_Exercise1 }
    double* r[4][8] = { VPT_STATES(O2ConsumptionRate), VPT_STATES(CO2ProductionRate), VPT_STATES(H2OProductionRate), VPT_STATES(HeatProductionRate) }; for (int q = 0; q < 4; ++q) for (int i = 0; i < 8; ++i) *r[q][i] = c.b(0.1) ? 0. : q == 3 ? c.r(10., 500.) : sc * c.r(0.1, 1.) * (q == 0 && c.b(0.9) ? 0.5 : 1.);
    typedef ChemicalCompound CC; struct Tr { CC::Type t; double* p; FP::FluidType f; }; const Tr tr[] = { {CC::CH4O, &cd.mCH4OProductionRate, FP::NO_FLUID}, {CC::C2H6O, &cd.mC2H6OProductionRate, FP::NO_FLUID}, {CC::C4H10O, &cd.mC4H10OProductionRate, FP::NO_FLUID}, {CC::CH2O, &cd.mCH2OProductionRate, FP::NO_FLUID}, {CC::C2H4O, &cd.mC2H4OProductionRate, FP::NO_FLUID}, {CC::C6H6, &cd.mC6H6ProductionRate, FP::NO_FLUID}, {CC::C7H8, &cd.mC7H8ProductionRate, FP::NO_FLUID}, {CC::C8H10, &cd.mC8H10ProductionRate, FP::NO_FLUID}, {CC::CH2CL2, &cd.mCH2CL2ProductionRate, FP::NO_FLUID}, {CC::C3H6O, &cd.mC3H6OProductionRate, FP::NO_FLUID}, {CC::NH3, &cd.mNH3ProductionRate, FP::GUNNS_NH3}, {CC::CO, &cd.mCOProductionRate, FP::GUNNS_CO}, {CC::H2, &cd.mH2ProductionRate, FP::GUNNS_H2}, {CC::CH4, &cd.mCH4ProductionRate, FP::GUNNS_CH4} }; for (int i = 0; i < 14; ++i) *tr[i].p = c.b(0.2) ? 0. : sc * c.lr(1e-5, 1e-2);
    double n[8]; for (int i = 0; i < 8; ++i) n[i] = c.b(0.4) ? 0. : c.b() ? c.i(0, 6) : c.r(0., 5.); M m; m.initialize(cd, GunnsFluidMetabolic2InputData(false, 0., 0., n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]), f.links, f.n(), 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); double blk = 0., bo = 0., bh = 0., bc = 0., bw = 0.; bool moved = false, odd = false, many = false; logFluid(c.log(), s);
    for (int k = 0, e = c.i(3, 20); k < e; ++k) {
        if (c.b(0.3)) { const int a = c.i(0, 8), b = c.i(0, 8); const double q = c.b(0.1) ? -c.r(0., 3.) : c.r(0., 4.); m.transition(q, (M::MetabolicType)a, (M::MetabolicType)b); if (q >= 0.) { double x = q; if (a < 8) { x = std::min(q, n[a]); n[a] -= x; } if (b < 8) n[b] += x; moved = true; } } if (c.b(0.1)) { blk = c.b() ? 0. : c.r(0., 1.); m.setMalfBlockage(blk > 0., blk); } if (c.b(0.1)) { const bool on = c.b(); bo = sc * c.r(0., .5); bh = c.r(0., 100.); bc = sc * c.r(0., 1.); bw = sc * c.r(0., 1.); VptFriend::bias(m, on, bo, bh, bc, bw); if (!on) bo = bh = bc = bw = 0.; }
        double rate[4] = {bo, bc, bw, bh}, crew = 0.; int pop = 0; for (int i = 0; i < 8; ++i) { c.checkNear(m.getNCrew()[i], n[i], 1e-12, 1e-12, "crew", S() << "step " << k << " state " << i); for (int q = 0; q < 4; ++q) rate[q] += n[i] * *r[q][i]; crew += n[i]; pop += n[i] > 0.; }
        const std::vector<State> old = snapAll(f); const double have = mass(old[0], o2) / dt; std::vector<double> d(nt, 0.), dtc(nc, 0.); d[o2] = -std::min(rate[0], have); d[co2] = rate[1]; d[h2o] = rate[2]; for (int i = 0; i < nt; ++i) for (int q = 10; q < 14; ++q) if (tr[q].f == s.types[i]) d[i] = crew * *tr[q].p; for (int i = 0; i < nc; ++i) for (int q = 0; q < 14; ++q) if (tr[q].t == s.tcs[i]) dtc[i] = crew * *tr[q].p;
        double net = 0., mol = 0., big = 0.; for (int i = 0; i < nt; ++i) { net += d[i]; mol += d[i] / prop(s.types[i])->getMWeight(); big = std::max(big, std::fabs(d[i])); } if (std::fabs(net) < 1e-3 * big || (net > 0. && mol * 20. < 0.1 * net) || big > 0.02 * old[0].mass / dt) break; const double on = net > 0. ? 1. - blk : 0.; if (!stepped(f, dt)) break; if (on * net > 0. && on * net < 1e-12) continue;
        const std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << " net production " << net << " blockage " << blk << " crew " << crew; for (int i = 0; i < nt; ++i) c.checkNear(mass(now[0], i) - mass(old[0], i), on * d[i] * dt, 1e-7, 1e-11 * now[0].mass + 2e-12 * dt, "exchange", S() << at << " fluid type " << (int)s.types[i] << " from " << mass(old[0],i) << " to " << mass(now[0],i) << " rates " << d[0] << " " << d[1] << " " << d[2]); for (int i = 0; i < nc; ++i) c.checkNear(now[0].tcMass[i] - old[0].tcMass[i], on * dtc[i] * dt, 1e-7, 1e-10 * now[0].tcMass[i] + 5e-14 * now[0].mass, "trace", S() << at << " trace compound " << (int)s.tcs[i]);
        if (on * net > 0.) { const double in = VptFriend::flow(m) * VptFriend::flu(m)->getSpecificEnthalpy(); c.checkNear(VptFriend::heatIn(f.nodes[0]) - in, rate[3], 1e-7, 1e-9 * std::fabs(in) + 1e-9, "heat", at); } c.checkNear(m.getProducedHeat(), rate[3], 1e-12, 0., "produced-heat", at); c.checkNear(m.getConsumedO2(), -d[o2], 1e-12, 0., "consumed", at);
        c.checkNear(now[1].mass, old[1].mass, 1e-12, 0., "bystander", at); if (pop > 1) many = true; if (rate[0] > have || blk > 0. || bc > 0.) odd = true; }
    if (moved && odd && many) c.nontrivial();
}
FACET(fire, 5000, 120000, "a fire burned, changed intensity, and went out by itself or by command") {
    FSpec s = gasSpec(c, {FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}, 2); const int nt = (int)s.types.size(), o2 = idx(s, FP::GUNNS_O2), co2 = idx(s, FP::GUNNS_CO2), h2o = idx(s, FP::GUNNS_H2O), nc = (int)s.tcs.size(); FluidNet f(s, false); const State s0 = snap(*f.nodes[0].getContent()); const double p0 = part(s0, s, o2, s0.P), need = p0 * (c.b(0.3) ? 0. : c.r(0.5, 1.05)), ro = c.lr(1e-9, 1e-6), rc = ro * c.r(1., 2.), rw = ro * c.r(0.2, 1.); std::vector<double> tr; for (int i = 0; i < nc; ++i) tr.push_back(c.b(0.3) ? 0. : ro * c.lr(1e-4, 1e-1)); bool on = c.b(0.7); double heat = std::min(c.lr(1., 1e5), 1e-3 * mass(s0, o2) / ro); const bool tcr = nc && c.b(0.9);
    GunnsFluidFireSource l; l.initialize(GunnsFluidFireSourceConfigData("fire", &f.nl, ro, rc, rw, need, tcr ? &tr[0] : 0), GunnsFluidFireSourceInputData(false, 0., on, heat), f.links, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); double blk = 0.; bool burned = false, changed = false, out = false; logFluid(c.log(), s);
    for (int k = 0, e = c.i(3, 25); k < e; ++k) {
        switch (c.weighted({10, 2, 2, 1})) { case 1: on = c.b(0.7); VptFriend::fire(l, on, heat); if (!on && burned) out = true; break; case 2: heat = std::min(c.lr(1., 1e5), 1e-3 * mass(s0, o2) / ro); VptFriend::fire(l, on, heat); if (burned) changed = true; break; case 3: blk = c.b() ? 0. : c.r(0., 1.); l.setMalfBlockage(blk > 0., blk); break; default: break; }
        const std::vector<State> old = snapAll(f); const double pp = part(old[0], s, o2, old[0].P); if (std::fabs(pp - need) < 1e-9 * pp) break; if (mass(old[0], o2) < 10. * ro * heat * dt || old[0].mass < 20. * rc * heat * dt) break; const bool burn = on && pp >= need; if (on && !burn && burned) out = true; on = burn; if (!stepped(f, dt)) break; if (burn && (rc + rw - ro) * heat * (1. - blk) < 1e-12) continue; const std::vector<State> now = snapAll(f); const double x = burn ? heat * (1. - blk) : 0.; const std::string at = S() << "step " << k << " pO2 " << pp << " needs " << need << " heat " << heat << " blockage " << blk;
        c.check(VptFriend::fireOn(l) == burn, "burning", at); for (int i = 0; i < nt; ++i) c.checkNear(mass(now[0], i) - mass(old[0], i), x * dt * (i == o2 ? -ro : i == co2 ? rc : i == h2o ? rw : 0.), 1e-7, 1e-11 * now[0].mass + 2e-12 * dt, "exchange", S() << at << " fluid type " << (int)s.types[i]); for (int i = 0; i < nc; ++i) c.checkNear(now[0].tcMass[i] - old[0].tcMass[i], tcr ? x * tr[i] * dt : 0., 1e-7, 1e-10 * now[0].tcMass[i] + 5e-14 * now[0].mass, "trace", S() << at << " trace compound " << i);
        const double in = burn ? VptFriend::flow(l) * VptFriend::flu(l)->getSpecificEnthalpy() : 0.; c.checkNear(VptFriend::heatIn(f.nodes[0]) - in, burn ? heat : 0., 1e-7, 1e-9 * std::fabs(in) + 1e-9, "heat", at); c.checkNear(now[1].mass, old[1].mass, 1e-12, 0., "bystander", at); if (burn) burned = true; }
    if (burned && (changed || out)) c.nontrivial();
}
FACET(h2_redox, 5000, 120000, "the cell ran both as fuel cell and as electrolyser, or tripped") {
    FSpec s = gasSpec(c, {FP::GUNNS_H2, FP::GUNNS_O2, FP::GUNNS_H2O}, 3, 330., 450.); const int nt = (int)s.types.size(), h2 = idx(s, FP::GUNNS_H2), o2 = idx(s, FP::GUNNS_O2), h2o = idx(s, FP::GUNNS_H2O); FluidNet f(s, false); const int cells = c.i(1, 40); const double vc = c.r(0.5, 2.), rate = c.lr(1e-9, 1e-6), eff = c.b(0.2) ? 1. : c.r(0.05, 1.); double amps = 0., blk = 0.; bool trip = c.b(0.1); GunnsFluidSimpleH2Redox l; GunnsFluidSimpleH2RedoxConfigData cd("r", &f.nl, cells, vc, rate, eff); l.initialize(cd, GunnsFluidSimpleH2RedoxInputData(false, 0., amps, trip), f.links, 0, 1); f.start(); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); bool fc = false, el = false, tripped = false; logFluid(c.log(), s);
    for (int k = 0, e = c.i(3, 25); k < e; ++k) {
        const std::vector<State> old = snapAll(f); const double cap = 0.2 * std::min(std::min(mass(old[0], h2), mass(old[1], o2) / 8.), mass(old[0], h2o) / 9.) / dt; switch (c.weighted({6, 4, 1, 1})) { case 1: amps = (c.b() ? 1. : -1.) * (c.b(0.1) ? 0. : c.lr(1e-3, 1.) * std::max(cap, 1e-7 * old[0].mass) * 0.05 / (rate * cells)); VptFriend::amps(l, amps); break; case 2: trip = c.b(0.3); VptFriend::trip(l, trip); break; case 3: blk = c.b() ? 0. : c.r(0., 0.95); l.setMalfBlockage(blk > 0., blk); break; default: break; }
        const double pA = VptFriend::pv(l, 0), pB = VptFriend::pv(l, 1), ph = part(old[0], s, h2, pA), po = part(old[1], s, o2, pB), pw = part(old[0], s, h2o, pA); if (std::fabs(ph - 1e-3) < 1e-9 || std::fabs(po - 1e-3) < 1e-9 || std::fabs(pw - 1e-3) < 1e-9) break; if (amps > 0. ? ph < 1e-3 || po < 1e-3 : pw < 1e-3) trip = true; const double ef = std::max(DBL_EPSILON, std::min(1., eff * (1. - blk))); double x = -amps * rate * cells * (amps > 0. ? 1. / ef : ef); if (trip || std::fabs(x) < 2.220446049250313e-14) x = 0.;
        if (x != 0. && (mass(old[0], h2) + x * dt < 0. || mass(old[1], o2) + 8. * x * dt < 0. || mass(old[0], h2o) - 9. * x * dt < 0. || 20. * std::fabs(x) * 9. * dt > old[0].mass || 20. * std::fabs(x) * 9. * dt > old[1].mass)) break; if (!stepped(f, dt)) break; const std::vector<State> now = snapAll(f); const double mol = x / prop(FP::GUNNS_H2)->getMWeight(); const std::string at = S() << "step " << k << " current " << amps << " efficiency " << ef << (trip ? " tripped" : "") << " H2 rate " << x << " pressures H2 " << ph << " O2 " << po << " H2O " << pw;
        c.check(VptFriend::tripped(l) == trip, "tripped", at); c.checkNear(VptFriend::volts(l), trip ? 0. : vc * cells, 1e-12, 0., "voltage", at); c.checkNear(VptFriend::heat(l), -4.86e7 * mol, 1e-9, 1e-12, "heat", at); const double big[3] = {old[0].mass, old[1].mass, old[2].mass};
        for (int k2 = 0; k2 < 3; ++k2) for (int i = 0; i < nt; ++i) { double w = 0.; if (k2 == 0 && i == h2) w = mol; if (k2 == 0 && i == h2o) w = -mol; if (k2 == 1 && i == o2) w = 0.5 * mol; c.checkNear(mass(now[k2], i) - mass(old[k2], i), w * prop(s.types[i])->getMWeight() * dt, 1e-7, 1e-11 * big[k2] + 2e-12 * dt, "react", S() << at << " node " << k2 << " fluid type " << (int)s.types[i]); }
        if (x < 0.) fc = true; if (x > 0.) el = true; if (trip) tripped = true; }
    if ((fc && el) || (tripped && (fc || el))) c.nontrivial();
}
FACET(membrane, 5000, 120000, "vapour crossed the membrane while fluid flowed past it, in both directions or with a limit or malfunction") {
    FSpec s = gasSpec(c, {FP::GUNNS_H2O}, 3, 290., 340.); const int nt = (int)s.types.size(), w = idx(s, FP::GUNNS_H2O); if (nt < 2) c.discard(); const bool even = c.b(0.5); for (int k = 0; k < 3; ++k) { if (even && k) s.nodes[k].P = s.nodes[0].P * c.r(0.95, 1.05); s.nodes[k].mf = genFractions(c, nt, k == 2 && c.b(0.2)); } FluidNet f(s, false); const double G = c.lr(1e-6, 1e-3), ab = c.b(0.1) ? 0. : c.lr(1e-8, 1e-3);
    GunnsFluidSelectiveMembrane l; l.initialize(GunnsFluidSelectiveMembraneConfigData("m", &f.nl, G, ab, FP::GUNNS_H2O, FP::GUNNS_H2O), GunnsFluidSelectiveMembraneInputData(false, 0.), f.links, 0, 1, 2); GunnsFluidSource drv; drv.initialize(GunnsFluidSourceConfigData("d", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); const double dt = c.pickOf<double>({0.1, 0.05}); double blk = 0., deg = 0., lastFlow = 0., lastFlux = 0., dem = 0.; bool in = false, out = false, odd = false; logFluid(c.log(), s);
    for (int k = 0, e = c.i(4, 25); k < e; ++k) {
        const std::vector<State> old = snapAll(f); const double m = std::min(old[0].mass, old[1].mass); switch (c.weighted({6, 3, 1, 1})) { case 1: dem = c.b(0.15) ? 0. : c.sr(1e-6, 1e-2) * m / dt; drv.setFlowDemand(dem); break; case 2: deg = c.b() ? 0. : c.r(-0.2, 1.2); l.setMalfMembraneDegrade(deg != 0., deg); break; case 3: blk = c.b() ? 0. : c.r(0., 1.); l.setMalfBlockage(blk > 0., blk); break; default: break; }
        const double pv[3] = {VptFriend::pv(l, 0), VptFriend::pv(l, 1), VptFriend::pv(l, 2)}; const int up = lastFlux < 0. ? 1 : 0, dn = 1 - up; const double pe = part(old[2], s, w, pv[2]), du = part(old[up], s, w, pv[up]) - pe, dd = part(old[dn], s, w, pv[dn]) - pe; double want = 0.; if (du * dd >= 0.) { want = du > 0. ? std::min(du * ab, 0.99 * std::fabs(lastFlow) * old[up].mf[w]) : dd * ab; want *= 1. - std::max(0., std::min(1., deg)); }
        if (!stepped(f, dt)) break; const double fl = VptFriend::flow(l), fx = VptFriend::flux(l), mf = VptFriend::mflow(l); bool ok = true; for (int q = 0; q < 3; ++q) if (f.nodes[q].getContent()->getMass() < 20. * (std::fabs(fl) + std::fabs(mf) + std::fabs(dem)) * dt || f.nodes[q].getContent()->getPressure() < 0.5 || mass(old[q], w) < 3. * (std::fabs(mf) + std::fabs(fl) * old[q].mf[w] + std::fabs(dem) * old[q].mf[w]) * dt) ok = false; if (!ok) break;
        const std::vector<State> now = snapAll(f); const std::string at = S() << "step " << k << " flow " << fl << " last " << lastFlow << " differences " << du << " and " << dd << " membrane flow " << mf << " degraded " << deg; if (std::fabs(du) > 1e-6 && std::fabs(dd) > 1e-6) c.checkNear(mf, want, 1e-6, 1e-15, "rate", at); double cross = std::fabs(mf) > 1e-14 ? mf : 0.; const int u2 = fx < 0. ? 1 : 0, d2 = 1 - u2;
        for (int i = 0; i < nt; ++i) { double d[3] = {0., 0., 0.}; d[u2] -= std::fabs(fl) * old[u2].mf[i]; d[d2] += std::fabs(fl) * old[u2].mf[i]; const double df = dem; const int a = df > 0. ? 1 : 0; d[a] -= std::fabs(df) * old[a].mf[i]; d[1 - a] += std::fabs(df) * old[a].mf[i]; if (i == w) { d[2] += cross; d[cross > 0. ? u2 : d2] -= cross; } for (int q = 0; q < 3; ++q) c.checkNear(mass(now[q], i) - mass(old[q], i), d[q] * dt, 1e-6, 1e-11 * now[q].mass + 5e-12 * dt, "transport", S() << at << " node " << q << " fluid type " << (int)s.types[i]); double tot = 0.; for (int q = 0; q < 3; ++q) tot += mass(now[q], i) - mass(old[q], i); c.checkNear(tot, 0., 0., 3e-11 * (now[0].mass + now[1].mass + now[2].mass) + 1e-12 * dt, "conserve", at); }
        // The vapour's latent heat goes with a change of phase only.
        const double Tu = old[up].T, T2 = old[2].T; const bool se = pe > prop(FP::GUNNS_H2O)->getSaturationPressure(T2), si = du > 0. ? du + pe > prop(FP::GUNNS_H2O)->getSaturationPressure(Tu) : dd + pe > prop(FP::GUNNS_H2O)->getSaturationPressure(old[dn].T); double q = 0.; if (du * dd >= 0. && se != si) { if (mf < 0.) q = prop(FP::GUNNS_H2O)->getHeatOfVaporization(T2) * mf * 1000. * (se ? -1. : 1.); else q = prop(FP::GUNNS_H2O)->getHeatOfVaporization(Tu) * mf * 1000. * (si ? -1. : 1.); } if (std::fabs(du) > 1e-6 && std::fabs(dd) > 1e-6) c.checkNear(VptFriend::mheat(l), q, 1e-6, 1e-9, "phase-heat", at);
        if (fl != 0. && mf > 0.) out = true; if (fl != 0. && mf < 0.) in = true; if (mf != 0. && (deg != 0. || blk != 0. || fl < 0. || (du > 0. && want < du * ab))) odd = true; lastFlow = fl; lastFlux = fx; }
    if ((in && out) || ((in || out) && odd)) c.nontrivial();
}
// A liquid water node beside a gas node with steam in it.
FACET(phase_change, 5000, 120000, "water was boiled and steam condensed, or the gas was a mixture or the link blocked") {
    FSpec s = gasSpec(c, {FP::GUNNS_H2O}, 2, 380., 450.); s.tcs.clear(); s.types.push_back(FP::GUNNS_WATER); c.shuffle(s.types); const int nt = (int)s.types.size(), w = idx(s, FP::GUNNS_WATER), g = idx(s, FP::GUNNS_H2O); for (int k = 0; k < 2; ++k) s.nodes[k].tc.clear(); FNode &L = s.nodes[0], &V = s.nodes[1]; L.vol = c.lr(0.1, 10.); L.T = c.r(285., 350.); L.P = c.lr(80., 400.); L.mf.assign(nt, 0.); L.mf[w] = 1.; V.P = c.lr(80., 400.); V.mf = genFractions(c, nt); V.mf[w] = 0.; if (c.b(0.4)) V.mf.assign(nt, 0.); V.mf[g] = std::max(V.mf[g], 0.2); { double t = 0.; for (int i = 0; i < nt; ++i) t += V.mf[i]; for (int i = 0; i < nt; ++i) V.mf[i] /= t; } V.vol = c.lr(1., 100.); 
    FluidNet f(s, false); double ef = c.b(0.2) ? 1. : c.r(-1., 1.), P = 0., blk = 0.; GunnsFluidPhaseChangeSource l; l.initialize(GunnsFluidPhaseChangeSourceConfigData("pc", &f.nl, FP::GUNNS_WATER, FP::GUNNS_H2O, ef), GunnsFluidPhaseChangeSourceInputData(false, 0., 0.), f.links, 0, 1); GunnsFluidConductor vent; vent.initialize(GunnsFluidConductorConfigData("v", &f.nl, 0.), GunnsFluidConductorInputData(), f.links, 0, 2); f.start(); const double dt = c.pickOf<double>({0.1, 0.05}); bool boil = false, cond = false, odd = false; logFluid(c.log(), s); const FP* lp = prop(FP::GUNNS_WATER); const FP* gp = prop(FP::GUNNS_H2O);
    for (int k = 0, e = c.i(3, 20); k < e; ++k) {
        const std::vector<State> old = snapAll(f); if (c.b(0.5)) { P = c.b(0.15) ? 0. : (c.b() ? 1. : -1.) * c.lr(1e-8, 1e-5) * std::min(old[0].mass, old[1].mass) / dt * 2.3e6; VptFriend::pin(l, P); } if (c.b(0.1)) { blk = c.b() ? 0. : c.r(0., 1.); l.setMalfBlockage(blk > 0., blk); }
        const double pl = VptFriend::pv(l, 0), pg = VptFriend::pv(l, 1), pw = P * ef * (1. - blk); if (pl < 40. || pl > 900. || pg < 40. || pg > 900.) break; double fl; if (pw > 0.) { const double ts = gp->getSaturationTemperature(pg); fl = pw / (lp->getSpecificEnthalpy(ts) - lp->getSpecificEnthalpy(old[0].T) + lp->getHeatOfVaporization(ts) * 1000.); } else { const double ts = lp->getSaturationTemperature(pl); PolyFluid* x = f.nodes[1].getContent(); fl = pw / (x->computeSpecificEnthalpy(old[1].T, pg) - x->computeSpecificEnthalpy(ts, pg) + gp->getHeatOfVaporization(ts) * 1000.); }
        if (!stepped(f, dt)) break; const std::vector<State> now = snapAll(f); if (mass(old[1], g) < 5. * std::fabs(fl) * dt) break; const std::string at = S() << "step " << k << " power " << pw << " pressures " << pl << " and " << pg; c.checkNear(VptFriend::power(l), pw, 1e-12, 0., "power", at); c.checkNear(VptFriend::flow(l), fl, 1e-9, 1e-18, "rate", at); c.checkNear(VptFriend::flux(l), fl / gp->getMWeight(), 1e-9, 1e-18, "flux", at); if (std::fabs(fl) < 1e-13) fl = 0.;
        for (int i = 0; i < nt; ++i) { c.checkNear(mass(now[0], i) - mass(old[0], i), i == w ? -fl * dt : 0., 1e-6, 1e-13 * now[0].mass + 2e-12 * dt, "liquid", S() << at << " fluid type " << (int)s.types[i]); c.checkNear(mass(now[1], i) - mass(old[1], i), i == g ? fl * dt : 0., 1e-6, 1e-13 * now[1].mass + 2e-12 * dt, "gas", S() << at << " fluid type " << (int)s.types[i]); }
        if (fl > 0.) boil = true; if (fl < 0.) cond = true; if (fl != 0. && (blk > 0. || ef < 0. || s.nodes[1].mf[g] < 1.)) odd = true; }
    if ((boil && cond) || ((boil || cond) && odd)) c.nontrivial();
}
// A pool of water in an accumulator, its node, and a gas node that takes the vapour.
FACET(evaporation, 5000, 120000, "the pool evaporated, and the vapour pressure, pool mass or blockage limited it") {
    FP::FluidType lt[1] = {FP::GUNNS_WATER}; std::vector<FP::FluidType> gt = {FP::GUNNS_H2O}; const FP::FluidType ex[] = {FP::GUNNS_N2, FP::GUNNS_O2}; for (int i = 0; i < 2; ++i) if (c.b(0.7)) gt.push_back(ex[i]); c.shuffle(gt); const int ng = (int)gt.size(), g = (int)(std::find(gt.begin(), gt.end(), FP::GUNNS_H2O) - gt.begin()); PolyFluidConfigData lc(&props(), lt, 1, 0), gc(&props(), &gt[0], ng, 0); GunnsFluidNode nodes[3]; GunnsNodeList nl; nl.mNumNodes = 3; nl.mNodes = nodes; std::vector<GunnsBasicLink*> links; Gunns net; GunnsFluidCapacitor capL, capG;
    double one[1] = {1.}; std::vector<double> mf = genFractions(c, ng); if (ng > 1 && c.b(0.7)) { mf[g] *= 0.01; double t = 0.; for (int i = 0; i < ng; ++i) t += mf[i]; for (int i = 0; i < ng; ++i) mf[i] /= t; } const double Tl = c.r(285., 345.), Tg = c.r(285., 345.), Pg = ng > 1 ? c.lr(20., 200.) : c.lr(1., 20.), Pl = c.lr(50., 300.), vol = c.lr(1e-3, 0.1), Vg = c.lr(0.1, 100.); PolyFluidInputData il(Tl, Pl, 0., 0., one), ig(Tg, Pg, 0., 0., &mf[0]);
    nodes[0].initialize("liquid", &lc, &il); nodes[1].initialize("gas", &gc, &ig); nodes[2].initialize("ground", &gc, &ig); net.initializeFluidNodes(nl); capL.initialize(GunnsFluidCapacitorConfigData("cl", &nl), GunnsFluidCapacitorInputData(false, 0., 1., &il), links, 0, 2); capG.initialize(GunnsFluidCapacitorConfigData("cg", &nl), GunnsFluidCapacitorInputData(false, 0., Vg, &ig), links, 1, 2);
    GunnsFluidAccum A; A.initialize(GunnsFluidAccumConfigData("a", &nl, c.lr(1e-6, 1e-4), 0.01, vol, 0.5, 1., 1., 0., 280., 370., 5000., c.r(1., 100.), c.lr(10., 100.), 0., 0., 1.), GunnsFluidAccumInputData(false, 0., c.r(0., 1.), &il, 0.), links, 2, 0); const double co = c.b(0.1) ? 0. : c.lr(1e-8, 1e-3), ex2 = c.b(0.3) ? 0. : c.r(-1., 2.), dt = c.pickOf<double>({0.1, 0.05}); GunnsFluidEvaporation ev; ev.initialize(GunnsFluidEvaporationConfigData("e", &nl, FP::GUNNS_H2O, co, ex2, &A), GunnsFluidEvaporationInputData(false, 0., Pg, 0., 0.), links, 0, 1); GunnsFluidSource dry; dry.initialize(GunnsFluidSourceConfigData("d", &nl), GunnsFluidSourceInputData(false, 0., 0.), links, 1, 2); net.initialize(GunnsConfigData("net", 1e-9, 1e-8, 1, 1), links);
    const FP* gp = prop(FP::GUNNS_H2O); double blk = 0., sf = 0.; bool some = false, lim = false, dryer = false; c.log() << "gas fluids " << ng << " coefficient " << co << " exponent " << ex2 << " pool volume " << vol << "\n";
    for (int k = 0, e = c.i(4, 25); k < e; ++k) {
        const State l0 = snap(*nodes[0].getContent()), g0 = snap(*nodes[1].getContent()); if (c.b(0.15)) { blk = c.b() ? 0. : c.r(-0.2, 1.2); ev.setMalfBlockage(blk != 0., blk); } if (c.b(0.2)) { sf = c.b(0.4) ? 0. : c.lr(1e-5, 1e-2) * g0.mass / dt; dry.setFlowDemand(sf); dryer = dryer || sf > 0.; }
        const double use = A.getUsableMass(), a0 = VptFriend::flu(A)->getMass(), pt = VptFriend::pv(ev, 1), pp = pt * g0.mf[g] * g0.MW / gp->getMWeight(), dp = gp->getSaturationPressure(g0.T) - pp; double want = 0.; const bool dryPool = use <= (double)FLT_EPSILON; if (!dryPool) want = std::min(std::max(dp, 0.) * co * std::pow(use, ex2) * (1. - std::max(0., std::min(1., blk))), use / dt * gp->getMWeight() / l0.MW); if (std::fabs(use - FLT_EPSILON) < 1e-9 || use < 0.) break; if (want * dt > 2e-3 * l0.mass || want * dt > 0.5 * g0.mass || g0.P < 0.1) break;
        try { net.step(dt); } catch (TsOutOfBoundsException&) { break; } const State l1 = snap(*nodes[0].getContent()), g1 = snap(*nodes[1].getContent()); const double a1 = VptFriend::flu(A)->getMass(), fl = VptFriend::flow(ev); const std::string at = S() << "step " << k << " pool " << use << " vapour pressure difference " << dp << " blockage " << blk << " drying " << sf; if (l1.P < 1.) break;
        const double fuzz = dryPool ? 0. : 1e-12 * (pp + dp) * co * std::pow(use, ex2); c.checkNear(fl, want, 1e-9, 1e-18 + fuzz, "rate", at); c.checkNear(VptFriend::dp(ev), dp, 1e-9, 1e-9 * (dp + 2. * pp), "vapour-potential", at); c.checkNear(VptFriend::power(ev), gp->getHeatOfVaporization(g0.T) * 1000. * want, 1e-9, 1e-12 + 3e6 * fuzz, "power", at); c.checkNear(VptFriend::flux(ev), want / gp->getMWeight(), 1e-9, 1e-18 + fuzz, "flux", at); const double mv = want > 1e-13 ? want : 0.;
        for (int i = 0; i < ng; ++i) c.checkNear(g1.mass * g1.mf[i] - g0.mass * g0.mf[i], (i == g ? mv * dt : 0.) - sf * g0.mf[i] * dt, 1e-6, 1e-11 * g1.mass + 2e-12 * dt, "gas", S() << at << " fluid type " << (int)gt[i]); c.checkNear(l1.mass + a1 - l0.mass - a0, -mv / gp->getMWeight() * l0.MW * dt, 1e-6, 1e-11 * (l1.mass + a1) + 2e-12 * dt, "pool", at);
        if (mv > 1e-12) c.checkNear(g1.T, g0.T, 0., 1e-7 + 1e-3 * (mv * dt / g1.mass) * g0.T, "vapour-temperature", S() << at << " pool at " << l0.T << " K");
        if (mv > 0.) some = true; if (mv > 0. && blk > 0.) lim = true; if (dp <= 0. || dryPool || (want > 0. && want * dt > 0.999 * use)) lim = true; }
    if (some && (lim || dryer)) c.nontrivial();
}
