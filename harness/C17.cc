// C17: self-acting valves follow their pressure characteristic.
#include "aspects/fluid/conductor/GunnsFluidValve.hh"
#include "aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.hh"
#include "aspects/fluid/conductor/GunnsFluidReliefValve.hh"
#include "aspects/fluid/conductor/GunnsFluidRegulatorValve.hh"
#include "aspects/fluid/conductor/GunnsFluidBalancedPrv.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayCheckValve.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    typedef GunnsFluidPressureSensitiveValve PS; \
    static double& pv(GunnsBasicLink& l, int i) { return l.mPotentialVector[i]; } static double drop(const GunnsBasicLink& l) { return l.mPotentialDrop; } static void setDrop(GunnsBasicLink& l, double d) { l.mPotentialDrop = d; } \
    static double minLin(const GunnsFluidLink& l) { return l.mMinLinearizationPotential; } static double minLin(const PS& l) { return l.mMinLinearizationPotential; } static double minLin(const GunnsFluidConductor& l) { return l.mMinLinearizationPotential; } \
    static double pos(const PS& l) { return l.mPosition; } static double ctl(const PS& l) { return l.mControlPressure; } static double eff(const PS& l) { return l.mEffectiveConductivity; } static double& maxG(PS& l) { return l.mMaxConductivity; } static double& bias(PS& l) { return l.mSetPointPressureBias; } static double sys(const PS& l) { return l.mSystemConductance; } \
    static void tune(PS& l, int m, double v) { l.mTuneMode = (GunnsFluidUtils::TuningMode)m; if (m == GunnsFluidUtils::MASS) l.mTuneMassFlow = v; else l.mTuneVolFlow = v; } \
    static double vpos(const GunnsFluidValve& l) { return l.mPosition; } static double pos3(const GunnsFluid3WayValve& l) { return l.mPosition; } static GunnsFluidValve& a(GunnsFluid3WayValve& l) { return l.mPathA; } static GunnsFluidValve& b(GunnsFluid3WayValve& l) { return l.mPathB; } \
    static double prvReg(const GunnsFluidBalancedPrv& l) { return l.mRegulatedPressure; } static double prvIn(const GunnsFluidBalancedPrv& l) { return l.mInletFlowRate; } static double prvBuf(const GunnsFluidBalancedPrv& l) { return l.mInletMassBuffer; } static bool prvCut(const GunnsFluidBalancedPrv& l) { return l.mBackPressureCutoff; } static void prvSet(GunnsFluidBalancedPrv& l, double v) { l.mPressureSetpoint = v; } static double prvInFlux(const GunnsFluidBalancedPrv& l) { return l.mInletFlux; }
#include "fluidnet.hh"
using namespace fn;
static double law(double g, const State& a, const State& b, double minLin) { const double mw = a.MW < 1e-15 ? b.MW : b.MW < 1e-15 ? a.MW : 0.5 * (a.MW + b.MW), dp = std::max(minLin, std::fabs(a.P - b.P)); return mw < 1e-15 ? 0. : g * std::pow(0.5 * (a.rho + b.rho) * 1000. * dp, 0.5) / dp / mw; }
static double predict(double mdot, const State& a, const State& b, double minLin) { double dp = std::fabs(a.P - b.P); if (dp < 1e-15) return 0.; dp = std::max(dp, minLin); return std::fabs(mdot) / std::pow(1000. * dp * 0.5 * (a.rho + b.rho), 0.5); }
static State out(FluidNet& f, int k) { if (k < f.n()) return snap(*f.nodes[k].getContent()); State g = snap(*f.nodes[0].getContent()); g.P = g.rho = g.MW = g.mass = g.moles = 0.; return g; }
static FSpec some(Case& c, int lo, int hi, bool gasOnly = false) {
    FOpt o; o.maxN = 1; o.maxLinks = 1; o.zeroVol = false; o.liquids = !gasOnly; FSpec s = genFluid(c, o); s.links.clear(); const int n = c.i(lo, hi);
    while (s.n() < n) { FNode x = s.nodes[0]; x.T = c.r(s.Tlo + 20., s.Thi - 20.); x.P = s.gas ? c.lr(1., 1e3) : c.lr(50., 1e3); x.vol = c.lr(0.05, 100.); x.mf = genFractions(c, (int)s.types.size()); s.nodes.push_back(x); }
    for (int k = 0; k < s.n(); ++k) s.nodes[k].vol = std::max(0.05, s.nodes[k].vol);
    return s;
}
static double clamp01(double x) { return std::min(1., std::max(0., x)); }
// The opening of a two-slope valve: from `start` to `full`, first to the pop position at `scale` times the plain slope.
static double curve(double P, double start, double full, double pop, double scale) {
    const double m = scale / (full - start), popP = start + pop / m; return clamp01(full > start ? (P <= popP ? (P - start) * m : pop + (1. - pop) * (P - popP) / (full - popP)) : (P >= popP ? (P - start) * m : pop + (1. - pop) * (P - popP) / (full - popP)));
}

// ---- Relief and regulator valves: hysteresis between an opening and a closing curve, with rate limit and malfunctions.
FACET(prv, 20000, 500000, "the valve was part open, moved both ways and held inside the hysteresis band") {
    FSpec s = some(c, 1, 3); FluidNet f(s, false); const int n = s.n(); const bool relief = c.b(), poke = c.b(0.8); const int p0 = c.i(0, n - 1), p1 = n > 1 && c.b(0.8) ? (p0 + 1) % n : n; int q0 = n, q1 = n; if (!poke) { q0 = c.b(0.7) ? p0 : c.i(0, n); q1 = c.b(0.5) || q0 == n ? n : (q0 + 1) % n; if (q0 == n) q0 = 0; if (q1 == q0) q1 = n; }
    const double G = s.gas ? c.lr(1e-8, 1e-4) : c.lr(1e-9, 1e-6), rate = c.b(0.4) ? 1000. : c.lr(0.02, 5.), base = c.lr(1., 500.), w1 = c.lr(0.05, 1.) * base, w2 = c.lr(0.05, 1.) * base, pop = c.r(0.02, 0.98), scale = c.b(0.3) ? 1. : c.r(1., 5.);
    const double reseat = relief ? base : base + w1 + w2, crack = relief ? base + w1 : base + w2, full = relief ? base + w1 + w2 : base, c0 = c.b(0.6) ? 0. : c.sr(0.1, 5.), c1 = c.b(0.7) ? 0. : c.sr(1e-3, 0.3); double sp = c.b(0.6) ? 0. : c.sr(0.1, 20.), mb = 0.; bool bias = false; double pos = c.weighted({5, 2, 2}) == 0 ? 0. : c.b() ? 1. : c.r(0., 1.);
    std::unique_ptr<GunnsFluidPressureSensitiveValve> L; GunnsFluidReliefValve* rv = 0; GunnsFluidRegulatorValve* gv = 0;
    if (relief) { L.reset(rv = new GunnsFluidReliefValve); rv->initialize(GunnsFluidReliefValveConfigData("v", &f.nl, G, 0., rate, 0., 0., 0., reseat, crack, full, pop, scale, c0, c1), GunnsFluidReliefValveInputData(false, 0., pos, false, 0., false, 0., sp), f.links, p0, p1, q0, q1); }
    else { L.reset(gv = new GunnsFluidRegulatorValve); gv->initialize(GunnsFluidRegulatorValveConfigData("v", &f.nl, G, 0., rate, 0., 0., 0., reseat, crack, full, pop, scale, c0, c1), GunnsFluidRegulatorValveInputData(false, 0., pos, false, 0., false, 0., sp), f.links, p0, p1, q0, q1); }
    f.start(); c.log() << (relief ? "relief" : "regulator") << " reseat " << reseat << " crack " << crack << " full " << full << " pop " << pop << " scale " << scale << " rate " << rate << " start " << pos << "\n";
    const double sg = relief ? 1. : -1., top = std::max(std::max(reseat, full), crack), ml = VptFriend::minLin(*L); bool synced = false, stuck = false, fail = false, leak = false, blk = false; double failV = 0., leakV = 0., leakKey = 0., leakG = 0., blkV = 0., maxG = G; int sat = 0; bool up = false, down = false, held = false, part = false; double X = c.r(0., 1.3 * top); int tune = 0; double tuneV = 0.;
    for (int t = 0, m = c.i(8, 40); t < m; ++t) {
        const double dt = c.pickOf<double>({0.1, 0.05, 0.5});
        switch (c.weighted({12, 1, 1, 1, 1, 1, 1, 1})) {
            case 1: stuck = c.b(0.6); L->setMalfStuck(stuck); break; case 2: fail = c.b(0.6); failV = c.r(-0.2, 1.2); L->setMalfFailTo(fail, failV); break; case 3: leak = c.b(0.6); if (leak && !(c.b(0.4) && leakV > 0.)) leakV = c.lr(1e-7, 1e-3); L->setMalfLeakThru(leak, leakV); break; case 4: bias = c.b(); mb = c.sr(0.1, 30.); L->setMalfPressureBias(bias, mb); break; case 5: blk = c.b(); blkV = c.b(0.3) ? 1. : c.r(0., 1.); L->setMalfBlockage(blk, blkV); break; case 6: VptFriend::bias(*L) = sp = c.sr(0.1, 20.); break; case 7: if (c.b(0.3)) { tune = c.pickOf<int>({(int)GunnsFluidUtils::MASS, (int)GunnsFluidUtils::TRUE_VOL, (int)GunnsFluidUtils::STD_VOL}); tuneV = c.sr(1e-7, 1e-3); VptFriend::tune(*L, tune, tuneV); } break; default: break; }
        const State a = out(f, p0), b = out(f, p1); if ((leak || tune) && std::fabs(a.P - b.P) <= 1e-6 * std::max(1e-3, std::max(a.P, b.P))) return; if (tune == GunnsFluidUtils::TRUE_VOL && (tuneV < 0. ? p1 : p0) == n) return;
        const double inlet = VptFriend::pv(*L, 0), offset = (bias ? mb : 0.) - sp - (c0 + c1 * inlet); if (poke) { switch (c.weighted({3, 3, 2, 2})) { case 0: X = c.r(0., 1.3 * top); break; case 1: X += c.sr(1e-3, 0.2) * top; break; case 2: break; default: X = c.pickOf<double>({reseat, crack, full}) + c.pickOf<double>({-1., 0., 1.}) * 1e-6 * top; } const double split = c.b() ? 0. : c.r(0., 100.); VptFriend::pv(*L, 2) = X - offset + split; VptFriend::pv(*L, 3) = split; }
        const double P = VptFriend::pv(*L, 2) - VptFriend::pv(*L, 3) + offset; const double lo = curve(P, crack, full, pop, scale), hi = curve(P, reseat, full, pop, scale), old = pos, md = rate * dt;
        f.net.step(dt); const double now = VptFriend::pos(*L); const std::string at = S() << (relief ? "relief" : "regulator") << " step " << t << " control pressure " << P << " (reseat " << reseat << " crack " << crack << " full " << full << "), position " << old << " to " << now << ", opening curve " << lo << ", closing curve " << hi;
        c.checkNear(VptFriend::ctl(*L), P, 1e-9, 1e-9 * top, "control-pressure", at); c.check(now >= 0. && now <= 1., "range", at); c.check(hi >= lo - 1e-12, "curves", at); const double tol = 1e-7 + 1e-9 * top / std::min(w1, w2) * scale / (1. - pop) / pop;
        if (stuck) { c.check(now == old, "stuck", at); synced = false; } else if (fail) { c.check(now == clamp01(failV), "fail-to", at); synced = false; }
        else { c.check(std::fabs(now - old) <= md + 1e-12, "rate", at); double want = old; if (old < lo) want = std::min(lo, old + md); else if (old > hi) want = std::max(hi, old - md);
            if (synced) { const double near = 1e-9 * top; (void)near; c.check(std::fabs(now - want) <= tol, "hysteresis", S() << at << ", expected " << want); if (old > lo + 1e-3 && old < hi - 1e-3) held = true; } else if (old < lo) c.check(now >= std::min(lo, old + md) - tol && now <= hi + tol, "opens", at); else if (old > hi) c.check(now <= std::max(hi, old - md) + tol && now >= lo - tol, "closes", at); else c.check(now >= lo - tol && now <= hi + tol, "band", at);
            if (now > old) up = true; if (now < old) down = true; }
        if (now > 0.01 && now < 0.99) part = true; pos = now; // two steps closed below reseat, or open beyond full, forget the history
        sat = !stuck && !fail && ((sg * P < sg * reseat && now == 0.) || (sg * P > sg * full && now == 1.)) ? (sat > 0 || sat < 0 ? sat : 0) + (now == 1. ? 1 : -1) : 0; if (std::abs(sat) >= 2) synced = true;
        if (leak) { if (leakKey != leakV) { leakG = predict(leakV, a, b, ml); leakKey = leakV; } } else leakG = leakKey = 0.; double e = std::max(maxG * now, leakG);
        if (tune) { const double mm = tune == GunnsFluidUtils::MASS ? tuneV : tune == GunnsFluidUtils::STD_VOL ? tuneV * UnitConversion::STD_DENSITY_AIR : tuneV >= 0. ? tuneV * a.rho : tuneV * b.rho; maxG = predict(mm, a, b, ml); e = maxG; blk = false; tune = 0; } if (blk) e *= 1. - blkV;
        c.checkNear(VptFriend::maxG(*L), maxG, 1e-9, 1e-30, "max-conductivity", at); c.checkNear(VptFriend::eff(*L), e, 1e-9, 1e-30, "conductivity", at); const double A = std::min(law(e, a, b, ml), 1e15); c.checkNear(VptFriend::sys(*L), A, 1e-9, 1e-30, "conductance", at); c.checkNear(VptFriend::admittance(*L), A, 1e-9, 1e-30, "admittance", at);
        const double flux = VptFriend::flux(*L), dp = VptFriend::pv(*L, 0) - VptFriend::pv(*L, 1), big = std::max(VptFriend::pv(*L, 0), VptFriend::pv(*L, 1)); if (std::fabs(dp) > 1e-12 * big) c.checkNear(flux, A * dp, 1e-9, 1e-30, "flux", at); c.check(flux == 0. || flux * dp > 0., "direction", at); if (e == 0.) c.check(flux == 0. && VptFriend::flow(*L) == 0., "closed", at);
        const int from = flux > 0. ? p0 : p1; if (from != n && std::fabs(flux) * dt < 0.5 * snap(*f.nodes[from].getContent()).moles) c.checkNear(VptFriend::flow(*L), flux * (flux > 0. ? a.MW : b.MW), 1e-9, 1e-30, "mass-flow", at); for (int i = 8; i < 16; ++i) c.check(L->getAdmittanceMatrix()[i] == 0., "control-port", "a control port has conductance");
    }
    c.label(relief ? "relief" : "regulator"); if (part && up && down && (held || !poke)) c.nontrivial();
}

// ---- Three-way check valve: position from the difference of the path pressure drops.
FACET(threewayCheck, 8000, 200000, "both paths led at some time with part positions") {
    FSpec s = some(c, 3, 3, true); FluidNet f(s, false); const bool posB = c.b(), natural = c.b(0.3); const double ga = c.lr(1e-8, 1e-4), gb = c.lr(1e-8, 1e-4), dead = c.b(0.2) ? 0. : c.lr(0.01, 10.), oa = dead + c.lr(0.01, 100.), ob = c.b(0.3) ? oa : dead + c.lr(0.01, 100.), rate = c.b(0.4) ? 1000. : c.lr(0.02, 5.); double pos = c.r(0., 1.);
    GunnsFluid3WayCheckValve v; v.initialize(GunnsFluid3WayCheckValveConfigData("v", &f.nl, posB, ga, gb, 0., 0., 0., 0., 0., 0., 0., 0., rate, oa, ob, dead), GunnsFluid3WayCheckValveInputData(pos), f.links, 0, 1, 2); f.start(); bool stuck = false, fail = false, A = false, B = false; double failV = 0., a = 0., b = 0.; GunnsFluidValve &va = VptFriend::a(v), &vb = VptFriend::b(v);
    for (int t = 0, m = c.i(2, 20); t < m; ++t) {
        const double dt = c.pickOf<double>({0.1, 0.05, 0.5}); switch (c.weighted({10, 1, 1})) { case 1: stuck = c.b(); v.setMalfStuck(stuck); break; case 2: fail = c.b(); failV = c.r(-0.2, 1.2); v.setMalfFailTo(fail, failV); break; default: break; }
        if (natural) { a = VptFriend::drop(va); b = VptFriend::drop(vb); } else { const int k = c.i(0, 3); const double top = 1.5 * std::max(oa, ob); if (k != 1) a = c.b(0.3) ? -c.r(0., top) : c.r(0., top); if (k != 2) b = c.b(0.3) ? -c.r(0., top) : c.r(0., top); if (k == 3) b = a + dead * c.r(-1.5, 1.5); VptFriend::setDrop(va, a); VptFriend::setDrop(vb, b); }
        const double old = pos; if (!stuck) { if (fail) pos = clamp01(failV); else if (!(a < 0. && b < 0.)) { double open = std::fabs(a - b) < dead ? 0.5 : a > b ? std::min(1., 0.5 + 0.5 * (a - b - dead) / (oa - dead)) : std::max(0., 0.5 - 0.5 * (b - a - dead) / (ob - dead)); if (a == b) open = 0.5; if (posB) open = 1. - open; if (a == b && dead == 0.) open = pos; pos = std::min(std::min(1., old + rate * dt), std::max(std::max(0., old - rate * dt), open)); } }
        if (std::fabs(std::fabs(a - b) - dead) < 1e-9 * std::max(std::fabs(a), std::fabs(b))) pos = VptFriend::pos3(v);
        const bool tie = a == b && dead == 0.; f.net.step(dt); const double now = VptFriend::pos3(v), pa = VptFriend::vpos(va), pb = VptFriend::vpos(vb); const std::string at = S() << "step " << t << " drops " << a << ", " << b << " (open at " << oa << ", " << ob << ", dead band " << dead << "): position " << old << " to " << now << ", paths " << pa << " and " << pb;
        c.check(now >= 0. && now <= 1., "range", at); if (!tie && std::fabs(std::fabs(a - b) - dead) >= 1e-9 * std::max(std::fabs(a), std::fabs(b))) c.checkNear(now, pos, 1e-9, 1e-9, "position", at); pos = now; c.checkNear(pa, posB ? 1. - now : now, 1e-12, 1e-12, "path-a", at); c.checkNear(pa + pb, 1., 1e-12, 0., "sum", at); if (now > 0.01 && now < 0.99) { if (a > b + dead) A = true; if (b > a + dead) B = true; }
        if (!stuck && !fail && !(a < 0. && b < 0.) && std::fabs(now - old) < rate * dt * 0.999) { if (a - b >= oa) c.check(pa == 1. && pb == 0., "fully-a", at); if (b - a >= ob) c.check(pb == 1. && pa == 0., "fully-b", at); }
    }
    if (A && B) c.nontrivial();
}

static bool raw_ok(double sum, double buf, bool clipped) { return clipped ? buf >= sum - 1e-12 : std::fabs(sum - buf) <= 1e-9 * std::max(1e-6, buf) + 1e-11; }
// ---- Balanced pressure reducing valve: exit pressure droops from the regulated pressure; what leaves is taken from the inlet.
FACET(balanced, 6000, 150000, "the valve flowed, and was cut off or limited at some time") {
    FSpec s = some(c, 2, 3, true); FluidNet f(s, false); const int n = s.n(), p2 = n == 3 && c.b(0.7) ? 2 : n; const double droop = c.b(0.1) ? 0. : c.lr(1e-2, 1e5); double sp = c.lr(1., 500.); GunnsFluidBalancedPrv v; v.initialize(GunnsFluidBalancedPrvConfigData("v", &f.nl, droop), GunnsFluidBalancedPrvInputData(false, 0., false, 0., sp), f.links, 0, 1, p2);
    std::unique_ptr<GunnsFluidConductor> vent; if (c.b(0.6)) { vent.reset(new GunnsFluidConductor); vent->initialize(GunnsFluidConductorConfigData("o", &f.nl, c.lr(1e-8, 1e-5)), GunnsFluidConductorInputData(false, 0.), f.links, 1, n); } f.start(); bool blk = false, bias = false, cut = false, flowed = false, limited = false, clipped = false, backflow = false; double blkV = 0., mb = 0., buf = 0., sum = 0.; const int m = c.i(3, 30);
    for (int t = 0; t < m; ++t) {
        const double dt = c.pickOf<double>({0.1, 0.05, 0.2}); switch (c.weighted({8, 1, 1, 1})) { case 1: sp = c.b(0.2) ? 0. : c.lr(1., 500.); v.setPressureSetpoint(sp); break; case 2: bias = c.b(); mb = c.sr(0.1, 50.); v.setMalfPressureBias(bias, mb); break; case 3: blk = c.b(); blkV = c.b(0.3) ? 1. : c.r(0., 1.); v.setMalfBlockage(blk, blkV); break; default: break; }
        const double P0 = VptFriend::pv(v, 0), P1 = VptFriend::pv(v, 1), P2 = VptFriend::pv(v, 2); if (P1 > P0) cut = true; else if (P1 < sp) cut = false; const double reg = std::min(P0, sp + P2 + (bias ? mb : 0.)); const State a = out(f, 0); if (reg < P1) limited = true; if (a.mass < 1e-6) return;
        double g = cut ? 0. : 1. / a.MW / std::max((double)FLT_EPSILON, std::min(droop, 1. / FLT_EPSILON)); if (blk) g *= 1. - blkV; const double in = P0 > 1e-15 ? std::min(1e15, 0.2 * buf / dt / a.MW / P0) : 0.;
        f.net.step(dt); const std::string at = S() << "step " << t << " inlet " << P0 << " exit " << P1 << " reference " << P2 << " set point " << sp << " droop " << droop << (cut ? " cut off" : ""); c.checkNear(VptFriend::prvReg(v), reg, 1e-9, 1e-9, "regulated", at); c.check(VptFriend::prvCut(v) == cut, "cut-off", at);
        const double n0 = VptFriend::pv(v, 0), n1 = VptFriend::pv(v, 1), flux = VptFriend::flux(v), influx = VptFriend::prvInFlux(v); if ((reg - n1) * g < -1e-9 * g * std::max(std::fabs(reg), std::fabs(n1)) - 1e-14) { backflow = true; c.check(flux == 0., "backward", at); } else c.checkNear(flux, std::max(0., (reg - n1) * g), 1e-9, 1e-9 * g * std::max(std::fabs(reg), std::fabs(n1)) + 1e-14, "droop", at); c.checkNear(influx, std::max(0., n0 * in), 1e-9, 1e-20, "inlet", at); if (flux > 0.) c.check(n1 <= reg + 1e-9, "above", at); if (cut) c.check(flux == 0., "closed", at);
        const State z = out(f, 0); if (influx > 0.) { const double out0 = VptFriend::prvIn(v); c.checkNear(out0, a.MW * influx, 1e-6, 1e-20, "inlet-mass", at); c.checkNear(a.mass - z.mass, out0 * dt, 1e-6, 1e-11 * a.mass + 2e-13 * dt, "inlet-node", at); } const double fr = VptFriend::flow(v); c.checkNear(fr, a.MW * flux, 1e-6, 1e-20, "exit-mass", at);
        const double raw = buf + (fr - VptFriend::prvIn(v)) * dt; if (raw < 2e-15) clipped = true; buf = raw < 2.3e-16 ? 0. : raw; c.checkNear(VptFriend::prvBuf(v), buf, 1e-9, 1e-14, "owed", at); buf = VptFriend::prvBuf(v); sum += (fr - VptFriend::prvIn(v)) * dt; if (flux > 0.) flowed = true; c.check(buf >= 0., "owed", at); }
    c.check(raw_ok(sum, buf, clipped), "conservation", S() << "let out " << sum << " kg more than it took in, owes " << buf);
    if (flowed && (limited || cut)) c.nontrivial();
    if (backflow) { if (c.isKnown("prv-backflow")) c.known("prv-backflow"); c.fail("phantom-flow", "the exit node is drained in the solution by a valve which reports no flow"); }
}

// ---- Check valves in whole networks: once settled, nothing goes backward.
FACET(check, 6000, 150000, "a check valve closed after having been open") {
    FOpt o; o.maxN = 5; o.maxLinks = 8; o.zeroVol = c.b(); FSpec s = genFluid(c, o); bool any = false; for (size_t q = 0; q < s.links.size(); ++q) any = any || s.links[q].type == CHK; if (!any) { FLink l; l.type = CHK; l.p0 = 0; l.p1 = s.n() > 1 ? 1 : s.n(); l.open = c.r(0.1, 5.); l.close = l.open * c.r(0., 1.); l.a = 1e-6; s.links.push_back(l); }
    FluidNet f(s); std::vector<double> drop(s.links.size(), 1e9); std::vector<char> was(s.links.size(), 0); bool closed = false;
    for (int t = 0, m = c.i(3, 15); t < m; ++t) { if (c.b(0.3)) { FSpec z = s; for (size_t q = 0; q < z.links.size(); ++q) if (z.links[q].type != CHK) { params(c, z.links[q], z, o); } f.apply(z); }
        f.net.step(0.1); for (size_t q = 0; q < s.links.size(); ++q) { if (s.links[q].type != CHK) continue; GunnsFluidValve* v = dynamic_cast<GunnsFluidValve*>(f.user[q]); const double x = VptFriend::vpos(*v), w = drop[q] >= s.links[q].open ? 1. : drop[q] <= s.links[q].close ? 0. : (drop[q] - s.links[q].close) / (s.links[q].open - s.links[q].close); const std::string at = S() << "step " << t << " link " << q << " drop before " << drop[q] << " close " << s.links[q].close << " open " << s.links[q].open << " position " << x;
            if (drop[q] < 1e8) { c.checkNear(x, w, 1e-9, 1e-9, "position", at); if (drop[q] <= s.links[q].close) { c.check(VptFriend::flux(*v) == 0. && VptFriend::flow(*v) == 0., "reverse", S() << at << " flow " << VptFriend::flow(*v)); if (was[q]) closed = true; } } was[q] = x > 0.; drop[q] = VptFriend::drop(*v); } }
    if (closed) c.nontrivial();
}

// ---- Wrong configurations are refused.
FACET(config, 4000, 80000, "a wrong configuration") {
    FSpec s = some(c, 3, 3, true); FluidNet f(s, false); const int kind = c.i(0, 4), bad = c.i(0, 9); const double base = 100., w = 10.; double re = kind == 0 ? base : base + 2 * w, cr = base + w, fu = kind == 0 ? base + 2 * w : base, pop = 0.5, sc = 1.5, G = 1e-6, rate = 1., pos = 0.5, ex = 0., leak = 0., wall = 300., fail = 0.5; bool wrong = false, threw = false; const double e = c.pickOf<double>({1e-3, 1., 1e3}), h = c.b() ? -e : 1. + e;
    if (kind < 2) { if (bad == 1) { (kind == 0 ? re : fu) = -e; wrong = true; } if (bad == 2) { cr = re; wrong = true; } if (bad == 3) { cr = fu; wrong = true; } if (bad == 4) { pop = c.pickOf<double>({0., 1., -e, 1. + e}); wrong = true; } if (bad == 5) { sc = 1. - e; wrong = true; } if (bad == 6) { G = -e; wrong = true; } if (bad == 7) { rate = -e; wrong = true; } if (bad == 8) { pos = h; wrong = true; } if (bad == 9) { const int k = c.i(0, 3); if (k == 0) ex = h; if (k == 1) leak = -e; if (k == 2) wall = -e; if (k == 3) fail = h; wrong = true; } }
    try { if (kind == 0) { GunnsFluidReliefValve v; v.initialize(GunnsFluidReliefValveConfigData("v", &f.nl, G, ex, rate, 0., 0., 0., re, cr, fu, pop, sc), GunnsFluidReliefValveInputData(false, 0., pos, false, leak, false, 0., 0., wall, false, false, fail), f.links, 0, 1, 0, 2); }
        else if (kind == 1) { GunnsFluidRegulatorValve v; v.initialize(GunnsFluidRegulatorValveConfigData("v", &f.nl, G, ex, rate, 0., 0., 0., re, cr, fu, pop, sc), GunnsFluidRegulatorValveInputData(false, 0., pos, false, leak, false, 0., 0., wall, false, false, fail), f.links, 0, 1, 0, 2); }
        else if (kind == 2) { double d = 1., sp = 1.; if (bad == 1) { d = -e; wrong = true; } if (bad == 2) { sp = -e; wrong = true; } GunnsFluidBalancedPrv v; v.initialize(GunnsFluidBalancedPrvConfigData("v", &f.nl, d), GunnsFluidBalancedPrvInputData(false, 0., false, 0., sp), f.links, 0, 1, 2); }
        else if (kind == 3) { double r = 1., cl = 1., op = 2., fl = 0.5; if (bad == 1) { r = -e; wrong = true; } if (bad == 2) { op = cl - e; wrong = true; } if (bad == 3) { fl = h; wrong = true; } GunnsFluidCheckValve v; v.initialize(GunnsFluidCheckValveConfigData("v", &f.nl, 1e-6, 0., 0., 0., 0., r, cl, op), GunnsFluidCheckValveInputData(false, 0., 0., false, 0., 300., false, false, fl), f.links, 0, 1); }
        else { double r = 1., oa = 2., ob = 3., fl = 0.5, d = 1.; if (bad == 1) { r = -e; wrong = true; } if (bad == 2) { oa = c.b() ? 1. : 0.5; wrong = true; } if (bad == 3) { ob = c.b() ? 1. : 0.5; wrong = true; } if (bad == 4) { fl = h; wrong = true; } GunnsFluid3WayCheckValve v; v.initialize(GunnsFluid3WayCheckValveConfigData("v", &f.nl, false, 1e-6, 1e-6, 0., 0., 0., 0., 0., 0., 0., 0., r, oa, ob, d), GunnsFluid3WayCheckValveInputData(0.5, 300., 300., false, false, fl), f.links, 0, 1, 2); }
    } catch (const TsInitializationException&) { threw = true; }
    c.check(threw == wrong, "validate", S() << "valve " << kind << " configuration " << bad << (threw ? " refused" : " accepted")); f.links.clear(); if (wrong) c.nontrivial();
}
