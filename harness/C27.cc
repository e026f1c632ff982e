// C27: photovoltaic strings, sections, arrays and their regulators.
// vpt: san
#include "elec.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvString.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvString2.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvSection.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvArray.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegShunt.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegConv.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegTrips.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegSensors.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <memory>
class VptFriend { public:
    static double flux(const GunnsBasicLink& l) { return l.mFlux; }
    static double vs(const GunnsElectPvString& s) { return s.mSeriesVoltageDrop; } static int active(const GunnsElectPvString& s) { return s.mNumActiveCells; } static int bypassed(const GunnsElectPvString& s) { return s.mNumBypassedGroups; }
    static double secPower(const GunnsElectPvSection& s) { return s.mTerminalPower; } static const GunnsElectPvStringInputData* in(const GunnsElectPvSection& s) { return &s.mStringsInput; }
    static double insol(const GunnsElectPvArray& a) { return a.mPercentInsolation; }
#define GET(T, f, m) static double f(const T& r) { return r.m; }
    GET(GunnsElectPvRegConv, in, mInputPower) GET(GunnsElectPvRegConv, out, mOutputPower) GET(GunnsElectPvRegConv, waste, mWasteHeat) GET(GunnsElectPvRegConv, vreg, mRegulatedVoltage) static int state(const GunnsElectPvRegConv& r) { return r.mState; }
    GET(GunnsElectPvRegShunt, in, mInputPower) GET(GunnsElectPvRegShunt, out, mOutputPower) GET(GunnsElectPvRegShunt, waste, mWasteHeat) GET(GunnsElectPvRegShunt, vreg, mRegulatedVoltage) GET(GunnsElectPvRegShunt, shunt, mShuntPower) GET(GunnsElectPvRegShunt, bulk, mPvBulkPowerAvail) static int state(const GunnsElectPvRegShunt& r) { return r.mState; }
    static void power(GunnsElectPvRegConv& r, bool f) { r.mPowered = f; } static void power(GunnsElectPvRegShunt& r, bool f) { r.mPowered = f; }
    static void reset(GunnsElectPvRegConv& r) { r.mResetTrips = true; } static void reset(GunnsElectPvRegShunt& r) { r.mResetTrips = true; }
};
namespace {
// ---- version 1: a string is a source with a shunt, an ideal junction diode and series losses, so its curve is the lower of two lines.
struct Str1 { double block, bypass; int interval, groups; double area, eff, rs, rsh, voc, tref, cv, ci; int n() const { return interval * groups; }
    void gen(Case& c) { block = c.b(0.3) ? 0. : c.r(0.1, 1.5); bypass = c.b(0.3) ? 0. : c.r(0.1, 1.5); interval = c.i(1, 12); groups = c.i(1, 12); area = c.lr(1e-4, 0.02); eff = c.b(0.1) ? 1. : c.r(0.05, 0.35); voc = c.r(0.3, 2.5); tref = c.r(250, 320);
        cv = c.b(0.3) ? 0. : -c.lr(1e-4, 5e-3); ci = c.b(0.3) ? 0. : c.lr(1e-5, 2e-3); const double isc = 1000. * area * eff / voc; rs = std::max(1e-4, voc / isc * c.lr(1e-4, 0.05)); rsh = n() * voc / isc * c.lr(2, 1e4); }
    void put(GunnsElectPvStringConfigData& d) const { GunnsElectPvStringConfigData x(block, bypass, interval, n(), area, eff, rs, rsh, voc, tref, cv, ci); d = x; } };
struct Env { double flux, exposed, T; };
struct Malf { bool group, deg; int ngroup; double degv; Malf() : group(false), deg(false), ngroup(0), degv(0.) {} };
struct Ref1 { double vsh, vs, rs, rsh, il; int act, byp; double isc() const { return act > 0 ? std::max(0., (il * rsh - vs) / (rsh + rs)) : 0.; } double voc() const { return vsh - vs + il * rsh / 1e6; }
    double I(double V) const { if (act < 1) return 0.; return std::max(0., std::min((vsh - vs - V) / rs, (il * rsh - vs - V) / (rsh + rs))); }
    double imp() const { return il - vsh / rsh; } double vmp() const { return vsh - vs - imp() * rs; } double pmp() const { return act > 0 && imp() > 0. && vmp() > 0. ? imp() * vmp() : 0.; } };
Ref1 model(const Str1& s, const Env& e, const Malf& m) {
    Ref1 r; int byp = (int)std::ceil(s.groups * (1. - std::min(1., std::max(0., e.exposed)))); if (m.group) byp = std::max(byp, std::min(s.groups, std::max(0, m.ngroup))); r.byp = byp; r.act = s.n() - byp * s.interval;
    const double dT = e.T - s.tref; r.rsh = std::max(1e-6, s.rsh); r.vsh = r.act * s.voc * std::max(0., 1. + dT * s.cv); r.rs = std::max(1e-6, r.act * s.rs); r.vs = s.block + byp * s.bypass;
    double p = e.flux * r.act * s.area * s.eff * std::max(0., 1. + dT * s.ci); if (m.deg) p *= std::min(1., std::max(0., 1. - m.degv)); r.il = r.vsh > DBL_EPSILON ? p / r.vsh : 0.; return r; }
Env genEnv(Case& c) { Env e; e.flux = c.b(0.12) ? 0. : c.b(0.5) ? c.r(200, 1400) : c.lr(0.01, 1400); e.exposed = c.b(0.5) ? 1. : c.b(0.1) ? 0. : std::min(1., c.r(0, 1)); e.T = c.b(0.3) ? 290. : c.r(100, 450); return e; }
Malf genMalf(Case& c, int groups) { Malf m; m.group = c.b(0.2); m.ngroup = m.group ? c.i(-1, groups + 2) : 0; m.deg = c.b(0.2); m.degv = m.deg ? c.r(-0.2, 1.2) : 0.; return m; }
void put(GunnsElectPvString& s, const Malf& m) { s.mMalfCellGroupFlag = m.group; s.mMalfCellGroupValue = m.ngroup; s.mMalfDegradeFlag = m.deg; s.mMalfDegradeValue = m.degv; }
std::string show(const Str1& s) { std::ostringstream o; o << s.groups << "x" << s.interval << " cells, block " << s.block << " bypass " << s.bypass << " area " << s.area << " eff " << s.eff << " rs " << s.rs << " rsh " << s.rsh << " voc " << s.voc << " tref " << s.tref << " cv " << s.cv << " ci " << s.ci << "\n"; return o.str(); }
std::string show(const Env& e, const Malf& m) { std::ostringstream o; o << "light " << e.flux << " exposed " << e.exposed << " T " << e.T; if (m.group) o << " failed groups " << m.ngroup; if (m.deg) o << " degraded " << m.degv; o << "\n"; return o.str(); }
}

FACET(string1, 60000, 600000, "the string is lit and its curve has both sides") {
    Str1 s; s.gen(c); GunnsElectPvStringConfigData cd; s.put(cd); GunnsElectPvStringInputData in(0., 1., 290.); GunnsElectPvString x(&cd, &in); x.initialize("string"); c.log() << show(s);
    for (int k = c.i(1, 4); k-- > 0;) {
        const Env e = genEnv(c); const Malf m = genMalf(c, s.groups); in.mPhotoFlux = e.flux; in.mSourceExposedFraction = e.exposed; in.mTemperature = e.T; put(x, m); x.update(); const Ref1 r = model(s, e, m); c.log() << show(e, m);
        const double vsc = std::max(1e-9, s.n() * s.voc), isc = std::max(1e-12, r.isc());
        c.check(VptFriend::bypassed(x) == r.byp && VptFriend::active(x) == r.act, "bypass", S() << VptFriend::bypassed(x) << " groups bypassed, expected " << r.byp);
        c.checkNear(x.getShortCircuitCurrent(), r.isc(), 1e-9, 1e-12, "isc", "short circuit current"); if (r.act > 0) c.checkNear(x.getOpenCircuitVoltage(), r.voc(), 1e-9, 1e-9 * vsc, "voc", "open circuit voltage");
        c.checkNear(x.getMpp().mPower, r.pmp(), 1e-6, 1e-9 * vsc * isc, "mpp-power", "maximum power point power"); if (e.flux == 0.) c.check(x.getMpp().mPower == 0. && x.getShortCircuitCurrent() == 0., "dark", "power in darkness");
        const double avail = e.flux * r.act * s.area * s.eff * std::max(0., 1. + (e.T - s.tref) * s.ci); c.check(x.getMpp().mPower <= avail * (1. + 1e-9) + 1e-15, "more-than-light", S() << x.getMpp().mPower << " W from " << avail << " W");
        const double pm = std::max(r.pmp(), r.il > 0 ? [&]() { double best = 0; for (int i = 0; i <= 40; ++i) { const double v = r.voc() * i / 40.; best = std::max(best, v * r.I(v)); } return best; }() : 0.);
        std::vector<double> vs; vs.push_back(0.); for (int i = 0; i < 6; ++i) vs.push_back(std::max(0., r.voc()) * c.r(0, 1.1)); std::sort(vs.begin(), vs.end()); double last = 1e300;
        for (size_t i = 0; i < vs.size(); ++i) {
            const double v = vs[i]; x.loadAtVoltage(v); const double I = x.getTerminal().mCurrent; c.check(x.getTerminal().mVoltage == v, "terminal-v", "voltage"); c.checkNear(I, x.predictCurrentAtVoltage(v), 1e-12, 1e-15, "predict", "predicted current"); c.check(I >= 0., "negative", S() << I << " A at " << v << " V");
            if (v < 1e-9 * vsc) continue; // dead short: the model gives no current at exactly no voltage
            const double slack = r.il * r.rsh / 1e6 * std::max(1. / r.rs, 0.) ; // forward slope of the ideal diode
            if (!(r.imp() > 1e-9 * r.il) || !(r.vmp() > 1e-9 * vsc)) { c.check(I <= r.I(v) * (1 + 1e-6) + 1e-9 * isc, "dim", S() << I << " A at " << v << " V, expected at most " << r.I(v)); last = I; continue; } // light too dim to open the junction diode, or series losses above the junction voltage
            c.checkNear(I, v > x.getOpenCircuitVoltage() ? 0. : r.I(v), 1e-6, 1e-9 * isc + std::min(isc, slack), "curve", S() << "current at " << v << " V"); c.check(I <= last + 1e-9 * isc, "monotone", S() << "current rises with voltage at " << v); last = I;
            c.checkNear(x.getTerminal().mPower, I * v, 1e-12, 0., "power", "terminal power"); c.checkNear(x.getTerminal().mConductance * v, I, 1e-12, 0., "conductance", "terminal conductance"); c.check(I * v <= pm * (1. + 2e-2) + (std::min(isc, slack) + 1e-9 * isc) * vsc, "beyond-mpp", S() << I * v << " W, most is " << pm);
        }
        if (r.pmp() > 1e-6 * vsc * isc && r.isc() > 0.) {
            const GunnsElectPvLoadState& mp = x.getMpp(); c.checkNear(mp.mVoltage, r.vmp(), 1e-6, 1e-9 * vsc, "mpp-v", "maximum power voltage"); c.checkNear(mp.mCurrent, r.imp(), 1e-5, 1e-9 * isc, "mpp-i", "maximum power current"); c.checkNear(mp.mConductance * mp.mVoltage, mp.mCurrent, 1e-12, 0., "mpp-g", "maximum power conductance"); c.nontrivial();
            // loads by conductance and by power land on the same curve
            const double g = mp.mConductance * c.lr(1e-2, 1e2); x.loadAtConductance(g); const double v = x.getTerminal().mVoltage, i = x.getTerminal().mCurrent; c.checkNear(i, g * v, 1e-9, 0., "load-g", "current through conductance"); c.checkNear(i, x.predictCurrentAtVoltage(v), 1e-6, 1e-9 * isc, "load-g-curve", S() << "conductance " << g << " current"); c.checkNear(x.getTerminal().mPower, i * v, 1e-12, 0., "load-g-power", "power");
            const double p = mp.mPower * std::min(0.999999, c.r(1e-3, 1)); const bool sh = c.b(); if (mp.mCurrent >= 0.5 * r.isc() && mp.mVoltage >= 0.5 * r.voc() && mp.mCurrent < r.isc() * (1 - 1e-6)) { x.loadAtPower(p, sh); const GunnsElectPvLoadState& t = x.getTerminal(); c.checkNear(t.mPower, p, 1e-12, 0., "load-p", "power"); c.checkNear(t.mCurrent * t.mVoltage, p, 1e-9, 0., "load-p-vi", "current times voltage"); if (sh) c.checkNear(t.mCurrent, x.predictCurrentAtVoltage(t.mVoltage), 1e-5, 1e-7 * isc, "load-p-curve", S() << "power " << p << " current"); else c.checkNear(t.mVoltage, r.voc() - t.mCurrent * (r.voc() - r.vmp()) / r.imp(), 1e-6, 0., "load-p-curve", S() << "power " << p << " voltage"); c.check(sh ? t.mVoltage <= mp.mVoltage * (1 + 1e-6) : t.mVoltage >= mp.mVoltage * (1 - 1e-6), "load-p-side", S() << "power load on the wrong side of the curve: " << t.mVoltage << " V, corner " << mp.mVoltage); }
            x.loadAtPower(mp.mPower * c.r(1.000001, 3), sh); c.check(x.getTerminal().mPower == 0. && x.getTerminal().mCurrent == 0., "overload", "power beyond the maximum delivered"); x.loadAtMpp(); c.check(x.getTerminal().mPower == mp.mPower && x.getTerminal().mVoltage == mp.mVoltage, "load-mpp", "load at the maximum power point");
        }
        // dimmer, more shaded or failed never gives more
        Env d = e; Malf md = m; const double P0 = x.getMpp().mPower; switch (c.i(0, 3)) { case 0: d.flux *= c.r(0, 1); break; case 1: d.exposed *= c.r(0, 1); break; case 2: md.group = true; md.ngroup = (m.group ? m.ngroup : 0) + c.i(0, s.groups); break; default: md.deg = true; md.degv = std::max(0., m.deg ? m.degv : 0.) + c.r(0, 0.5); }
        const bool leaky = r.il < 3. * r.vsh / r.rsh && (d.exposed != e.exposed || md.ngroup != m.ngroup); // the shunt is the string's, so fewer cells leak less
        const bool lossy = r.vsh - r.vs < 2. * r.imp() * r.rs; // so much series loss that less current gives more power
        in.mPhotoFlux = d.flux; in.mSourceExposedFraction = d.exposed; put(x, md); x.update(); if (!leaky && !lossy) c.check(x.getMpp().mPower <= P0 * (1 + 1e-6) + 1e-12, "less-is-more", S() << "maximum power rises from " << P0 << " to " << x.getMpp().mPower << " when " << show(d, md)); put(x, Malf());
    }
}

// ---- version 2: single-diode cell fitted to vendor data
namespace {
struct Str2 { double block, bypass; int interval, groups; double voc, isc, vmp, imp, flux, tref, cv, ci, ideal, area; int n() const { return interval * groups; }
    void gen(Case& c) { block = c.b(0.3) ? 0. : c.r(0.1, 1.5); bypass = c.b(0.3) ? 0. : c.r(0.1, 1.); interval = c.i(1, 10); groups = c.i(1, 10); voc = c.r(0.55, 2.8); isc = c.lr(0.05, 8); vmp = voc * c.r(0.8, 0.88); imp = isc * c.r(0.92, 0.97); flux = c.pickOf<double>({1367., 1000., 1350.}); tref = c.r(280, 310); cv = -voc * c.r(0., 0.004); ci = isc * c.r(0., 0.001); ideal = c.r(1, 1.5); if (ideal > 1.5) ideal = 1.5; area = c.b(0.1) ? 0. : isc * vmp / flux / c.r(0.1, 0.35); }
    void put(GunnsElectPvStringConfigData& d) const { GunnsElectPvStringConfigData x(block, bypass, interval, n(), voc, isc, vmp, imp, flux, tref, cv, ci, ideal, area); d = x; } };
std::string show(const Str2& s) { std::ostringstream o; o << s.groups << "x" << s.interval << " cells, block " << s.block << " bypass " << s.bypass << " voc " << s.voc << " isc " << s.isc << " vmp " << s.vmp << " imp " << s.imp << " flux " << s.flux << " tref " << s.tref << " cv " << s.cv << " ci " << s.ci << " n " << s.ideal << " area " << s.area << "\n"; return o.str(); }
// the single-diode equation, solved by bisection
double diode(const GunnsElectPvCellEquivCircuit& e, double V) { double lo = -5. * e.mIL - 1., hi = e.mIL + e.mI0; for (int k = 0; k < 200; ++k) { const double I = 0.5 * (lo + hi), x = (V + I * e.mRs) / e.mNVt; const double f = e.mIL - e.mI0 * (std::exp(std::min(700., x)) - 1.) - (V + I * e.mRs) / e.mRsh - I; (f > 0. ? lo : hi) = I; } return 0.5 * (lo + hi); }
}

FACET(string2, 12000, 120000, "the cell is lit, off its reference point, and its curve is compared with the diode equation") {
    Str2 s; s.gen(c); GunnsElectPvStringConfigData cd; s.put(cd); GunnsElectPvStringInputData in(s.flux, 1., s.tref); GunnsElectPvString2 x(&cd, &in); c.log() << show(s);
    try { x.initialize("string2"); } catch (TsInitializationException&) { c.discard(); }
    const GunnsElectPvCellEquivCircuit& q = x.getEqProps(); c.checkNear(q.mFillFactor, s.vmp * s.imp / s.voc / s.isc, 1e-12, 0., "fill", "fill factor"); c.checkNear(q.mEfficiency, s.area > 0. ? s.vmp * s.imp / s.area / s.flux : 0., 1e-12, 0., "efficiency", "efficiency");
    for (int k = c.i(1, 3); k-- > 0;) {
        Env e; e.flux = c.b(0.1) ? 0. : c.b() ? s.flux * c.r(0.3, 1.2) : s.flux * c.lr(1e-3, 1.); e.exposed = c.b(0.6) ? 1. : std::min(1., c.r(0, 1)); e.T = c.b(0.4) ? s.tref : s.tref + c.r(-60, 60); const Malf m = genMalf(c, s.groups); in.mPhotoFlux = e.flux; in.mSourceExposedFraction = e.exposed; in.mTemperature = e.T; put(x, m); c.log() << show(e, m);
        try { x.update(); } catch (TsOutOfBoundsException&) { c.discard(); }
        int byp = (int)std::ceil(s.groups * (1. - e.exposed)); if (m.group) byp = std::max(byp, std::min(s.groups, std::max(0, m.ngroup))); const int act = s.n() - byp * s.interval; c.check(VptFriend::bypassed(x) == byp && VptFriend::active(x) == act, "bypass2", "bypassed groups");
        const double light = e.flux / s.flux * (m.deg ? 1. - std::min(1., std::max(0., m.degv)) : 1.), dT = e.T - s.tref; const double drop = s.block + byp * s.bypass;
        if (act < 1 || light < 1e-15) { c.check(x.getShortCircuitCurrent() == 0. && x.getOpenCircuitVoltage() == 0. && x.getMpp().mPower == 0., "dark2", "output without light or active cells"); x.loadAtVoltage(c.r(0, 2)); c.check(x.getTerminal().mPower == 0., "dark2", "power without light or active cells"); continue; }
        const double isc = s.isc * light + dT * s.ci, voc = s.voc + dT * s.cv; if (isc <= 0. || voc <= 0.) { c.check(x.getMpp().mPower == 0., "dead2", "power without voltage or current"); continue; }
        c.checkNear(q.mIsc, isc, 1e-9, 0., "isc2", "cell short circuit current"); c.checkNear(q.mVoc, voc, 1e-9, 0., "voc2", "cell open circuit voltage"); c.checkNear(x.getShortCircuitCurrent(), isc, 1e-9, 0., "isc2", "string short circuit current"); c.checkNear(x.getOpenCircuitVoltage(), std::max(0., voc * act - drop), 1e-9, 1e-9, "voc2", "string open circuit voltage");
        const double vm = s.vmp * voc / s.voc, im = s.imp * light * isc / (s.isc * light); c.checkNear(x.getMpp().mVoltage, std::max(0., vm * act - drop), 1e-9, 1e-9, "mpp2-v", "maximum power voltage"); c.checkNear(x.getMpp().mCurrent, im, 1e-9, 0., "mpp2-i", "maximum power current"); c.checkNear(x.getMpp().mPower, x.getMpp().mVoltage * x.getMpp().mCurrent, 1e-12, 0., "mpp2-p", "maximum power");
        // the fitted circuit meets its three points
        c.checkNear(diode(q, 0.), isc, 0.02, 0., "fit-isc", "fitted short circuit current"); c.checkNear(diode(q, vm), im, 0.05, 0.03 * isc, "fit-mpp", "fitted maximum power current"); c.checkNear(diode(q, voc), 0., 0., 0.05 * isc, "fit-voc", "fitted open circuit current");
        double last = 1e300; for (int j = 0; j <= 8; ++j) { const double v = voc * 1.05 * j / 8.; double I; try { I = q.computeCurrent(v); } catch (TsOutOfBoundsException&) { continue; } c.check(I <= last + 0.03 * isc, "monotone2", S() << "current rises with voltage at " << v << " V: " << last << " -> " << I); last = I; if (v > voc) c.check(I == 0., "beyond-voc", "current past the open circuit voltage"); else c.checkNear(I, diode(q, v), 0.05, 0.05 * isc, "diode", S() << "cell current at " << v << " V"); c.check(I * v <= vm * im * 1.1, "beyond-mpp2", S() << I * v << " W beyond maximum " << vm * im); }
        for (int j = 0; j < 3; ++j) { const double I = isc * c.r(0, 1.05); double v; try { v = q.computeVoltage(I); } catch (TsOutOfBoundsException&) { continue; } if (I >= isc) c.check(v == 0., "beyond-isc", "voltage past the short circuit current"); else if (I > 0.02 * isc && I < 0.9 * im) c.checkNear(v, [&]() { double lo = -voc, hi = voc * 1.1; for (int z = 0; z < 80; ++z) { const double w = 0.5 * (lo + hi); (diode(q, w) > I ? lo : hi) = w; } return 0.5 * (lo + hi); }(), 0.08, 0.05 * voc, "volt", S() << "cell voltage at " << I << " A of " << isc); }
        const double v = std::max(0., voc * act - drop) * c.r(0, 1.1); try { x.loadAtVoltage(v); } catch (TsOutOfBoundsException&) { c.discard(); } const GunnsElectPvLoadState& t = x.getTerminal(); const double I = q.computeCurrent((v + drop) / act); c.checkNear(t.mCurrent, I, 1e-12, 0., "terminal2", "terminal current"); c.check(t.mVoltage == v, "terminal2", "terminal voltage"); c.checkNear(t.mPower, v * I, 1e-12, 0., "terminal2", "terminal power"); c.check(t.mPower >= -1e-12 - 0.03 * isc * v, "generator", "string absorbs power"); c.check(t.mPower <= vm * act * im * 1.1, "beyond-mpp2", "string power beyond maximum");
        x.loadAtMpp(); c.check(t.mPower == x.getMpp().mPower, "mpp2-load", "load at maximum power"); x.loadAtPower(0., false); c.check(t.mPower == 0. && t.mCurrent == 0. && t.mVoltage == x.getOpenCircuitVoltage(), "open2", "unloaded string"); x.loadAtPower(0., true); c.check(t.mPower == 0. && t.mVoltage == 0. && t.mCurrent == x.getShortCircuitCurrent(), "short2", "shorted string");
        c.nontrivial();
    }
}

namespace {
struct Sec { double expo, back, ref; bool edge; void gen(Case& c) { expo = c.b(0.4) ? 1. : c.lr(0.1, 10.); if (expo > 10.) expo = 10.; if (expo < 0.1) expo = 0.1; back = std::min(1., c.r(0, 1)); edge = c.b(); ref = c.b(0.1) ? 0. : 1367.; }
    double facing(double angle) const { const double t = edge ? std::sin(angle) : std::cos(angle); return std::pow(std::fabs(t), expo) * (t < 0. ? 1. - back : 1.); } };
}
FACET(section, 20000, 200000, "the section faces away or an override is active") {
    Str1 s; s.gen(c); Sec p; p.gen(c); GunnsElectPvSectionConfigData cd(p.expo, p.back, p.edge, p.ref, s.block, s.bypass, s.interval, s.n(), s.area, s.eff, s.rs, s.rsh, s.voc, s.tref, s.cv, s.ci); c.log() << show(s);
    const int n = c.i(1, 4); GunnsElectPvSection x(&cd); GunnsElectPvSectionInputData id(1000., 0.5, 1., 290.); x.initialize("section", id, n); const double dt = c.pickOf<double>({1., 0.125, 0.5, 4.}); bool ramp = false; double mag = 0., dur = 0., rt = 0., el = 0., lo = 0., hi = 0.; bool f1 = false, f2 = false; double v1 = 0., v2 = 0.; double flux = 1000., ang = 0.5, ex = 1., T = 290.; double P = 0.;
    for (int k = c.i(2, 25); k-- > 0;) {
        if (c.b(0.3)) { flux = c.b(0.1) ? 0. : c.r(0, 1400); x.setSourceFluxMagnitude(flux); } if (c.b(0.3)) { ang = c.r(-7, 7); x.setSourceAngle(ang); } if (c.b(0.2)) { ex = std::min(1., c.r(0, 1)); x.setSourceExposedFraction(ex); } if (c.b(0.2)) { T = c.r(100, 450); x.setTemperature(T); }
        if (c.b(0.1)) { f1 = !f1; v1 = std::min(1., c.r(0, 1)); x.mStringsInput.setMalfExposedFraction(f1, v1); } if (c.b(0.1)) { f2 = !f2; v2 = c.r(100, 450); x.mStringsInput.setMalfTemperature(f2, v2); }
        const double nat = flux * ex * p.facing(ang); if (!ramp && c.b(0.15)) { ramp = true; mag = c.r(0, 2000); dur = dt * c.i(1, 12); rt = dt * c.i(0, 8); el = 0.; x.mStringsInput.setMalfPhotoFlux(true, mag, dur, rt); rt = std::min(rt, 0.5 * dur); lo = std::min(nat, mag); hi = std::max(nat, mag); }
        x.update(dt); const GunnsElectPvStringInputData& in = *VptFriend::in(x); lo = std::min(lo, nat); hi = std::max(hi, nat); c.log() << "light " << flux << " angle " << ang << " exposed " << ex << " natural " << nat << " -> " << in.mPhotoFlux << (ramp ? " override" : "") << "\n";
        if (!ramp) c.checkNear(in.mPhotoFlux, nat, 1e-9, 1e-12 * flux, "flux", "light on the strings"); else {
            c.check(in.mPhotoFlux >= lo * (1 - 1e-12) - 1e-9 && in.mPhotoFlux <= hi * (1 + 1e-12) + 1e-9, "override-bounds", S() << in.mPhotoFlux << " outside " << lo << " to " << hi);
            if (el > rt && el <= dur - rt) c.checkNear(in.mPhotoFlux, mag, 1e-12, 1e-12, "override-hold", "light during the override"); if (el == 0. || el > dur) c.checkNear(in.mPhotoFlux, nat, 1e-9, 1e-12 * flux, "override-ends", "light before and after the override"); if (el > dur) { ramp = false; c.check(!in.mMalfPhotoFluxFlag, "override-off", "override still on after its duration"); } el += dt; c.nontrivial(); }
        c.check(in.mSourceExposedFraction == (f1 ? v1 : ex) && in.mTemperature == (f2 ? v2 : T), "env", "exposed fraction or temperature of the strings"); if (p.ref > 0.) c.checkNear(x.getPercentInsolation(), 100. * in.mPhotoFlux / p.ref, 1e-12, 0., "insolation", "insolation");
        Env e = { in.mPhotoFlux, in.mSourceExposedFraction, in.mTemperature }; const Ref1 r = model(s, e, Malf()); for (int i = 0; i < n; ++i) c.checkNear(x.mStrings[i].getMpp().mPower, r.pmp(), 1e-6, 1e-9 * s.n() * s.voc * std::max(1e-12, r.isc()), "strings-lit", S() << "string " << i << " maximum power");
        c.checkNear(VptFriend::secPower(x), -P, 1e-12, 0., "section-power", "section power"); P = 0.; for (int i = 0; i < n; ++i) { x.mStrings[i].loadAtVoltage(std::max(0., x.mStrings[i].getOpenCircuitVoltage()) * c.r(0, 1)); P += x.mStrings[i].getTerminal().mPower; }
        if (p.facing(ang) < 0.2) c.nontrivial();
    }
}

namespace {
struct Arr { bool v2; Str1 s; Str2 t; Sec p; int secs, per; unsigned bySec[4]; bool by; GunnsElectPvArray a; std::unique_ptr<GunnsElectPvArrayConfigData> cd; Env e[4]; double angle; bool same;
    int strings() const { int k = 0; for (int i = 0; i < secs; ++i) k += by ? bySec[i] : per; return k; }
    void gen(Case& c, bool allow2 = true) { v2 = allow2 && c.b(0.3); p.gen(c); p.expo = 1.; p.edge = true; secs = c.i(1, 4); per = c.i(1, 6); by = c.b(0.3); for (int i = 0; i < 4; ++i) bySec[i] = c.i(1, 6); same = c.b(); if (v2) t.gen(c); else { s.gen(c); s.rs = std::max(s.rs, s.voc / (1000. * s.area * s.eff / s.voc) * 0.005); } }
    void add(Case& c, el::Circuit& k, int port) { GunnsElectPvArrayConfigData* d = v2 ? new GunnsElectPvArrayConfigData("array", &k.nl, t.voc, t.isc, t.vmp, t.imp, t.tref, t.cv, t.ci, t.ideal, t.area, p.expo, p.back, p.edge, 1367., t.block, t.bypass, t.interval, t.n(), secs, secs * per) : new GunnsElectPvArrayConfigData("array", &k.nl, secs, secs * per, p.expo, p.back, p.edge, 1367., s.block, s.bypass, s.interval, s.n(), s.area, s.eff, s.rs, s.rsh, s.voc, s.tref, s.cv, s.ci);
        cd.reset(d); if (by) d->mNumStringsBySection = bySec; GunnsElectPvSectionInputData id(1367., UnitConversion::PI_UTIL / 2, 1., 290.); try { a.initialize(*d, id, k.links, port); } catch (TsInitializationException&) { c.discard(); } for (int i = 0; i < secs; ++i) { e[i].flux = 1367.; e[i].exposed = 1.; e[i].T = 290.; } }
    void light(Case& c) { Env x = genEnv(c); for (int i = 0; i < secs; ++i) { if (!same && c.b()) x = genEnv(c); if (v2) x.T = std::min(340., std::max(240., x.T)); e[i] = x; a.mSections[i].setSourceFluxMagnitude(x.flux); a.mSections[i].setSourceExposedFraction(x.exposed); a.mSections[i].setTemperature(x.T); c.log() << "section " << i << " light " << x.flux << " exposed " << x.exposed << " T " << x.T << "; "; } c.log() << "\n"; }
    // what the strings together can give, and the array's two-line curve through it
    double isc() const { double x = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) x += a.mSections[i].mStrings[j].getShortCircuitCurrent(); return x; }
    double voc() const { double x = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) x = std::max(x, a.mSections[i].mStrings[j].getOpenCircuitVoltage()); return x; }
    double pmp() const { double x = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) x += a.mSections[i].mStrings[j].getMpp().mPower; return x; }
    bool usual() const { for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) { const GunnsElectPvString& z = a.mSections[i].mStrings[j]; if (z.getShortCircuitCurrent() > 0. && (z.getMpp().mCurrent < 0.5 * z.getShortCircuitCurrent() || z.getMpp().mVoltage < 0.5 * z.getOpenCircuitVoltage())) return false; } return true; }
    double most(double v) const { double x = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) { const GunnsElectPvString& z = a.mSections[i].mStrings[j]; x += std::max(z.getMpp().mPower, z.predictCurrentAtVoltage(v) * v); } return x; }
    double at(double v) const { double x = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) x += a.mSections[i].mStrings[j].predictCurrentAtVoltage(v); return x; }
    double vmp() const { double p = 0., v = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) if (a.mSections[i].mStrings[j].getMpp().mPower > p) { p = a.mSections[i].mStrings[j].getMpp().mPower; v = a.mSections[i].mStrings[j].getMpp().mVoltage; } return v; }
    double terminal() const { double x = 0.; for (int i = 0; i < secs; ++i) for (unsigned j = 0; j < a.mSections[i].getNumStrings(); ++j) x += a.mSections[i].mStrings[j].getTerminal().mPower; return x; } };
}
FACET(array, 16000, 160000, "the array works on both sides of its corner or in changing light") {
    Arr A; A.gen(c); el::Circuit k(1); A.add(c, k, 0); const double Vn = A.v2 ? A.t.voc * A.t.n() : A.s.voc * A.s.n(), In = std::max(1e-9, (A.v2 ? A.t.isc : 1367. * A.s.area * A.s.eff / A.s.voc) * A.strings()); c.log() << (A.v2 ? show(A.t) : show(A.s)) << A.secs << " sections, " << A.strings() << " strings\n";
    GunnsBasicConductor* load = k.cond(In / Vn * c.lr(0.05, 20.), 0, k.gnd()); GunnsBasicPotential* src = c.b(0.3) ? k.pot(Vn * c.r(0, 1.2), In / Vn * c.lr(0.1, 100.), 0) : 0; k.start(30); int open = 0, shrt = 0; bool known = false;
    for (int n = c.i(1, 6); n-- > 0;) {
        if (c.b(0.6)) A.light(c); if (c.b(0.5)) load->setDefaultConductivity(In / Vn * c.lr(0.02, 50.)); if (src && c.b(0.3)) src->setSourcePotential(Vn * c.r(0, 1.2));
        bool ok; try { ok = k.step(1.); } catch (TsOutOfBoundsException&) { c.discard(); } if (!ok) c.discard();
        const double V = k.v(0), I = VptFriend::flux(A.a), isc = A.isc(), voc = A.voc(), vm = A.vmp(), im = A.at(vm); c.log() << "V " << V << " I " << I << " isc " << isc << " voc " << voc << " corner " << vm << " V " << im << " A\n";
        c.checkNear(A.a.getShortCircuitCurrent(), isc, 1e-12, 0., "array-isc", "array short circuit current"); c.checkNear(A.a.getOpenCircuitVoltage(), voc, 1e-12, 0., "array-voc", "array open circuit voltage"); c.checkNear(A.a.getIvCornerVoltage(), vm, 1e-12, 0., "corner", "corner voltage"); c.checkNear(A.a.getIvCornerCurrent(), im, 1e-12, 0., "corner", "corner current");
        double sun = 0.; for (int i = 0; i < A.secs; ++i) sun += 100. * A.e[i].flux * A.e[i].exposed / 1367.; c.checkNear(VptFriend::insol(A.a), sun / A.secs, 1e-9, 1e-9, "array-insolation", "mean insolation");
        bool dark = true; for (int i = 0; i < A.secs; ++i) if (A.e[i].flux > 0.) dark = false; if (dark) c.check(I == 0. || std::fabs(I * V) < 1e-12, "array-dark", S() << I << " A in darkness");
        double best = vm * im; for (int j = 1; j < 50; ++j) best = std::max(best, voc * j / 50. * A.at(voc * j / 50.)); const bool usual = A.same && im >= 0.55 * isc && vm >= 0.55 * voc; if (usual) c.check(A.a.getMpp().mPower <= best * (1 + (A.v2 ? 0.1 : 1e-2)) + 1e-12, "array-mpp", S() << "array maximum " << A.a.getMpp().mPower << " W, strings " << best << " W");
        if (vm > 1e-6 && voc > vm * (1 + 1e-9) && im > 1e-9) {
            const double curve = V < vm ? isc - (isc - im) * V / vm : im * (voc - V) / (voc - vm); const double stiff = 1e-9 * (1. + im / (voc - vm) * Vn);
            const bool lost = V < vm && c.isKnown("array-short-side") && c.near(I, (isc - im) / vm * (vm - V), 1e-7, stiff); known = known || lost; if (!lost) {
            c.checkNear(I, curve, 1e-7, stiff, "array-curve", S() << "array current at " << V << " V"); if (A.same && !A.v2 && V > 1e-9 * Vn && V < voc) { double want = A.at(V); c.checkNear(I, want, 1e-5, 1e-4 * stiff + 1e-6 * isc + In * 1e-5, "array-strings", S() << "array current at " << V << " V against its strings"); } }
            (V < vm ? shrt : open)++; double p, g; const double tv = Vn * c.r(0, 1.1); A.a.predictLoadAtVoltage(p, g, tv); c.check(p >= 0. && (!(im >= 0.55 * isc && vm >= 0.55 * voc) || p <= A.a.getMpp().mPower * (1 + 1e-6) + 1e-9), "predict-mpp", S() << "predicts " << p << " W at " << tv << " V, maximum " << A.a.getMpp().mPower); if (tv > 1e-9 && tv < voc) { c.checkNear(p, tv * (tv < vm ? isc - (isc - im) * tv / vm : im * (voc - tv) / (voc - vm)), 1e-6, 1e-9, "predict-load", S() << "power at " << tv << " V"); c.checkNear(g * tv * tv, p, 1e-9, 0., "predict-g", "conductance"); }
            // power loads land on the curve
            const double want = A.a.getMpp().mPower * c.r(0.01, 0.99); const bool sh = c.b(); if (im > 0.55 * isc && isc > im * (1 + 1e-9) && vm > 0.55 * voc) { A.a.loadAtPower(want, sh); const GunnsElectPvLoadState& t = A.a.getTerminal(); c.checkNear(t.mPower, want, 1e-12, 0., "array-load", "power"); c.checkNear(t.mCurrent * t.mVoltage, want, 1e-9, 0., "array-load", "current times voltage"); c.check(sh ? t.mVoltage <= vm * (1 + 1e-6) : t.mVoltage >= vm * (1 - 1e-6), "array-load-side", S() << (sh ? "short" : "open") << " side load at " << t.mVoltage << " V, corner " << vm); if (t.mVoltage >= vm) c.checkNear(t.mVoltage, voc - (voc - vm) * t.mCurrent / im, 1e-6, 0., "array-load-curve", "voltage"); else c.checkNear(t.mCurrent, isc - (isc - im) * t.mVoltage / vm, 1e-6, 1e-9, "array-load-curve", "current"); A.a.loadAtPower(A.a.getMpp().mPower * c.r(1.0001, 2), sh); c.check(A.a.getTerminal().mPower == 0., "array-overload", "power beyond the maximum"); }
        }
    }
    if (open && shrt) c.nontrivial();
    if (known) c.known("array-short-side");
}

namespace {
struct Trip { double ioc, iov, ooc, oov, ouv; bool any() const { return ioc > 0 || iov > 0 || ooc > 0 || oov > 0 || ouv > 0; } };
Trip genTrip(Case& c, double V, double I) { Trip t = { 0., 0., 0., 0., 0. }; if (c.b(0.35)) { if (c.b(0.4)) t.ioc = I * c.lr(0.05, 2); if (c.b(0.3)) t.iov = V * c.r(0.6, 2); if (c.b(0.5)) t.ooc = I * c.lr(0.05, 2); if (c.b(0.4)) t.oov = V * c.r(0.6, 1.6); if (c.b(0.4)) t.ouv = V * c.r(0.2, 1.0); } return t; }
}
FACET(converter, 12000, 120000, "the converter regulates and also sags, shuts off or trips in one history") {
    Arr A; A.gen(c, false); el::Circuit k(1); A.add(c, k, k.gnd()); const double Va = A.s.voc * A.s.n(), In = std::max(1e-9, 1367. * A.s.area * A.s.eff / A.s.voc * A.strings()); const double ratio = c.b(0.3) ? 1. : c.r(1, 3), eff = c.b(0.2) ? 1. : std::min(1., c.r(0.7, 1)), Vn = Va * ratio; double set = Vn * c.r(0.2, 0.95), delta = c.b(0.3) ? Vn * c.r(-0.1, 0.1) : 0.; bool pow = c.b(0.95), en = c.b(0.95); const Trip t = genTrip(c, Vn, In / ratio); const unsigned prio = c.b(0.1) ? 0 : c.i(1, 4);
    GunnsElectPvRegConv r; GunnsElectPvRegConvConfigData cd("conv", &k.nl, ratio, eff, &A.a, 0, 0, 0, 0, t.ioc, t.iov, t.ooc, t.oov, t.ouv, prio); GunnsElectPvRegConvInputData id(set, delta, pow, en); r.initialize(cd, id, k.links, 0); c.log() << show(A.s) << A.secs << " sections, " << A.strings() << " strings, ratio " << ratio << " eff " << eff << " trips in " << t.ioc << " A " << t.iov << " V, out " << t.ooc << " A " << t.oov << " V, under " << t.ouv << " V, priority " << prio << "\n";
    GunnsBasicConductor* load = k.cond(In / ratio / Vn * c.lr(0.05, 20.), 0, k.gnd()); GunnsBasicPotential* src = c.b(0.35) ? k.pot(Vn * c.r(0, 1.1), In / Vn * c.lr(0.1, 100.), 0) : 0; k.start(40); bool reg = false, other = false; bool wasTripped = false; int quiet = 0;
    for (int n = c.i(2, 10); n-- > 0;) {
        const bool still = quiet < 2 && n > 0 && c.b(0.5); quiet = still ? quiet + 1 : 0; if (!still) {
        if (c.b(0.5)) A.light(c); if (c.b(0.4)) load->setDefaultConductivity(In / ratio / Vn * c.lr(0.01, 50.)); if (src && c.b(0.3)) src->setSourcePotential(Vn * c.r(0, 1.1)); if (c.b(0.15)) r.setVoltageSetpoint(set = Vn * c.r(0.2, 0.95)); if (c.b(0.1)) r.setVoltageSetpointDelta(delta = Vn * c.r(-0.1, 0.1)); if (c.b(0.12)) r.setEnabled(en = !en); if (c.b(0.12)) VptFriend::power(r, pow = !pow); if (c.b(0.1)) { r.mMalfVoltageBiasFlag = !r.mMalfVoltageBiasFlag; r.mMalfVoltageBiasValue = Vn * c.r(-0.1, 0.1); } } const bool rst = !still && c.b(0.15); if (rst) VptFriend::reset(r);
        const bool latched = wasTripped && pow && !rst; bool ok; try { ok = k.step(1.); } catch (TsOutOfBoundsException&) { c.discard(); } if (!ok) c.discard();
        const double V = k.v(0), I = VptFriend::flux(r), in = VptFriend::in(r), out = VptFriend::out(r), waste = VptFriend::waste(r), vreg = VptFriend::vreg(r); const int st = VptFriend::state(r); const bool tripped = r.getTrips()->isTripped(); const double mpp = A.a.getMpp().mPower, isc = A.a.getShortCircuitCurrent(), voc = A.a.getOpenCircuitVoltage(), vm = A.a.getIvCornerVoltage(), im = A.a.getIvCornerCurrent(); const double tiny = 1e-9 * Vn * In;
        c.log() << "state " << st << (pow ? "" : " unpowered") << (en ? "" : " disabled") << (tripped ? " tripped" : "") << " V " << V << " I " << I << " in " << in << " out " << out << " waste " << waste << " set " << vreg << " array max " << mpp << " W corner " << vm << " V " << im << " A isc " << isc << " voc " << voc << "\n";
        c.checkNear(vreg, std::max(DBL_EPSILON, set + delta + (r.mMalfVoltageBiasFlag ? r.mMalfVoltageBiasValue : 0.)), 1e-12, 0., "setpoint", "regulated voltage"); if (latched) c.check(tripped, "latch", "trip cleared without a reset or power down"); wasTripped = tripped;
        const bool must = !pow || !en || tripped || mpp < 1e-16; if (must) c.check(st == GunnsElectPvRegConv::OFF, "off", "delivers although off, tripped or dark");
        if (st == GunnsElectPvRegConv::SAG && V > voc * ratio && c.isKnown("conv-reverse-sag")) c.known("conv-reverse-sag");
        const bool sane = A.same && A.usual(), settled = sane && quiet > 1 && eff * im >= 0.5 * isc; // one change of state upwards is allowed per step
        if (settled) c.check(I >= -1.01e-8 * std::fabs(V) - 1e-9 * In, "reverse", S() << I << " A flow back into the regulator"); if (settled && eff * im >= 0.5 * isc) c.check(in <= mpp * (1 + 1e-4) + tiny, "more-than-array", S() << "takes " << in << " W of " << mpp); c.checkNear(in - out, waste, 1e-9, 1e-12 * Vn * In, "balance", "waste heat"); if (settled) c.check(waste >= -tiny - 1.01e-8 * V * V, "waste", S() << "waste heat " << waste);
        if (st == GunnsElectPvRegConv::OFF) { c.check(std::fabs(in) <= tiny + 2e-8 * V * V && std::fabs(out) <= tiny + 2e-8 * V * V, "off-power", S() << in << " W in, " << out << " W out when off"); if (!must) c.check(V >= vreg * (1 - 1e-9) || mpp < 1e-9 * Va * In, "dropout", S() << "off below its set voltage: " << V << " of " << vreg); }
        else { c.checkNear(out, V * I, 1e-9, tiny, "out", "output power"); c.checkNear(out, in * eff, 1e-9, tiny, "efficiency", "output for the input"); if (sane && in > 1e-12 && in < mpp * (1 - 1e-9)) { c.checkNear(A.a.getTerminal().mPower, in, 1e-9, tiny, "array-load", "load on the array"); }
            if (settled) c.check(V <= vreg * (1 + 1e-9) + 1e-9 * Vn, "overvoltage", S() << V << " V, regulates " << vreg); if (st == GunnsElectPvRegConv::REG) { c.checkNear(V, vreg, 1e-9, std::max(0., I) / 1e8 + 1e-12 * Vn, "regulation", "output voltage"); reg = true; } else { other = true;
                if (st == GunnsElectPvRegConv::SAG && im > 1e-6 * In && voc - vm > 1e-6 * Va) c.checkNear(I, im * eff / ratio * (voc * ratio - V) / ((voc - vm) * ratio), 1e-6, 1e-6 * In + 2e-8 * Vn, "sag", "current on the open circuit side"); } }
        if (must || st == GunnsElectPvRegConv::OFF) other = true;
        // each healthy limit is honoured: nothing settles past a trip limit with the regulator still on
        if (!tripped && pow && en && prio > 0) { if (t.ooc > 0) c.check(!((float)I > (float)t.ooc), "trip-ooc", S() << I << " A past its trip " << t.ooc); if (t.oov > 0) c.check(!((float)V > (float)t.oov), "trip-oov", S() << V << " V past its trip " << t.oov); if (t.ouv > 0) c.check(!((float)V < (float)t.ouv), "trip-ouv", S() << V << " V below its trip " << t.ouv); if (t.ioc > 0) c.check(!((float)A.a.getTerminal().mCurrent > (float)t.ioc), "trip-ioc", S() << A.a.getTerminal().mCurrent << " A in past its trip " << t.ioc); if (t.iov > 0) c.check(!((float)A.a.getTerminal().mVoltage > (float)t.iov), "trip-iov", S() << A.a.getTerminal().mVoltage << " V in past its trip " << t.iov); }
        if (prio == 0 || !t.any()) c.check(!tripped, "no-trip", "tripped without a limit");
    }
    if (reg && other) c.nontrivial();
}

FACET(shunter, 12000, 120000, "the regulator holds its voltage with some strings shunted and is also off in one history") {
    Arr A; A.gen(c, false); el::Circuit k(2); A.add(c, k, 0); const double Vn = A.s.voc * A.s.n(), I1 = std::max(1e-9, 1367. * A.s.area * A.s.eff / A.s.voc), In = I1 * A.strings(); const double gout = In / Vn * c.lr(10, 1e4), gsh = I1 / Vn * c.lr(10, 1e4); double set = Vn * c.r(0.2, 0.9), minop = c.b(0.4) ? 0. : In * Vn * c.lr(1e-3, 0.5); bool pow = c.b(0.95), en = c.b(0.95); const Trip t = genTrip(c, Vn, In); const unsigned prio = c.i(1, 4);
    std::vector<std::pair<int, int> > order; for (int i = 0; i < A.secs; ++i) for (unsigned j = 0; j < A.a.mSections[i].getNumStrings(); ++j) order.push_back(std::make_pair(i, (int)j)); const bool custom = c.b(); if (custom) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.i(0, (int)i - 1)]);
    GunnsElectPvRegShunt r; GunnsElectPvRegShuntConfigData cd("shunt", &k.nl, gout, gsh, &A.a, 0, 0, 0, 0, t.ioc, t.iov, t.ooc, t.oov, t.ouv, prio); if (custom) for (size_t i = 0; i < order.size(); ++i) cd.addStringLoadOrder(order[i].first, order[i].second); GunnsElectPvRegShuntInputData id(set, pow, en, minop); r.initialize(cd, id, k.links, 0, 1); c.log() << show(A.s) << A.secs << " sections, " << A.strings() << " strings" << (custom ? " custom order" : "") << " gout " << gout << " gshunt " << gsh << " min " << minop << " W, trips in " << t.ioc << " A " << t.iov << " V, out " << t.ooc << " A " << t.oov << " V, under " << t.ouv << " V, priority " << prio << "\n";
    GunnsBasicConductor* load = k.cond(In / Vn * c.lr(0.02, 5.), 1, k.gnd()); GunnsBasicPotential* src = c.b(0.3) ? k.pot(Vn * c.r(0, 1.1), In / Vn * c.lr(0.1, 100.), 1) : 0; k.start(40); bool reg = false, other = false, wasTripped = false; GunnsElectPvArray& a = A.a;
    for (int n = c.i(2, 10); n-- > 0;) {
        if (c.b(0.5)) A.light(c); if (c.b(0.4)) load->setDefaultConductivity(In / Vn * c.lr(0.01, 5.)); if (src && c.b(0.3)) src->setSourcePotential(Vn * c.r(0, 1.1)); if (c.b(0.15)) r.setVoltageSetpoint(set = Vn * c.r(0.2, 0.9)); if (c.b(0.1)) r.setMinOperatePower(minop = c.b() ? 0. : In * Vn * c.lr(1e-3, 0.5)); if (c.b(0.12)) r.setEnabled(en = !en); if (c.b(0.12)) VptFriend::power(r, pow = !pow); const bool rst = c.b(0.15); if (rst) VptFriend::reset(r);
        const bool latched = wasTripped && pow && !rst; bool ok; try { ok = k.step(1.); } catch (TsOutOfBoundsException&) { c.discard(); } if (!ok) c.discard();
        const double V = k.v(1), I = VptFriend::flux(r), in = VptFriend::in(r), out = VptFriend::out(r), waste = VptFriend::waste(r), shunt = VptFriend::shunt(r), bulk = VptFriend::bulk(r), vreg = VptFriend::vreg(r); const int st = VptFriend::state(r); const bool tripped = r.getTrips()->isTripped(); const double tiny = 1e-9 * Vn * In, most = A.most(vreg) + (A.same ? 0. : bulk); // different sections: the array curve is an approximation
        c.log() << "state " << st << (pow ? "" : " unpowered") << (en ? "" : " disabled") << (tripped ? " tripped" : "") << " V " << V << " I " << I << " in " << in << " out " << out << " shunt " << shunt << " waste " << waste << " set " << vreg << " bulk " << bulk << " W\n";
        c.checkNear(vreg, set, 1e-12, 0., "setpoint2", "regulated voltage"); if (latched) c.check(tripped, "latch2", "trip cleared without a reset or power down"); wasTripped = tripped; double p, g; a.predictLoadAtVoltage(p, g, vreg); c.checkNear(bulk, p, 1e-9, 1e-15, "bulk", "available power");
        const bool must = !pow || !en || tripped || bulk < minop; if (must) c.check(st == GunnsElectPvRegShunt::OFF, "off2", "delivers although off, tripped, dark or below its minimum power"); c.check(I >= -1e-12 * In, "reverse2", S() << I << " A flow back into the regulator");
        c.check(waste >= -tiny, "waste2", S() << "waste heat " << waste); if (A.usual()) c.check(out + waste <= most * (1 + 0.02) + tiny, "more-than-strings", S() << out << " W delivered and " << waste << " W wasted of " << most << " W"); 
        double sum = 0., lo = 0., shs = 0.; int firstShunted = -1; bool partition = true; double lastLoaded = 0.; for (size_t i = 0; i < order.size(); ++i) { GunnsElectPvString& s = a.mSections[order[i].first].mStrings[order[i].second]; sum += s.getTerminal().mPower; if (s.isShunted()) { if (firstShunted < 0) firstShunted = (int)i; shs += s.getTerminal().mPower; } else { if (firstShunted >= 0) partition = false; lo += lastLoaded = s.getTerminal().mPower; } }
        if (st == GunnsElectPvRegShunt::REG) {
            reg = reg || firstShunted > 0; c.checkNear(I, (vreg - V) * gout, 1e-6, 1e-9 * In, "regulation2", "output current"); c.check(V <= vreg * (1 + 1e-9), "overvoltage2", S() << V << " V, regulates " << vreg); c.checkNear(out, V * I, 1e-9, tiny, "out2", "output power"); c.check(partition, "load-order", "a string is loaded after a shunted one in the load order"); c.checkNear(in, lo, 1e-9, 1e-15, "in2", "input power"); c.checkNear(shunt, shs, 1e-9, 1e-15, "shunt2", "shunt power"); const double need = vreg * I; if (A.at(vreg) * vreg >= need * (1 + 1e-6) || bulk < need) c.check(in >= need * (1 - 1e-6) - tiny, "supply", S() << "delivers " << need << " W from " << in << " W"); if (firstShunted != 0 && in > 0.) c.check(in - lastLoaded <= need * (1 + 1e-6) + tiny, "slack", S() << "loads more strings than the demand of " << need << " W needs"); c.checkNear(waste, shunt + I * (vreg - V), 1e-9, tiny, "waste-sum", "waste heat");
            for (size_t i = 0; i < order.size(); ++i) { GunnsElectPvString& s = a.mSections[order[i].first].mStrings[order[i].second]; if (s.isShunted() && s.getShortCircuitCurrent() < 1e-15) c.check(s.getTerminal().mCurrent == 0., "shunted", "current of a dark string"); else if (s.isShunted()) c.checkNear(s.getTerminal().mCurrent, gsh * s.getTerminal().mVoltage, 1e-9, 1e-12, "shunted", "current of a shunted string"); else c.check(s.getTerminal().mVoltage == vreg, "loaded", "voltage of a loaded string"); }
            if (firstShunted > 0) c.label("some strings shunted");
        } else { other = true; c.check(I == 0. && out == 0. && in == 0., "off-power2", S() << "off with " << I << " A, " << in << " W in, " << out << " W out"); c.checkNear(waste, shunt, 1e-12, 0., "off-waste", "waste heat when off"); }
        if (!tripped && pow && en) { if (t.ooc > 0) c.check(!((float)I > (float)t.ooc), "trip-ooc", S() << I << " A past its trip " << t.ooc); if (t.oov > 0) c.check(!((float)V > (float)t.oov), "trip-oov", S() << V << " V past its trip " << t.oov); if (t.ouv > 0) c.check(!((float)V < (float)t.ouv), "trip-ouv", S() << V << " V below its trip " << t.ouv); }
        if (!t.any()) c.check(!tripped, "no-trip", "tripped without a limit");
    }
    if (reg && other) c.nontrivial();
}
