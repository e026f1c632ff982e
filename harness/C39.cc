// C39: a sensor reports truth through its unit conversion, scale, bias, drift, noise and resolution, within its range; power and malfunctions take their documented precedence.
#define VPT_FRIEND_EXTRA static void smoke(TsOpticSmokeDetector& d, bool p, bool b, float s) { d.isPowered = p; d.isBitEnabled = b; d.smokeLevelFactor = s; } static int load(TsOpticSmokeDetector& d) { return d.isLoadOn; } static float ov(TsOpticSmokeDetector& d) { return d.obsSensedVoltage; } static float sv(TsOpticSmokeDetector& d) { return d.scatSensedVoltage; } static float ot(TsOpticSmokeDetector& d) { return d.obscurationPercentage; } static float st(TsOpticSmokeDetector& d) { return d.scatterPercentage; } \
    static bool degr(SensorBase& s) { return s.mDegradedFlag; } static SensorBooleanAi* close(SensorVlvOpenClose& v) { return &v.mClose; } static SensorBooleanAi* open(SensorVlvOpenClose& v) { return &v.mOpen; } static bool trueValue(TsLimitSwitch& s) { return s.mTrueValue; } static double dew(GunnsFluidLiquidWaterSensor& s) { return s.mDewPoint; } static double psat(GunnsFluidLiquidWaterSensor& s) { return s.mSaturationPressure; }
#include "common/sensors/SensorAnalog.hh"
#include "common/sensors/SensorVlvOpenClose.hh"
#include "common/sensors/TsLimitSwitch.hh"
#include "common/sensors/TsOpticSmokeDetector.hh"
#include "aspects/fluid/conductor/GunnsFluidSensor.hh"
#include "aspects/fluid/conductor/GunnsFluidLiquidWaterSensor.hh"
#include "fluidnet.hh"
#include "common/sensors/SensorBooleanBi.hh"
#include "common/sensors/SensorBooleanAi.hh"
#include "common/sensors/SensorVlvOpenClose.hh"
#include "common/sensors/TsFanSpeedSensors.hh"
#include "common/sensors/TsLimitSwitch.hh"
#include "common/sensors/TsLimitSwitchAnalog.hh"
#include "common/sensors/TsNoise.hh"
#include "core/GunnsSensorAnalogWrapper.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cfloat>
#include <cmath>
using namespace vpt;
static double gNoise = 0.; static int gCalls = 0;
static double noise() { ++gCalls; return gNoise; }
static double noiseReal() { return TsNoise::getNoise(); }
static const UnitConversion::Type UC[] = {UnitConversion::NO_CONVERSION, UnitConversion::K_TO_C, UnitConversion::UNIT_TO_KILO, UnitConversion::FRAC_TO_PERCENT, UnitConversion::C_TO_F};
static double conv(int u, double x) { return u == 1 ? x - 273.15 : u == 2 ? x / 1000. : u == 3 ? x * 100. : u == 4 ? x * 1.8 + 32. : x; }

// Reference: one analog sensor.
struct ARef {
    int u = 0; double lo = 0, hi = 1, off = 0, bias = 0, scale = 1, ns = 0, nm = 0, res = 0; bool fn = false; // configuration
    bool pow = false, toF = false, offF = false, stuck = false, ign = false, perf = false, sF = false, bF = false, dF = false, nF = false, rF = false; double toV = 0, sV = 1, bV = 0, dR = 0, nS = 0, nM = 0, rV = 0, truth = 0;
    double drift = 0, out = 0, tol = 0, raw = 0, R = 0; bool ideal = false, deg = false; // raw: before rounding and limits
    static double flt(double x) { return 3e-7 * std::fabs(x) + 1e-30; }
    void step(double dt, double nz) {
        R = 0.;
        deg = (toF || offF || stuck || sF || bF || dF || nF || rF) && !perf; const bool on = (pow || ign) && !offF; double t = 0.; bool calc = false;
        if (perf) { out = conv(u, truth); t = flt(out) + flt(truth) * (u == 3 ? 100 : u == 2 ? 1e-3 : 2) + (u == 1 ? 1e-4 : u == 4 ? 1e-4 : 0); calc = true; }
        else if (!on) { out = off; t = flt(off); }
        else if (toF) { out = toV; t = flt(toV); }
        else if (!stuck) {
            double x = conv(u, truth); t = flt(x) + flt(truth) * (u == 3 ? 100 : u == 2 ? 1e-3 : 2) + (u == 1 || u == 4 ? 1e-4 : 0);
            x *= scale; t *= std::fabs(scale); t += flt(x); if (sF) { x *= sV; t = t * std::fabs(sV) + flt(x); }
            x += bias; t += flt(x) + flt(bias); if (bF) { x += bV; t += flt(x) + flt(bV); }
            if (dF) { drift += dR * dt; x += drift; t += flt(x) + 3e-6 * std::fabs(drift); drifts += std::fabs(dR * dt); t += 1e-6 * drifts; } else { drift = 0.; drifts = 0.; }
            if (fn) { const double S = nF ? nS : ns, M = nF ? nM : nm, D = std::fabs(x - off); const double a = M * D; t += std::fabs(M) * t; if (std::fabs(a) > 1.2e-7) { x += nz * a; t += flt(a) + flt(x); } else t += 1.3e-7 ; if (std::fabs(S) > 1.2e-7) { x += nz * S; t += flt(x) + flt(S); } }
            raw = x; R = std::fabs(rF ? rV : res); if (R <= 1.2e-7) R = 0.; out = x; calc = true; if (R > 0.) t += flt(x) * 3;
        }
        else { R = -1.; t = tol; out = held; }
        (void)calc; tol = t; unl = out; out = std::min(std::max(out, lo), hi); held = out;
    }
    double held = 0, unl = 0, drifts = 0;
};
static double fl(double x) { return double(float(x)); }
static void cfgGen(Case& c, ARef& r, SensorAnalogConfigData& d, bool ext) {
    r.u = c.i(0, 4); const double span = c.lr(0.1, 1e4); const double at = conv(r.u, 0.) + c.sr(1e-3, 1e3); r.lo = fl(at - span * c.u()); r.hi = fl(r.lo + span); if (!(r.hi > r.lo)) c.discard();
    r.off = c.b(0.5) ? r.lo : std::min(fl(c.r(r.lo, r.hi)), r.hi); r.off = std::max(r.off, r.lo);
    if (ext) { r.bias = c.b(0.5) ? fl(c.sr(1e-3, 1.) * span) : 0.; r.scale = c.b(0.5) ? fl(c.sr(0.1, 3.)) : 1.; r.fn = c.b(0.6); r.ns = c.b(0.5) ? fl(c.lr(1e-4, 0.3) * span) : 0.; r.nm = c.b(0.4) ? fl(c.lr(1e-4, 0.3)) : 0.; r.res = c.b(0.4) ? fl(c.sr(1e-3, 0.3) * span) : 0.; }
    d.mMinRange = float(r.lo); d.mMaxRange = float(r.hi); d.mOffValue = float(r.off); d.mNominalBias = float(r.bias); d.mNominalScale = float(r.scale); d.mNominalNoiseScale = float(r.ns); d.mNominalNoiseMult = float(r.nm); d.mNominalResolution = float(r.res); d.mUnitConversion = UC[r.u]; d.mNoiseFunction = r.fn ? noise : 0;
}
static double truthGen(Case& c, const ARef& r) { if (c.b(0.05)) return c.sr(1e-45, 1e-36); const double y = c.b(0.8) ? c.r(r.lo, r.hi) : r.lo + (r.hi - r.lo) * c.sr(0.1, 3.); return r.u == 1 ? y + 273.15 : r.u == 2 ? y * 1000. : r.u == 3 ? y / 100. : r.u == 4 ? (y - 32.) / 1.8 : y; }
template <class A> static void flags(Case& c, ARef& r, A& d) { // d: SensorAnalog or its input data
    const double span = r.hi - r.lo, p = c.b(0.5) ? 0.1 : 0.4;
    d.mMalfFailToFlag = r.toF = c.b(p * 0.4); d.mMalfFailOffFlag = r.offF = c.b(p * 0.4); d.mMalfFailStuckFlag = r.stuck = c.b(p * 0.4); d.mMalfIgnorePower = r.ign = c.b(p); d.mMalfPerfectSensor = r.perf = c.b(p * 0.4);
    d.mMalfScaleFlag = r.sF = c.b(p); d.mMalfBiasFlag = r.bF = c.b(p); d.mMalfDriftFlag = r.dF = c.b(0.2 + p); d.mMalfNoiseFlag = r.nF = c.b(p); d.mMalfResolutionFlag = r.rF = c.b(p);
    r.toV = fl(r.lo + span * c.r(-0.2, 1.2)); r.sV = fl(c.sr(0.1, 3.)); r.bV = fl(c.sr(1e-3, 1.) * span); r.dR = fl(c.sr(1e-4, 1.) * span); r.nS = c.b(0.5) ? fl(c.sr(1e-3, 0.5) * span) : 0.; r.nM = c.b(0.5) ? fl(c.sr(1e-3, 0.5)) : 0.; r.rV = c.b(0.7) ? fl(c.sr(1e-3, 0.3) * span) : 0.;
    d.mMalfFailToValue = float(r.toV); d.mMalfScaleValue = float(r.sV); d.mMalfBiasValue = float(r.bV); d.mMalfDriftRate = float(r.dR); d.mMalfNoiseScale = float(r.nS); d.mMalfResolutionValue = float(r.rV);
}
static void setMult(SensorAnalog& s, double m) { s.mMalfNoiseMultiplier = float(m); }
static void setMult(SensorAnalogInputData& s, double m) { s.mMalfNoiseMult = float(m); }
static std::string show(const ARef& r) { return S() << (r.perf ? "perfect " : "") << (r.pow ? "on" : "off") << (r.ign ? " ignore-power" : "") << (r.offF ? " fail-off" : "") << (r.toF ? " fail-to " : "") << (r.toF ? r.toV : 0.) << (r.stuck ? " stuck" : "") << (r.sF ? " scale " : "") << (r.sF ? r.sV : 0.) << (r.bF ? " bias " : "") << (r.bF ? r.bV : 0.) << (r.dF ? " drift " : "") << (r.dF ? r.drift : 0.) << (r.nF ? " noisy" : "") << (r.rF ? " coarse " : "") << (r.rF ? r.rV : 0.) << " truth " << r.truth << " noise " << gNoise; }
static void compare(Case& c, ARef& r, SensorAnalog& s, const char* when) {
    const double got = s.getSensedOutput();
    c.check(got >= r.lo && got <= r.hi, "range", S() << when << ": senses " << got << " outside " << r.lo << " to " << r.hi << "; " << show(r));
    if (r.R > 0.) {
        const double k = got / r.R; const bool lim = got == fl(r.lo) || got == fl(r.hi);
        if (!lim) { c.check(std::fabs(k - std::floor(k + 0.5)) < 1e-5 + 3e-7 * std::fabs(k), "resolution", S() << when << ": " << got << " isn't a multiple of the resolution " << r.R << "; " << show(r)); c.check(std::fabs(got - r.raw) <= 0.5 * r.R * (1 + 1e-5) + r.tol, "rounding", S() << when << ": " << r.raw << " read as " << got << " with resolution " << r.R << "; " << show(r)); }
        else c.check(got == fl(r.lo) ? r.raw <= r.lo + 0.5 * r.R * (1 + 1e-5) + r.tol : r.raw >= r.hi - 0.5 * r.R * (1 + 1e-5) - r.tol, "limit", S() << when << ": " << r.raw << " read as the limit " << got << "; " << show(r));
        r.held = got; r.tol = 0.;
    } else { c.check(std::fabs(got - r.out) <= r.tol * 2 + 1e-30, "output", S() << when << ": senses " << got << " instead of " << r.out << " (+-" << r.tol << "); " << show(r)); r.held = got; r.tol = 0.; }
    c.checkNear(s.getTruthOutput(), conv(r.u, r.truth), 1e-12, 1e-9, "truth", "converted truth"); c.check(s.getTruthInput() == r.truth, "truth", "truth input changed"); c.check(VptFriend::degr(s) == r.deg, "degraded", S() << when << ": degraded flag " << VptFriend::degr(s) << "; " << show(r));
}
FACET(analog, 5000, 100000, "a malfunction changed the reading and a later step ran without it") {
    ARef r; SensorAnalogConfigData cfg; cfgGen(c, r, cfg, true); SensorAnalogInputData in; flags(c, r, in); setMult(in, r.nM); in.mPowerFlag = r.pow = c.b(0.7); in.mTruthInput = r.truth = truthGen(c, r); in.mDrift = float(r.drift = c.b(0.3) ? fl(c.sr(1e-3, 0.3) * (r.hi - r.lo)) : 0.);
    const int bad = c.b(0.1) ? c.i(1, 3) : 0; if (bad == 1) cfg.mMaxRange = float(r.lo - c.u()); if (bad == 2) cfg.mOffValue = float(r.lo - (r.hi - r.lo) * c.r(0.01, 2.)); if (bad == 3) cfg.mOffValue = float(r.hi + (r.hi - r.lo) * c.r(0.01, 2.));
    SensorAnalogConfigData cfg2 = c.b(0.5) ? SensorAnalogConfigData(cfg) : SensorAnalogConfigData(); cfg2 = cfg; SensorAnalogInputData in2(in); if (c.b(0.5)) { SensorAnalogInputData x; x = in; in2 = x; }
    SensorAnalog s; gNoise = c.r(-1., 1.); bool threw = false; try { s.initialize(cfg2, in2, "sensor"); } catch (TsInitializationException&) { threw = true; }
    c.check(threw == (bad != 0), "validate", S() << (bad ? "accepted range " : "rejected range ") << cfg.mMinRange << " to " << cfg.mMaxRange << " with off value " << cfg.mOffValue); c.check(s.isInitialized() == !threw, "initialized", "init flag"); if (threw) return;
    r.step(0., gNoise); compare(c, r, s, "at initialization"); const int n = c.i(1, 12); bool was = false, after = false;
    for (int k = 0; k < n; ++k) {
        if (c.b(0.5)) { flags(c, r, s); setMult(s, r.nM); } r.pow = c.b(0.8); r.truth = truthGen(c, r); gNoise = c.r(-1., 1.); const double dt = c.b(0.1) ? 0. : c.lr(1e-3, 2.); r.step(dt, gNoise);
        if (c.b(0.5)) { const float got = s.sense(dt, r.pow, r.truth); c.check(got == s.getSensedOutput(), "return", "sense() returns something else than the output"); } else { s.setPowerFlag(r.pow); s.setTruthInput(r.truth); s.update(dt); }
        c.log() << "dt " << dt << " " << show(r) << " -> " << s.getSensedOutput(); compare(c, r, s, "step"); if (was && !r.deg) after = true; was = was || r.deg;
    }
    if (was && after) c.nontrivial();
}
FACET(boolean, 4000, 80000, "a switch or boolean sensor changed state and a malfunction or power loss masked it at some step") {
    const int kind = c.i(0, 4); bool masked = false, seen[2] = {false, false}; const int n = c.i(1, 12);
    const double target = c.b(0.2) ? 0. : fl(c.sr(1e-2, 100.)), tol = c.b(0.15) ? 0. : fl(c.lr(1e-4, 10.));
    auto pos = [&]() { const int w = c.i(0, 4); return w == 0 ? target : w == 1 ? target + tol * c.r(-0.98, 0.98) : w == 2 ? target + tol * (c.b(0.5) ? 1 : -1) * c.r(1.02, 2.) + (tol == 0. ? c.sr(0.1, 1.) : 0.) : w == 3 ? target + c.sr(1e-2, 200.) : -target; };
    auto edge = [&](double x) { const double d = std::fabs(std::fabs(x - target) - tol); return x != target && d < 1e-6 * (std::fabs(x) + std::fabs(target)) + 1e-12; };
    if (kind == 0) { // discrete sensor
        const bool off = c.b(0.5); SensorBooleanBiConfigData cfg(off); SensorBooleanBiInputData in; in.mPowerFlag = c.b(0.5); in.mTruthInput = c.b(0.5); in.mMalfFailToValue = c.b(0.5); SensorBooleanBiConfigData cfg2(cfg); SensorBooleanBiInputData in2(in); SensorBooleanBi s; s.initialize(cfg2, in2, "s"); c.check(s.isInitialized() && s.getSensedOutput() == (in.mPowerFlag ? in.mTruthInput : off), "initial", "initial output"); bool held = s.getSensedOutput();
        for (int k = 0; k < n; ++k) { if (c.b(0.6)) { s.mMalfFailToFlag = c.b(0.2); s.mMalfFailToValue = c.b(0.5); s.mMalfFailOffFlag = c.b(0.2); s.mMalfFailStuckFlag = c.b(0.2); s.mMalfIgnorePower = c.b(0.2); s.mMalfPerfectSensor = c.b(0.2); }
            const bool p = c.b(0.7), t = c.b(0.5); const bool got = s.sense(0.1, p, t); const bool on = (p || s.mMalfIgnorePower) && !s.mMalfFailOffFlag; const bool exp = s.mMalfPerfectSensor ? t : !on ? off : s.mMalfFailToFlag ? s.mMalfFailToValue : s.mMalfFailStuckFlag ? held : t; seen[exp] = true; masked = masked || exp != t;
            c.check(got == exp && s.getSensedOutput() == exp, "discrete", S() << "senses " << got << " with truth " << t << " power " << p << " ignore " << s.mMalfIgnorePower << " off " << s.mMalfFailOffFlag << " to " << s.mMalfFailToFlag << " stuck " << s.mMalfFailStuckFlag << " perfect " << s.mMalfPerfectSensor); held = got; c.check(VptFriend::degr(s) == ((s.mMalfFailToFlag || s.mMalfFailOffFlag || s.mMalfFailStuckFlag) && !s.mMalfPerfectSensor), "degraded", "degraded flag"); }
    } else if (kind == 1 || kind == 2) { // analog truth, discrete output; valve open/close pair
        const bool pair = kind == 2, off = c.b(0.3); if (c.b(0.05)) { SensorBooleanAi s; SensorBooleanAiConfigData cfg(off, float(target), float(-c.lr(1e-3, 1.))); bool threw = false; try { s.initialize(cfg, SensorBooleanAiInputData(), "s"); } catch (TsInitializationException&) { threw = true; } c.check(threw, "validate", "negative tolerance accepted"); return; }
        SensorBooleanAi single; SensorVlvOpenClose v; const double t2 = fl(target + c.sr(0.1, 50.)); SensorBooleanAiConfigData cfg(off, float(target), float(tol)), cfg2(off, float(t2), float(tol)); SensorBooleanAiInputData in; in.mPowerFlag = false; bool h[2];
        if (pair) { SensorVlvOpenCloseConfigData pc(cfg, cfg2); SensorVlvOpenCloseInputData pi(false); v.initialize(pc, pi, "v"); c.check(v.isInitialized() && v.isOpen() == off && v.isClosed() == off, "initial", "unpowered valve sensor"); } else { single.initialize(cfg, in, "s"); c.check(single.isInitialized() && single.getSensedOutput() == off, "initial", "unpowered sensor"); } h[0] = h[1] = off;
        for (int k = 0; k < n; ++k) { SensorBooleanAi* ss[2] = {pair ? VptFriend::open(v) : &single, pair ? VptFriend::close(v) : 0}; for (int q = 0; q < (pair ? 2 : 1); ++q) if (c.b(0.5)) { SensorBooleanAi& s = *ss[q]; s.mMalfFailToFlag = c.b(0.2); s.mMalfFailToValue = c.b(0.5); s.mMalfFailOffFlag = c.b(0.2); s.mMalfFailStuckFlag = c.b(0.2); s.mMalfIgnorePower = c.b(0.2); s.mMalfPerfectSensor = c.b(0.2); }
            const bool p = c.b(0.7); double x = pair && c.b(0.4) ? t2 : pos(); if (edge(x) || (pair && x != t2 && std::fabs(std::fabs(x - t2) - tol) < 1e-6 * (std::fabs(x) + std::fabs(t2)) + 1e-12)) continue; if (pair) { if (c.b(0.5)) v.sense(0.1, p, x); else { v.setPowerFlag(p); v.setTruthInput(x); v.update(0.1); } } else single.sense(0.1, p, x);
            for (int q = 0; q < (pair ? 2 : 1); ++q) { SensorBooleanAi& s = *ss[q]; const double tt = q ? t2 : target; const bool t = std::fabs(fl(x) - tt) <= tol; const bool on = (p || s.mMalfIgnorePower) && !s.mMalfFailOffFlag; const bool exp = s.mMalfPerfectSensor ? t : !on ? off : s.mMalfFailToFlag ? s.mMalfFailToValue : s.mMalfFailStuckFlag ? h[q] : t; seen[exp] = true; masked = masked || exp != t; const bool got = pair ? (q ? v.isClosed() : v.isOpen()) : s.getSensedOutput();
                c.check(got == exp, "threshold", S() << (pair ? q ? "close " : "open " : "") << "sensor reads " << got << " with truth " << x << " target " << tt << " +- " << tol << " power " << p << " stuck " << s.mMalfFailStuckFlag << " to " << s.mMalfFailToFlag << " off " << s.mMalfFailOffFlag << " ignore " << s.mMalfIgnorePower << " perfect " << s.mMalfPerfectSensor); h[q] = exp; } }
    } else { // limit switches
        const bool an = kind == 4; TsLimitSwitchAnalogConfigData cfg; cfg.mNotPoweredValue = c.b(0.5); cfg.mTargetValue = target; cfg.mTolerance = tol; TsLimitSwitchAnalogInputData in(c.b(0.5), c.b(0.5), c.b(0.5)); TsLimitSwitch d; TsLimitSwitchAnalog a; bool threw = false; try { if (an) a.initialize(cfg, in); else d.initialize(cfg, in); } catch (TsInitializationException&) { threw = true; }
        c.check(threw == (an && tol < double(FLT_EPSILON)), "validate", S() << "tolerance " << tol << (threw ? " rejected" : " accepted")); if (threw) return; TsLimitSwitch& s = an ? a : d; c.check(VptFriend::trueValue(s) == in.mTrueValue && s.getValue() == in.mSensedValue, "initial", "initial values");
        for (int k = 0; k < n; ++k) { const bool p = c.b(0.7), f = c.b(0.25); const double x = pos(); if (edge(x)) continue; const bool t = an ? std::fabs(x - target) < tol || (target > 0. && x > target) || (target < 0. && x < target) : c.b(0.5); if (an) a.update(x, p, f); else d.update(t, p, f); const bool exp = f ? in.mFailedValue : !p ? cfg.mNotPoweredValue : t; seen[exp] = true; masked = masked || exp != t;
            c.check(VptFriend::trueValue(s) == t && s.getValue() == exp, "limit-switch", S() << "reads " << s.getValue() << " (true " << VptFriend::trueValue(s) << ") with " << x << " target " << target << " +- " << tol << " powered " << p << " failed " << f); }
    }
    if (masked && seen[0] && seen[1]) c.nontrivial();
}
FACET(fan, 1500, 30000, "the three sensors read different values") {
    ARef r[3]; SensorAnalogConfigData cfg; cfgGen(c, r[0], cfg, true); r[1] = r[2] = r[0]; SensorAnalogInputData in[3]; gNoise = c.r(-1., 1.);
    for (int k = 0; k < 3; ++k) { flags(c, r[k], in[k]); setMult(in[k], r[k].nM); in[k].mPowerFlag = r[k].pow = c.b(0.7); in[k].mTruthInput = r[k].truth = truthGen(c, r[k]); }
    TsFanSpeedSensors f; f.initialize(TsFanSpeedSensorsConfigData(cfg), TsFanSpeedSensorsInputData(in[0], in[1], in[2]), "fan"); c.check(f.isInitialized(), "initialized", "not initialized"); SensorAnalog* s[3] = {&f.mSensorA, &f.mSensorB, &f.mSensorC}; for (int k = 0; k < 3; ++k) { r[k].step(0., gNoise); r[k].held = s[k]->getSensedOutput(); }
    const int n = c.i(1, 5); bool diff = false;
    for (int k = 0; k < n; ++k) {
        for (int q = 0; q < 3; ++q) { if (c.b(0.3)) { flags(c, r[q], *s[q]); setMult(*s[q], r[q].nM); } } const bool p = c.b(0.8); const double x = truthGen(c, r[0]); gNoise = c.r(-1., 1.); const double dt = c.lr(1e-3, 1.); float got; if (c.b(0.5)) got = f.sense(dt, p, x); else { f.setPowerFlag(p); f.setTruthInput(x); f.update(dt); got = f.getSensedOutput(); }
        double sum = 0., mag = 0.; for (int q = 0; q < 3; ++q) { r[q].pow = p; r[q].truth = x; r[q].step(dt, gNoise); compare(c, r[q], *s[q], q == 0 ? "sensor A" : q == 1 ? "sensor B" : "sensor C"); sum += s[q]->getSensedOutput(); mag += std::fabs(s[q]->getSensedOutput()); } diff = diff || s[0]->getSensedOutput() != s[1]->getSensedOutput();
        c.checkNear(got, sum / 3., 1e-6, 1e-6 * mag + 1e-40, "average", "average of the three sensors"); c.check(f.getSensedOutput() == got, "average", "sense() and getSensedOutput() differ"); c.check(f.getTruthInput() == x, "truth", "truth input");
    }
    if (diff) c.nontrivial();
}
FACET(smoke, 2000, 40000, "a built-in test ran to its end after being released") {
    TsOpticSmokeDetectorConfigData cfg; const bool custom = c.b(0.7);
    if (custom) { cfg.obsMaxPercentage = float(c.r(80., 140.)); cfg.obsMinPercentage = float(c.r(-20., 2.)); cfg.obsSmokeContributer = float(c.r(1., 200.)); cfg.scatterMaxPercentage = float(c.r(2., 5.)); cfg.scatterMinPercentage = float(c.r(0.02, 0.12)); cfg.bitOnMaxScatterValue = float(c.r(1., 1.9)); cfg.nominalObscuration = float(c.r(3., 20.)); cfg.nominalScatter = float(c.r(0.15, 0.4)); cfg.bitRecoveryTime = float(c.r(0.5, 3.)); cfg.obsOffValue = float(c.r(3., 70.)); cfg.scatOffValue = float(c.r(0.01, 1.)); }
    if (custom && c.b(0.6)) { cfg.obsPercentVoltSlope = float(c.sr(0.01, 1.)); cfg.obsVoltIntercept = float(c.r(-5., 5.)); cfg.scatPercentVoltSlope = float(c.sr(0.1, 4.)); cfg.scatVoltIntercept = float(c.r(-5., 5.)); }
    const int bad = c.b(0.1) ? c.i(1, 7) : 0; TsOpticSmokeDetectorInputData in; in.isPowered = c.b(0.5); if (bad == 1) cfg.obsMinPercentage = cfg.obsMaxPercentage + 1.F; if (bad == 2) cfg.scatterMinPercentage = cfg.scatterMaxPercentage; if (bad == 3) cfg.nominalObscuration = cfg.obsMinPercentage - 1.F; if (bad == 4) cfg.bitOnMaxScatterValue = cfg.scatterMinPercentage; if (bad == 5) cfg.bitRecoveryTime = 0.F; if (bad == 6) in.smokeLevelFactor = c.b(0.5) ? 1.1F : -0.1F; if (bad == 7) in.bitTimer = -1.F;
    TsOpticSmokeDetector d; bool threw = false; try { d.initialize(cfg, in, "smoke"); } catch (TsInitializationException&) { threw = true; } c.check(threw == (bad != 0), "validate", S() << "bad input " << bad << (threw ? " rejected" : " accepted")); c.check(d.isInitialized() == !threw, "initialized", "init flag"); if (threw) return;
    d.obscurationSensor.mMalfNoiseFlag = d.scatterSensor.mMalfNoiseFlag = true; // replaces the configured random noise by none
    bool pow = in.isPowered, bit = false, proc = false, finished = false; double smoke = 0., timer = 0.; const int n = c.i(2, 25); const double dt = c.r(0.1, 1.);
    for (int k = 0; k < n; ++k) {
        if (c.b(0.3)) pow = c.b(0.8); if (c.b(0.3)) bit = c.b(0.4); if (c.b(0.5)) smoke = fl(c.b(0.2) ? c.i(0, 1) : c.u()); if (c.b(0.2)) { d.malfTotalFail = c.b(0.2); d.malfPowerToOn = c.b(0.3); }
        VptFriend::smoke(d, pow, bit, float(smoke)); d.update(float(dt)); const bool load = (pow || d.malfPowerToOn) && !d.malfTotalFail; double o = cfg.obsOffValue, s = cfg.scatOffValue; bool edge = false;
        if (load && (bit || proc)) { edge = std::fabs(timer - cfg.bitRecoveryTime) < 1e-4; proc = timer <= cfg.bitRecoveryTime; o = cfg.obsMaxPercentage; s = bit ? cfg.bitOnMaxScatterValue : cfg.scatterMinPercentage; if (!bit) { timer += dt; finished = finished || !proc; } }
        else if (load) { timer = 0.; o = cfg.nominalObscuration + cfg.obsSmokeContributer * smoke; s = cfg.nominalScatter + (cfg.scatterMaxPercentage - cfg.nominalScatter) * smoke; }
        if (edge) c.discard(); o = std::min(std::max(o, double(cfg.obsMinPercentage)), double(cfg.obsMaxPercentage)); s = std::min(std::max(s, 0.), double(cfg.scatterMaxPercentage));
        const std::string w = S() << "step " << k << (load ? " on" : " off") << (bit ? " test" : proc ? " recovering" : "") << " smoke " << smoke; c.log() << w << " -> " << VptFriend::ot(d) << ", " << VptFriend::st(d);
        c.check((VptFriend::load(d) != 0) == load, "load", w); c.check(c.near(VptFriend::ot(d), o, 1e-5, 1e-5), "obscuration", S() << w << ": obscuration " << VptFriend::ot(d) << " instead of " << o); c.check(c.near(VptFriend::st(d), s, 1e-5, 1e-5), "scatter", S() << w << ": scatter " << VptFriend::st(d) << " instead of " << s);
        c.check(c.near(d.getSensedObscurationValue(), o, 1e-5, 1e-5), "obscuration-sensor", S() << w << ": senses " << d.getSensedObscurationValue() << " of " << o); c.check(c.near(d.getSensedScatterValue(), s, 1e-5, 1e-5), "scatter-sensor", S() << w << ": senses " << d.getSensedScatterValue() << " of " << s);
        c.check(c.near(VptFriend::ov(d), cfg.obsPercentVoltSlope * o + cfg.obsVoltIntercept, 1e-5, 1e-4), "obscuration-voltage", S() << w << ": " << VptFriend::ov(d) << " V for " << o << " % with slope " << cfg.obsPercentVoltSlope << " and intercept " << cfg.obsVoltIntercept); c.check(c.near(VptFriend::sv(d), cfg.scatPercentVoltSlope * s + cfg.scatVoltIntercept, 1e-5, 1e-4), "scatter-voltage", S() << w << ": " << VptFriend::sv(d) << " V for " << s << " with slope " << cfg.scatPercentVoltSlope << " and intercept " << cfg.scatVoltIntercept);
    }
    if (finished) c.nontrivial();
}
FACET(noise, 60, 600, "any seed") {
    const unsigned seed = unsigned(c.i(0, 1000000)); TsNoise::initialize(seed); const int n = 4000; double m = 0., v = 0., m4 = 0.; std::vector<double> x(n);
    for (int k = 0; k < n; ++k) { x[k] = TsNoise::getNoise(); c.check(x[k] >= -1. && x[k] <= 1., "bound", S() << "noise " << x[k] << " with seed " << seed); m += x[k] / n; v += x[k] * x[k] / n; m4 += std::pow(x[k], 4) / n; }
    const double sd = 1. / 4.417173413469; c.check(std::fabs(m) < 6. * sd / std::sqrt(n), "mean", S() << "mean " << m << " over " << n << " samples, seed " << seed); c.check(c.near(std::sqrt(v), sd, 6. / std::sqrt(2. * n), 0.), "spread", S() << "standard deviation " << std::sqrt(v) << ", seed " << seed); c.check(c.near(m4 / v / v, 3., 0.25, 0.), "shape", S() << "kurtosis " << m4 / v / v << ", seed " << seed);
    TsNoise::initialize(seed); for (int k = 0; k < 50; ++k) c.check(TsNoise::getNoise() == x[k], "reproducible", "the same seed gives other noise"); c.nontrivial();
}
FACET(wrapper, 1500, 30000, "the sensor was updated both before and after the solver in one run") {
    ARef r; GunnsSensorAnalogWrapperConfigData cfg("w"); cfgGen(c, r, cfg.mSensor, true); GunnsSensorAnalogWrapperInputData in; in.mSensor.mPowerFlag = r.pow = c.b(0.8); in.mSensor.mTruthInput = r.truth = truthGen(c, r); GunnsSensorAnalogWrapper w;
    struct BadC : GunnsNetworkSpotterConfigData { BadC() : GunnsNetworkSpotterConfigData("x") {} }; struct BadI : GunnsNetworkSpotterInputData {}; if (c.b(0.1)) { BadC bc; BadI bi; bool threw = false; const bool which = c.b(0.5); try { if (which) w.initialize(&bc, &in); else w.initialize(&cfg, &bi); } catch (TsInitializationException&) { threw = true; } c.check(threw && !w.isInitialized(), "validate", "wrong data types accepted"); return; }
    gNoise = c.r(-1., 1.); w.initialize(&cfg, &in); c.check(w.isInitialized(), "initialized", "not initialized"); r.step(0., gNoise); compare(c, r, w.mSensor, "at initialization"); bool pre = false, post = true, sawPre = false, sawPost = false; const int n = c.i(1, 12);
    for (int k = 0; k < n; ++k) {
        if (c.b(0.4)) { pre = c.b(0.7); post = c.b(0.4); w.setStepPreSolverFlag(pre); w.setStepPostSolverFlag(post); } if (c.b(0.4)) { flags(c, r, w.mSensor); setMult(w.mSensor, r.nM); } const double dt = c.lr(1e-3, 1.); gNoise = c.r(-1., 1.); const double before = w.mSensor.getSensedOutput();
        const double t1 = truthGen(c, r), t2 = truthGen(c, r); w.mSensor.setTruthInput(t1); w.stepPreSolver(dt); if (pre && !post) { r.truth = t1; r.step(dt, gNoise); compare(c, r, w.mSensor, "before the solver"); sawPre = true; } else c.check(w.mSensor.getSensedOutput() == before, "once", "updated before the solver as well");
        const double mid = w.mSensor.getSensedOutput(); w.mSensor.setTruthInput(t2); w.stepPostSolver(dt); if (post) { r.truth = t2; r.step(dt, gNoise); compare(c, r, w.mSensor, "after the solver"); sawPost = true; } else c.check(w.mSensor.getSensedOutput() == mid, "once", "updated after the solver as well");
    }
    if (sawPre && sawPost) c.nontrivial();
}
FACET(fluid, 500, 10000, "the sensed volume contains moist gas that flows through the sensor") {
    using namespace fn; FSpec s; s.gas = true; s.Tlo = 200.; s.Thi = 500.; s.types = idealGases(); c.shuffle(s.types); s.types.resize(c.i(1, 3)); const bool water = c.b(0.9); bool has = false; for (size_t k = 0; k < s.types.size(); ++k) has = has || s.types[k] == FP::GUNNS_H2O; if (water && !has) s.types.push_back(FP::GUNNS_H2O); if (!water && has) c.discard();
    const int nt = int(s.types.size()); const std::vector<FP::FluidType>& types = s.types;
    for (int k = 0; k < 2; ++k) { FNode x; x.cap = true; x.vol = c.lr(0.1, 10.); x.T = c.r(280., 340.); x.P = c.lr(20., 400.); x.exF = 0.; x.mf = genFractions(c, nt); s.nodes.push_back(x); }
    FluidNet f(s, false); GunnsFluidNode* nodes = f.nodes; const bool rev = c.b(0.3); const int a = rev ? 1 : 0, b = rev ? 0 : 1; const double G1 = c.lr(1e-7, 1e-4), G2 = c.lr(1e-7, 1e-4); GunnsFluidSensor sen; GunnsFluidLiquidWaterSensor wet;
    sen.initialize(GunnsFluidSensorConfigData("sensor", &f.nl, G1, 0.), GunnsFluidSensorInputData(), f.links, a, b); bool threw = false; std::vector<GunnsBasicLink*> keep = f.links; try { wet.initialize(GunnsFluidLiquidWaterSensorConfigData("wet", &f.nl, G2, 0.), GunnsFluidLiquidWaterSensorInputData(), f.links, a, b); } catch (TsInitializationException&) { threw = true; }
    c.check(threw == !water, "no-water", S() << (threw ? "rejected" : "accepted") << " in a network " << (water ? "with" : "without") << " water vapour"); if (threw) f.links = keep; f.start(); Gunns& net = f.net;
    // The link reads its nodes after the solution sets their pressures and before their new mixtures are made.
    struct V { double T, P; std::vector<double> x; }; auto look = [&](int k) { V v; PolyFluid* p = nodes[k].getContent(); v.T = p->getTemperature(); v.P = p->getPressure(); for (int q = 0; q < nt; ++q) v.x.push_back(p->getMoleFraction(types[q])); return v; };
    auto sensed = [&](const V& o, double Pnow, double Pb, const char* when) { c.checkNear(sen.getTemperature(), o.T, 1e-12, 0., "temperature", when); c.checkNear(sen.getPressure(), Pnow, 1e-12, 0., "pressure", when); c.checkNear(sen.getDeltaPressure(), Pnow - Pb, 1e-9, 1e-9, "delta-pressure", when);
        for (int q = 0; q < nt; ++q) { const double g = sen.getPartialPressure()[types[q]], lo = std::min(o.P, Pnow) * o.x[q], hi = std::max(o.P, Pnow) * o.x[q]; c.check(g >= lo * (1 - 1e-9) - 1e-12 && g <= hi * (1 + 1e-9) + 1e-12, "partial-pressure", S() << when << ": " << g << " instead of " << lo << " to " << hi); } for (int q = 0; q < FP::NO_FLUID; ++q) { bool in = false; for (int w = 0; w < nt; ++w) in = in || types[w] == q; if (!in) c.check(sen.getPartialPressure()[q] == 0., "partial-pressure", "partial pressure of an absent fluid"); } };
    V o = look(a); if (!rev) sensed(o, o.P, nodes[b].getContent()->getPressure(), "at initialization"); const int n = c.i(1, 5); bool wetSeen = false;
    for (int k = 0; k < n; ++k) {
        o = look(a); const double rho[2] = {nodes[a].getOutflow()->getDensity(), nodes[b].getOutflow()->getDensity()}; net.step(c.lr(1e-3, 1.)); sensed(o, nodes[a].getContent()->getPressure(), nodes[b].getContent()->getPressure(), "after a step"); const double m = sen.getMassFlowRate(), w = sen.getVolumetricFlowRate(); c.checkNear(m, VptFriend::flow(sen), 1e-12, 0., "flow", "mass flow");
        if (std::fabs(m) > 1e-9) c.check(w * m > 0. && c.near(w, m / rho[m >= 0. ? 0 : 1], 1e-6, 0.), "volume-flow", S() << w << " m3/s for " << m << " kg/s of density " << rho[m >= 0. ? 0 : 1]);
        if (water) { double x = 0.; for (int q = 0; q < nt; ++q) if (types[q] == FP::GUNNS_H2O) x = o.x[q]; const double pw = o.P * x, ps = prop(FP::GUNNS_H2O)->getSaturationPressure(o.T), rh = wet.getRelativeHumidity(), dew = VptFriend::dew(wet); c.checkNear(VptFriend::psat(wet), ps, 1e-9, 1e-12, "saturation", "saturation pressure"); c.check(c.near(rh, pw / ps, 1e-9, 1e-12), "humidity", S() << "relative humidity " << rh << " with " << pw << " of " << ps << " kPa"); c.check(wet.getLiquidPresent() == (rh >= 1.), "liquid", S() << "liquid " << wet.getLiquidPresent() << " at humidity " << rh);
            if (pw > 0.7 && pw < 1000.) { c.check((dew >= o.T) == (rh >= 1.) || std::fabs(rh - 1.) < 0.02, "dew-point", S() << "dew point " << dew << " at " << o.T << " K with humidity " << rh); wetSeen = wetSeen || std::fabs(m) > 1e-6; } }
    }
    if (wetSeen) c.nontrivial();
}
