// C25 power converters, user loads, power supplies and other electrical loads.
// vpt: san
#include "elec.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"
#include "aspects/electrical/UserLoad/ConstantPowerLoad.hh"
#include "aspects/electrical/UserLoad/ResistiveLoad.hh"
#include "aspects/electrical/UserLoad/GunnsElectConstantPowerUserLoad.hh"
#include "aspects/electrical/UserLoad/GunnsElectResistiveUserLoad.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
#include "aspects/electrical/IPS/GunnsElectIps.hh"
#include "aspects/electrical/PowerBus/PowerBusElect.hh"
#include "aspects/electrical/resistive/GunnsResistiveLoad.hh"
#include "aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.hh"
#include "aspects/electrical/Diode/GunnsElectRealDiode.hh"
#include "aspects/electrical/resistive/GunnsElectShort.hh"
#include "aspects/electrical/resistive/GunnsElectricalResistor.hh"
#include "aspects/electrical/resistive/GunnsResistorPowerFunction.hh"
#include "math/approximation/TsLinearInterpolator.hh"
typedef GunnsElectConverterOutput Out; typedef GunnsElectConverterInput In;
class VptFriend { public:
    static int limit(const Out& o) { return o.mLimitState; } static unsigned flips(const Out& o) { return o.mLimitStateFlips; } static double channelLoss(const Out& o) { return o.mOutputChannelLoss; } static double loss(const Out& o) { return o.mTotalPowerLoss; } static bool reverse(const Out& o) { return o.mReverseBiasState; } static unsigned rflips(const Out& o) { return o.mReverseBiasFlips; }
    static double loss(const In& o) { return o.mTotalPowerLoss; } static double power(const In& o) { return o.mInputPower; } static bool overload(const In& o) { return o.mOverloadedState; }
    static int active(const GunnsElectIps& i) { return i.mActivePowerSource; } static double g(const GunnsElectIps& i, int k) { return i.mActiveConductance[k]; } static double in(const GunnsElectIps& i, int k) { return i.mInputCurrent[k]; } static double total(const GunnsElectIps& i) { return i.mTotalPowerLoad; } static void biasPower(EpsConstantPowerLoad& l, double b) { l.mBiasPowerLoadValue = b; }
    static double& ohms(GunnsElectricalResistor& r) { return r.mResistance; } static double flux(const GunnsBasicLink& l) { return l.mFlux; } static void desired(EpsConstantPowerLoad& l, double p) { l.mDesiredPower = p; } static double timer(const GunnsElectUserLoad& l) { return l.mDutyCycleTimer; }
};
static const char* RT[] = { "voltage", "transformer", "current", "power" };

// ---- one converter between two buses, against the closed-form steady state
FACET(converter, 48000, 960000, "the operating regime (regulating, limiting, tripped, reverse biased, off) changed at least once") {
    el::Circuit k(2); const double Gs = c.lr(10, 1e3); double V = c.r(80, 140), GA = c.lr(1e-3, 0.1), GB = c.lr(1e-3, 2), V2 = 0, G2 = 0; GunnsBasicPotential* src = k.pot(V, Gs, 0); GunnsBasicConductor *la = k.cond(GA, 0, k.gnd()), *lb = k.cond(GB, 1, k.gnd()); GunnsBasicPotential* src2 = 0;
    const int type = c.i(0, 3); const double G = c.lr(1, 100), eff = c.r(0.5, 1); if (c.b(0.3) && type != 3) { V2 = c.r(0, 130); G2 = c.lr(1e-3, 1); src2 = k.pot(V2, G2, 1); } bool lim = c.b(0.4); auto setp = [&]() { return type == 0 ? c.r(5, 120) : type == 1 ? c.r(0.1, 1.2) : type == 2 ? c.lr(0.1, 50) : c.lr(1, 2000); }; double sp = setp();
    const int prio = c.i(1, 4), iprio = c.i(1, 4); float ov = c.b(0.5) ? 0.f : (float)c.r(30, 140), uv = c.b(0.6) ? 0.f : (float)c.r(1, 60), oc = c.b(0.5) ? 0.f : (float)c.lr(0.5, 60), iuv = c.b(0.6) ? 0.f : (float)c.r(40, 110), iov = c.b(0.6) ? 0.f : (float)c.r(112, 140); if (lim && type >= 2 && uv > 0.f && ov > 0.f && uv > ov) uv = 0.f;
    double tf[] = { 0, 0.25, 0.5, 1.0 }, te[] = { c.r(0.3, 1), c.r(0.3, 1), c.r(0.3, 1), c.r(0.3, 1) }; const bool table = c.b(0.4); TsLinearInterpolator tab(tf, te, 4, 0., 1.); double ref = c.lr(50, 2000); auto lookup = [&](double x) { x = std::min(1., std::max(0., x)); for (int i = 0; i < 3; ++i) if (x <= tf[i + 1]) return te[i] + (te[i + 1] - te[i]) * (x - tf[i]) / (tf[i + 1] - tf[i]); return te[3]; };
    c.log() << "input bus " << V << " V through " << Gs << ", load " << GA << "; output load " << GB; if (src2) c.log() << " second source " << V2 << " V through " << G2; c.log() << "\nconverter " << RT[type] << " G " << G << " eff " << eff << " setpoint " << sp << (lim ? " limiting" : "") << " ov " << ov << " uv " << uv << " oc " << oc << " prio " << prio << " in uv " << iuv << " ov " << iov << " prio " << iprio << (table ? " table" : "") << "\n";
    Out out; In in; GunnsElectConverterInputConfigData ci("in", &k.nl, 0, 0, iprio, iuv, iov, table ? &tab : 0); bool eo = true, ei = true; GunnsElectConverterInputInputData ii(false, 0., true, V, 0., ref); GunnsElectConverterOutputConfigData co("out", &k.nl, (Out::RegulatorType)type, G, eff, 0, 0, prio, ov, oc, &in, lim, uv); GunnsElectConverterOutputInputData io(false, 0., true, V, 0., sp);
    const bool inFirst = c.b(); if (inFirst) { in.initialize(ci, ii, k.links, 0); out.initialize(co, io, k.links, 1); } else { out.initialize(co, io, k.links, 1); in.initialize(ci, ii, k.links, 0); } c.log() << (inFirst ? "input first\n" : "output first\n");
    k.start(100, 1e-10); double blk = 0, iblk = 0; std::set<int> regimes; const int ops = c.i(1, 6);
    for (int n = 0; n < ops; ++n) {
        if (n) for (int e = c.i(1, 2); e-- > 0;) switch (c.i(0, 9)) {
            case 0: V = c.r(80, 140); src->setSourcePotential(V); c.log() << "source " << V << "\n"; break; case 1: GB = c.lr(1e-3, 2); lb->setDefaultConductivity(GB); c.log() << "load " << GB << "\n"; break; case 2: sp = setp(); out.setSetpoint(sp); c.log() << "setpoint " << sp << "\n"; break;
            case 3: eo = c.b(0.6); out.setEnabled(eo); c.log() << "output enable " << eo << "\n"; break; case 4: ei = c.b(0.7); in.setEnabled(ei); c.log() << "input enable " << ei << "\n"; break; case 5: { const bool f = c.b(0.6); blk = f ? c.pickOf<double>({ c.r(0, 0.9), c.r(0, 0.9), 1. }) : 0.; out.setMalfBlockage(f, blk); c.log() << "output blockage " << blk << "\n"; break; }
            case 6: { const bool f = c.b(0.6); iblk = f ? c.pickOf<double>({ c.r(0, 0.6), c.r(0, 0.6), 1. }) : 0.; in.setMalfBlockage(f, iblk); c.log() << "input blockage " << iblk << "\n"; break; } case 7: out.resetTrips(); c.log() << "reset trips\n"; break; case 8: if (src2) { V2 = c.r(0, 130); src2->setSourcePotential(V2); c.log() << "second source " << V2 << "\n"; } break;
            case 9: GA = c.lr(1e-3, 0.1); la->setDefaultConductivity(GA); c.log() << "input load " << GA << "\n"; break; }
        const bool wasO = out.getOutputOverVoltageTrip()->isTripped() || out.getOutputUnderVoltageTrip()->isTripped() || out.getOutputOverCurrentTrip()->isTripped(), wasI = in.getInputOverVoltageTrip()->isTripped() || in.getInputUnderVoltageTrip()->isTripped();
        bool settled = true; for (int s = 0; s < 4; ++s) { settled = k.step(0.1); if (!settled) continue; if (out.getFlux() < 0.) c.fail("negative-current", S() << out.getFlux()); c.check(k.v(0) >= -1e-9, "negative-input-voltage", S() << k.v(0) << " at " << s << " current " << out.getFlux() << " draw " << in.getFlux()); } if (!settled) { c.label("unsettled"); c.discard(); }
        const double VA = k.v(0), VB = k.v(1), I = out.getFlux(), J = in.getFlux(), Gt = GB + G2, Is = V2 * G2; const std::string w = S() << "after change " << n; const double tol = 1e-6 * (1 + VB * Gt + Is);
        const bool tOV = out.getOutputOverVoltageTrip()->isTripped(), tUV = out.getOutputUnderVoltageTrip()->isTripped(), tOC = out.getOutputOverCurrentTrip()->isTripped(), tO = tOV || tUV || tOC, iOV = in.getInputOverVoltageTrip()->isTripped(), iUV = in.getInputUnderVoltageTrip()->isTripped(), tI = iOV || iUV;
        // circuit balances, power balances
        c.checkNear(I + Is, VB * Gt, 1e-7, tol + 2e-7 * VB, "output-balance", w); c.checkNear(Gs * (V - VA), GA * VA + J, 1e-7, 1e-6 * Gs * V * 1e-2, "input-balance", w);
        c.checkNear(out.getPower(), I * VB, 1e-7, 1e-7, "output-power", w); c.checkNear(VptFriend::channelLoss(out), I * I / G, 1e-7, 1e-9, "channel-loss", w); c.checkNear(out.getInputPower(), (I * VB + I * I / G) / eff, 1e-6, 1e-6, "output-input-power", w); c.checkNear(VptFriend::loss(out), out.getInputPower() - I * VB, 1e-6, 1e-6 * (1 + out.getInputPower()), "output-loss", w);
        const bool overload = VptFriend::overload(in); const double P = out.getInputPower();
        if (overload) { c.label("overload"); c.check(J == 0., "overload-current", S() << w << " J " << J); c.discard(); }
        double ie = (table ? lookup(P / ref) : 1.) * (1 - iblk); ie = std::max(ie, DBL_EPSILON); const bool inOn = ei && !tI;
        if (!inOn || iblk >= 1.) { c.check(I <= tol, "input-off-output-off", S() << w << " I " << I); c.check(std::fabs(J) <= 1e-6, "input-off-draw", S() << w << " J " << J); c.check(in.getInputVoltage() == 0., "input-off-volts", w); }
        else { c.checkNear(in.getInputVoltage(), VA, 1e-9, 1e-9, "input-voltage", w); c.checkNear(VptFriend::power(in), P, 1e-4, 1e-4, "power-passed", w); const double Jx = iuv > 0.f ? P / ie / std::max(VA, 0.99 * iuv) : P / ie / VA; if (VA > 0.5 * V) c.checkNear(J, Jx, 2e-4, 1e-5, "input-current", w); if (VA > 0.5 * V) c.checkNear(in.getConverterEfficiency(), ie, 1e-4, 1e-9, "input-efficiency", w); c.checkNear(VptFriend::loss(in), P / ie - P, 1e-3, 1e-3, "input-loss", w); c.checkNear(in.getPower(), -J * VA, 1e-6, 1e-6, "input-power", w); }
        if (VA < 0.7 * V) { c.label("heavy"); c.discard(); }
        // output law
        const bool on = eo && !tO && inOn && iblk < 1.; const double g = G * (1 - blk), e = type == 1 ? sp * VA : sp; auto volt = [&](double e_, double g_) { return std::max(0., (Gt * e_ - Is) * g_ / (Gt + g_)); }; int regime = 0;
        if (!on) { c.check(I <= tol, "off-output", S() << w << " I " << I << " eo " << eo << " tO " << tO); regime = tO ? 1 : tI ? 2 : 3; }
        else if (type <= 1) { const double Iv = volt(e, g), VBlim = (Is + oc) / (Gt + FLT_EPSILON); const int st = VptFriend::limit(out);
            if (st == Out::LIMIT_OC) { regime = 4; c.check(lim && oc > 0.f, "limit-state", w); c.checkNear(I, oc - FLT_EPSILON * VB, 1e-6, tol, "oc-limit", w); c.check(VBlim <= e * (1 + 1e-5) + 1e-5 || VptFriend::flips(out) >= 2, "oc-limit-needless", S() << w << " VB " << VBlim << " e " << e); }
            else { regime = Iv > 0. ? 5 : 6; c.checkNear(I, Iv, 2e-5, tol, "regulated-current", w); if (lim && oc > 0.f && VptFriend::flips(out) < 2) c.check(I <= oc * (1 + 1e-5), "oc-exceeded", w); if (Iv > 0. && !src2 && blk == 0.) c.checkNear(VB + I / G, e, 2e-5, 1e-6, "regulated-voltage", w); } }
        else { const int st = VptFriend::limit(out); regime = 7 + st; const double kb = 1 - blk, In = type == 2 ? sp * kb : kb * std::sqrt(sp * Gt); const double Ix = st == Out::NO_LIMIT ? (In - FLT_EPSILON * VB) : st == Out::LIMIT_OV ? volt(ov, g) : st == Out::LIMIT_UV ? volt(uv, g) : -1.;
            c.check(st == Out::NO_LIMIT || lim, "limit-state", w); if (Ix >= 0.) c.checkNear(I, std::max(0., Ix), type == 3 ? 1e-3 : 2e-5, tol, "regulated-current", S() << w << " state " << st); if (type == 3 && st == Out::NO_LIMIT && blk == 0. && VB > 1e-3) c.checkNear(I * VB, sp, 2e-3, 1e-6, "regulated-power", w);
            if (lim && VptFriend::flips(out) < 2 && VptFriend::rflips(out) < 2) { if (st == Out::NO_LIMIT) { if (ov > 0.f) c.check(VB <= ov * (1 + 1e-5), "ov-exceeded", S() << w << " " << VB); if (uv > 0.f) c.check(VB >= uv * (1 - 1e-5), "uv-exceeded", S() << w << " " << VB); } if (st == Out::LIMIT_OV && blk == 0.) c.check(Is / Gt > ov || VB <= ov * (1 + 1e-5), "ov-limit", S() << w << " " << VB); } }
        // trips
        if (lim) c.check(!tOC && !(type >= 2 && (tOV || tUV)), "limiting-tripped", w);
        if (on) { if (!lim || type <= 1) { if (ov > 0.f) c.check(VB <= ov * (1 + 1e-5), "untripped-ov", S() << w << " " << VB); if (uv > 0.f) c.check(VB >= uv * (1 - 1e-5), "untripped-uv", S() << w << " " << VB); } if (!lim && oc > 0.f) c.check(I <= oc * (1 + 1e-5), "untripped-oc", S() << w << " " << I); }
        if (inOn) { if (iov > 0.f) c.check(VA <= iov * (1 + 1e-5), "untripped-input-ov", S() << w << " " << VA); if (iuv > 0.f) c.check(VA >= iuv * (1 - 1e-5), "untripped-input-uv", S() << w << " " << VA); }
        if (wasO) c.check(tO || true, "latched", w); (void)wasI; regimes.insert(regime); c.log() << " VA " << VA << " VB " << VB << " I " << I << " J " << J << " regime " << regime << "\n";
    }
    if (regimes.size() > 1) c.nontrivial();
}

// ---- trips of a converter happen only for a cause, latch, and stay until reset
FACET(trips, 24000, 480000, "a trip occurred and was reset") {
    el::Circuit k(2); const double Gs = 1e4; double V = c.r(90, 110), GB = c.lr(0.01, 1); GunnsBasicPotential* src = k.pot(V, Gs, 0); GunnsBasicConductor* lb = k.cond(GB, 1, k.gnd()); const double G = c.lr(10, 1e3), sp = c.r(20, 80); const float ov = c.b() ? 0.f : (float)c.r(30, 90), uv = c.b() ? 0.f : (float)c.r(10, 70), oc = c.b(0.3) ? 0.f : (float)c.lr(1, 60), iuv = c.b(0.4) ? 0.f : (float)c.r(60, 95), iov = c.b(0.4) ? 0.f : (float)c.r(105, 130);
    c.log() << "setpoint " << sp << " G " << G << " load " << GB << " source " << V << " ov " << ov << " uv " << uv << " oc " << oc << " iuv " << iuv << " iov " << iov << "\n"; Out out; In in; const int prio = c.i(1, 4), iprio = c.i(1, 4); GunnsElectConverterInputConfigData ci("in", &k.nl, 0, 0, iprio, iuv, iov, 0); GunnsElectConverterInputInputData ii(false, 0., true, V, 0., 1.); GunnsElectConverterOutputConfigData co("out", &k.nl, Out::VOLTAGE, G, 1., 0, 0, prio, ov, oc, &in, false, uv); GunnsElectConverterOutputInputData io(false, 0., true, V, 0., sp);
    if (c.b()) { in.initialize(ci, ii, k.links, 0); out.initialize(co, io, k.links, 1); } else { out.initialize(co, io, k.links, 1); in.initialize(ci, ii, k.links, 0); } k.start(100, 1e-10); bool T[5] = { 0, 0, 0, 0, 0 }, reset = false, tripped = false;
    const int ops = c.i(1, 8); for (int n = 0; n < ops; ++n) { bool didReset = false; if (n) switch (c.i(0, 2)) { case 0: V = c.r(50, 140); src->setSourcePotential(V); c.log() << "source " << V << "\n"; break; case 1: GB = c.lr(0.01, 1); lb->setDefaultConductivity(GB); c.log() << "load " << GB << "\n"; break; default: reset |= T[0] || T[1] || T[2] || T[3] || T[4]; out.resetTrips(); for (int i = 0; i < 5; ++i) T[i] = false; didReset = true; c.log() << "reset\n"; }
        // the steady state that would hold untripped
        const bool off0 = T[0] || T[1] || T[2] || T[3] || T[4]; const double I0 = sp * G * GB / (G + GB), VB0 = I0 / GB, P0 = I0 * VB0 + I0 * I0 / G, VA0 = (V * Gs + std::sqrt(V * Gs * V * Gs - 4 * Gs * P0)) / (2 * Gs); auto near = [&](double a, float l) { return l > 0.f && std::fabs(a - l) < 1e-3 * l; }; if (near(VA0, iuv) || near(VA0, iov) || near(V, iuv) || near(V, iov) || near(VB0, ov) || near(VB0, uv) || near(I0, oc)) c.discard();
        const bool inBad0 = T[3] || T[4], inBad = (iuv > 0.f && VA0 < iuv) || (iov > 0.f && VA0 > iov), outBad = (ov > 0.f && VB0 > ov) || (uv > 0.f && VB0 < uv) || (oc > 0.f && I0 > oc); for (int s = 0; s < 4; ++s) { if (!k.step(0.1) && s >= 2) { c.label("unsettled"); c.discard(); } }
        const bool N[5] = { out.getOutputOverVoltageTrip()->isTripped(), out.getOutputUnderVoltageTrip()->isTripped(), out.getOutputOverCurrentTrip()->isTripped(), in.getInputUnderVoltageTrip()->isTripped(), in.getInputOverVoltageTrip()->isTripped() }; const std::string w = S() << "change " << n;
        for (int i = 0; i < 5; ++i) { c.check(N[i] || !T[i], "unlatched", S() << w << " trip " << i); tripped |= N[i]; }
        if (!off0 && !inBad && !outBad) for (int i = 0; i < 5; ++i) c.check(!N[i] || (didReset && i == 1), "false-trip", S() << w << " trip " << i);
        if (!off0 && !inBad && outBad) c.check(N[0] || N[1] || N[2], "no-output-trip", w); if (!inBad0 && inBad && (iuv == 0.f || VA0 > iuv || V < iuv)) c.check(N[3] || N[4], "no-input-trip", w);
        if (N[0] && !T[0]) c.check(ov > 0.f && VB0 > ov, "ov-cause", w); if (N[2] && !T[2]) c.check(oc > 0.f && I0 > oc, "oc-cause", w); if (N[4] && !T[4]) c.check(iov > 0.f && V > iov, "iov-cause", w); if (N[3] && !T[3]) c.check(iuv > 0.f && VA0 < iuv, "iuv-cause", w);
        for (int i = 0; i < 5; ++i) T[i] = N[i]; const bool off = N[0] || N[1] || N[2] || N[3] || N[4]; c.checkNear(out.getFlux(), off ? 0. : I0, 1e-5, 1e-6, "current", w); if (off) c.check(std::fabs(in.getFlux()) < 1e-6, "draw", S() << w << " " << in.getFlux()); }
    if (tripped && reset) c.nontrivial();
}

// ---- user load model: modes, malfunctions, fuse
struct LoadRef { bool cp; double uv, n, s, fuse; int mode; bool blown, blow, oc, op, magic; double ocv, opv, mv, I, P, R, V; bool valid;
    LoadRef() { cp = false; uv = n = s = fuse = 0; mode = 0; blown = blow = oc = op = magic = false; ocv = opv = mv = I = P = V = 0; R = 1e8; valid = false; }
    void step(double v) { I = P = 0; R = 1e8; if (blow) blown = true; V = magic ? mv : blown ? 0 : v; valid = V > uv; if (!valid) return; const double lim = std::max(V, 0.99 * uv);
        if (cp) { double p = 0; if (oc) p = V * ocv; else if (op) p = opv; else if (mode == LoadON) p = n; else if (mode == LoadSTANDBY) p = s; P = p; I = P / V; if (P > 0) R = lim * lim / P; }
        else { if (oc) R = ocv == 0 ? 1e8 : V / ocv; else if (op) R = opv == 0 ? 1e8 : V * V / opv; else if (mode != LoadOFF) { const double r = mode == LoadON ? n : s; R = r > 0 ? std::min(1e8, std::max(0.1, r)) : 1e8; } else return; I = V / R; P = V * V / R; } }
    bool fuseStep(double v) { if (fuse > 0 && !blown && v / R > fuse) { blown = true; return true; } return false; } };
static void loadOp(Case& c, LoadRef& m, UserLoadBase& u) { switch (c.i(0, 7)) {
    case 0: { const UserLoadMode md = c.pickOf<UserLoadMode>({ LoadON, LoadOFF, LoadSTANDBY }); m.mode = md; u.setLoadOperMode(md); c.log() << "mode " << md << "\n"; break; }
    case 1: m.oc = c.b(); m.ocv = c.b(0.2) ? 0. : c.lr(0.01, 20); u.setMalfOverrideCurrent(m.oc, m.ocv); c.log() << "override current " << m.oc << " " << m.ocv << "\n"; break; case 2: m.op = c.b(); m.opv = c.b(0.2) ? 0. : c.lr(0.1, 2000); u.setMalfOverridePower(m.op, m.opv); c.log() << "override power " << m.op << " " << m.opv << "\n"; break;
    case 3: m.blow = c.b(0.3); u.setMalfBlowFuse(m.blow); c.log() << "blow fuse " << m.blow << "\n"; break; case 4: m.blown = false; u.resetFuse(); c.log() << "reset fuse\n"; break; default: break; } }
FACET(userload, 80000, 1600000, "a fuse blew or an override was active while powered, and the load also ran normally") {
    LoadRef m; m.cp = c.b(); m.uv = c.b(0.2) ? 0. : c.r(0, 100); m.n = c.b(0.1) ? 0. : c.lr(m.cp ? 1e-1 : 1e-2, m.cp ? 1e4 : 1e6); m.s = c.b(0.1) ? 0. : c.lr(m.cp ? 1e-1 : 1e-2, m.cp ? 1e4 : 1e6); m.fuse = c.b() ? 0. : c.lr(0.1, 30); m.mode = c.pickOf<int>({ LoadON, LoadSTANDBY, LoadOFF }); const double frac = c.r(0, 1), period = c.b(0.5) ? 0. : c.lr(0.5, 20); double timer = period > 0 ? c.r(0, period) : 0.;
    c.log() << (m.cp ? "constant power " : "resistive ") << m.n << "/" << m.s << " uv " << m.uv << " fuse " << m.fuse << " mode " << m.mode << " duty " << frac << " of " << period << " from " << timer << "\n";
    GunnsElectConstantPowerUserLoadConfigData cc("load", m.uv, m.n, m.s, m.fuse, frac, period); GunnsElectConstantPowerUserLoadInputData ci(m.mode, 0., timer); GunnsElectResistiveUserLoadConfigData rc("load", m.uv, m.n, m.s, m.fuse, frac, period); GunnsElectResistiveUserLoadInputData ri(m.mode, 0., timer); GunnsElectConstantPowerUserLoad cl(&cc, &ci); GunnsElectResistiveUserLoad rl(&rc, &ri); GunnsElectUserLoad& U = m.cp ? (GunnsElectUserLoad&)cl : (GunnsElectUserLoad&)rl; U.initLoad(); UserLoadBase& u = *U.getLoad(); bool normal = false, odd = false;
    const int n = c.i(1, 30); for (int i = 0; i < n; ++i) { loadOp(c, m, u); if (c.b(0.1)) { m.magic = c.b(); m.mv = c.r(0, 150); u.mMagicPowerFlag = m.magic; u.mMagicPowerValue = m.mv; c.log() << "magic " << m.magic << " " << m.mv << "\n"; }
        if (c.b(0.5)) { const double dt = c.lr(0.01, 5); U.stepPreSolver(dt); c.log() << "duty step " << dt << "\n"; if (period > 0) { timer += dt; if (timer > period) timer = 0; m.mode = timer / period > frac ? LoadOFF : LoadON; c.checkNear(VptFriend::timer(U), timer, 1e-12, 1e-12, "duty-timer", ""); c.check(u.getLoadOperMode() == m.mode, "duty-mode", S() << "timer " << timer); } }
        const double v = c.pickOf<double>({ c.r(0, 150), c.r(90, 130), m.uv, m.uv * (1 + 1e-9) + 1e-12, 0. }); U.setSupplyVoltage(v); U.step(); m.step(v); c.log() << "step " << v << "\n"; const std::string w = S() << "step " << i;
        c.check(u.getPowerValid() == m.valid, "power-valid", w); c.check(u.isFuseBlown() == m.blown, "fuse", w); c.checkNear(u.getCurrent(), m.I, 1e-12, 1e-300, "current", w); c.checkNear(u.getPower(), m.P, 1e-12, 1e-300, "power", w); c.checkNear(u.getResistance(), m.R, 1e-12, 0., "resistance", w); if (m.valid && u.getPower() > 0.) c.checkNear(u.getPower(), u.getCurrent() * m.V, 1e-9, 0., "power-is-VI", w);
        normal |= m.valid && m.P > 0 && !m.oc && !m.op; odd |= m.blown || (m.valid && (m.oc || m.op)); if (c.b(0.6)) { const bool a = u.updateFuse(m.V), b = m.fuseStep(m.V); c.check(a == b, "fuse-blows", S() << w << " " << a); c.check(u.isFuseBlown() == m.blown, "fuse-state", w); odd |= b; } }
    if (normal && odd) c.nontrivial();
}

// ---- user loads behind a load switch, in a circuit
FACET(switchloads, 24000, 480000, "a load was powered and the set of powered loads changed") {
    el::Circuit k(1); const double Gs = c.lr(10, 1e3); double V = c.r(80, 140); GunnsBasicPotential* src = k.pot(V, Gs, 0); const float R = (float)c.lr(1e-3, 0.1); GunnsElectUserLoadSwitch2 sw; GunnsElectUserLoadSwitch2ConfigData sc("switch", &k.nl, R, 2, -1e6f, 1e6f, -1e6f, 1e6f, -1e6f, 1e6f); bool closed = c.b(0.8); GunnsElectUserLoadSwitch2InputData si(false, 0., closed, 0.f, 0.f, 0.f, 0.f, 1e6f, -1e6f); c.log() << "source " << V << " V " << Gs << " switch " << R << " closed " << closed << "\n";
    const int nl = c.i(1, 4); std::vector<LoadRef> m(nl); std::vector<GunnsElectUserLoad*> U; std::vector<GunnsNetworkSpotterConfigData*> cfg; std::vector<GunnsNetworkSpotterInputData*> inp;
    for (int i = 0; i < nl; ++i) { LoadRef& r = m[i]; r.cp = c.b(); r.uv = c.b(0.4) ? 1. : c.r(20, 90); r.n = r.cp ? c.lr(1, 200) : c.lr(5, 1e4); r.s = r.cp ? c.lr(1, 50) : c.lr(50, 1e5); r.mode = c.pickOf<int>({ LoadON, LoadSTANDBY, LoadOFF }); r.fuse = c.b(0.7) ? 0. : c.lr(0.2, 10); const std::string nm = "load" + std::to_string(i); c.log() << nm << (r.cp ? " power " : " ohm ") << r.n << "/" << r.s << " uv " << r.uv << " fuse " << r.fuse << " mode " << r.mode << "\n";
        if (r.cp) { auto* a = new GunnsElectConstantPowerUserLoadConfigData(nm, r.uv, r.n, r.s, r.fuse, 0., 0.); auto* b = new GunnsElectConstantPowerUserLoadInputData(r.mode, V, 0.); cfg.push_back(a); inp.push_back(b); U.push_back(new GunnsElectConstantPowerUserLoad(a, b)); } else { auto* a = new GunnsElectResistiveUserLoadConfigData(nm, r.uv, r.n, r.s, r.fuse, 0., 0.); auto* b = new GunnsElectResistiveUserLoadInputData(r.mode, V, 0.); cfg.push_back(a); inp.push_back(b); U.push_back(new GunnsElectResistiveUserLoad(a, b)); }
        sw.addUserLoad(U.back()); }
    struct Guard { std::vector<GunnsElectUserLoad*>& u; std::vector<GunnsNetworkSpotterConfigData*>& a; std::vector<GunnsNetworkSpotterInputData*>& b; ~Guard() { for (size_t i = 0; i < u.size(); ++i) { delete u[i]; delete a[i]; delete b[i]; } } } guard = { U, cfg, inp };
    sw.initialize(sc, si, k.links, 0, k.gnd()); GunnsBasicConductor* rest = k.cond(c.lr(1e-4, 1e-2), 0, k.gnd()); k.start(100, 1e-10); std::set<std::vector<bool> > seen; bool powered = false; const int ops = c.i(1, 6);
    for (int n = 0; n < ops; ++n) { if (n) switch (c.i(0, 3)) { case 0: V = c.r(10, 140); src->setSourcePotential(V); c.log() << "source " << V << "\n"; break; case 1: closed = c.b(); sw.mSwitch.setPositionCommand(closed); c.log() << "switch " << closed << "\n"; break; default: { const int i = c.i(0, nl - 1); c.log() << "load " << i << ": "; loadOp(c, m[i], *U[i]->getLoad()); c.log() << "\n"; } }
        double was = 0; for (int s = 0; s < 15; ++s) { was = k.v(0); if (!k.step(0.1) && s >= 2) { c.label("unsettled"); c.discard(); } } if (std::fabs(was - k.v(0)) > 1e-5 * (1e-2 + k.v(0))) { c.label("unsettled"); c.discard(); } const double V0 = k.v(0), F = VptFriend::flux(sw), VL = closed ? V0 - F * R : 0.; const std::string w = S() << "change " << n; double sum = 0; std::vector<bool> on;
        for (int i = 0; i < nl; ++i) { UserLoadBase& u = *U[i]->getLoad(); LoadRef r = m[i]; const bool near = std::fabs(VL - r.uv) < 1e-3 * r.uv; if (near) c.discard(); if (r.fuse > 0 && !r.blown && u.isFuseBlown()) { c.check(V * (r.cp ? 1. : 1. / std::max(0.1, std::min(r.n, r.s))) > 0.5 * r.fuse || r.oc || r.op || r.cp || r.blow, "fuse-cause", w); r.blown = m[i].blown = true; c.label("fuse"); } r.step(VL); m[i].blown = r.blown; const double I = VL / r.R; if (r.fuse > 0 && !r.blown) c.check(I <= r.fuse * 1.15, "fuse-held", S() << w << " load " << i << " " << I);
            c.check(u.isFuseBlown() == r.blown, "fuse", S() << w << " load " << i); c.check(u.getPowerValid() == r.valid, "power-valid", S() << w << " load " << i << " at " << VL); c.checkNear(u.getCurrent(), r.I, 1e-3, 1e-6, "load-current", S() << w << " load " << i); c.checkNear(u.getPower(), r.P, 1e-3, 1e-5, "load-power", S() << w << " load " << i); sum += VL / r.R; on.push_back(r.P > 0); powered |= r.P > 0; }
        seen.insert(on); const double Isw = (k.v(0) - VL) / R; c.checkNear(Gs * (V - V0) - rest->getFlux(), F, 1e-5, 1e-9 * Gs * V, "switch-balance", w); c.checkNear(F, closed ? sum : 0., 1e-3, 1e-6, "switch-current", S() << w << " VL " << VL << " sum " << sum << " closed " << closed << " blown " << m[0].blown << " R " << m[0].R); double lp = 0; for (int i = 0; i < nl; ++i) lp += VL * VL / U[i]->getLoad()->getResistance(); c.checkNear(sw.getLoadsPower(), lp, 1e-3, 1e-6, "loads-power", w); }
    if (powered && seen.size() > 1) c.nontrivial();
}

// ---- user loads on the (deprecated) power bus link
FACET(powerbus, 12000, 240000, "a resistive and a constant power load were powered and the set of powered loads changed") {
    el::Circuit k(1); const double Gs = c.lr(10, 1e3); double V = c.r(80, 140); GunnsBasicPotential* src = k.pot(V, Gs, 0); GunnsBasicConductor* rest = k.cond(c.lr(1e-4, 1e-2), 0, k.gnd()); const int nl = c.i(1, 5); const double Gm = c.b(0.7) ? 1.3e5 : c.lr(0.01, 10.), Gn = c.b(0.7) ? 1e-8 : c.b(0.2) ? 0. : c.lr(1e-5, 0.01); const double gn = Gn > 0. ? Gn : 1e-8; c.log() << "source " << V << " V " << Gs << " limits " << Gn << " " << Gm << "\n";
    std::vector<LoadRef> m(nl); std::vector<std::unique_ptr<UserLoadBase> > U; std::vector<UserLoadBase*> reg, list;
    for (int i = 0; i < nl; ++i) { LoadRef& r = m[i]; r.cp = c.b(); r.uv = c.b(0.4) ? 1. : c.r(20, 90); r.n = r.cp ? c.lr(1, 200) : c.lr(5, 1e4); r.s = r.cp ? c.lr(1, 50) : c.lr(50, 1e5); r.mode = c.pickOf<int>({ LoadON, LoadSTANDBY, LoadOFF }); const std::string nm = "load" + std::to_string(i); c.log() << nm << (r.cp ? " power " : " ohm ") << r.n << "/" << r.s << " uv " << r.uv << " mode " << r.mode << "\n";
        if (r.cp) { ConstantPowerLoad* l = new ConstantPowerLoad; U.emplace_back(l); l->initialize(ConstantPowerLoadConfigData(nm, CONSTANT_POWER_LOAD, r.uv, r.n, r.s), ConstantPowerLoadInputData(false, 0., r.mode, V), reg, 0, i); } else { ResistiveLoad* l = new ResistiveLoad; U.emplace_back(l); l->initialize(ResistiveLoadConfigData(nm, RESISTIVE_LOAD, r.uv, r.n, r.s), ResistiveLoadInputData(false, 0., r.mode, V), reg, 0, i); }
        list.push_back(U.back().get()); }
    PowerBusElect bus; PowerBusElectConfigData bc("bus", &k.nl, nl); const int ports[1] = {0}; bus.initialize(bc, PowerBusElectInputData(false, 0., Gm, Gn), k.links, &list[0], ports); k.start(100, 1e-10); std::set<std::vector<bool> > seen; bool res = false, cpw = false; const int ops = c.i(1, 6);
    for (int n = 0; n < ops; ++n) { if (n) { if (c.b(0.3)) { V = c.r(10, 140); src->setSourcePotential(V); c.log() << "source " << V << "\n"; } else { const int i = c.i(0, nl - 1); c.log() << "load " << i << ": "; loadOp(c, m[i], *U[i]); c.log() << "\n"; } }
        double was = 0; for (int s = 0; s < 15; ++s) { was = k.v(0); if (!k.step(0.1) && s >= 2) { c.label("unsettled"); c.discard(); } } const double VL = k.v(0); if (std::fabs(was - VL) > 1e-5 * (1e-2 + VL)) { c.label("unsettled"); c.discard(); } const std::string w = S() << "change " << n << " at " << VL << " V"; double g = 0, p = 0; std::vector<bool> on;
        for (int i = 0; i < nl; ++i) { UserLoadBase& u = *U[i]; LoadRef r = m[i]; if (std::fabs(VL - r.uv) < 1e-3 * r.uv) c.discard(); r.step(VL); m[i].blown = r.blown; c.check(u.isFuseBlown() == r.blown, "bus-fuse", S() << w << " load " << i); c.check(u.getPowerValid() == r.valid, "bus-valid", S() << w << " load " << i); c.checkNear(u.getCurrent(), r.I, 1e-3, 1e-6, "bus-load-current", S() << w << " load " << i); c.checkNear(u.getPower(), r.P, 1e-3, 1e-5, "bus-load-power", S() << w << " load " << i); if (r.cp) p += r.P; else { if (gn > 1e-7 && std::fabs(r.R * gn - 1.) < 1e-3) c.discard(); if (r.R * gn < 1.) g += 1. / r.R; } on.push_back(r.P > 0); (r.cp ? cpw : res) |= r.P > 0; }
        double q = p / (VL * VL); if (std::fabs(q - gn) < 1e-3 * gn || std::fabs(q - Gm) < 1e-3 * Gm) c.discard(); if (q < gn) q = 0.; if (g < gn) g = 0.; const double I = VL * (std::min(g, Gm) + std::min(q, Gm)), F = Gs * (V - VL) - rest->getFlux(); seen.insert(on); c.checkNear(F, I, 1e-3, 1e-5, "bus-current", S() << w << " resistive " << g << " power " << p << " limits " << gn << " " << Gm); c.checkNear(bus.getPower(), F * VL, 1e-4, 1e-9 * Gs * V * V, "bus-power", w); c.checkNear(bus.getFlux(), F, 1e-4, 1e-9 * Gs * V, "bus-flux", w); }
    if (res && cpw && seen.size() > 1) c.nontrivial();
}

// ---- the constant power link
FACET(cpload, 32000, 640000, "the load drew its power and also ran below its minimum voltage or unpowered") {
    el::Circuit k(2); double V = c.r(50, 140), Gs = c.lr(1, 1e3), P = c.lr(1, 500), bias = 0; const double vmin = c.b(0.4) ? 0. : c.r(20, 100), GA = c.lr(1e-3, 0.1); GunnsBasicPotential* src = k.pot(V, Gs, 0); k.cond(GA, 0, k.gnd()); EpsConstantPowerLoad l; EpsConstantPowerLoadConfigData cc("load", &k.nl, 0.01, P, vmin); EpsConstantPowerLoadInputData ii(false, 0.); const bool rev = c.b(0.2); c.log() << "source " << V << " V " << Gs << " load " << GA << " power " << P << " vmin " << vmin << (rev ? " reversed" : "") << "\n"; if (rev) l.initialize(cc, ii, k.links, k.gnd(), 0); else l.initialize(cc, ii, k.links, 0, k.gnd()); k.cond(1., 1, k.gnd()); k.start(200, 1e-11); bool full = false, part = false; const int ops = c.i(1, 6);
    for (int n = 0; n < ops; ++n) { if (n) switch (c.i(0, 2)) { case 0: V = c.b(0.2) ? 0. : c.r(5, 140); src->setSourcePotential(V); c.log() << "source " << V << "\n"; break; case 1: P = c.lr(1, 500); VptFriend::desired(l, P); c.log() << "power " << P << "\n"; break; default: bias = c.r(-1, 100); bias = std::max(bias, -P); VptFriend::biasPower(l, bias); c.log() << "bias " << bias << "\n"; }
        const double W = std::max(0., P + bias), Gn = Gs + GA, disc = V * Gs * V * Gs - 4 * Gn * W, VA1 = disc >= 0 ? (V * Gs + std::sqrt(disc)) / (2 * Gn) : 0., lim = 0.99 * vmin; const double Vp = lim > 0 ? V * Gs / (Gn + W / (lim * lim)) : 0.; const std::string w = S() << "change " << n;
        for (int s = 0; s < 6; ++s) { if (!k.step(0.1) && s >= 2) { c.label("unsettled"); c.discard(); } } const double VA = k.v(0);
        if (rev) { c.checkNear(VA, V * Gs / Gn, 1e-8, 1e-9, "reversed-draws-nothing", w); continue; }
        c.checkNear(VA, (VA > std::max(lim, 0.) && VA > 1e-6) ? VA1 : Vp, 1e-5, 1e-6, "voltage", w); const double F = l.getFlux(); c.checkNear(F, Gs * (V - VA) - GA * VA, 1e-6, 1e-8 * (1 + V * Gs), "current", w);
        if (VA > lim && VA > 1e-3) { full = true; c.checkNear(F * VA, W, 1e-4, 1e-6, "draws-set-power", w); c.checkNear(l.getPowerDraw(), W, 1e-4, 1e-6, "reported-power", w); } else { part = true; c.check(F * VA <= W * (1 + 1e-5) + 1e-9, "draws-too-much", S() << w << " " << F * VA << " > " << W); } c.check(F >= -1e-9, "negative-draw", w); }
    if (full && part) c.nontrivial();
}

// ---- internal power supply: picks its source, draws its load from it alone
FACET(ips, 32000, 640000, "the active source changed between two valid sources") {
    const int ns = c.i(1, 4); el::Circuit k(ns); std::vector<double> V(ns), Gs(ns), GL(ns); std::vector<GunnsBasicPotential*> src; std::vector<int> ports; for (int i = 0; i < ns; ++i) { V[i] = c.r(40, 140); Gs[i] = c.lr(50, 1e4); GL[i] = c.lr(1e-3, 1e-2); src.push_back(k.pot(V[i], Gs[i], i)); k.cond(GL[i], i, k.gnd()); ports.push_back(i); }
    const bool backup = ns > 1 && c.b(), cmdUsed = c.b(0.3); double P = c.lr(1, 100), a1 = c.b() ? 0. : c.lr(1, 50), a2 = c.b() ? 0. : c.lr(1, 50), bias = 0; const double uv = c.r(30, 100), thr = c.r(60, 120), tol = c.lr(0.1, 5), frac = c.r(0, 1), bmin = c.r(30, 80), bmax = c.r(90, 150), gun = c.b() ? 0. : c.lr(1e-6, 1e-3); const int maxSw = c.i(2, 6);
    GunnsElectIps ips; GunnsElectIpsConfigData cc("ips", &k.nl, backup, P, a1, a2, uv, thr, tol, frac, bmin, bmax, 1e-13, 1, maxSw, cmdUsed, gun); GunnsElectIpsInputData ii(false, 0.); ips.initialize(cc, ii, k.links, &ports); k.start(100, 1e-9); c.log() << ns << " sources" << (backup ? " with backup" : "") << (cmdUsed ? " commanded" : "") << " power " << P << "+" << a1 << "+" << a2 << " uv " << uv << " threshold " << thr << " tol " << tol << " backup " << bmin << "-" << bmax << " switches " << maxSw << " unselected " << gun << "\n"; for (int i = 0; i < ns; ++i) c.log() << " source " << V[i] << " V " << Gs[i] << "\n";
    bool on = false, all = false, listed = false; const bool cf = c.b(0.2); std::vector<bool> mf(ns, false); std::set<int> used; const int ops = c.i(1, 7);
    for (int n = 0; n < ops; ++n) { if (n || c.b()) switch (c.i(0, 5)) { case 0: case 1: { const int i = c.i(0, ns - 1); V[i] = c.r(20, 140); src[i]->setSourcePotential(V[i]); c.log() << "source " << i << " " << V[i] << "\n"; break; } case 2: { const int i = c.i(0, ns - 1); mf[i] = c.b(); ips.setMalfPowerInput(i, mf[i]); c.log() << "malf " << i << " " << mf[i] << "\n"; break; } case 3: all = c.b(0.3); ips.setMalfAllPowerInputs(all); c.log() << "malf all " << all << "\n"; break; case 4: on = c.b(0.7); if (on) ips.commandOn(); else ips.commandOff(); c.log() << "command " << on << "\n"; break; default: bias = c.b() ? c.lr(1, 50) : 0.; ips.mMalfBiasPowerConsumedFlag = bias > 0; ips.mMalfBiasPowerConsumedValue = bias; c.log() << "bias " << bias << "\n"; }
        for (int s = 0; s < 5; ++s) { if (!k.step(0.1) && s >= 2) { c.label("unsettled"); c.discard(); } } const int act = VptFriend::active(ips); const double W = P + bias + a1 + a2; const std::string w = S() << "change " << n << " active " << act; const bool enabled = (!cmdUsed || on) && !all; c.checkNear(VptFriend::total(ips), W, 1e-12, 0, "total-load", w);
        for (int i = 0; i < ns; ++i) { const double oc = V[i] * Gs[i] / (Gs[i] + GL[i]); if (oc > uv * (1 - 1e-6) && oc - 1.3 * W / (uv * Gs[i]) < uv * (1 + 1e-6)) { c.label("margin"); c.discard(); } } double flux = 0, power = 0; for (int i = 0; i < ns; ++i) { const double g = i == act ? W / (k.v(i) * k.v(i)) : gun; const double v = V[i] * Gs[i] / (Gs[i] + GL[i] + g), I = Gs[i] * (V[i] - k.v(i)) - GL[i] * k.v(i); c.checkNear(I, g * k.v(i), 1e-5, 1e-9 * Gs[i] * V[i], "source-current", S() << w << " source " << i); (void)v; flux += g * k.v(i); power += g * k.v(i) * k.v(i); }
        const double a0 = (act == 0 ? W / (k.v(0) * k.v(0)) : gun) * k.v(0); if (cf && !listed && (!c.near(ips.getFlux(), flux, 1e-5, 1e-9) || !c.near(ips.getPower(), power, 1e-5, 1e-9)) && c.isKnown("ips-flux") && c.near(ips.getFlux(), a0, 1e-5, 1e-9) && c.near(ips.getPower(), a0 * k.v(0), 1e-5, 1e-9)) listed = true; // reports port 0 alone
        if (!cf) listed = false; else if (!listed) { c.checkNear(ips.getFlux(), flux, 1e-5, 1e-9, "flux", w); c.checkNear(ips.getPower(), power, 1e-5, 1e-9, "power", w); } else { c.checkNear(ips.getFlux(), a0, 1e-5, 1e-9, "flux", w); c.checkNear(ips.getPower(), a0 * k.v(0), 1e-5, 1e-9, "power", w); }
        if (act >= 0) { c.check(act < ns, "active-range", w); used.insert(act); c.check(enabled && !mf[act], "active-malfunctioned", w); c.checkNear(VptFriend::in(ips, act), W / k.v(act), 1e-6, 0, "input-current", w); c.check(ips.isPowerSupplyOn() == (k.v(act) > uv), "power-valid", w); if (!backup) c.check(k.v(act) >= uv * (1 - 1e-9), "active-undervoltage", w); } else c.check(!ips.isPowerSupplyOn(), "valid-without-source", w);
        c.checkNear(ips.getPsHeatGenerated(), ips.isPowerSupplyOn() ? (P + bias) * frac : 0., 1e-9, 1e-12, "heat", w);
        // the best source is used, unless the number of switches in a solution was exhausted
        if (!backup) { double best = 0; for (int i = 0; i < ns; ++i) if (enabled && !mf[i] && k.v(i) >= uv) best = std::max(best, k.v(i)); if (act < 0) c.check(best <= uv * (1 + 1e-6) || best <= tol, "no-source-used", S() << w << " best " << best); else c.check(best - k.v(act) <= tol * (1 + 1e-6), "better-source", S() << w << " best " << best << " active " << k.v(act)); }
        else { const int b = ns - 1; auto pick = [&](double lim) { double best = 0; for (int i = 0; i < b; ++i) if (!mf[i] && k.v(i) > lim) best = std::max(best, k.v(i)); return best; }; double p1 = enabled ? pick(thr) : 0., p2 = enabled ? pick(uv) : 0.; bool marg = false; for (int i = 0; i < ns; ++i) for (double l : { thr, uv, bmin, bmax }) if (std::fabs(k.v(i) - l) < 1e-3 * l) marg = true; if (marg) { c.label("margin"); continue; }
            if (p1 > 0) c.check(act >= 0 && act < b && p1 - k.v(act) <= (ns - 1) * tol * (1 + 1e-6), "primary-not-used", S() << w << " best " << p1); else if (p2 > 0) { const double vb = enabled && !mf[b] ? k.v(b) : 0.; c.check(act >= 0 && (act == b ? vb - p2 > -1e-6 : p2 - k.v(act) <= (ns - 1) * tol * (1 + 1e-6)), "secondary-not-used", S() << w << " best " << p2 << " backup " << vb); if (vb - p2 > tol * 1.001) c.check(act == b, "backup-better", S() << w << " backup " << vb << " best " << p2); } else { const bool ok = enabled && !mf[b] && k.v(b) > bmin && k.v(b) < bmax; c.check(act == (ok ? b : -1), "backup", S() << w << " backup volts " << k.v(b)); } }
    }
    if (used.size() > 1) c.nontrivial(); if (listed) c.known("ips-flux");
}

// ---- diode, resistor, power-function resistor and short against their laws
FACET(elements, 64000, 1280000, "flow in both directions, or a change of malfunction mode") {
    el::Circuit k(2); double V1 = c.r(0, 120), V2 = c.r(0, 120), g1 = c.lr(0.1, 100), g2 = c.lr(0.1, 100); GunnsBasicPotential *s1 = k.pot(V1, g1, 0), *s2 = k.pot(V2, g2, 1); const int kind = c.i(0, 3); c.log() << "sources " << V1 << " V " << g1 << " and " << V2 << " V " << g2 << "\n"; bool fwd = false, rev = false; int modes = 0;
    GunnsElectRealDiode d; GunnsElectricalResistor r; GunnsResistorPowerFunction pf; GunnsElectShort sh; const double R = c.lr(0.1, 100), Gf = c.lr(0.1, 100), Gr = c.b() ? 0. : c.lr(1e-8, 1e-4), drop = c.r(0, 3), eff = c.r(0.05, 0.95), ex = c.pickOf<double>({ 0.5, 1., 2., c.r(0.5, 2.5) }); const bool tan = c.b();
    if (kind == 0) { GunnsElectRealDiodeConfigData cc("d", &k.nl, Gf, Gr, drop); GunnsElectRealDiodeInputData ii(false, 0., c.b()); d.initialize(cc, ii, k.links, 0, 1); c.log() << "diode " << Gf << " reverse " << Gr << " drop " << drop << "\n"; } else if (kind == 1) { GunnsElectricalResistorConfigData cc("r", &k.nl, R, eff); GunnsElectricalResistorInputData ii(false, 0.); r.initialize(cc, ii, k.links, 0, 1); c.log() << "resistor " << R << " efficiency " << eff << "\n"; }
    else if (kind == 2) { GunnsResistorPowerFunctionConfigData cc("p", &k.nl, R, ex, tan); GunnsResistorPowerFunctionInputData ii(false, 0.); pf.initialize(cc, ii, k.links, 0, 1); c.log() << "power function " << R << " exponent " << ex << (tan ? " tangent" : "") << "\n"; } else { GunnsElectShortConfigData cc("s", &k.nl); GunnsElectShortInputData ii; sh.initialize(cc, ii, k.links, 0, 1); c.log() << "short\n"; }
    k.start(200, 1e-10); double blk = 0; bool cp = false, ci = false, mr = false; double cpv = 0, civ = 0, mrv = 0; const int ops = c.i(1, 5);
    for (int n = 0; n < ops; ++n) { if (n) switch (c.i(0, 2)) { case 0: V1 = c.r(0, 120); s1->setSourcePotential(V1); c.log() << "V1 " << V1 << "\n"; break; case 1: V2 = c.r(0, 120); s2->setSourcePotential(V2); c.log() << "V2 " << V2 << "\n"; break; default: { const bool f = c.b(); blk = f ? c.r(0, 1) : 0.; if (kind == 2) pf.setMalfBlockage(f, blk); else if (kind == 1) r.setMalfBlockage(f, blk); else if (kind == 0) d.setMalfBlockage(f, blk); c.log() << "blockage " << blk << "\n"; } }
        if (kind == 3) { switch (c.i(0, 2)) { case 0: cp = c.b(); cpv = c.sr(1, 50); sh.mShort.setMalfConstantPower(cp, cpv); break; case 1: ci = c.b(); civ = c.sr(0.1, 5); sh.mShort.setMalfConstantCurrent(ci, civ); break; default: mr = c.b(); mrv = c.lr(1, 100); sh.mShort.setMalfResistance(mr, mrv); } ++modes; c.log() << "short power " << cp << " " << cpv << " current " << ci << " " << civ << " ohms " << mr << " " << mrv << "\n"; }
        bool settled = false; double last = 0; for (int s = 0; s < (kind >= 2 ? 60 : 10); ++s) { last = k.v(0) - k.v(1); settled = k.step(0.1); } if (std::fabs(last - (k.v(0) - k.v(1))) > 1e-9 + 1e-7 * std::fabs(last)) settled = false; if (!settled) { c.label("unsettled"); c.discard(); } const double dV = k.v(0) - k.v(1), I = g1 * (V1 - k.v(0)), noise = 1e-8 * (1 + 100 * (g1 + g2)); GunnsBasicLink& l = kind == 0 ? (GunnsBasicLink&)d : kind == 1 ? (GunnsBasicLink&)r : kind == 2 ? (GunnsBasicLink&)pf : (GunnsBasicLink&)sh; const std::string w = S() << "change " << n; const double F = l.getFlux(); if ((kind == 3 && std::fabs(dV) < 1e-2) || (kind == 2 && std::fabs(dV) < 1e-5)) { c.label("collapsed"); continue; }
        c.checkNear(F, I, 1e-5, noise, "reported-current", w); c.checkNear(g2 * (k.v(1) - V2), I, 1e-5, noise, "balance", w); if (I > noise) fwd = true; if (I < -noise) rev = true; const double go = 1 / (1 / g1 + 1 / g2), Vo = V1 - V2;
        if (kind == 0) { const bool back = d.isReversedBias(); if (std::fabs(dV - drop) > 1e-6) c.check(back == (dV < drop), "bias", S() << w << " dV " << dV << " drop " << drop); const double Ix = back ? Gr * (1 - blk) * dV : Gf * (1 - blk) * (dV - drop); c.checkNear(I, Ix, 1e-5, noise + 1e-10 * Gf * (V1 + V2), "diode-law", w); if (Gr * (1 - blk) < 1e-9) c.check(I >= -noise - 1e-6, "reverse-current", S() << w << " " << I); }
        else if (kind == 1) { c.checkNear(I, dV / R * (1 - blk), 1e-6, noise, "ohm", w); c.checkNear(I, (Vo) * go * ((1 - blk) / R) / (go + (1 - blk) / R), 1e-6, noise, "series", w); c.checkNear(r.getPower(), F * dV, 1e-9, 1e-12, "power", w); c.checkNear(r.getWasteHeat(), F * dV * (1 - eff), 1e-9, 1e-12, "waste-heat", w); c.checkNear(r.getVoltageDrop(), dV, 1e-9, 1e-10, "drop", w); c.check(r.getCurrent() == F, "current", w); }
        else if (kind == 2) { const double gl = (1 - blk) / R, a = std::fabs(dV); if (a > 1e-3 && gl > 1e-6) { const double Ix = (dV > 0 ? 1 : -1) * std::pow(a * gl, 1 / ex); c.checkNear(I, Ix, 1e-3, noise + 1e-5, "power-law", w); } if (std::fabs(Vo) > 1e-2) c.check(I * Vo >= -noise * std::fabs(Vo), "flows-uphill", w); }
        else { const double a = std::fabs(dV); const double Ix = cp ? std::fabs(cpv) / a : ci ? std::fabs(civ) : mr ? a / mrv : 0.; c.checkNear(std::fabs(I), Ix, 1e-3, noise + 1e-6, "short-law", w); c.check(I * dV >= -noise * a, "flows-uphill", w); } }
    if ((fwd && rev) || modes > 1) c.nontrivial();
}

// ---- the resistive load link with its own switch
FACET(resload, 40000, 800000, "the switch opened and closed again after the load's resistance was changed") {
    el::Circuit k(1); const double Gs = c.lr(0.1, 1e3), R0 = c.lr(0.5, 1e3), eff = c.r(0.05, 0.95), uv = c.r(10, 90); double V = c.r(0, 140), R = R0; bool cmd = c.b(0.7), fc = false, fo = false, closed = false; GunnsBasicPotential* src = k.pot(V, Gs, 0); k.cond(c.lr(1e-3, 0.1), 0, k.gnd()); GunnsResistiveLoad l; GunnsResistiveLoadConfigData cc("load", &k.nl, R0, eff, uv, 0.01, 1e4, -1e4, 1); GunnsResistiveLoadInputData ii(false, 0., cmd); l.initialize(cc, ii, k.links, 0, k.gnd()); k.start(100, 1e-11); c.log() << "source " << V << " V " << Gs << " load " << R0 << " uv " << uv << (cmd ? " closed" : " open") << "\n";
    double blk = 0; bool changed = false, reopened = false; int back = 0; const int ops = c.i(2, 16);
    for (int n = 0; n < ops; ++n) { if (n) switch (c.weighted({3, 4, 2, 1, 1})) { case 0: V = c.r(0, 140); src->setSourcePotential(V); c.log() << "source " << V << "\n"; break; case 1: l.setLoadSwitchClosed(cmd = c.b()); c.log() << (cmd ? "close\n" : "open\n"); break; case 2: if (closed) { R = c.lr(0.5, 1e3); VptFriend::ohms(l) = R; changed = true; c.log() << "resistance " << R << "\n"; } break; case 3: { const bool f = c.b(); blk = f ? c.r(0, 1) : 0.; l.setMalfBlockage(f, blk); c.log() << "blockage " << blk << "\n"; break; } default: fc = c.b(0.3); fo = c.b(0.3); l.mLoadSwitch.setMalfFailClosed(fc); l.mLoadSwitch.setMalfFailOpen(fo); c.log() << "fail closed " << fc << " open " << fo << "\n"; }
        const bool now = fc || (cmd && !fo); if (now && !closed) { R = R0; if (changed && reopened) ++back; } if (!now) { if (closed) reopened = true; } closed = now; const int steps = c.i(1, 3); for (int s = 0; s < steps; ++s) { const double before = k.v(0); k.step(0.1); const double v = k.v(0), g = (closed ? 1. / R : 1e-12) * (1. - blk), I = v * g; const std::string w = S() << "change " << n << " step " << s << (closed ? " closed " : " open ") << R << " ohm at " << v << " V";
            c.check(l.mLoadSwitch.isClosed() == closed, "load-switch", w); c.checkNear(l.getFlux(), I, 1e-9, 1e-12, "load-current", w); c.checkNear(l.getPower(), I * v, 1e-9, 1e-12, "load-power", w); c.checkNear(l.getWasteHeat(), I * v * (1 - eff), 1e-9, 1e-12, "load-heat", w); if (std::fabs(v - uv) > 1e-9) c.check(l.getPowerValid() == (closed && v > uv), "load-valid", w); if (n || s) c.checkNear(l.getVoltage(), closed ? before : 0., 1e-9, 1e-12, "load-voltage", w); } }
    if (back) c.nontrivial();
}

// ---- the short's load function alone, including its latching initial-value modes
FACET(shortfn, 80000, 1600000, "an initial-value malfunction held its conductance while the voltage changed") {
    GunnsShortUtil s; GunnsShortUtilInputData ii; s.initialize(ii); bool f[5] = { 0, 0, 0, 0, 0 }; double v[5] = { 0, 0, 0, 0, 0 }, g = 0, pp = 0, pc = 0; bool held = false; const int n = c.i(1, 25);
    for (int i = 0; i < n; ++i) { if (c.b(0.4)) { const int j = c.i(0, 4); f[j] = c.b(0.6); v[j] = c.lr(0.1, 1e3); const double q = v[j]; switch (j) { case 0: s.setMalfConstantPower(f[j], q); break; case 1: s.setMalfConstantCurrent(f[j], q); break; case 2: s.setMalfInitialPower(f[j], q); break; case 3: s.setMalfInitialCurrent(f[j], q); break; default: s.setMalfResistance(f[j], q); } c.log() << "malfunction " << j << " " << f[j] << " " << q << "\n"; }
        const double V = c.pickOf<double>({ c.r(1, 150), c.sr(1, 150), 0. }); const double G = s.computeShort(V); c.log() << "volts " << V << "\n"; const double v2 = std::max(V * V, DBL_EPSILON), va = std::max(std::fabs(V), DBL_EPSILON);
        if (f[0]) g = v[0] / v2; else if (f[1]) g = v[1] / va; else if (f[2]) { if (v[2] != pp) g = v[2] / v2; else held = true; } else if (f[3]) { if (v[3] != pc) g = v[3] / va; else held = true; } else if (f[4]) g = 1 / v[4]; else g = 0; pp = f[2] ? v[2] : 0; pc = f[3] ? v[3] : 0;
        c.checkNear(G, g, 1e-12, 0, "conductance", S() << "call " << i); c.check(s.isConstantLoad() == ((f[0] || f[1]) && g > 0), "constant-load", ""); }
    if (held) c.nontrivial();
}
