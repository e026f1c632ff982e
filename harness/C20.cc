// C20: fans, pumps, turbines and their shafts obey their curves, affinity laws and power balances.
#include "aspects/fluid/potential/GunnsGasFan.hh"
#include "aspects/fluid/potential/GunnsLiquidCentrifugalPump.hh"
#include "aspects/fluid/potential/GunnsFluidPressureHead.hh"
#include "aspects/fluid/source/GunnsGasDisplacementPump.hh"
#include "aspects/fluid/source/GunnsLiquidDisplacementPump.hh"
#include "aspects/fluid/conductor/GunnsGasTurbine.hh"
#include "aspects/fluid/conductor/GunnsDriveShaftSpotter.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include "core/GunnsFluidUtils.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA \
    static PolyFluid* flu(GunnsFluidLink& l) { return l.mInternalFluid; } static double adm(const GunnsBasicLink& l) { return l.mAdmittanceMatrix[0]; } static double vol(const GunnsFluidLink& l) { return l.mVolFlowRate; } static double molar(const GunnsBasicLink& l) { return l.mFlux; } static double minLin(const GunnsFluidConductor& l) { return l.mMinLinearizationPotential; } \
    typedef GunnsGasFan Fa; static double src(const GunnsFluidPotential& l) { return l.mSourcePressure; } static double torque(const Fa& f) { return f.mImpellerTorque; } static double speed(const Fa& f) { return f.mImpellerSpeed; } static double power(const Fa& f) { return f.mImpellerPower; } static double wall(const Fa& f) { return f.mWallHeatFlux; } static double valve(const Fa& f) { return f.mCheckValvePosition; } static const double* coeffs(const Fa& f) { return f.mReferenceCoeffs; } static double spec(const Fa& f) { return f.mSpecificSpeed; } static double pbep(const Fa& f) { return f.mReferencePowerBep; } static double refQ(const Fa& f) { return f.mReferenceQ; } \
    static GunnsPumpCavitation& cav(GunnsLiquidCentrifugalPump& p) { return p.mCavitation; } static GunnsPumpCavitation& cav(GunnsLiquidDisplacementPump& p) { return p.mCavitation; } static double cavF(const GunnsPumpCavitation& p) { return p.mCavitationFraction; } static void cavAuto(GunnsPumpCavitation& p, bool b) { p.mEnableAutoCavitation = b; } \
    typedef GunnsGasDisplacementPump Dp; static double torque(const Dp& f) { return f.mImpellerTorque; } static double speed(const Dp& f) { return f.mImpellerSpeed; } static double power(const Dp& f) { return f.mImpellerPower; } static double wall(const Dp& f) { return f.mWallHeatFlux; } static double demand(const Dp& f) { return f.mFlowDemand; } \
    typedef GunnsGasTurbine Tu; static double torque(const Tu& f) { return f.mImpellerTorque; } static double power(const Tu& f) { return f.mImpellerPower; } static double wall(const Tu& f) { return f.mWallHeatFlux; } static double ratio(const Tu& f) { return f.mPressureRatio; } static double drop(const Tu& f) { return f.mPressureDrop; } static double eff(const Tu& f) { return f.mEfficiency; } static double predicted(const Tu& f) { return f.mPredictedFlowRate; } static double motor(const Tu& f) { return f.mMotorSpeed; } static double motor(const Fa& f) { return f.mMotorSpeed; } \
    typedef GunnsDriveShaftSpotter Sh; static double motor(const Sh& s) { return s.mMotorSpeed; } static double load(const Sh& s) { return s.mTotalExternalLoad; } static double friction(const Sh& s) { return s.mFrictionTorque; } static void jam(Sh& s, bool b, double v) { s.mMalfJamFlag = b; s.mMalfJamValue = v; } static void over(Sh& s, bool b, double v) { s.mMalfSpeedOverrideFlag = b; s.mMalfSpeedOverrideValue = v; } \
    static double bellows(const GunnsFluidAccum& a) { return a.mBellowsPosition; } static double head(const GunnsFluidAccum& a) { return a.mAccelPressureHead; }
#include "fluidnet.hh"
using namespace fn;
static const double PI = 3.14159265358979323846;
static double lim(double a, double x, double b) { return std::min(b, std::max(a, x)); }
static FSpec twoNodes(Case& c, bool gas, bool liq) {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; g.liquids = liq; FSpec s = genFluid(c, g); for (int t = 0; t < 30 && ((s.gas && !gas) || (!s.gas && !liq)); ++t) s = genFluid(c, g); s.links.clear(); s.nodes[0].exF = 0.;
    s.nodes.push_back(s.nodes[0]); for (int k = 0; k < 2; ++k) { FNode& x = s.nodes[k]; x.T = s.gas ? c.r(200., 600.) : c.r(s.Tlo, s.Thi); x.P = c.lr(s.gas ? 20. : 100., 500.); x.vol = c.lr(s.gas ? 1. : 0.1, s.gas ? 100. : 10.); x.mf = genFractions(c, (int)s.types.size()); }
    return s;
}
static bool calm(FluidNet& f, double dt, double flow) { for (int k = 0; k < f.n(); ++k) if (f.nodes[k].getContent()->getMass() < 20. * std::fabs(flow) * dt || f.nodes[k].getContent()->getPressure() < 0.5 || f.nodes[k].getContent()->getPressure() > 1e5) return false; return true; }
static bool stepped(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
static bool sane(const FSpec& s, double T) { return s.gas ? T > 110. && T < 1400. : T >= s.Tlo - 1e-9 && T <= s.Thi + 1e-9; }
static bool sane(FluidNet& f) { return sane(f.spec, f.nodes[0].getContent()->getTemperature()) && sane(f.spec, f.nodes[1].getContent()->getTemperature()); }
static double wallTemp(Case& c, const FSpec& s) { return s.gas ? c.r(150., 1200.) : c.r(s.Tlo, s.Thi); }
static double energy(FluidNet& f) { double e = 0.; for (int k = 0; k < f.n(); ++k) { State s = snap(*f.nodes[k].getContent()); e += s.mass * s.h; } return e; }
static double convect(PolyFluid& x, double m, double UA, double Tw) { if (m <= DBL_EPSILON || UA <= DBL_EPSILON) return 0.; const double T = x.getTemperature(), h = x.getSpecificEnthalpy(), n = std::min(100., UA / (m * x.getSpecificHeat())); x.setTemperature(Tw + (T - Tw) * std::exp(-n)); return m * (h - x.getSpecificEnthalpy()); }
static double poly(const double* a, double q) { double r = 0.; for (int i = 5; i >= 0; --i) r = r * q + a[i]; return r; }
// First zero of a curve above zero that starts positive; -1 when there is none.
static double firstZero(const double* a, double top, int* crossings = 0) { double lo = 0., hi = -1.; int n = 0; const int N = 2000; for (int i = 1; i <= N; ++i) { const double x = top * i / N; if ((poly(a, top * (i - 1) / N) > 0.) != (poly(a, x) > 0.)) { if (hi < 0.) { lo = top * (i - 1) / N; hi = x; } ++n; } } if (crossings) *crossings = n; if (hi < 0.) return -1.; for (int i = 0; i < 200; ++i) { const double m = 0.5 * (lo + hi); (poly(a, m) > 0. ? lo : hi) = m; } return 0.5 * (lo + hi); }
static double slope(const double* a, double q) { double r = 0.; for (int i = 5; i >= 1; --i) r = r * q + i * a[i]; return r; }
// What cavitation does to a pump's pressure or flow.
struct Cavity { bool on, autoOn, full, part; double autoDur, autoAmp, fullDur, partDur, partAmp, t, f, dur; Cavity() : on(false), autoOn(false), full(false), part(false), autoDur(0.), autoAmp(0.), fullDur(0.), partDur(0.), partAmp(0.), t(0.), f(0.), dur(0.) {}
    // Returns the largest noise that may be added.
    double step(double dt, double inletP, double vaporP) { t += dt; bool fc = false; double amp = 0.; if (full) { fc = true; amp = partAmp; dur = fullDur; } else if (autoOn && inletP < vaporP) { fc = true; amp = autoAmp; dur = autoDur; } else if (part) { amp = partAmp; dur = partDur; } else t = 0.; const double d = std::max(dur, DBL_EPSILON); dur = d; f += (fc ? 2. * std::sqrt(std::max(f, 0.01)) : -2. * std::sqrt(1. - std::min(f, 0.99))) * dt / d; f = lim(0., f, 1.); return fc || part ? amp * std::max(0., 1. - t / d) : 0.; } };
static void noisy(Case& c, double got, double base, double amp, double tol, const char* tag, const std::string& at) { if (amp <= 0.) c.checkNear(got, base, 1e-9, tol, tag, at); else { c.check(got >= 0., tag, S() << at << " negative with noise " << got); c.check(std::fabs(got - base) <= amp * 6. + std::max(0., -base) + tol + 1e-9 * std::fabs(base), tag, S() << at << " source " << got << " base " << base << " noise amplitude " << amp); } }
static void cavInput(Case& c, Cavity& v, GunnsPumpCavitation& p, double scale) { switch (c.raw(3)) { case 0: v.full = c.b(); v.fullDur = c.lr(0.05, 10.); p.setMalfFullCavitation(v.full, v.fullDur); break; case 1: v.part = c.b(); v.partDur = c.lr(0.05, 10.); v.partAmp = c.b(0.5) ? 0. : scale * c.lr(1e-3, 0.1); p.setMalfPartialCavitation(v.part, v.partDur, v.partAmp); break; default: v.autoOn = !v.autoOn; VptFriend::cavAuto(p, v.autoOn); } }

FACET(fan, 6000, 150000, "pressure produced at two or more speeds with a load, valve, blockage, cavitation or reverse flow in the history") {
    FSpec s = twoNodes(c, true, true); FluidNet f(s, false); const bool pump = !s.gas && c.b(0.8); const double m0 = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()), V = std::min(s.nodes[0].vol, s.nodes[1].vol), rho = f.nodes[0].getContent()->getDensity(), dt = c.pickOf<double>({0.1, 0.05, 1.});
    const double refRho = c.b(0.3) ? rho : rho * c.lr(0.3, 3.), refN = c.lr(500., 30000.), qMax = std::max(1e-5, V * c.lr(1e-5, 3e-3) / dt), p0 = s.gas ? s.nodes[0].P * c.lr(1e-3, 0.3) : c.lr(10., 500.); (void)m0; double a[6] = {p0, 0., 0., 0., 0., 0.}, bep = 0., eff = 0.; const int shape = c.raw(3); const bool gen = shape == 0;
    if (gen) { bep = qMax * c.r(0.4, 0.7); eff = c.r(0.2, 1.); } else { double w[6], sum = 0.; for (int i = 1; i < 6; ++i) { w[i] = c.b(0.5) ? c.r(0., 1.) : 0.; sum += w[i]; } if (sum <= 0.) { w[2] = 1.; sum = 1.; } for (int i = 1; i < 6; ++i) a[i] = -p0 * w[i] / sum / std::pow(qMax, i); if (shape == 2) { bep = qMax * c.r(0.2, 0.9); eff = c.r(0.2, 1.); } }
    const double ratio = c.b(0.5) ? 1. : c.lr(0.2, 5.), gain = c.b(0.2) ? 1. : c.r(0.1, 0.9), L = c.b(0.4) ? 0. : c.lr(0.05, 10.), D = c.lr(1e-2, 0.3), e = D * c.lr(1e-6, 0.04), G = (s.gas ? 1e-3 : 1e-3) * c.lr(1e-4, 1e-1) * (s.gas ? 1. : 0.01); bool check = c.b(0.3); double N0 = c.b(0.3) ? 0. : refN * ratio * c.r(0.1, 1.5), Tw = wallTemp(c, s); Cavity cv;
    std::unique_ptr<GunnsGasFan> X; GunnsLiquidCentrifugalPump* lp = 0; int liq = 0; for (size_t i = 0; i < s.types.size(); ++i) if (s.nodes[0].mf[i] > s.nodes[0].mf[liq]) liq = (int)i;
    try { if (pump) { cv.on = true; cv.autoDur = c.lr(0.1, 5.); cv.autoAmp = c.b() ? 0. : p0 * c.lr(1e-3, 0.1); cv.autoOn = c.b(); lp = new GunnsLiquidCentrifugalPump; X.reset(lp); lp->initialize(GunnsLiquidCentrifugalPumpConfigData("x", &f.nl, G, 0., refRho, refN, a[0], a[1], a[2], a[3], a[4], a[5], eff, bep, gain, ratio, L, D, e, check, s.types[liq], cv.autoDur, cv.autoAmp), GunnsLiquidCentrifugalPumpInputData(false, 0., 0., N0, Tw, cv.autoOn), f.links, 0, 1); }
    else { X.reset(new GunnsGasFan); X->initialize(GunnsGasFanConfigData("x", &f.nl, G, 0., refRho, refN, a[0], a[1], a[2], a[3], a[4], a[5], eff, bep, gain, ratio, L, D, e, check), GunnsGasFanInputData(false, 0., 0., N0, Tw), f.links, 0, 1); } }
    catch (TsInitializationException&) { if (!gen) throw; c.discard(); }
    double pc[4] = {0., 0., 0., 0.}, refPower = 0.; const double pBep = gen ? p0 : poly(a, bep);
    if (bep > 0.) { const double ns = lim(0.2, refN * 2. * PI / 60. * std::sqrt(bep) * std::pow(0.001 * refRho / pBep, 0.75), 5.), fr = (ns - 0.2) / 4.8; const double R[] = {0.42, 0.69, -0.11, 0.}, A[] = {2., -5.98, 8.78, -3.8}, CR[] = {1.09, 0.33, -0.59, -0.39, 1.32, -0.76}, CA[] = {1.69, -5.45, 9.62, -4.88, 0.022, -0.013}; c.checkNear(VptFriend::spec(*X), ns, 1e-9, 0., "specific-speed", "fan"); for (int i = 0; i < 4; ++i) pc[i] = R[i] + fr * (A[i] - R[i]); if (gen) for (int i = 0; i < 6; ++i) a[i] = (CR[i] + fr * (CA[i] - CR[i])) * p0 / std::pow(bep, i); refPower = 1000. * pBep * bep / eff;
        c.checkNear(poly(VptFriend::coeffs(*X), bep), pBep, 0.02, 0., "best-efficiency-pressure", "reference curve at the best efficiency point"); c.checkNear(VptFriend::pbep(*X), refPower, 1e-9, 0., "best-efficiency-power", "fan"); }
    for (int i = 0; i < 6; ++i) c.checkNear(VptFriend::coeffs(*X)[i], a[i], 1e-9, 0., "curve", S() << "reference coefficient " << i); int cross = 0; double refQ = firstZero(a, gen ? bep * 3. : qMax * 1.5, &cross); if (refQ < 0. || cross != 1) c.discard(); if (!gen) c.checkNear(VptFriend::refQ(*X), qMax, 1e-6, 2e-7, "reference-flow", "maximum flow of the reference curve"); else c.checkNear(VptFriend::refQ(*X), refQ, 1e-6, 2e-7, "reference-flow", "maximum flow of the generated curve");
    refQ = VptFriend::refQ(*X); GunnsFluidConductor ret; const double Gr = G * c.lr(0.1, 10.); ret.initialize(GunnsFluidConductorConfigData("r", &f.nl, Gr, 0.), GunnsFluidConductorInputData(false, 0.), f.links, 1, 0); GunnsFluidSource sc; sc.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); logFluid(c.log(), f.spec); c.log() << "reference: density " << refRho << " speed " << refN << " max flow " << refQ << " dead head " << a[0] << (pump ? " pump" : "") << " gain " << gain << "\n";
    double N = N0, K = refQ / std::sqrt(std::max(DBL_EPSILON, a[0])), area = PI * D * L; bool blk = false, odd = false; double bv = 0.; int speeds = 0, quiet = 0; double lastQ = 0., lastP = 0., lastK = 0., noise = 0.; bool tight = false;
    for (int k = 0, M = c.i(4, 25) + (c.b(0.3) ? 150 : 0), busy = std::min(M, 25); k < M; ++k) {
        bool touched = true; switch (k < busy ? c.weighted({8, 4, 2, 1, 1, 1, 1, 1}) : 0) { case 1: N = c.b(0.25) ? 0. : refN * ratio * c.r(0.05, 1.5); X->setMotorSpeed(N); ++speeds; break; case 2: { const double m = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()); sc.setFlowDemand(c.b(0.3) ? 0. : c.sr(1e-6, s.gas ? 3e-3 : 1e-4) * m / dt); odd = true; break; } case 3: check = c.b(); X->setCheckValveFlag(check); odd = true; break; case 4: blk = c.b(); bv = c.b(0.3) ? 1. : c.r(0., 1.); X->setMalfBlockage(blk, bv); odd = true; break; case 5: Tw = wallTemp(c, s); X->setWallTemperature(Tw); break; case 6: area = c.b(0.3) ? 0. : c.lr(1e-4, 3.); X->setThermalSurfaceArea(area); break; case 7: if (lp) { cavInput(c, cv, VptFriend::cav(*lp), p0); odd = true; } break; default: touched = false; }
        const int from = VptFriend::molar(*X) >= 0. ? 0 : 1; const double d = f.nodes[from].getContent()->getDensity(), Po0 = f.nodes[0].getContent()->getPressure(), Po1 = f.nodes[1].getContent()->getPressure(), q0 = VptFriend::vol(*X), s0 = VptFriend::src(*X), inP = f.nodes[0].getContent()->getPressure(), inT = f.nodes[0].getContent()->getTemperature(); const double sp = N / ratio / refN; double want = 0., aff[6] = {0., 0., 0., 0., 0., 0.}, tol = 1e-9, dead = 0.; bool solvable = true;
        if (N / ratio > (double)FLT_EPSILON && d > (double)FLT_EPSILON) { for (int i = 0; i < 6; ++i) aff[i] = a[i] * d / refRho * std::pow(sp, 2. - i); dead = aff[0]; const double g = std::max(refQ * sp * 1e-4, q0) / std::sqrt(lim((double)FLT_EPSILON * aff[0], s0, aff[0])); K = gain * g + (1. - gain) * K; double b[6]; for (int i = 0; i < 6; ++i) b[i] = aff[i]; if (K > DBL_EPSILON) b[2] -= 1. / K / K; int nz = 0; const double q = firstZero(b, refQ * sp * 1.000001, &nz); solvable = q >= 0. && nz == 1; if (solvable) { want = std::max(0., poly(aff, q)); tol = 1e-6 * dead + 1.5 * std::max(std::fabs(poly(aff, q + 5e-7) - want), std::fabs(poly(aff, std::max(0., q - 5e-7)) - want)) + 1e-9; if (std::fabs(slope(b, q)) < 1e-3 * dead / (refQ * sp)) solvable = false; } }
        PolyFluid o0(*f.nodes[0].getContent(), "o0"), o1(*f.nodes[1].getContent(), "o1"); const double e0 = energy(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(*X); if (!calm(f, dt, std::max(std::fabs(fl), std::max(std::fabs(VptFriend::flow(ret)), std::fabs(VptFriend::flow(sc))))) || !sane(f)) break; const std::string at = S() << "step " << k << " speed ratio " << sp << " density ratio " << d / refRho << " flow " << fl << " volume flow before " << q0 << " after " << VptFriend::vol(*X); const double got = VptFriend::src(*X);
        if (lp) { const double vp = prop(s.types[liq])->getSaturationPressure(inT); if (cv.autoOn && std::fabs(inP - vp) < 1e-9 * vp) break; noise = cv.step(dt, inP, vp); c.checkNear(VptFriend::cavF(VptFriend::cav(*lp)), cv.f, 1e-9, 1e-12, "cavitation", at); want *= 1. - cv.f; if (cv.f > 0. && cv.f < 1.) odd = true; }
        if (!solvable) break; noisy(c, got, want, noise, tol, "source-pressure", at); if (N <= 0. && noise <= 0.) c.check(got == 0., "zero-speed", S() << at << " pressure " << got); if (noise <= 0.) c.check(got >= 0. && (gen || got <= dead * (1. + 1e-9) + tol), "pressure-range", S() << at << " pressure " << got << " dead head " << dead);
        c.checkNear(VptFriend::speed(*X), N / ratio, 1e-12, 0., "speed", at); const double lift = want / std::max(1e-300, cv.f < 1. ? 1. - cv.f : 1e-300) + Po0 - Po1; if (cv.f == 0. && noise <= 0. && std::fabs(lift) > 2. * tol + 1e-9 * Po0) c.check(VptFriend::valve(*X) == (lift > 0. || !check ? 1. : 0.), "check-valve", S() << at << " lift " << lift);
        const double vp = VptFriend::valve(*X), A = VptFriend::adm(*X), Aw = GunnsFluidUtils::computeAdmittance(G * vp * (blk ? 1. - bv : 1.), VptFriend::minLin(*X), &o0, &o1); c.checkNear(A, Aw, 1e-6, 1e-18, "conductance", at); const double P0 = f.nodes[0].getPotential(), P1 = f.nodes[1].getPotential(); c.checkNear(VptFriend::molar(*X), A * (P0 - P1 + got), 1e-9, A * 1e-11 * (P0 + P1), "flow-law", at); if (check && vp == 0.) c.check(fl == 0., "valve-shut", at); if (blk && bv == 1.) c.check(fl == 0., "blocked", at);
        const double dn = f.nodes[0].getOutflow()->getDensity(), q1 = VptFriend::vol(*X); double pw = 1000. * std::fabs(q1) * got; if (bep > 0. && N / ratio > (double)FLT_EPSILON) { const double x = lim(0., q1, refQ * sp) / std::max(bep * sp, DBL_EPSILON); pw = sp * sp * sp * refPower * dn / refRho * (pc[0] + x * (pc[1] + x * (pc[2] + x * pc[3]))); } c.checkNear(VptFriend::power(*X), pw, 1e-6 + 2. * std::fabs(o0.getDensity() / dn - 1.), 1e-12 + 1e-6 * std::fabs(refPower * sp * sp * sp), "power", at); c.checkNear(VptFriend::torque(*X) * N * 2. * PI / 60., N > (double)FLT_EPSILON ? -VptFriend::power(*X) : 0., 1e-9, 1e-15, "torque", at);
        if (bep <= 0. && N > 0. && fl > 0. && std::fabs(f.nodes[0].getOutflow()->getDensity() * q1 - fl) < 1e-6 * fl) c.checkNear(VptFriend::power(*X), 1000. * fl / f.nodes[0].getOutflow()->getDensity() * got, 1e-5, 1e-12, "fluid-power", at);
        const double m = std::fabs(fl); if (m == 0. || m > 1e-12) { PolyFluid in(*f.nodes[fl >= 0. ? 0 : 1].getOutflow(), "in"); const double Tin = in.getTemperature(); in.setPressure(VptFriend::flu(*X)->getPressure()); in.setTemperature(Tin); const double h = m > 0. && area > 0. ? GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(fl, &in, PI * D * L > DBL_EPSILON ? e / D : 0., D) : 0., w = convect(in, m, area * h, Tw); c.checkNear(VptFriend::wall(*X), w, 1e-6, 1e-9 * m * in.getSpecificHeat() * 300. + 1e-12, "wall-heat", at); const double e1 = energy(f); if (m > 0.) c.checkNear(e1 - e0, -VptFriend::wall(*X) * dt, 1e-6, 1e-10 * (std::fabs(e0) + std::fabs(e1)) + 1e-9 * m * dt * 1e6, "energy", at); }
        if (fl < 0.) odd = true; quiet = touched || std::fabs(K - lastK) > 1e-6 * K || std::fabs(q1 - lastQ) > 1e-6 * std::fabs(q1) + 1e-9 * refQ * sp || std::fabs(got - lastP) > 1e-6 * dead ? 0 : quiet + 1; lastQ = q1; lastP = got; lastK = K;
        if (quiet > 30 && N > 0. && refQ * sp > 1e-4 && dead > 1e-2 && cv.f == 0. && noise <= 0.) { const double x = lim(0., q1, refQ * sp); double af[6]; const double dd = f.nodes[fl >= 0. ? 0 : 1].getOutflow()->getDensity(); for (int i = 0; i < 6; ++i) af[i] = a[i] * dd / refRho * std::pow(sp, 2. - i); if (!gen) c.checkNear(got, std::max(0., poly(af, x)), 0., 0.01 * af[0], "operating-point", S() << at << " settled pressure " << got); tight = true; } }
    if (tight) c.label("operating point reached"); if ((speeds > 0 && odd) || tight) c.nontrivial();
}
FACET(displacement, 6000, 150000, "pumped at two or more speeds with a valve change, blockage, cavitation or reverse flow in the history") {
    FSpec s = twoNodes(c, true, true); FluidNet f(s, false); const bool pump = !s.gas && c.b(0.8); const double V = std::min(s.nodes[0].vol, s.nodes[1].vol), dt = c.pickOf<double>({0.1, 0.05, 1.}), cyc = c.lr(1e-8, 1e-3), ratio = c.b() ? 1. : c.lr(0.2, 5.), top = V * (s.gas ? 3e-3 : 1e-5) / dt * 60. / cyc * ratio, L = c.b(0.4) ? 0. : c.lr(0.05, 10.), D = c.lr(1e-2, 0.3), e = D * c.lr(1e-6, 0.04); bool check = c.b(0.4); double N = c.b(0.3) ? 0. : top * c.r(0., 1.), Tw = wallTemp(c, s); Cavity cv; int liq = 0; for (size_t i = 0; i < s.types.size(); ++i) if (s.nodes[0].mf[i] > s.nodes[0].mf[liq]) liq = (int)i;
    std::unique_ptr<GunnsGasDisplacementPump> X; GunnsLiquidDisplacementPump* lp = 0; if (pump) { cv.on = true; cv.autoDur = c.lr(0.1, 5.); cv.autoAmp = c.b() ? 0. : top / ratio * cyc / 60. * c.lr(1e-3, 0.1); cv.autoOn = c.b(); lp = new GunnsLiquidDisplacementPump; X.reset(lp); lp->initialize(GunnsLiquidDisplacementPumpConfigData("x", &f.nl, cyc, ratio, L, D, e, check, s.types[liq], cv.autoDur, cv.autoAmp), GunnsLiquidDisplacementPumpInputData(false, 0., 0., N, Tw, cv.autoOn), f.links, 0, 1); }
    else { X.reset(new GunnsGasDisplacementPump); X->initialize(GunnsGasDisplacementPumpConfigData("x", &f.nl, cyc, ratio, L, D, e, check), GunnsGasDisplacementPumpInputData(false, 0., 0., N, Tw), f.links, 0, 1); }
    GunnsFluidConductor ret; ret.initialize(GunnsFluidConductorConfigData("r", &f.nl, (s.gas ? 1e-3 : 1e-5) * c.lr(1e-4, 1e-1), 0.), GunnsFluidConductorInputData(false, 0.), f.links, 1, 0); f.start(); logFluid(c.log(), f.spec); c.log() << "cycle volume " << cyc << " drive ratio " << ratio << " wall " << Tw << (pump ? " pump" : "") << "\n"; double area = PI * D * L; bool blk = false, odd = false; double bv = 0.; int speeds = 0, moved = 0;
    for (int k = 0, M = c.i(4, 25); k < M; ++k) {
        switch (c.weighted({6, 4, 1, 1, 1, 1, 1})) { case 1: N = c.b(0.2) ? 0. : top * c.r(-1., 1.); X->setMotorSpeed(N); ++speeds; break; case 2: check = c.b(); X->setCheckValveFlag(check); odd = true; break; case 3: blk = c.b(); bv = c.b(0.3) ? 1. : c.r(0., 1.); X->setMalfBlockage(blk, bv); odd = true; break; case 4: Tw = wallTemp(c, s); X->setWallTemperature(Tw); break; case 5: area = c.b(0.3) ? 0. : c.lr(1e-4, 3.); X->setThermalSurfaceArea(area); break; case 6: if (lp) { cavInput(c, cv, VptFriend::cav(*lp), top / ratio * cyc / 60.); odd = true; } break; default: break; }
        const double sp = N / ratio; double q = sp * cyc / 60.; if (check && q <= 0.) q = 0.; const int in0 = q >= 0. ? 0 : 1; const double d[2] = {f.nodes[0].getContent()->getDensity(), f.nodes[1].getContent()->getDensity()}, inP = f.nodes[in0].getContent()->getPressure(), inT = f.nodes[in0].getContent()->getTemperature(); double noise = 0.; const State a0 = snap(*f.nodes[0].getContent()), a1 = snap(*f.nodes[1].getContent());
        const double e0 = energy(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(*X); if (!calm(f, dt, std::max(std::fabs(fl), std::fabs(VptFriend::flow(ret)))) || !sane(f)) break; const std::string at = S() << "step " << k << " impeller " << sp << " flow " << fl << " volume flow " << VptFriend::vol(*X) << " densities " << d[0] << " " << d[1];
        if (lp) { const double vp = prop(s.types[liq])->getSaturationPressure(inT); if (cv.autoOn && std::fabs(inP - vp) < 1e-9 * vp) break; noise = cv.step(dt, inP, vp); c.checkNear(VptFriend::cavF(VptFriend::cav(*lp)), cv.f, 1e-9, 1e-12, "cavitation", at); q *= 1. - cv.f; if (cv.f > 0. && cv.f < 1.) odd = true; }
        c.checkNear(VptFriend::speed(*X), sp, 1e-12, 0., "speed", at); const double rho = d[sp > 0. ? 0 : 1]; noisy(c, VptFriend::demand(*X) / rho, q, noise, 1e-18, "demand", at); const double dem = VptFriend::demand(*X) * (blk ? 1. - bv : 1.);
        c.checkNear(fl, dem, 1e-6, 1e-13, "flow", S() << at << " demand " << dem << " molecular weights " << a0.MW << " " << a1.MW); if (N == 0. && noise <= 0.) c.check(fl == 0., "zero-speed", at); if (check && noise <= 0.) c.check(fl >= 0., "check-valve", at);
        const int from = fl >= 0. ? 0 : 1; const double drop = f.nodes[0].getPotential() - f.nodes[1].getPotential(), q1 = VptFriend::vol(*X); c.checkNear(q1, fl / f.nodes[from].getOutflow()->getDensity(), 1e-6 + 2. * std::fabs(d[from] / f.nodes[from].getOutflow()->getDensity() - 1.), 0., "volume-flow", at); c.checkNear(VptFriend::power(*X), 1000. * std::fabs(q1 * drop), 1e-9, 1e-9 * std::fabs(q1) * f.nodes[from].getPotential() + 1e-15, "power", at); c.checkNear(VptFriend::torque(*X) * N * 2. * PI / 60., std::fabs(N) > (double)FLT_EPSILON ? -VptFriend::power(*X) : 0., 1e-9, 1e-15, "torque", at);
        const double m = std::fabs(fl); if (m == 0. || m > 1e-12) { PolyFluid in(*f.nodes[from].getOutflow(), "in"); const double h = m > 0. && area > 0. ? GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(fl, &in, PI * D * L > DBL_EPSILON ? e / D : 0., D) : 0., w = convect(in, m, area * h, Tw); c.checkNear(VptFriend::wall(*X), w, 1e-6, 1e-9 * m * in.getSpecificHeat() * 300. + 1e-12, "wall-heat", at); const double e1 = energy(f); c.checkNear(e1 - e0, -VptFriend::wall(*X) * dt, 1e-6, 1e-10 * (std::fabs(e0) + std::fabs(e1)) + 1e-9 * m * dt * 1e6, "energy", at); }
        if (fl < 0.) odd = true; if (fl != 0.) ++moved; }
    if (speeds > 0 && odd && moved > 1) c.nontrivial();
}
static double mixi(double a, double b, double f) { return a + f * (b - a); }
FACET(turbine, 6000, 150000, "power was produced with a speed, wall or blockage change, or reverse pressure") {
    FSpec s = twoNodes(c, true, false); if (!s.gas) c.discard(); FluidNet f(s, false); const double dt = c.pickOf<double>({0.1, 0.05}), m0 = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()), refT = c.r(250., 800.), refP = c.lr(20., 500.), fLo = 3e-3 * m0 / dt * c.lr(1e-3, 0.3), fHi = fLo * c.lr(0.5, 3.), k1l = c.r(0., 2.), k1h = c.r(0., 2.), k2l = c.r(0., 2.), k2h = c.r(0., 2.), nLo = c.lr(100., 5000.), nHi = nLo * c.r(1.5, 5.), mnl = c.r(1., 1.3), mnh = c.r(1., 1.3), mxl = c.r(1.3, 6.), mxh = c.r(1.3, 6.), gain = c.b(0.3) ? 1. : c.r(0.1, 0.9), ratio = c.b() ? 1. : c.lr(0.2, 5.), L = c.b(0.4) ? 0. : c.lr(0.05, 10.), D = c.lr(1e-2, 0.3), e = D * c.lr(1e-6, 0.04);
    double el[6], eh[6]; for (int i = 0; i < 6; ++i) { el[i] = (i == 0 ? c.r(0., 0.9) : c.b(0.4) ? 0. : c.r(-0.1, 0.2) / std::pow(3., i)); eh[i] = (i == 0 ? c.r(0., 0.9) : c.b(0.4) ? 0. : c.r(-0.1, 0.2) / std::pow(3., i)); } double N = c.b(0.2) ? 0. : nHi * ratio * c.r(0., 1.5), Tw = wallTemp(c, s); GunnsGasTurbine X; X.initialize(GunnsGasTurbineConfigData("x", &f.nl, c.lr(1e-6, 1e-3), 0., refT, refP, fLo, fHi, k1l, k1h, k2l, k2h, el[0], el[1], el[2], el[3], el[4], el[5], eh[0], eh[1], eh[2], eh[3], eh[4], eh[5], mnl, mnh, mxl, mxh, nLo, nHi, gain, ratio, L, D, e), GunnsGasTurbineInputData(false, 0., N, Tw), f.links, 0, 1);
    GunnsFluidSource sc; sc.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); f.start(); logFluid(c.log(), f.spec); double area = PI * D * L, drop = 0.; bool blk = false, odd = false; double bv = 0.; int made = 0;
    for (int k = 0, M = c.i(4, 30); k < M; ++k) {
        switch (c.weighted({6, 3, 2, 1, 1, 1})) { case 1: N = c.b(0.2) ? 0. : nHi * ratio * c.r(0., 1.5); X.setMotorSpeed(N); odd = true; break; case 2: { const double m = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()); sc.setFlowDemand(c.b(0.3) ? 0. : c.sr(1e-6, 3e-3) * m / dt); break; } case 3: blk = c.b(); bv = c.b(0.3) ? 1. : c.r(0., 1.); X.setMalfBlockage(blk, bv); odd = true; break; case 4: Tw = wallTemp(c, s); X.setWallTemperature(Tw); odd = true; break; case 5: area = c.b(0.3) ? 0. : c.lr(1e-4, 3.); X.setThermalSurfaceArea(area); break; default: break; }
        const int from = VptFriend::molar(X) >= 0. ? 0 : 1; PolyFluid o0(*f.nodes[0].getContent(), "o0"), o1(*f.nodes[1].getContent(), "o1"); PolyFluid& o = from ? o1 : o0; drop = gain * (k == 0 ? 0. : f.nodes[0].getPotential() - f.nodes[1].getPotential()) + (1. - gain) * drop; const double seen = X.getDeltaPotential(); (void)seen; const double T0 = o.getTemperature(), P0 = o.getPressure(), fr0 = (lim(nLo, N / ratio / (T0 / refT), nHi) - nLo) / (nHi - nLo);
        const double e0 = energy(f); if (!stepped(f, dt)) break; const double fl = VptFriend::flow(X); if (!calm(f, dt, std::max(std::fabs(fl), std::fabs(VptFriend::flow(sc)))) || !sane(f)) break; const std::string at = S() << "step " << k << " impeller " << N / ratio << " flow " << fl << " pressures " << f.nodes[0].getPotential() << " " << f.nodes[1].getPotential() << " ratio " << VptFriend::ratio(X);
        if (k == 0) drop = VptFriend::drop(X); c.checkNear(VptFriend::drop(X), drop, 1e-9, 1e-10 * P0, "pressure-drop", at); const double pr = std::max(1., P0 / std::max(DBL_EPSILON, P0 - VptFriend::drop(X))); c.checkNear(VptFriend::ratio(X), pr, 1e-9, 0., "pressure-ratio", at);
        const double want = mixi(fLo, fHi, fr0) * ((pr - 1.) * (pr - 1.) + mixi(k1l, k1h, fr0) * (pr - 1.)) / std::max(DBL_EPSILON, pr * pr + mixi(k2l, k2h, fr0)) * P0 / refP / std::sqrt(T0 / refT); c.checkNear(VptFriend::predicted(X), want, 1e-7, 1e-15, "turbine-flow-curve", at);
        const double G = GunnsFluidUtils::predictConductivity(want, VptFriend::minLin(X), &o0, &o1) * (blk ? 1. - bv : 1.), A = VptFriend::adm(X); c.checkNear(A, GunnsFluidUtils::computeAdmittance(G, VptFriend::minLin(X), &o0, &o1), 1e-6, 1e-18, "conductance", at); const double dp0 = o0.getPressure() - o1.getPressure(), dp1 = f.nodes[0].getPotential() - f.nodes[1].getPotential(); if (std::fabs(o0.getMWeight() / o1.getMWeight() - 1.) < 0.01 && dp0 > 0.01 * P0 && std::fabs(dp1 / dp0 - 1.) < 0.01) c.checkNear(fl, want * (blk ? 1. - bv : 1.), 0.03, 1e-12, "flow-follows-curve", at); if (blk && bv == 1.) c.check(fl == 0., "blocked", at);
        const int now = VptFriend::molar(X) >= 0. ? 0 : 1; const double Ts = f.nodes[now].getOutflow()->getTemperature(), fr = (lim(nLo, N / ratio / (Ts / refT), nHi) - nLo) / (nHi - nLo); double ec[6]; for (int i = 0; i < 6; ++i) ec[i] = mixi(el[i], eh[i], fr); const double mn = mixi(mnl, mnh, fr), mx = mixi(mxl, mxh, fr), ef = pr >= mn && pr <= mx ? lim(0., poly(ec, pr), 1.) : 0.; const double Tb = (now ? o1 : o0).getTemperature(), frb = (lim(nLo, N / ratio / (Tb / refT), nHi) - nLo) / (nHi - nLo); double eb[6]; for (int i = 0; i < 6; ++i) eb[i] = mixi(el[i], eh[i], frb); if (std::fabs(pr - mn) > 1e-2 * mn && std::fabs(pr - mx) > 1e-2 * mx) c.checkNear(VptFriend::eff(X), ef, 1e-4, 1e-4 + 2. * std::fabs(poly(ec, pr) - poly(eb, pr)), "efficiency", at); c.check(VptFriend::eff(X) >= 0. && VptFriend::eff(X) <= 1., "efficiency-range", at);
        const double pw = N > (double)FLT_EPSILON ? -1000. * std::fabs(VptFriend::vol(X)) * VptFriend::drop(X) * VptFriend::eff(X) : 0.; c.checkNear(VptFriend::power(X), pw, 1e-9, 1e-15, "power", at); c.checkNear(VptFriend::torque(X) * N * 2. * PI / 60., -VptFriend::power(X), 1e-9, 1e-15, "torque", at); if (drop > 0.) c.check(VptFriend::torque(X) >= 0., "drives", at); if (VptFriend::power(X) < 0.) ++made; if (dp1 < 0.) odd = true;
        const double m = std::fabs(fl); if (m == 0. || m > 1e-12) { PolyFluid in(*f.nodes[fl >= 0. ? 0 : 1].getOutflow(), "in"); const double Tin = in.getTemperature(); in.setPressure(VptFriend::flu(X)->getPressure()); in.setTemperature(Tin); const double h = m > 0. && area > 0. ? GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(fl, &in, PI * D * L > DBL_EPSILON ? e / D : 0., D) : 0., w = convect(in, m, area * h, Tw); c.checkNear(VptFriend::wall(X), w, 1e-6, 1e-9 * m * in.getSpecificHeat() * 300. + 1e-12, "wall-heat", at); const double e1 = energy(f); if (m > 0.) c.checkNear(e1 - e0, -VptFriend::wall(X) * dt, 1e-6, 1e-10 * (std::fabs(e0) + std::fabs(e1)) + 1e-9 * m * dt * 1e6, "energy", at); } }
    if (made > 1 && odd) c.nontrivial();
}
FACET(shaft, 3000, 80000, "several impellers on a shaft that sped up and slowed down, with a jam or speed override") {
    FSpec s = twoNodes(c, true, false); if (!s.gas) c.discard(); FluidNet f(s, false); const double dt = c.pickOf<double>({0.1, 0.05}), V = std::min(s.nodes[0].vol, s.nodes[1].vol), m0 = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()); const int nt = c.i(0, 2), nf = c.i(nt ? 0 : 1, 2); const double N0 = c.lr(10., 20000.); std::vector<std::unique_ptr<GunnsGasTurbine> > ts; std::vector<std::unique_ptr<GunnsGasFan> > fs; double scale = 1e-9;
    for (int i = 0; i < nt; ++i) { ts.push_back(std::unique_ptr<GunnsGasTurbine>(new GunnsGasTurbine)); const double fm = 1e-3 * m0 / dt * c.lr(1e-2, 1.); ts.back()->initialize(GunnsGasTurbineConfigData(S() << "t" << i, &f.nl, 1e-4, 0., 300., s.nodes[0].P, fm, fm, 1., 1., 0.5, 0.5, c.r(0.1, 0.9), 0., 0., 0., 0., 0., c.r(0.1, 0.9), 0., 0., 0., 0., 0., 1., 1., 10., 10., 100., 20000., 0.5, c.b() ? 1. : c.lr(0.3, 3.), 0., 0.1, 0.), GunnsGasTurbineInputData(false, 0., N0, 300.), f.links, i % 2, 1 - i % 2); scale += fm * 1e4; }
    for (int i = 0; i < nf; ++i) { fs.push_back(std::unique_ptr<GunnsGasFan>(new GunnsGasFan)); const double q = V * c.lr(1e-4, 1e-3) / dt, p = s.nodes[0].P * c.lr(1e-2, 0.2); fs.back()->initialize(GunnsGasFanConfigData(S() << "f" << i, &f.nl, c.lr(1e-7, 1e-4), 0., f.nodes[0].getContent()->getDensity(), N0, p, -0.5 * p / q, -0.5 * p / q / q, 0., 0., 0., 0.6, 0.5 * q, 0.5, c.b() ? 1. : c.lr(0.3, 3.)), GunnsGasFanInputData(false, 0., 0., N0, 300.), f.links, i % 2, 1 - i % 2); scale += 1000. * p * q; }
    GunnsFluidSource sc; sc.initialize(GunnsFluidSourceConfigData("s", &f.nl), GunnsFluidSourceInputData(false, 0., 0.), f.links, 1, 0); const double w0 = N0 * 2. * PI / 60., I = scale * dt / w0 / w0 * c.lr(3., 300.), fc = c.b(0.3) ? 0. : scale / N0 / w0 * c.lr(1e-3, 1.), fmin = c.b() ? 0. : N0 * c.r(0., 0.5); GunnsDriveShaftSpotter sh; GunnsDriveShaftSpotterConfigData scd("shaft", fc, fmin, I); GunnsDriveShaftSpotterInputData sid(N0); sid.mMalfJamFlag = false; sid.mMalfJamValue = 0.; sid.mMalfSpeedOverrideFlag = false; sid.mMalfSpeedOverrideValue = 0.; sh.initialize(&scd, &sid);
    if (c.b(0.3)) { bool threw = false; try { sh.addImpeller(0); } catch (TsInitializationException&) { threw = true; } c.check(threw, "wrong-impeller", "something that is neither fan nor turbine was accepted on a shaft"); } for (int i = 0; i < nt; ++i) sh.addImpeller(ts[i].get()); for (int i = 0; i < nf; ++i) sh.addImpeller(fs[i].get()); f.start(); logFluid(c.log(), f.spec); c.log() << nt << " turbines " << nf << " fans inertia " << I << " friction " << fc << " speed " << N0 << "\n";
    double N = N0, load = 0., jv = 0., ov = 0.; bool jam = false, over = false, up = false, down = false, malf = false;
    for (int k = 0, M = c.i(4, 30); k < M; ++k) {
        switch (c.weighted({6, 3, 1, 1})) { case 1: { const double m = std::min(f.nodes[0].getContent()->getMass(), f.nodes[1].getContent()->getMass()); sc.setFlowDemand(c.b(0.3) ? 0. : c.sr(1e-6, 3e-3) * m / dt); break; } case 2: jam = c.b(); jv = c.r(0., 1.5); VptFriend::jam(sh, jam, jv); malf = true; break; case 3: over = c.b(); ov = N0 * c.r(0., 2.); VptFriend::over(sh, over, ov); malf = true; break; default: break; }
        const double before = N; const double fric = -fc * std::max(N, fmin); N = std::max(DBL_EPSILON, N + (load + fric) * dt / I * 60. / (2. * PI)); if (over) N = ov; if (N > 100. * N0) break; sh.stepPreSolver(dt); if (!stepped(f, dt)) break; sh.stepPostSolver(dt); const std::string at = S() << "step " << k << " speed " << before << " to " << N << " load " << load << " friction " << fric;
        c.checkNear(VptFriend::motor(sh), N, 1e-9, 1e-9 * N0, "speed", at); c.checkNear(VptFriend::friction(sh), fric, 1e-9, 1e-15, "friction", at); N = VptFriend::motor(sh); double sum = 0.; for (int i = 0; i < nt; ++i) { c.checkNear(VptFriend::motor(*ts[i]), N, 1e-12, 0., "turbine-speed", at); sum += VptFriend::torque(*ts[i]); } for (int i = 0; i < nf; ++i) { c.checkNear(VptFriend::motor(*fs[i]), N, 1e-12, 0., "fan-speed", at); sum += VptFriend::torque(*fs[i]); }
        if (jam) sum *= 1. - jv; c.checkNear(VptFriend::load(sh), sum, 1e-9, 1e-15, "load", at); load = VptFriend::load(sh); if (N > before) up = true; if (N < before) down = true; if (!calm(f, dt, std::fabs(VptFriend::flow(sc))) || !sane(f)) break; bool ok = true; for (size_t i = 0; i < f.links.size(); ++i) if (GunnsFluidLink* l = dynamic_cast<GunnsFluidLink*>(f.links[i])) ok = ok && calm(f, dt, VptFriend::flow(*l)); if (!ok) break; }
    if (up && down && malf && nt + nf > 1) c.nontrivial();
}
FACET(head, 4000, 100000, "a column turned by a rotation, reversed or transposed acceleration, and acceleration changed during the run") {
    FSpec s = twoNodes(c, true, true); FluidNet f(s, false); GunnsFluidPotential X; X.initialize(GunnsFluidPotentialConfigData("x", &f.nl, s.gas ? c.lr(1e-7, 1e-4) : c.lr(1e-9, 1e-5), 0.), GunnsFluidPotentialInputData(false, 0., 0.), f.links, 0, 1); double col[3], acc[3], dcm[9]; for (int i = 0; i < 3; ++i) { col[i] = c.r(-20., 20.); acc[i] = c.r(-30., 30.); } for (int i = 0; i < 9; ++i) dcm[i] = c.r(-1., 1.); const bool rot = c.b(0.7), rev = c.b(), tr = c.b(); GunnsFluidPressureHead h(X); const GunnsFluidPressureHeadConfigData hc("h", col[0], col[1], col[2], acc, rev, rot ? dcm : 0, tr); GunnsFluidPressureHeadInputData hi; h.initialize(&hc, &hi); f.start(); const double dt = c.pickOf<double>({0.1, 0.05}); logFluid(c.log(), f.spec); int ch = 0, n = 0;
    for (int k = 0, M = c.i(2, 15); k < M; ++k) { if (c.b(0.4)) { acc[c.raw(3)] = c.r(-30., 30.); ++ch; } if (c.b(0.2)) dcm[c.raw(9)] = c.r(-1., 1.);
        double a[3] = {0., 0., 0.}; for (int i = 0; i < 3; ++i) { if (!rot) a[i] = acc[i]; else for (int j = 0; j < 3; ++j) a[i] += (tr ? dcm[3 * j + i] : dcm[3 * i + j]) * acc[j]; } double dot = 0., mag = 0.; for (int i = 0; i < 3; ++i) { dot += a[i] * col[i]; mag += std::fabs(a[i] * col[i]); } const double rho = std::min(f.nodes[0].getContent()->getDensity(), f.nodes[1].getContent()->getDensity()), want = (rev ? -1. : 1.) * dot * rho / 1000.;
        h.stepPreSolver(dt); if (!stepped(f, dt)) break; h.stepPostSolver(dt); if (!calm(f, dt, VptFriend::flow(X)) || !sane(f)) break; const std::string at = S() << "step " << k << " density " << rho << (rev ? " reversed" : "") << (rot ? tr ? " transposed" : " rotated" : ""); c.checkNear(h.getPressureHead(), want, 1e-9, 1e-12 * rho * mag + 1e-15, "head", at); c.checkNear(VptFriend::src(X), want, 1e-9, 1e-12 * rho * mag + 1e-15, "link-pressure", at); const double P0 = f.nodes[0].getPotential(), P1 = f.nodes[1].getPotential(); c.checkNear(VptFriend::molar(X), VptFriend::adm(X) * (P0 - P1 + want), 1e-9, VptFriend::adm(X) * 1e-10 * (P0 + P1 + rho * mag), "flow", at); ++n; }
    if (n > 1 && ch > 0 && (rot || rev)) c.nontrivial();
}
