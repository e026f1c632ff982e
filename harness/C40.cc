// C40: valve, motor, thermostat and loop controllers follow their commands, rates, limits, power and malfunctions exactly.
#include "vpt.hh"
#include "common/controllers/fluid/TsValveController.hh"
#include "common/controllers/fluid/TsPoweredValveController.hh"
#include "common/controllers/fluid/TsOpenCloseValveController.hh"
#include "common/controllers/fluid/TsSpeedValveController.hh"
#include "common/controllers/fluid/TsPositionValveController.hh"
#include "common/controllers/fluid/TsToggleValveController.hh"
#include "common/controllers/fluid/TsToggleValveCmd.hh"
#include "common/controllers/fluid/TsDualSolenoidValveController.hh"
#include "common/controllers/fluid/TsTValveController.hh"
#include "common/controllers/fluid/TsPumpMotorController.hh"
#include "common/controllers/generic/TsPidController.hh"
#include "common/controllers/valveAssemblies/TsOpenCloseValveAssembly.hh"
#include "common/controllers/valveAssemblies/TsToggleValveAssembly.hh"
#include "common/controllers/valveAssemblies/TsDualSolenoidValveAssembly.hh"
#include "common/effectors/mechanical/motor/TsDcPwmDynMotor.hh"
#include "common/effectors/mechanical/motor/DcDynPumpMotor.hh"
#include "aspects/signal/effectors/thermostat/Thermostat.hh"
#include "common/sensors/SensorAnalog.hh"
#include "common/sensors/SensorBooleanAi.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cfloat>
#include <cmath>
#include <memory>
class VptFriend {
  public:
    static void handle(TsOpenCloseValveController& v, bool un, float p) { v.mHandleStowed = un ? TsOpenCloseValveController::UNSTOWED : TsOpenCloseValveController::STOWED; v.mHandlePosition = p; }
    static void queue(TsToggleValveCmd& q, bool* e, bool* t, int n) { q.mEnable_queue = e; q.mToggle_queue = t; q.mEnable_queue_size = q.mToggle_queue_size = n; }
    static int count(TsToggleValveCmd& q) { return q.mToggleCount; }
    static void kill(HtrControl& h, bool k) { h.mIsKillSwitchEngaged = k; }
    static bool& onMalf(HtrControlInputData& d) { return d.iMalfCmdOnFlag; }
    static double noise(TsPumpMotorController& p) { return p.mNoisePhase; }
    static bool startup(TsPumpMotorController& p) { return p.mStartupState; }
    static double error(TsPumpMotorController& p) { return p.mSpeedError; }
};
using namespace vpt;
static double lim(double lo, double x, double hi) { return std::min(std::max(x, lo), hi); }

// Reference of every single-actuator valve controller.
struct VRef {
    int kind = 0; // 0 plain 1 powered 2 open/close 3 speed 4 position 5 toggle
    double lo = 0, hi = 1, flo = 0, fhi = 1, transit = 1, ref = 1, hold = 1, move = 1, stuckW = 1, volt = 1, tol = 0; bool eot = false; int latch = 0;
    double pos = 0, manV = 0, failV = 0, drvV = 0, cmd = 0, speed = 0, target = 0, sensed = 0; float handleP = 0.f;
    bool man = false, stuck = false, fail = false, malfMan = false, supply = false, good = false, bad = false, drvStuck = false, drvFail = false, enable = false, open = false, close = false, sOpen = false, sClose = false, handle = false, toggle = false, armed = true;
    double power = 0, res = 0; bool on = false; double raw = 0; const char* why = "";
    double scale() const { return (hi - lo) / (ref * transit); }
    void step(double dt) {
        double want = pos; const double rate = scale();
        if (kind > 0) {
            double u = cmd;
            if (kind == 2) { u = eot ? (open && !close && !sOpen ? 1. : close && !open && !sClose ? -1. : 0.) : open == close ? 0. : open ? 1. : -1.; if (!eot && handle) u = handleP > FLT_EPSILON ? 1. : -1.; }
            if (kind == 3) { u = speed; const double dir = u * rate; if (eot && ((dir > 0. && sOpen) || (dir < 0. && sClose))) u = 0.; }
            double dx = u * rate * dt; bool commanded = std::fabs(u) > DBL_EPSILON; double sgn = u * rate;
            if (kind == 4) { const double d = target - sensed; if (std::fabs(d) < tol || !(dt > DBL_EPSILON)) dx = sgn = 0., commanded = false; else { dx = lim(-std::fabs(rate) * dt, d, std::fabs(rate) * dt); commanded = std::fabs(dx / (rate * dt)) > DBL_EPSILON; sgn = dx; } cmd = dt > DBL_EPSILON && commanded ? dx / (rate * dt) : 0.; }
            else if (kind == 5) {
                if (dt > DBL_EPSILON) { if (armed && toggle && enable) armed = false; else if (!armed && !toggle && enable) armed = true; else toggle = false; }
                dx = sgn = 0.; commanded = false; cmd = 0.;
                if (toggle && dt > DBL_EPSILON) { const bool up = pos < 0.5 * (lo + hi); if (!eot || (up ? !sOpen : !sClose)) { dx = (up ? 1. : -1.) * (hi - lo) * rate; sgn = dx; commanded = true; cmd = (up ? 1. : -1.) * (hi - lo) / dt; } }
            } else cmd = u;
            on = (supply || good) && !bad && enable; why = "hold";
            if (!drvStuck) { if (drvFail) { want = drvV; why = "drive fail-to"; } else if (!on) { if (latch == 2) want = lo; if (latch == 1) want = hi; why = "unpowered latch"; } else { want = pos + dx; why = dx != 0. ? "moving" : "holding"; } } else why = "drive stuck";
            if (!on) { power = 0.; res = 1e6; }
            else if (commanded && (!man || malfMan)) { const bool against = (pos <= lo && sgn < 0.) || (pos >= hi && sgn > 0.); power = stuck || drvStuck || against ? stuckW : move; res = volt * volt / power; }
            else { power = hold; res = volt * volt / power; }
        }
        if (!stuck) pos = fail ? failV : man && !malfMan ? manV : want; raw = pos; pos = lim(lo, pos, hi);
    }
    double fluid() const { return lim(0., fhi + (pos - hi) * (fhi - flo) / (hi - lo), 1.); }
};
static const char* KIND[] = {"plain", "powered", "open/close", "speed", "position", "toggle"};
static void cfgGen(Case& c, VRef& r) {
    if (c.b(0.4)) { r.lo = 0.; r.hi = 1.; } else { r.lo = c.sr(0.01, 2.); r.hi = r.lo + c.lr(0.05, 3.); }
    if (c.b(0.4)) { r.flo = 0.; r.fhi = 1.; } else { r.flo = c.r(-0.3, 0.8); r.fhi = r.flo + c.lr(0.05, 1.); }
    r.transit = c.lr(0.1, 50.); r.ref = c.b(0.3) ? 1. : (r.kind == 2 || r.kind == 5) ? c.lr(0.1, 10.) : (c.b(0.5) ? 1. : -1.) * c.lr(0.1, 10.); r.hold = c.lr(0.1, 100.); r.move = c.lr(0.1, 100.); r.stuckW = c.lr(0.1, 100.); r.volt = c.lr(1., 200.); r.eot = c.b(0.5); r.latch = c.i(0, 2); r.tol = c.b(0.5) ? 0. : c.lr(1e-3, 0.3) * (r.hi - r.lo);
}
static TsPoweredValveControllerConfigData powCfg(const VRef& r) { return TsPoweredValveControllerConfigData(r.lo, r.hi, r.flo, r.fhi, r.transit, r.ref, r.hold, r.move, r.stuckW, r.volt, r.eot, TsPoweredValveController::LatchType(r.latch)); }
FACET(valve, 40000, 1500000, "the valve moved by command in both directions or was held off its command by a malfunction, manual position, end-of-travel or power loss") {
    VRef r; r.kind = c.weighted({1, 3, 3, 3, 3, 3}); cfgGen(c, r); const double span = r.hi - r.lo; if (r.kind == 4) r.ref = 1.; // the position configuration ignores its reference command
    auto inR = [&]() { const int k = c.i(0, 4); return k == 0 ? r.lo : k == 1 ? r.hi : std::min(c.r(r.lo, r.hi), r.hi); }; auto anyV = [&]() { return c.b(0.8) ? inR() : r.lo + span * c.r(-1., 2.); };
    r.pos = inR(); r.man = c.b(0.1); r.manV = inR(); r.supply = c.b(0.8); r.enable = c.b(0.8); r.cmd = c.b(0.2) ? 0. : c.sr(0.05, 3.) * r.ref;
    int bad = c.b(0.08) ? c.i(1, r.kind ? 8 : 3) : 0; if (bad == 5 && r.kind == 4) bad = 4; VRef q = r; if (bad == 1) q.fhi = q.flo - (c.b(0.5) ? 0. : c.u()); if (bad == 2) q.pos = c.b(0.5) ? r.lo - span * c.r(0.001, 1.) : r.hi + span * c.r(0.001, 1.); if (bad == 3) { q.man = true; q.manV = c.b(0.5) ? r.lo - span * c.r(0.001, 1.) : r.hi + span * c.r(0.001, 1.); }
    if (bad == 4) q.transit = -c.u(); if (bad == 5) q.ref = c.r(-1., 1.) * DBL_EPSILON; if (bad == 6) q.hold = -c.u(); if (bad == 7) q.move = -c.u(); if (bad == 8) q.stuckW = -c.u();
    TsValveController plain; TsPoweredValveController powered; TsOpenCloseValveController oc; TsSpeedValveController sp; TsPositionValveController po; TsToggleValveController tg;
    TsValveController* v = r.kind == 0 ? &plain : r.kind == 1 ? &powered : r.kind == 2 ? (TsValveController*)&oc : r.kind == 3 ? (TsValveController*)&sp : r.kind == 4 ? (TsValveController*)&po : &tg; TsPoweredValveController* p = r.kind ? static_cast<TsPoweredValveController*>(v) : 0;
    TsPoweredValveControllerConfigData pc = powCfg(q), pc2; pc2 = pc; const TsPoweredValveControllerConfigData& PC = c.b(0.5) ? pc : pc2; TsPoweredValveControllerInputData pi(q.pos, q.man, q.manV, q.supply, q.enable, q.cmd), pi2; pi2 = pi; const TsPoweredValveControllerInputData& PI = c.b(0.5) ? pi : pi2;
    TsPositionValveControllerConfigData qc(q.lo, q.hi, q.flo, q.fhi, q.transit, q.ref, q.hold, q.move, q.stuckW, q.volt, q.eot, TsPoweredValveController::LatchType(q.latch), q.tol), qc2; qc2 = qc;
    v->mMalfValveStuckFlag = c.b(0.5); bool threw = false;
    try { switch (r.kind) { case 0: { TsValveControllerConfigData vc(q.lo, q.hi, q.flo, q.fhi), vc2; vc2 = vc; TsValveControllerInputData vi(q.pos, q.man, q.manV), vi2; vi2 = vi; plain.initialize(c.b(0.5) ? vc : vc2, c.b(0.5) ? vi : vi2, "v"); break; } case 1: powered.initialize(PC, PI, "v"); break; case 2: oc.initialize(PC, PI, "v"); break; case 3: sp.initialize(PC, PI, "v"); break; case 4: po.initialize(c.b(0.5) ? qc : qc2, PI, "v"); break; default: tg.initialize(PC, PI, "v"); } } catch (TsInitializationException&) { threw = true; }
    c.check(threw == (bad != 0), "validate", S() << KIND[r.kind] << (threw ? " rejected good configuration " : " accepted bad configuration ") << bad); c.check(v->isInitialized() == !threw, "initialized", "initialized flag"); if (threw) { c.label("rejected"); return; }
    r.speed = r.cmd; r.open = r.cmd > 0.; r.close = r.cmd < 0.; r.target = r.sensed = r.pos; r.sOpen = r.pos > r.hi - FLT_EPSILON; r.sClose = r.pos < r.lo + FLT_EPSILON;
    { const double c0 = r.cmd; r.step(0.); if (r.kind > 0) { if (r.kind == 1) r.cmd = c0; } } // initialization runs updates with no time
    bool up = false, down = false, blocked = false; const double T = r.transit;
    auto compare = [&](const char* when, double dt) {
        const std::string ctx = S() << KIND[r.kind] << " valve, " << when << " (" << r.why << ", dt " << dt << ", travel " << r.lo << " to " << r.hi << ")"; const double got = v->getPosition();
        c.check(got >= r.lo && got <= r.hi, "range", S() << ctx << ": position " << got); c.check(std::fabs(got - r.pos) <= 1e-9 * (span + std::fabs(r.hi)), "position", S() << ctx << ": position " << got << " instead of " << r.pos); r.pos = got;
        c.checkNear(v->getFluidPosition(), r.fluid(), 1e-9, 1e-9, "fluid", ctx + " flow area"); c.check(v->getFluidPosition() >= 0. && v->getFluidPosition() <= 1., "fluid", "flow area outside 0 to 1");
        c.check(v->isLowerLimit() == (got <= r.lo) && v->isUpperLimit() == (got >= r.hi), "limits", S() << ctx << ": limit flags " << v->isLowerLimit() << v->isUpperLimit() << " at " << got); c.check(v->isStuck() == (r.stuck || r.fail), "stuck", S() << ctx << ": stuck flag " << v->isStuck());
        if (p) { c.check(p->getPower() == r.power, "power", S() << ctx << ": power " << p->getPower() << " instead of " << r.power << " (hold " << r.hold << " move " << r.move << " stuck " << r.stuckW << ")"); c.checkNear(p->getResistance(), r.res, 1e-12, 0., "resistance", ctx + " resistance"); c.checkNear(p->getCmdScale(), r.scale(), 1e-12, 0., "scale", ctx + " command scale"); }
    };
    compare("at initialization", 0.); c.check(v->getMinPosition() == r.lo && v->getMaxPosition() == r.hi, "travel", "travel limits");
    const int n = c.i(1, 14);
    for (int k = 0; k < n; ++k) {
        if (c.b(0.35)) { v->mMalfValveStuckFlag = r.stuck = c.b(0.12); v->mMalfValveFailToFlag = r.fail = c.b(0.12); v->mMalfValveFailToValue = r.failV = anyV(); v->mMalfManualFlag = r.malfMan = c.b(0.2); r.man = c.b(0.2); r.manV = anyV(); v->setManualPosition(r.man, r.manV); }
        if (c.b(0.08)) { r.pos = inR(); v->setPosition(r.pos); }
        if (p) {
            if (c.b(0.35)) { p->mMalfPowerGoodFlag = r.good = c.b(0.2); p->mMalfPowerFailFlag = r.bad = c.b(0.12); p->mMalfDriveStuckFlag = r.drvStuck = c.b(0.12); p->mMalfDriveFailToFlag = r.drvFail = c.b(0.12); p->mMalfDriveFailToValue = r.drvV = anyV(); }
            if (c.b(0.5)) { r.supply = c.b(0.8); r.enable = c.b(0.85); }
        }
        const double dt = c.b(0.08) ? 0. : T * c.lr(1e-3, c.b(0.2) ? 2. : 0.6); r.cmd = c.b(0.15) ? 0. : c.sr(0.05, 3.) * r.ref; const bool args = c.b(0.5);
        switch (r.kind) {
          case 0: v->update(dt); break;
          case 1: if (args) powered.update(r.supply, r.enable, r.cmd, dt); else { p->setSupplyVoltageFlag(r.supply); p->setEnabledFlag(r.enable); p->setCmd(r.cmd); v->update(dt); } break;
          case 2: { r.open = c.b(0.5); r.close = c.b(0.4); r.sOpen = c.b(0.7) ? r.pos >= r.hi - 1e-6 : c.b(0.5); r.sClose = c.b(0.7) ? r.pos <= r.lo + 1e-6 : c.b(0.5); r.handle = c.b(0.2); r.handleP = c.b(0.4) ? 0.f : float(c.u()); VptFriend::handle(oc, r.handle, r.handleP); TsOpenCloseValveCmd cm; cm.mEnable = r.enable; cm.mOpen = r.open; cm.mClose = r.close; TsOpenCloseValveSensed se; se.mOpen = r.sOpen; se.mClose = r.sClose;
            if (args) { if (r.eot) oc.update(r.supply, cm, se, dt); else oc.update(r.supply, cm, dt); } else { p->setSupplyVoltageFlag(r.supply); if (c.b(0.5)) { oc.setCommand(cm); oc.setSensed(se); } else { oc.setEnabledFlag(r.enable); oc.setOpenCommand(r.open); oc.setCloseCommand(r.close); oc.setOpenSensed(r.sOpen); oc.setCloseSensed(r.sClose); } v->update(dt); } break; }
          case 3: { r.speed = r.cmd; r.sOpen = c.b(0.7) ? r.pos >= r.hi - 1e-6 : c.b(0.5); r.sClose = c.b(0.7) ? r.pos <= r.lo + 1e-6 : c.b(0.5); TsSpeedValveCmd cm(r.enable, r.speed); TsOpenCloseValveSensed se; se.mOpen = r.sOpen; se.mClose = r.sClose;
            if (args) { if (r.eot) sp.update(r.supply, cm, se, dt); else sp.update(r.supply, cm, dt); } else { p->setSupplyVoltageFlag(r.supply); if (c.b(0.5)) { sp.setCommand(cm); sp.setSensed(se); } else { sp.setEnabledFlag(r.enable); sp.setSpeedCommand(r.speed); sp.setOpenSensed(r.sOpen); sp.setCloseSensed(r.sClose); } v->update(dt); } break; }
          case 4: { r.target = anyV(); r.sensed = c.b(0.7) ? r.pos : anyV(); if (r.tol > 0. && c.b(0.3)) r.target = r.sensed + r.tol * c.r(-1.5, 1.5); if (std::fabs(std::fabs(r.target - r.sensed) - r.tol) < 1e-9 * span && r.tol > 0.) c.discard(); TsPositionValveCmd cm(r.enable, r.target);
            if (args) po.update(r.supply, cm, r.sensed, dt); else { p->setSupplyVoltageFlag(r.supply); if (c.b(0.5)) po.setCommand(cm); else { po.setEnabledFlag(r.enable); po.setPositionCommand(r.target); } po.setSensed(r.sensed); v->update(dt); } break; }
          default: { r.toggle = c.b(0.5); r.sOpen = c.b(0.7) ? r.pos >= r.hi - 1e-6 : c.b(0.5); r.sClose = c.b(0.7) ? r.pos <= r.lo + 1e-6 : c.b(0.5); p->setSupplyVoltageFlag(r.supply); tg.setEnabledFlag(r.enable); tg.setToggle(r.toggle); if (c.b(0.5)) { tg.setOpenSensed(r.sOpen); tg.setCloseSensed(r.sClose); } else { TsOpenCloseValveSensed se; se.mOpen = r.sOpen; se.mClose = r.sClose; tg.setSensed(se); } v->update(dt); }
        }
        const double was = r.pos; r.step(dt); compare("step", dt); if (p) { c.check(p->getSupplyVoltageFlag() == r.supply, "supply", "supply flag"); }
        if (std::string(r.why) == "moving" && !r.stuck && !r.fail && (!r.man || r.malfMan)) { (r.pos > was ? up : down) = true; if (r.kind != 5) c.check(std::fabs(r.pos - was) <= std::fabs(r.scale() * r.cmd) * dt * (1 + 1e-9) + 1e-12, "rate", S() << KIND[r.kind] << " moved " << r.pos - was << " in " << dt << " s"); } else if (r.kind && !r.on) blocked = true; if (r.stuck || r.fail || r.drvStuck || r.drvFail || r.man) blocked = true;
        c.log() << KIND[r.kind] << " dt " << dt << " cmd " << r.cmd << " " << r.why << " -> " << r.pos << " power " << r.power;
    }
    c.label(KIND[r.kind]); if ((up && down) || blocked) c.nontrivial();
}
FACET(solenoid, 12000, 500000, "the valve changed ends by command and by losing its command") {
    VRef r; cfgGen(c, r); const bool o0 = c.b(0.4), x0 = c.b(0.25); r.pos = c.b(0.6) ? (c.b(0.5) ? r.lo : r.hi) : std::min(c.r(r.lo, r.hi), r.hi); TsDualSolenoidValveController v; TsDualSolenoidValveControllerConfigData cfg(r.lo, r.hi, r.flo, r.fhi, TsDualSolenoidValveController::LatchType(r.latch)), cfg2; cfg2 = cfg; TsDualSolenoidValveControllerInputData in(r.pos, false, 0., o0, x0), in2; in2 = in;
    bool threw = false; try { v.initialize(c.b(0.5) ? cfg : cfg2, c.b(0.5) ? in : in2, "s"); } catch (TsInitializationException&) { threw = true; } c.check(threw == (o0 && x0), "validate", S() << "open " << o0 << " and close " << x0 << " commands at initialization"); c.check(v.isInitialized() == !threw, "initialized", "flag"); if (threw) return;
    c.check(v.getPosition() == r.pos && v.getOpenSolenoidLoad() == LoadOFF && v.getCloseSolenoidLoad() == LoadOFF, "start", "initial position or loads"); bool byCmd = false, byLatch = false; bool o = o0, x = x0; const int n = c.i(1, 12);
    for (int k = 0; k < n; ++k) {
        if (c.b(0.6)) { o = c.b(0.4); v.setOpenSolenoidCmd(o); } if (c.b(0.6)) { x = c.b(0.4); v.setCloseSolenoidCmd(x); } const bool fo = c.b(0.15), fx = c.b(0.15); v.mMalfOpenSolenoidFail = fo; v.mMalfCloseSolenoidFail = fx; r.stuck = c.b(0.08); r.fail = c.b(0.08); r.failV = r.lo + (r.hi - r.lo) * c.r(-0.5, 1.5); v.mMalfValveStuckFlag = r.stuck; v.mMalfValveFailToFlag = r.fail; v.mMalfValveFailToValue = r.failV; r.man = c.b(0.08); r.manV = std::min(c.r(r.lo, r.hi), r.hi); v.setManualPosition(r.man, r.manV);
        const bool po = o && !fo, px = x && !fx; const double was = r.pos, want = po && !px ? r.hi : px && !po ? r.lo : r.latch == 1 ? r.hi : r.latch == 2 ? r.lo : r.pos >= 0.5 * (r.lo + r.hi) ? r.hi : r.lo; if (!r.stuck) r.pos = lim(r.lo, r.fail ? r.failV : r.man ? r.manV : want, r.hi); v.update(c.u());
        c.check(v.getPosition() == r.pos, "position", S() << "open " << po << " close " << px << " latch " << r.latch << " from " << was << ": position " << v.getPosition() << " instead of " << r.pos); c.check((v.getOpenSolenoidLoad() == LoadON) == po && (v.getCloseSolenoidLoad() == LoadON) == px, "loads", "solenoid loads"); c.checkNear(v.getFluidPosition(), r.fluid(), 1e-9, 1e-9, "fluid", "flow area"); c.check(v.isStuck() == (r.stuck || r.fail), "stuck", "stuck flag");
        if (r.pos != was) (po != px ? byCmd : byLatch) = true;
    }
    if (byCmd && byLatch) c.nontrivial();
}
FACET(toggle, 12000, 500000, "several toggles were counted, some while disabled or held down") {
    TsToggleValveCmd q; const bool queued = c.b(0.6); bool armed = true, en = false, tg = false; int count = 0; bool E[12], T[12]; bool masked = false; const int n = c.i(1, 12);
    for (int k = 0; k < n; ++k) {
        const double dt = c.b(0.1) ? 0. : c.lr(1e-3, 1.); const int m = queued ? c.i(1, 12) : 0; int here = 0, ens = 0; bool gap = false;
        if (queued) {
            const double pe = c.pickOf<double>({0.3, 0.5, 0.9, 1.}), pt = c.u(); for (int i = 0; i < m; ++i) { E[i] = c.b(pe); T[i] = c.b(pt); } VptFriend::queue(q, E, T, m); q.update(dt);
            if (dt > DBL_EPSILON) { for (int i = 0; i < m; ++i) { ens += E[i]; if (!E[i]) { masked = masked || T[i]; continue; } if (T[i]) { if (armed) ++here; armed = false; } else armed = true; } tg = here % 2; count += here; en = tg || ens >= 0.49 * m - 1e-12; }
        } else {
            en = c.b(0.7); tg = c.b(0.5); q.mEnable = en; q.mToggle = tg; q.update(dt);
            if (dt > DBL_EPSILON) { const bool edge = armed && tg && en; masked = masked || (tg && !edge); if (en) armed = !tg; tg = edge; count += edge; }
        }
        (void)gap; c.check(q.getToggle() == tg, "toggle", S() << (queued ? "queue of " : "command ") << m << ": toggle " << q.getToggle() << " instead of " << tg << " (" << here << " edges)"); c.check(q.getEnable() == en, "enable", S() << "enable " << q.getEnable() << " instead of " << en << " with " << ens << " of " << m << " enables"); c.check(VptFriend::count(q) == count, "count", S() << "counted " << VptFriend::count(q) << " toggles instead of " << count);
    }
    if (count > 1 && masked) c.nontrivial();
}
FACET(tvalve, 5000, 300000, "the valve switched between paths") {
    VRef a, b; cfgGen(c, a); cfgGen(c, b); a.pos = a.lo; b.pos = b.hi; int sel = c.i(0, 2); TsTValveController t; const bool noName = c.b(0.05); bool threw = false;
    try { t.initialize(TsTValveControllerConfigData(TsTValveControllerConfigData(TsValveControllerConfigData(a.lo, a.hi, a.flo, a.fhi), TsValveControllerConfigData(b.lo, b.hi, b.flo, b.fhi))), TsTValveControllerInputData(TsTValveControllerInputData(TsTValveController::PositionType(sel), TsValveControllerInputData(a.pos), TsValveControllerInputData(b.pos))), noName ? "" : "t"); } catch (TsInitializationException&) { threw = true; }
    c.check(threw == noName, "validate", "empty name"); if (threw) return; c.check(t.isInitialized(), "initialized", "flag"); int changes = 0; const int n = c.i(0, 8);
    for (int k = 0; k <= n; ++k) {
        if (k) { const int s = c.i(0, 2); changes += s != sel; sel = s; t.setPosition(TsTValveController::PositionType(sel)); const bool st = c.b(0.1); t.mAPath.mMalfValveStuckFlag = st; a.stuck = st; t.update(c.u()); }
        if (!a.stuck) a.pos = sel == 1 ? a.hi : a.lo; b.pos = sel == 2 ? b.hi : b.lo; c.check(t.getPosition() == sel, "selection", "selection"); c.check(t.mAPath.getPosition() == a.pos && t.mBPath.getPosition() == b.pos, "paths", S() << "selection " << sel << ": paths at " << t.mAPath.getPosition() << ", " << t.mBPath.getPosition() << " instead of " << a.pos << ", " << b.pos); c.checkNear(t.mAPath.getFluidPosition(), a.fluid(), 1e-9, 1e-9, "fluid", "A flow area"); c.checkNear(t.mBPath.getFluidPosition(), b.fluid(), 1e-9, 1e-9, "fluid", "B flow area");
    }
    if (changes) c.nontrivial();
}
FACET(assembly, 15000, 400000, "the assembly drove its valve from one end to the other and stopped there on its own sensors") {
    const int kind = c.i(0, 2); VRef r; r.kind = kind == 0 ? 2 : kind == 1 ? 5 : 0; cfgGen(c, r); const double span = r.hi - r.lo; const float tol = float(span * c.lr(1e-3, 0.1)); r.pos = kind == 2 ? (c.b(0.5) ? r.lo : r.hi) : std::min(c.r(r.lo, r.hi), r.hi); r.supply = true; r.enable = true; r.eot = c.b(0.7);
    SensorBooleanAiConfigData so(false, float(r.hi), tol), sc(false, float(r.lo), tol); SensorBooleanAiInputData si(true, false, float(r.pos)); auto near = [&](double x) { return std::fabs(double(float(r.pos)) - double(float(x))) <= double(tol); }; auto amb = [&](double x) { return std::fabs(std::fabs(double(float(r.pos)) - double(float(x))) - double(tol)) < 1e-6 * (std::fabs(r.pos) + std::fabs(x) + span); };
    TsOpenCloseValveAssembly oc; TsToggleValveAssembly tg; TsDualSolenoidValveAssembly ds; const TsPoweredValveControllerConfigData pc = powCfg(r); const TsPoweredValveControllerInputData pi(r.pos, false, 0., true, true, 0.);
    if (kind == 0) { TsOpenCloseValveAssemblyConfigData k(pc, so, sc), k2; k2 = k; TsOpenCloseValveAssemblyInputData i(pi, si, si), i2; i2 = i; oc.initialize(c.b(0.5) ? k : k2, c.b(0.5) ? i : i2, "a"); } else if (kind == 1) { TsToggleValveAssemblyConfigData k(pc, so, sc), k2; k2 = k; TsToggleValveAssemblyInputData i(pi, si, si), i2; i2 = i; tg.initialize(c.b(0.5) ? k : k2, c.b(0.5) ? i : i2, "a"); } else { TsDualSolenoidValveAssemblyConfigData k(TsDualSolenoidValveControllerConfigData(r.lo, r.hi, r.flo, r.fhi, TsDualSolenoidValveController::LatchType(r.latch)), so, sc), k2; k2 = k; TsDualSolenoidValveAssemblyInputData i(TsDualSolenoidValveControllerInputData(r.pos), si, si), i2; i2 = i; ds.initialize(c.b(0.5) ? k : k2, c.b(0.5) ? i : i2, "a"); }
    c.check(kind == 0 ? oc.isInitialized() : kind == 1 ? tg.isInitialized() : ds.isInitialized(), "initialized", "flag"); r.sOpen = r.pos > r.hi - FLT_EPSILON; r.sClose = r.pos < r.lo + FLT_EPSILON; bool crossed = false, stopped = false, first = true; const double dt = r.transit * c.lr(0.02, 0.3); double lastEnd = 0; const int n = c.i(2, 8);
    for (int k = 0; k < n; ++k) {
        const bool dirUp = c.b(0.5); const int m = c.i(1, 12); r.supply = c.b(0.9);
        for (int j = 0; j < m; ++j) {
            const double was = r.pos; const bool pulse = kind == 1 && c.b(0.5);
            if (kind == 0) { r.open = dirUp; r.close = !dirUp; TsOpenCloseValveCmd cm; cm.mEnable = true; cm.mOpen = r.open; cm.mClose = r.close; if (c.b(0.5)) oc.update(r.supply, cm, dt); else { oc.setSupplyVoltageFlag(r.supply); if (c.b(0.5)) oc.setCommand(cm); else { oc.setEnabledFlag(true); oc.setOpenCommand(r.open); oc.setCloseCommand(r.close); } oc.update(dt); } r.step(dt); }
            else if (kind == 1) { r.toggle = pulse; if (c.b(0.5)) tg.update(r.supply, true, pulse, dt); else { tg.setSupplyVoltageFlag(r.supply); tg.setEnabledFlag(true); tg.setToggle(pulse); tg.update(dt); } r.step(dt); }
            else { const bool cmd = c.b(0.7); if (c.b(0.5)) ds.update(cmd && dirUp, cmd && !dirUp, dt); else { ds.mController.setOpenSolenoidCmd(cmd && dirUp); ds.mController.setCloseSolenoidCmd(cmd && !dirUp); ds.update(dt); } r.pos = cmd ? (dirUp ? r.hi : r.lo) : r.latch == 1 ? r.hi : r.latch == 2 ? r.lo : r.pos; }
            const double got = kind == 0 ? oc.getPosition() : kind == 1 ? tg.getPosition() : ds.getPosition(); c.check(std::fabs(got - r.pos) <= 1e-9 * (span + std::fabs(r.hi)), "position", S() << "assembly " << kind << " (eot " << r.eot << ", sensed " << r.sOpen << r.sClose << "): position " << got << " instead of " << r.pos); r.pos = got;
            if (amb(r.hi) || amb(r.lo)) c.discard(); r.sOpen = near(r.hi); r.sClose = near(r.lo); const bool go = kind == 0 ? oc.getOpenSensed() : kind == 1 ? tg.getOpenSensed() : ds.getOpenSensed(), gc = kind == 0 ? oc.getCloseSensed() : kind == 1 ? tg.getCloseSensed() : ds.getCloseSensed(); c.check(go == r.sOpen && gc == r.sClose, "sensed", S() << "at " << r.pos << " sensed open " << go << " closed " << gc);
            if (r.sOpen || r.sClose) { const double e = r.sOpen ? 1. : -1.; if (!first && e != lastEnd) crossed = true; lastEnd = e; first = false; if (was == r.pos) stopped = true; }
        }
    }
    if (crossed && stopped) c.nontrivial();
}
FACET(pid, 20000, 600000, "the output hit a limit and came back off it") {
    const double lo = c.sr(0.01, 10.), hi = lo + c.lr(0.01, 20.), interval = std::ldexp(1., c.i(-6, 2)), P = c.sr(1e-3, 3.), I = c.b(0.3) ? 0. : c.sr(1e-3, 1.), D = c.b(0.3) ? 0. : c.sr(1e-3, 1.); double in = c.sr(0.1, 20.), set = c.sr(0.1, 20.), timer = c.b(0.5) ? 0. : interval * c.i(0, 3) / 4., sum = c.b(0.5) ? 0. : c.sr(0.1, 5.), out = c.b(0.5) ? 0. : c.sr(0.1, 20.);
    const int bad = c.b(0.06) ? c.i(1, 2) : 0; TsPidControllerConfigData cfg(P, I, D, bad == 1 ? -c.i(0, 1) * c.u() : interval, lo, bad == 2 ? lo - c.i(0, 1) * c.u() : hi), cfg2; cfg2 = cfg; TsPidControllerInputData id(in, set, timer, sum, out), id2; id2 = id; TsPidController p; bool threw = false; try { p.initialize(c.b(0.5) ? cfg : cfg2, c.b(0.5) ? id : id2, "pid"); } catch (TsInitializationException&) { threw = true; } c.check(threw == (bad != 0), "validate", S() << "configuration " << bad); c.check(p.isInitialized() == !threw, "initialized", "flag"); if (threw) return;
    c.check(p.getOutput() == out, "start", "initial output"); double err = in - set; const int n = c.i(1, 20); bool sat = false, off = false;
    for (int k = 0; k < n; ++k) {
        if (c.b(0.6)) in = c.b(0.1) ? set : c.sr(0.1, 20.); if (c.b(0.3)) { set = c.sr(0.1, 20.); p.setSetpoint(set); } const double dt = interval * c.i(0, 8) / 4.; timer += dt; const bool act = timer >= interval; double mag = std::fabs(out);
        if (act) { const double e = in - set; sum += e * timer; const double der = (e - err) / timer; err = e; out += P * e + I * sum + D * der; mag += std::fabs(P * e) + std::fabs(I * sum) + std::fabs(D * der); timer = 0.; if (std::fabs(out) < DBL_EPSILON) out = 0.; const double un = out; out = lim(lo, out, hi); if (out != un) sat = true; else if (sat) off = true; }
        double got; if (c.b(0.5)) got = p.update(dt, in); else { p.setInput(in); got = p.update(dt); } c.check(got == p.getOutput(), "return", "update() returns something else than the output"); c.check(!act || (got >= lo && got <= hi), "limits", S() << "output " << got << " outside " << lo << " to " << hi); c.check(std::fabs(got - out) <= 1e-11 * mag + 1e-14, "law", S() << "dt " << dt << " interval " << interval << " error " << err << " integral " << sum << ": output " << got << " instead of " << out); out = got;
    }
    if (sat && off) c.nontrivial();
}
FACET(thermostat, 20000, 600000, "the command switched both ways and was held in the dead band") {
    const int logic = c.i(1, 3), ns = logic == 1 ? 1 : c.i(1, 4); const double lo = c.r(200., 300.), hi = lo + c.lr(0.5, 30.), mid = 0.5 * (lo + hi); SensorAnalogConfigData sc; sc.mMinRange = 0.f; sc.mMaxRange = 1000.f; SensorAnalogInputData si; si.mPowerFlag = true; si.mTruthInput = float(mid);
    double mlo = lo + c.sr(0.5, 20.), mhi = mlo + c.lr(0.5, 30.); bool fl = c.b(0.1), fh = c.b(0.1), mon = c.b(0.1), moff = c.b(0.1); const int bad = c.b(0.08) ? c.i(1, 4) : 0;
    ThermostatConfigData cfg(sc, bad == 2 ? hi + c.i(0, 1) : lo, hi, bad == 1 ? -c.i(0, 1) : bad == 3 ? c.i(2, 4) : ns, ThermostatConfigData::LogicType(bad == 3 ? 1 : logic)); ThermostatInputData in(si, mon, moff, fl, fh, mlo, bad == 4 ? mlo - c.i(0, 1) : mhi); const bool expect = bad || (mon && moff); Thermostat t; bool threw = false;
    { bool early = false; try { t.update(1.); } catch (TsInitializationException&) { early = true; } c.check(early, "early", "update before initialization accepted"); } try { t.initialize(ThermostatConfigData(cfg), ThermostatInputData(in), "t"); } catch (TsInitializationException&) { threw = true; } c.check(threw == expect, "validate", S() << "configuration " << bad << " malfunctions on " << mon << " off " << moff); c.check(t.isInitialized() == !threw, "initialized", "flag"); if (threw) return;
    c.check(t.getNominalSetptLow() == lo && t.getNominalSetptHigh() == hi, "nominal", "nominal set points"); bool nom = t.getCommandActual() == LoadON, setc = nom; double bias = 0.; bool kill = false, wentOn = false, wentOff = false, held = false; std::vector<double> T(ns, mid); const int n = c.i(1, 20); bool prev = nom;
    for (int k = 0; k < n; ++k) {
        if (c.b(0.25)) { bias = c.b(0.3) ? 0. : c.sr(0.1, 20.); if (c.b(0.5)) t.setCommandSetptBias(bias); else t.setTemperatureSetpt(mid + bias); } if (c.b(0.15)) { t.mMalfSetptLowFlag = fl = c.b(0.4); t.mMalfSetptHighFlag = fh = c.b(0.4); } if (c.b(0.15)) { t.mMalfCmdOnFlag = mon = c.b(0.3); t.mMalfCmdOffFlag = moff = c.b(0.3); kill = c.b(0.3); VptFriend::kill(t, kill); }
        for (int i = 0; i < ns; ++i) { if (c.b(0.8)) T[i] = double(float((c.b(0.4) ? lo + (hi - lo) * c.r(0.01, 0.99) : c.b(0.5) ? lo - c.r(0.01, 30.) : hi + c.r(0.01, 30.)) + bias)); t.mTempSensor[i].setTruthInput(T[i]); t.mTempSensor[i].setPowerFlag(true); }
        const double L = lo + bias, H = hi + bias, L2 = fl ? mlo : L, H2 = fh ? mhi : H; for (double x : T) if (std::fabs(x - L) < 1e-3 || std::fabs(x - H) < 1e-3 || std::fabs(x - L2) < 1e-3 || std::fabs(x - H2) < 1e-3) c.discard();
        auto eval = [&](bool old, double l, double h) { int on = 0, hold = 0; for (double x : T) { const bool z = x > h ? false : x < l ? true : old; on += z; hold += !(x > h) && !(x < l); } if (hold == ns) held = true; return logic == 2 ? on == ns : on > 0; };
        const bool n2 = eval(nom, L, H); setc = eval(fl || fh ? setc : nom, L2, H2); nom = n2; const bool act = moff ? false : mon ? true : kill ? false : setc; t.update(1.); const bool got = t.getCommandActual() == LoadON;
        c.check(got == act, "command", S() << "logic " << logic << " set points " << L2 << " to " << H2 << " sensors " << T[0] << (ns > 1 ? T[1] : 0.) << " malf off " << moff << " on " << mon << " kill " << kill << ": heater " << (got ? "on" : "off")); if (got && !prev) wentOn = true; if (!got && prev) wentOff = true; prev = got;
    }
    if (wentOn && wentOff && held) c.nontrivial();
}
static const double K = 60. / (2. * M_PI); // rpm per rad/s
FACET(motor, 20000, 600000, "the motor ran under load and a malfunction was active at some step") {
    const bool pump = c.b(0.5); const double Ra = c.lr(0.05, 20.), kt = c.lr(1e-3, 1.), inertia = c.lr(1e-4, 1.), ke = c.lr(1e-4, 0.1); double V = c.r(0., 150.), w = c.b(0.3) ? 0. : c.r(0., 5000.), L[4] = {0, 0, 0, 0}; bool deg = false, jam = false, ov = false, heat = false; double degV = 0, jamV = 0, ovV = 0, heatV = 0; bool ran = false, malf = false;
    const double kf = c.b(0.3) ? 0. : c.lr(1e-6, 1e-3), wmin = c.r(0., 100.), waste = c.u(), c1 = c.lr(1e-3, 0.1), c2 = c.sr(1e-6, 1e-4), fric = -c.lr(1e-4, 0.1) * c.i(0, 1), ratio = c.lr(1., 1e4); double limit = c.b(0.5) ? 1e15 : c.lr(0.1, 100.), pulse = c.u(); const int bad = c.b(0.08) ? c.i(1, 7) : 0;
    DcDynPumpMotor dm; TsDcPwmDynMotor pm; bool threw = false; for (double& l : L) l = c.b(0.5) ? 0. : -c.lr(1e-4, 5.);
    try {
        if (pump) { DcDynPumpMotorConfigData k(bad == 1 ? -c.u() : Ra, bad == 2 ? 0. : kt, bad == 3 ? -1e-3 : kf, bad == 4 ? -1. : wmin, bad == 5 ? 0. : inertia), k2; k2 = k; DcDynPumpMotorInputData i(bad == 6 ? -1. : V, limit, bad == 7 ? -1. : w, L[0], L[1], L[2], L[3]), i2; i2 = i; dm.initialize(c.b(0.5) ? k : k2, c.b(0.5) ? i : i2, "m"); }
        else { TsDcPwmDynMotorConfigData k(bad == 1 ? 1. + c.r(0.01, 1.) : waste, c1, c2, bad == 2 ? 0.1 : fric, ke, bad == 3 ? 0. : Ra, bad == 4 ? -1. : inertia, bad == 5 ? 0. : ratio), k2; k2 = k; TsDcPwmDynMotorInputData i(bad == 6 ? -1. : V, bad == 7 ? -0.1 : pulse, w, L[0], L[1], L[2], L[3]), i2; i2 = i; pm.initialize(c.b(0.5) ? k : k2, c.b(0.5) ? i : i2, "m"); }
    } catch (TsInitializationException&) { threw = true; }
    c.check(threw == (bad != 0), "validate", S() << (pump ? "pump motor" : "pulse motor") << " configuration " << bad); c.check((pump ? dm.isInitialized() : pm.isInitialized()) == !threw, "initialized", "flag"); if (threw) return; const int n = c.i(1, 15);
    for (int k = 0; k < n; ++k) {
        if (c.b(0.5)) { V = c.b(0.1) ? 0. : c.r(0., 150.); pulse = c.b(0.1) ? 0. : c.u(); if (pump) dm.setVoltage(V); else { pm.setVoltage(V); pm.setPulseWidth(pulse); } } if (c.b(0.3)) { for (double& l : L) l = c.b(0.5) ? 0. : -c.lr(1e-4, 5.); if (pump) dm.setLoadTorques(L[0], L[1], L[2], L[3]); else pm.setLoadTorques(L[0], L[1], L[2], L[3]); } if (pump && c.b(0.2)) { limit = c.b(0.5) ? 1e15 : c.lr(0.1, 100.); dm.setCurrentLimit(limit); }
        if (c.b(0.4)) { deg = c.b(0.2); jam = c.b(0.2); ov = c.b(0.2); heat = c.b(0.2); degV = c.u() * 0.99; jamV = c.u() * 1.5; ovV = c.r(0., 5000.); heatV = c.sr(0.1, 50.); if (pump) { dm.mMalfDegradeFlag = deg; dm.mMalfDegradeValue = degV; dm.mMalfJamFlag = jam; dm.mMalfJamValue = jamV; dm.mMalfSpeedOverrideFlag = ov; dm.mMalfSpeedOverrideValue = ovV; dm.mMalfHeatRateBiasFlag = heat; dm.mMalfHeatRateBiasValue = heatV; } else { pm.mMalfDegradeFlag = deg; pm.mMalfDegradeValue = degV; pm.mMalfJamFlag = jam; pm.mMalfJamValue = jamV; pm.mMalfSpeedOverrideFlag = ov; pm.mMalfSpeedOverrideValue = ovV; pm.mMalfHeatRateBiasFlag = heat; pm.mMalfHeatRateBiasValue = heatV; } }
        const double dt = c.lr(1e-3, 0.5); double ext = L[0] + L[1] + L[2] + L[3], I, wNew, tau, mag; const double w0 = w;
        if (pump) { const double R = Ra / (deg ? 1. - degV : 1.); I = lim(0., (V - kt * w / K) / R, limit); if (jam) ext -= jamV * kt * V / R; tau = kt * I - kf * std::max(w, wmin); }
        else { const double stall = (c1 * V + c2 * V * V) * (deg ? 1. - degV : 1.); if (jam) ext -= jamV * stall; tau = std::max(stall - w / ratio, 0.) * pulse + fric; I = 0; }
        mag = std::fabs(tau) + std::fabs(ext); wNew = w + (tau + ext) * dt * K / inertia; w = std::max(wNew, 0.); if (ov) w = ovV; const double tolW = 1e-12 * (w0 + mag * dt * K / inertia + 1.);
        if (pump) dm.step(dt); else pm.step(dt); const double gw = pump ? dm.getSpeed() : pm.getSpeed(); c.check(gw >= 0. && std::fabs(gw - w) <= tolW, "speed", S() << (pump ? "pump motor" : "pulse motor") << " at " << V << " V from " << w0 << " rpm: " << gw << " instead of " << w << " rpm"); w = gw;
        if (!pump) { const double be = ke * w / Ra; I = (waste + pulse * (1. - waste)) * (V / Ra - be); if (deg) I *= 1. - degV; I = std::max(I, 0.); c.checkNear(pm.getGeneratedCurrent(), std::max(be - I, 0.), 1e-9, 1e-9 * (1 + be), "generated", "generated current"); }
        const double gi = pump ? dm.getCurrent() : pm.getCurrent(), gp = pump ? dm.getPower() : pm.getPower(), gh = pump ? dm.getWasteHeat() : pm.getWasteHeat(), gr = pump ? dm.getResistance() : pm.getResistance(), ge = pump ? dm.getEfficiency() : pm.getEfficiency(), use = -ext * w / K;
        c.check(std::fabs(gi - I) <= 1e-9 * (I + V / Ra + kt * w0 / K / Ra) + 1e-12, "current", S() << (pump ? "pump motor" : "pulse motor") << " current " << gi << " instead of " << I); c.checkNear(gp, gi * V, 1e-9, 1e-9, "power", "power"); const double q = std::max(gp - use, 0.) + (heat ? heatV : 0.); c.check(std::fabs(gh - q) <= 1e-9 * (gp + std::fabs(use) + 1. + std::fabs(q)), "heat", S() << "waste heat " << gh << " instead of " << q); if (gi > 1e-9) { c.checkNear(gr, V / gi, 1e-9, 0., "resistance", "resistance"); }
        if (gp > 1e-9) { c.checkNear(ge, use / gp, 1e-9, 1e-9, "efficiency", "efficiency"); } else if (gp == 0.) c.check(ge == 0., "efficiency", "efficiency without power");
        if (w > 0. && gp > 0. && ext < 0.) ran = true; malf = malf || deg || jam || ov || heat;
    }
    if (ran && malf) c.nontrivial();
}
FACET(pumpController, 20000, 600000, "the motor was driven and its bus was cut by voltage, trip, command or malfunction at some step") {
    const double kf = c.u(), kd = c.u(), cut = c.u() * 0.5, trip = c.r(320., 400.), reset = trip - c.lr(0.1, 50.), vmin = c.r(0., 60.), vmax = vmin + c.lr(1., 100.), load = c.r(0., 50.), amp = c.b(0.5) ? 0. : c.lr(0.1, 50.), freq = c.b(0.3) ? 0. : c.lr(0.01, 5.), slimit = c.b(0.5) ? 1e15 : c.lr(0.1, 20.); double V = c.r(vmin, vmax), sp = c.r(0., 3000.), temp = c.r(280., 420.), cmd = c.b(0.1) ? 0. : c.r(1., 3000.), phase = c.r(0., 6.28); bool st = c.b(0.5), en = c.b(0.8), fp = false, po = false, sc = false; double poV = 0, scV = 0; const int bad = c.b(0.08) ? c.i(1, 11) : 0;
    const double R = c.lr(0.05, 20.), kt = c.lr(1e-2, 1.), J = c.lr(1e-3, 1.); DcDynPumpMotorConfigData mc(R, kt, 0., 0., J); DcDynPumpMotorInputData mi; mi.mMotorSpeed = sp; if (c.b(0.5)) mi.mLoadTorque1 = -c.lr(1e-3, 1.); DcDynPumpMotor twin; twin.initialize(mc, mi, "twin");
    TsPumpMotorControllerConfigData k(mc, bad == 1 ? 1.1 : kf, bad == 2 ? -0.1 : kd, bad == 3 ? 1.5 : cut, bad == 5 ? reset - c.i(0, 1) : trip, bad == 4 ? -1. : reset, bad == 6 ? -1. : vmin, bad == 7 ? vmin : vmax, bad == 8 ? -1. : load, bad == 9 ? -1. : amp, bad == 10 ? -1. : freq, slimit), k2; k2 = k; TsPumpMotorControllerInputData in(mi, bad == 11 ? -1. : V, sp, temp, st, en, cmd, phase), in2; in2 = in; TsPumpMotorController p; bool threw = false; try { p.initialize(c.b(0.5) ? k : k2, c.b(0.5) ? in : in2, "p"); } catch (TsInitializationException&) { threw = true; } c.check(threw == (bad != 0), "validate", S() << "configuration " << bad); c.check(p.isInitialized() == !threw, "initialized", "flag"); if (threw) return;
    double pw = 0, err = 0; bool tripped = false, drove = false, cutOff = false; const int n = c.i(1, 15);
    for (int s = 0; s < n; ++s) {
        const double dt = c.lr(1e-3, 0.5); if (c.b(0.5)) V = c.b(0.8) ? c.r(vmin, vmax) : c.r(0., 1.5 * vmax); if (c.b(0.5)) sp = c.b(0.5) ? c.r(0., 3000.) : twin.getSpeed(); if (c.b(0.4)) temp = c.b(0.5) ? c.r(reset, trip) : c.r(280., 420.); if (c.b(0.3)) cmd = c.b(0.15) ? 0. : c.r(1., 3000.); if (c.b(0.3)) en = c.b(0.8); if (c.b(0.3)) { p.mMalfFailPower = fp = c.b(0.15); p.mMalfPowerOverrideFlag = po = c.b(0.2); p.mMalfPowerOverrideValue = poV = c.r(0., 1.2 * vmax); p.mMalfCommandSpeedFlag = sc = c.b(0.2); p.mMalfCommandSpeedValue = scV = c.r(0., 3000.); }
        if (c.b(0.4)) { const double l = c.b(0.3) ? 0. : -c.lr(1e-3, 1.); p.setMotorLoadTorques(l); twin.setLoadTorques(l); }
        const double useV = po ? poV : V; if ((useV != vmin && std::fabs(useV - vmin) < 1e-9) || (useV != vmax && std::fabs(useV - vmax) < 1e-9)) c.discard(); const bool bus = useV >= vmin && useV <= vmax && !fp; if (!bus) tripped = false; else if (temp < reset) tripped = false; else if (temp > trip) tripped = true; const bool mbus = bus && en && !tripped; double cs = sc ? scV : cmd; double mag = pw;
        if (mbus && cs > FLT_EPSILON) { phase = std::fmod(phase + 2. * M_PI * freq * dt, 2. * M_PI); cs += amp * std::sin(phase); const double e = cs > FLT_EPSILON ? (cs - sp) / cs : -1., de = e - err; if (std::fabs(std::fabs(e) - cut) < 1e-9 * (1. + std::fabs(e)) || std::fabs(cs) < 1e-3) { c.label("edge"); c.discard(); } err = e; pw += e * kf; mag += std::fabs(e * kf); if (std::fabs(e) > cut) { const double x = kd * de / std::max(std::fabs(e), 1e-4); pw += x; mag += std::fabs(x); } else st = false; pw = lim(0., pw, 1.); drove = drove || pw > 0.; }
        else { pw = 0.; err = 0.; st = true; cutOff = true; }
        if (c.b(0.5)) p.stepWithArgs(dt, V, sp, temp, cmd, en); else { p.setVoltage(V); p.setSensedSpeed(sp); p.setSensedTemperature(temp); p.setCommandSpeed(cmd); p.setCommandEnable(en); p.step(dt); }
        const std::string ctx = S() << "step " << s << " (" << useV << " V, bus " << bus << ", motor bus " << mbus << ", command " << cs << ", sensed " << sp << ")";
        c.check(p.isControllerBusPowered() == bus && p.isMotorBusPowered() == mbus && p.isTemperatureTripped() == tripped, "buses", S() << ctx << ": buses " << p.isControllerBusPowered() << p.isMotorBusPowered() << " tripped " << p.isTemperatureTripped() << " at " << temp << " K (trip " << trip << " reset " << reset << ")"); c.check(std::fabs(p.getPulseWidth() - pw) <= 1e-9 * (1 + mag * 1e-2), "pulse", S() << ctx << ": pulse width " << p.getPulseWidth() << " instead of " << pw); pw = p.getPulseWidth(); c.check(pw >= 0. && pw <= 1., "pulse", "pulse width outside 0 to 1"); c.check(VptFriend::startup(p) == st, "startup", S() << ctx << ": startup state " << VptFriend::startup(p));
        twin.setVoltage(pw * useV); twin.setCurrentLimit(st ? slimit : 1e15); twin.step(dt); c.checkNear(p.getMotorSpeed(), twin.getSpeed(), 1e-9, 1e-9, "motor", ctx + " motor speed"); c.checkNear(p.getMotorCurrent(), twin.getCurrent(), 1e-9, 1e-9, "motor", ctx + " motor current"); c.checkNear(p.getMotorPower(), twin.getPower(), 1e-9, 1e-9, "motor", ctx + " motor power");
        const double shown = bus ? useV : V; double g = 0., h = 0.; if (bus) { g += load / std::max(DBL_EPSILON, useV * useV); h += load; } if (mbus) { g += pw * pw / std::max(DBL_EPSILON, twin.getResistance()); h += twin.getWasteHeat(); } c.check(std::fabs(p.getTotalWasteHeat() - h) <= 1e-9 * (1 + h), "heat", S() << ctx << ": heat " << p.getTotalWasteHeat() << " instead of " << h); if (g > 1e-12) { c.checkNear(p.getTotalResistance(), 1. / g, 1e-9, 0., "resistance", ctx + " resistance"); c.checkNear(p.getTotalCurrent(), shown * g, 1e-9, 0., "current", ctx + " current"); if (!po && useV > 1e-3) c.checkNear(p.getTotalPower(), (bus ? load : 0.) + (mbus ? twin.getPower() : 0.), 1e-8, 1e-9, "power", ctx + " total power"); } else c.check(p.getTotalResistance() > 1e11, "resistance", S() << ctx << ": resistance " << p.getTotalResistance());
    }
    if (drove && cutOff) c.nontrivial();
}
