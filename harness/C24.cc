// C24 switches and trip logic.
// vpt: san
#include "elec.hh"
#include "aspects/electrical/TripLogic/GunnsTripLogic.hh"
#include "aspects/electrical/Switch/GunnsElectSwitchUtil.hh"
#include "aspects/electrical/Switch/GunnsElectSwitchUtil2.hh"
#include "aspects/electrical/Switch/Switch.hh"
#include "aspects/electrical/Switch/SwitchElect.hh"
#include "aspects/electrical/Switch/GunnsElectSelector.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
typedef GunnsBasicLink::SolutionResult Res; typedef std::vector<long double> LongV;
static const Res RES[] = { GunnsBasicLink::CONFIRM, GunnsBasicLink::DELAY, GunnsBasicLink::REJECT };

// ---- reference trip function
struct Trip { bool gt; float lim; int prio; bool tripped, inhibit, force; Trip(bool g = true, float l = 0, int p = 0) : gt(g), lim(l), prio(p), tripped(false), inhibit(false), force(false) {}
    bool check(Res& r, float v, int step) { if (inhibit) tripped = false; if (tripped || inhibit || lim == 0.f || prio < 1) return false; const bool cond = gt ? v > lim : v < lim; if (!(force || cond)) return false;
        if (force || step == prio) { tripped = true; r = GunnsBasicLink::REJECT; return true; } if (r != GunnsBasicLink::REJECT) r = GunnsBasicLink::DELAY; return false; } };
FACET(trip, 20000, 500000, "it tripped, and was later reset or tripped again") {
    const bool gt = c.b(); const float lim = (float)(c.b(0.1) ? 0. : c.sr(0.1, 100)); const int prio = c.i(0, 5); GunnsTripGreaterThan G; GunnsTripLessThan L; GunnsTripLogic& t = gt ? (GunnsTripLogic&)G : (GunnsTripLogic&)L; t.initialize(lim, prio, false); Trip m(gt, lim, prio); int trips = 0, resets = 0;
    c.log() << (gt ? "greater" : "less") << " limit " << lim << " priority " << prio << "\n"; const int n = c.i(1, 25);
    for (int k = 0; k < n; ++k) { const int op = c.i(0, 9);
        if (op == 0) { t.resetTrip(); resets += m.tripped; m.tripped = false; c.log() << "reset\n"; }
        else if (op == 1) { const bool b = c.b(); t.mMalfInhibitTrip = b; m.inhibit = b; c.log() << "inhibit " << b << "\n"; }
        else if (op == 2) { const bool b = c.b(); t.mMalfForceTrip = b; m.force = b; c.log() << "force " << b << "\n"; }
        else if (op == 3) { const float v = (float)c.sr(0.1, 100); t.setLimit(v); m.lim = v; c.log() << "limit " << v << "\n"; }
        else { const int step = c.i(0, 6); const float v = c.pickOf<float>({ m.lim, std::nextafterf(m.lim, 1e9f), std::nextafterf(m.lim, -1e9f), (float)c.sr(0.1, 200), 0.f }); Res r = RES[c.i(0, 2)], rm = r; c.log() << "check " << v << " step " << step << " result " << r << "\n"; const bool was = m.tripped;
            const bool a = t.checkForTrip(r, v, step), b = m.check(rm, v, step); trips += b; c.check(a == b, "just-tripped", S() << a); c.check(r == rm, "result", S() << r << " expected " << rm); if (was && m.inhibit) ++resets; }
        c.check(t.isTripped() == m.tripped, "tripped", S() << t.isTripped()); c.check(t.getLimit() == m.lim, "limit", ""); }
    if (trips && (trips > 1 || resets)) c.nontrivial();
}

// ---- reference for the second switch
struct Sw2 { float r; bool pos, cmd, reset, closed, open, wait, just; Trip uv, uvR, ov, ovR, pc, nc; std::vector<Trip*> all() { Trip* t[] = { &uv, &uvR, &ov, &ovR, &pc, &nc }; return std::vector<Trip*>(t, t + 6); }
    bool tripped() const { return uv.tripped || ov.tripped || pc.tripped || nc.tripped; }
    void clear() { wait = just = false; std::vector<Trip*> a = all(); for (int i = 0; i < 6; ++i) a[i]->tripped = false; }
    void state() { r = std::max(r, FLT_EPSILON); uvR.lim = std::max(uvR.lim, uv.lim); ovR.lim = std::min(ovR.lim, ov.lim); if (tripped() && !cmd) clear(); if (reset) { clear(); reset = false; }
        if (closed) pos = true; else if (open) pos = false; else if (tripped()) pos = false; else if (!wait) pos = cmd; }
    void trips(double i, double v, int step) { Res res = GunnsBasicLink::CONFIRM; wait = just = false; if (step <= 0) return; const float fi = (float)i, fv = (float)v;
        if ((uv.tripped || ov.tripped) && !(open || pc.tripped || nc.tripped)) { if (uv.tripped && uvR.check(res, fv, step)) uv.tripped = uvR.tripped = false; if (ov.tripped && ovR.check(res, fv, step)) ov.tripped = ovR.tripped = false; wait = res == GunnsBasicLink::DELAY; just = res == GunnsBasicLink::REJECT; if (just && cmd && !tripped()) pos = true; }
        else if (cmd && !tripped() && !closed) { uv.check(res, fv, step); ov.check(res, fv, step); pc.check(res, fi, step); nc.check(res, fi, step); wait = res == GunnsBasicLink::DELAY; just = res == GunnsBasicLink::REJECT; if (just) pos = false; } } };
struct OpenSw2 : GunnsElectSwitchUtil2 { void setResetTripsCommand(bool b) { mResetTripsCommand = b; } };
FACET(switch2, 20000, 500000, "a trip latched and was cleared") {
    const int prio = c.i(1, 4); const float r = (float)c.lr(1e-4, 10); Sw2 m; m.r = r; m.pos = c.b(); m.cmd = c.b(); m.reset = c.b(0.1); m.closed = m.open = m.wait = m.just = false; const float ovl = c.b(0.2) ? 0.f : (float)c.r(120, 150), ovr = ovl == 0.f ? 0.f : (float)c.r(105, 119), uvl = c.b(0.2) ? 0.f : (float)c.r(50, 90), uvr = uvl == 0.f ? 0.f : (float)c.r(91, 104), pcl = c.b(0.2) ? 0.f : (float)c.r(1, 20), ncl = c.b(0.2) ? 0.f : (float)c.r(-20, -1);
    m.uv = Trip(false, uvl, prio); m.uvR = Trip(true, uvr, prio); m.ov = Trip(true, ovl, prio); m.ovR = Trip(false, ovr, prio); m.pc = Trip(true, pcl, prio); m.nc = Trip(false, ncl, prio);
    c.log() << "priority " << prio << " uv " << uvl << "/" << uvr << " ov " << ovl << "/" << ovr << " current " << pcl << " " << ncl << " position " << m.pos << " command " << m.cmd << "\n";
    OpenSw2 s; s.initialize(GunnsElectSwitchUtil2ConfigData(r, prio), GunnsElectSwitchUtil2InputData(m.pos, m.cmd, m.reset, uvl, uvr, ovl, ovr, pcl, ncl), "switch");
    GunnsTripLogic* t[] = { s.getInputUnderVoltageTrip(), s.getInputUnderVoltageReset(), s.getInputOverVoltageTrip(), s.getInputOverVoltageReset(), s.getPosOverCurrentTrip(), s.getNegOverCurrentTrip() }; int trips = 0, clears = 0; const int n = c.i(1, 30); double cur = 0, vol = 110; bool forcedClosed = false;
    for (int k = 0; k < n; ++k) {
        const int op = c.i(0, 11); const bool was = m.tripped();
        if (op == 0) { m.cmd = c.b(); s.setPositionCommand(m.cmd); c.log() << "command " << m.cmd << "\n"; }
        else if (op == 1) { m.reset = true; s.setResetTripsCommand(true); c.log() << "reset\n"; }
        else if (op == 2) { m.closed = c.b(); s.setMalfFailClosed(m.closed); c.log() << "fail closed " << m.closed << "\n"; }
        else if (op == 3) { m.open = c.b(); s.setMalfFailOpen(m.open); c.log() << "fail open " << m.open << "\n"; }
        else if (op == 4) { const int w = c.i(0, 5); const bool on = c.b(); if (c.b()) { t[w]->mMalfInhibitTrip = on; m.all()[w]->inhibit = on; c.log() << "inhibit " << w << " " << on << "\n"; } else { t[w]->mMalfForceTrip = on; m.all()[w]->force = on; c.log() << "force " << w << " " << on << "\n"; } }
        else if (op == 5) { const int w = c.i(0, 5); const float l = w < 4 ? (float)c.r(40, 160) : w == 4 ? (float)c.r(1, 20) : (float)c.r(-20, -1); t[w]->setLimit(l); m.all()[w]->lim = l; c.log() << "limit " << w << " " << l << "\n"; }
        else if (op <= 7) { s.updateState(); m.state(); forcedClosed = m.closed; c.log() << "state\n"; }
        else { vol = c.pickOf<double>({ 110., 40., 95., 160., c.r(40, 160), (double)m.uv.lim, (double)m.ov.lim, (double)m.uvR.lim, (double)m.ovR.lim }); cur = c.pickOf<double>({ 0., 25., -25., c.r(-20, 20), (double)m.pc.lim, (double)m.nc.lim }); const int step = c.b(0.6) ? prio : c.i(0, 5); c.log() << "trips current " << cur << " voltage " << vol << " step " << step << "\n"; s.updateTrips(cur, vol, step); m.trips(cur, vol, step); }
        trips += !was && m.tripped(); clears += was && !m.tripped();
        c.check(s.getPosition() == m.pos, "position", S() << s.getPosition()); c.check(s.isTripped() == m.tripped(), "tripped", S() << s.isTripped()); c.check(s.isWaitingToTrip() == m.wait, "waiting", S() << s.isWaitingToTrip()); c.check(s.hasJustTripped() == m.just, "just-tripped", S() << s.hasJustTripped()); for (int i = 0; i < 6; ++i) { c.check(t[i]->isTripped() == m.all()[i]->tripped, "trip-flag", S() << i); c.check(t[i]->getLimit() == m.all()[i]->lim, "limit", S() << i << " " << t[i]->getLimit()); }
        c.check(s.getPositionCommand() == m.cmd, "command", ""); c.check(s.getResistance() == (m.pos ? (double)m.r : 1. / DBL_EPSILON), "resistance", "");
        // right after its update the switch conducts exactly when it should
        if (op == 6 || op == 7) { c.check(!m.tripped() || !s.getPosition() || m.closed, "conducts-tripped", ""); if (m.closed) c.check(s.getPosition(), "fail-closed", ""); else if (m.open) c.check(!s.getPosition(), "fail-open", ""); else if (!m.tripped() && !m.wait) c.check(s.getPosition() == m.cmd, "obeys", ""); } }
    (void)forcedClosed; if (trips && clears) c.nontrivial();
}

// ---- reference for the first switch
struct Sw1 { double r, act, fp, pl, nl, apl, anl, pv, nv, power, cur, vin; int prio; bool closed, cmd, pos, neg, ext, wait, just, prot, prot0, ign, lastIgn, fc, fo, fr, fps, fns, reset;
    bool tripped() const { return pos || neg || ext; }
    void state(bool supply) { apl = fps ? pv : pl; anl = fns ? nv : nl; if (ign) prot = false; else if (lastIgn) prot = prot0; lastIgn = ign; act = fr ? r * (fp > 1. ? fp / 100. : fp) : r;
        if (!supply) { closed = cmd = false; } else if (fc) closed = true; else if (fo) closed = false; else if (pos || neg) closed = false; else if (!ext && !wait) closed = cmd;
        if (!supply || reset || (tripped() && !cmd)) { pos = neg = ext = wait = reset = false; } }
    double g() const { return closed ? (act > 0. ? 1. / act : 1e15) : 0.; }
    void flow(double ca, double cs, double v, int step, bool minor) { wait = false; vin = v; cur = closed ? ca : 0.; const double s = closed ? cs : 0.; const bool was = tripped(); if (!fc) { if (prot) for (int side = 0; side < 2; ++side) if (side ? s < anl : s > apl) { bool& t = side ? neg : pos; if (step >= prio) { cur = 0; closed = false; t = true; wait = false; } else { wait = true; t = false; } } if (ext && closed) { cur = 0.; closed = false; wait = false; } }
        if (!minor) just = tripped() && !was; power = g() > 0. ? cur * cur / g() : 0.; } };
template <class S1, class C1, class I1> static void first(Case& c) {
    Sw1 m; std::memset(&m, 0, sizeof m); const bool two = c.b(0.3); m.prio = two ? c.i(1, 4) : 1; m.r = c.lr(1e-3, 10); m.act = m.r; m.pl = m.apl = c.r(0.5, 20); m.nl = m.anl = c.r(-20, -0.5); m.prot = m.prot0 = c.b(0.85); m.cmd = m.closed = c.b();
    c.log() << "priority " << m.prio << " resistance " << m.r << " limits " << m.pl << " " << m.nl << " protected " << m.prot << " closed " << m.closed << "\n";
    C1 cfg; cfg.init(m.r, m.prot, false, 0., two, two ? 1 : 0, m.prio, false); I1 in; in.init(false, 0, m.closed, m.pl, m.nl); struct Peek : S1 { int shown() const { return this->mSwitchStateEnum; } } s; s.initialize(cfg, in, "card", 1); int trips = 0, clears = 0; const int n = c.i(1, 30);
    for (int k = 0; k < n; ++k) { const int op = c.i(0, 14); const bool was = m.tripped();
        if (op == 0) { m.cmd = c.b(); s.setSwitchCommandedClosed(m.cmd); c.log() << "command " << m.cmd << "\n"; }
        else if (op == 1) { m.reset = true; s.setTripReset(); c.log() << "reset\n"; }
        else if (op == 2) { m.fc = c.b(); s.setMalfFailClosed(m.fc); c.log() << "fail closed " << m.fc << "\n"; }
        else if (op == 3) { m.fo = c.b(); s.setMalfFailOpen(m.fo); c.log() << "fail open " << m.fo << "\n"; }
        else if (op == 4) { m.fr = c.b(); m.fp = c.pickOf<double>({ 0.5, 1., 50., 200., 1000. }); s.setMalfFailResistance(m.fr, m.fp); c.log() << "fail resistance " << m.fr << " " << m.fp << "\n"; }
        else if (op == 5) { const bool on = c.b(); const double v = c.r(0.1, 20); if (c.b()) { m.fps = on; m.pv = v; s.setMalfPosTripSetpoint(on, v); } else { m.fns = on; m.nv = -v; s.setMalfNegTripSetpoint(on, -v); } c.log() << "setpoint malf " << on << " " << v << "\n"; }
        else if (op == 6) { m.ign = c.b(); s.mMalfIgnoreCurrentTrip = m.ign; c.log() << "ignore " << m.ign << "\n"; }
        else if (op == 7) { m.ext = c.b(); s.setExternalTrip(m.ext); c.log() << "external trip " << m.ext << "\n"; }
        else if (op == 8) { if (c.b()) { m.pl = c.r(0.5, 20); s.setPosTripLimit(m.pl); } else { m.nl = c.r(-20, -0.5); s.setNegTripLimit(m.nl); } c.log() << "limits " << m.pl << " " << m.nl << "\n"; }
        else if (op <= 11) { const bool sup = c.b(0.9); c.log() << "state " << sup << "\n"; s.updateSwitchState(sup); m.state(sup); { const int e = m.ext ? 7 : m.neg ? 6 : m.pos ? 5 : m.fo && m.fc ? 4 : m.fc ? 3 : m.fo ? 2 : m.closed; c.check(s.shown() == e, "shown-state", S() << s.shown() << " expected " << e); } if (!sup) c.check(!s.isClosed() && !s.isTripped() && !s.isCommandedClosed(), "no-supply", ""); else if (m.fc) c.check(s.isClosed(), "fail-closed", ""); else if (m.fo) c.check(!s.isClosed(), "fail-open", ""); }
        else { const double cur = c.pickOf<double>({ c.r(-25, 25), m.apl, m.anl, 1e3, -1e3, 0. }), sen = c.b(0.8) ? cur : c.r(-25, 25), v = c.r(0, 150); const int step = c.i(1, 5); const bool minor = c.b(0.2); c.log() << "flow " << cur << " sensed " << sen << " volts " << v << " step " << step << " minor " << minor << "\n"; s.updateSwitchFlow(cur, sen, v, step, minor); m.flow(cur, sen, v, step, minor); c.check(s.isJustTripped() == m.just, "just-tripped", S() << s.isJustTripped());
            c.check(s.getCurrent() == m.cur, "current", S() << s.getCurrent() << " expected " << m.cur); c.checkNear(s.getPowerDissipation(), m.power, 1e-12, 0., "power", ""); c.check(s.getInputVolts() == v && s.getOutputVolts() == (m.closed ? v : 0.), "volts", ""); }
        trips += !was && m.tripped() && op != 7; clears += was && !m.tripped();
        c.check(s.isClosed() == m.closed, "closed", S() << s.isClosed()); c.check(s.isPosTrip() == m.pos, "pos-trip", S() << s.isPosTrip()); c.check(s.isNegTrip() == m.neg, "neg-trip", S() << s.isNegTrip()); c.check(s.isTripped() == m.tripped(), "tripped", S() << s.isTripped()); c.check(s.isWaitingToTrip() == m.wait, "waiting", S() << s.isWaitingToTrip()); c.check(s.isCommandedClosed() == m.cmd, "command", ""); c.checkNear(s.getConductance(), m.g(), 1e-14, 0., "conductance", "");
        c.check(s.getPosTripLimit() == m.pl && s.getNegTripLimit() == m.nl, "limits", ""); }
    if (trips && clears) c.nontrivial();
}
FACET(switch1, 20000, 500000, "a trip latched and was cleared") { first<GunnsElectSwitchUtil, GunnsElectSwitchUtilConfigData, GunnsElectSwitchUtilInputData>(c); }
FACET(switch1old, 10000, 300000, "a trip latched and was cleared") { first<Switch, SwitchConfigData, SwitchInputData>(c); }

// ---- switches in a circuit: trips cascade in priority order and the reported state is the circuit's
struct AnySw { int kind; GunnsElectUserLoadSwitch a; GunnsElectUserLoadSwitch2 b; SwitchElect* d; Sw1 m1; Sw2 m2; int p, q; double R; AnySw() : kind(0), d(0), p(0), q(0), R(0) {} ~AnySw() { delete d; }
    GunnsBasicLink* link() { return kind == 0 ? (GunnsBasicLink*)&a : kind == 1 ? (GunnsBasicLink*)&b : (GunnsBasicLink*)d; } GunnsElectSwitchUtil& u() { return kind == 0 ? a.mSwitch : d->mSwitch; }
    bool on() { return kind == 1 ? m2.pos : m1.closed; } bool tripped() { return kind == 1 ? m2.tripped() : m1.tripped(); } };
static bool refSolve(std::vector<LongV> A, LongV b, LongV& x);
FACET(circuit, 6000, 100000, "a switch tripped while another one above its limit stayed closed, or was reset") {
    const int ns = c.i(1, 4); el::Circuit k(ns + 1); std::vector<GunnsBasicPotential*> pots; std::vector<GunnsBasicConductor*> loads; std::vector<double> V, Gs, G; std::vector<int> at;
    auto addPot = [&](int node) { V.push_back(c.r(80, 140)); Gs.push_back(c.lr(1, 1e3)); at.push_back(node); pots.push_back(k.pot(V.back(), Gs.back(), node)); }; addPot(0); if (c.b(0.3)) addPot(ns);
    for (int i = 0; i <= ns; ++i) { G.push_back(c.lr(1e-2, 1)); loads.push_back(k.cond(G[i], i, k.gnd())); }
    std::vector<AnySw> sw(ns); c.log() << "source " << V[0] << " V " << Gs[0]; if (V.size() > 1) c.log() << " and " << V[1] << " V " << Gs[1] << " at the last node"; c.log() << "\n";
    for (int i = 0; i < ns; ++i) { AnySw& s = sw[i]; s.kind = c.i(0, 2); s.p = c.b(0.6) ? i : c.i(0, i); s.q = i + 1; s.R = (float)c.lr(1e-3, 1); const int prio = s.kind == 1 ? c.i(1, 5) : c.i(1, 4); const bool closed = c.b(0.8); const double lim = (float)c.lr(1, 60), nlim = (float)-c.lr(1, 60); const std::string nm = "switch" + std::to_string(i); c.log() << nm << " kind " << s.kind << " " << s.p << "->" << s.q << " priority " << prio << " limits " << lim << " " << nlim << " load " << G[i + 1] << " closed " << closed;
        if (s.kind != 1) { Sw1& m = s.m1; std::memset(&m, 0, sizeof m); m.r = m.act = s.R; m.prio = prio; m.pl = m.apl = lim; m.nl = m.anl = nlim; m.prot = m.prot0 = true; m.cmd = m.closed = closed; GunnsElectSwitchUtilConfigData cfg; cfg.init(s.R, true, false, 0., true, 1, prio, false); GunnsElectSwitchUtilInputData in; in.init(false, 0, closed, lim, nlim);
            if (s.kind == 0) { GunnsElectUserLoadSwitchConfigData cc(nm, &k.nl, s.R, prio); GunnsElectUserLoadSwitchInputData ii(false, 0., closed, lim, nlim); cc.mSwitch = cfg; s.a.initialize(cc, ii, k.links, s.p, s.q); } else { s.d = new SwitchElect; SwitchElectConfigData cc(nm, &k.nl, cfg); SwitchElectInputData ii(false, 0., in); s.d->initialize(cc, ii, k.links, s.p, s.q); } }
        else { Sw2& m = s.m2; const float uvl = c.b(0.6) ? 0.f : (float)c.r(20, 100), uvr = uvl == 0.f ? 0.f : 1e4f, ovl = c.b(0.6) ? 0.f : (float)c.r(90, 140); m.r = (float)s.R; m.pos = m.cmd = closed; m.reset = m.closed = m.open = m.wait = m.just = false; m.uv = Trip(false, uvl, prio); m.uvR = Trip(true, uvr, prio); m.ov = Trip(true, ovl, prio); m.ovR = Trip(false, 0.f, prio); m.pc = Trip(true, (float)lim, prio); m.nc = Trip(false, (float)nlim, prio); c.log() << " uv " << uvl << " ov " << ovl;
            GunnsElectUserLoadSwitch2ConfigData cc(nm, &k.nl, (float)s.R, prio, -1e6f, 1e6f, -1e6f, 1e6f, -1e6f, 1e6f); GunnsElectUserLoadSwitch2InputData ii(false, 0., closed, uvl, uvr, ovl, 0.f, (float)lim, (float)nlim); s.b.initialize(cc, ii, k.links, s.p, s.q); }
        c.log() << "\n"; }
    k.start(60); bool spared = false, cleared = false; const int steps = c.i(1, 8);
    for (int n = 0; n < steps; ++n) {
        if (n) for (int e = c.i(0, 3); e-- > 0;) { const int i = c.i(0, ns - 1); AnySw& s = sw[i]; const int op = c.i(0, 5); const bool on = c.b();
            if (op <= 1) { cleared |= s.tripped() && !on; if (s.kind == 1) { s.m2.cmd = on; s.b.mSwitch.setPositionCommand(on); } else { s.m1.cmd = on; s.u().setSwitchCommandedClosed(on); } c.log() << "command " << i << " " << on << "\n"; }
            else if (op == 2) { const bool cl = c.b(); if (s.kind == 1) { if (cl) { s.m2.closed = on; s.b.mSwitch.setMalfFailClosed(on); } else { s.m2.open = on; s.b.mSwitch.setMalfFailOpen(on); } } else { if (cl) { s.m1.fc = on; s.u().setMalfFailClosed(on); } else { s.m1.fo = on; s.u().setMalfFailOpen(on); } } c.log() << "fail " << i << (cl ? " closed " : " open ") << on << "\n"; }
            else if (op == 3) { V[0] = c.r(80, 140); pots[0]->setSourcePotential(V[0]); c.log() << "source " << V[0] << "\n"; }
            else { G[i + 1] = c.lr(1e-2, 1); loads[i + 1]->setDefaultConductivity(G[i + 1]); c.log() << "load " << i + 1 << " " << G[i + 1] << "\n"; } }
        // the reference circuit
        LongV x; std::vector<double> cur(ns); int conv = 1, guard = 0; bool done = false;
        while (!done) { if (++guard > 50) c.discard(); const int N = ns + 1; std::vector<LongV> A(N, LongV(N, 0.L)); LongV b(N, 0.L); auto stamp = [&](int p, int q, long double g) { A[p][p] += g; A[q][q] += g; A[p][q] -= g; A[q][p] -= g; };
            for (int i = 0; i < N; ++i) A[i][i] += G[i]; for (size_t i = 0; i < V.size(); ++i) { A[at[i]][at[i]] += Gs[i]; b[at[i]] += Gs[i] * V[i]; }
            for (int i = 0; i < ns; ++i) { AnySw& s = sw[i]; if (s.kind == 1) s.m2.state(); else s.m1.state(true); if (s.on()) stamp(s.p, s.q, 1.L / s.R); } c.check(refSolve(A, b, x), "harness-singular", "");
            bool rej = false, wait = false; for (int i = 0; i < ns; ++i) { AnySw& s = sw[i]; cur[i] = s.on() ? (double)((x[s.p] - x[s.q]) / s.R) : 0.; const double v = (double)x[s.p]; const bool was = s.tripped(), on = s.on(); auto close = [&](double a, double l) { return std::fabs(a - l) < 1e-5 * (std::fabs(a) + std::fabs(l)); };
                if (s.kind == 1) { if ((s.m2.pc.lim != 0.f && close(cur[i], s.m2.pc.lim)) || close(cur[i], s.m2.nc.lim) || (s.m2.uv.lim != 0.f && close(v, s.m2.uv.lim)) || (s.m2.ov.lim != 0.f && close(v, s.m2.ov.lim))) c.discard(); s.m2.trips(cur[i], v, conv); rej |= s.m2.just; wait |= s.m2.wait; if (s.m2.wait && on) s.m2.wait = true; }
                else { if (close(cur[i], s.m1.apl) || close(cur[i], s.m1.anl)) c.discard(); s.m1.flow(cur[i], cur[i], v, conv, false); rej |= !s.m1.wait && s.m1.just; wait |= s.m1.wait; } (void)was; }
            if (rej) { for (int i = 0; i < ns; ++i) if (sw[i].kind == 1 ? sw[i].m2.wait : sw[i].m1.wait) spared = true; conv = 1; } else if (wait) ++conv; else done = true; }
        k.step(0.1);
        for (int i = 0; i <= ns; ++i) c.checkNear(k.v(i), (double)x[i], 1e-7, 1e-9, "potential", S() << "step " << n << " node " << i);
        for (int i = 0; i < ns; ++i) { AnySw& s = sw[i]; const std::string w = S() << "step " << n << " switch " << i; const bool on = s.kind == 1 ? s.b.mSwitch.getPosition() : s.u().isClosed(), tr = s.kind == 1 ? s.b.mSwitch.isTripped() : s.u().isTripped(); c.check(on == s.on(), "position", w); c.check(tr == s.tripped(), "tripped", w); const double tol = 1e-7 * (std::fabs((double)x[s.p]) + std::fabs((double)x[s.q])) / s.R; c.checkNear(s.link()->getFlux(), cur[i], 1e-7, s.on() ? tol : 0., "flux", w); c.checkNear(s.link()->getPower(), -s.link()->getFlux() * (k.v(s.p) - k.v(s.q)), 1e-9, 1e-9, "power", w);
            if (s.kind == 1) c.checkNear(s.b.mCurrentSensor.getSensedOutput(), cur[i], 1e-5, s.on() ? tol : 1e-6, "sensed", w); else c.check(s.u().getOutputVolts() == (on ? s.u().getInputVolts() : 0.), "volts", w); } }
    if (spared || cleared) c.nontrivial();
}
static bool refSolve(std::vector<LongV> A, LongV b, LongV& x) { const int n = (int)b.size(); for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i; if (A[p][k] == 0) return false; std::swap(A[p], A[k]); std::swap(b[p], b[k]); for (int i = k + 1; i < n; ++i) { const long double f = A[i][k] / A[k][k]; for (int j = k; j < n; ++j) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } } x.assign(n, 0.L); for (int i = n - 1; i >= 0; --i) { long double t = b[i]; for (int j = i + 1; j < n; ++j) t -= A[i][j] * x[j]; x[i] = t / A[i][i]; } return true; }
// ---- the selector connects its common port to exactly the selected port
FACET(selector, 6000, 100000, "it was switched off or to another port at least twice") {
    const int n = c.i(2, 6); el::Circuit k(n); double V = c.r(20, 140), Gs = c.lr(1, 1e2), g = c.lr(1e-2, 1e3); GunnsBasicPotential* pot = k.pot(V, Gs, 0); std::vector<double> G; for (int i = 0; i < n; ++i) { G.push_back(c.lr(1e-2, 1)); k.cond(G[i], i, k.gnd()); }
    std::vector<int> ports; for (int i = 0; i < n; ++i) ports.push_back(i); GunnsElectSelector s; int sel = c.i(0, n - 1), changes = 0; GunnsElectSelectorConfigData cfg("selector", &k.nl, g); GunnsElectSelectorInputData in(false, 0., sel); s.initialize(cfg, in, k.links, &ports); k.start(5); double blk = 0, lastG = 0; int lastP = 0; c.log() << "source " << V << " " << Gs << " conductance " << g << " port " << sel << "\n"; const int steps = c.i(1, 10);
    for (int q = 0; q < steps; ++q) { if (q) { const int op = c.i(0, 4); if (op <= 2) { const int w = c.i(-1, n); changes += w != sel; sel = w; s.setSelector(sel); c.log() << "select " << sel << "\n"; } else if (op == 3) { blk = c.b(0.3) ? 0 : c.r(0, 1.2); s.setMalfBlockage(blk > 0, blk); c.log() << "blockage " << blk << "\n"; } else { V = c.r(20, 140); pot->setSourcePotential(V); c.log() << "source " << V << "\n"; } }
        k.step(0.1); const int p = sel >= 1 && sel < n ? sel : 0; const double ge = p ? g * std::max(0., 1. - blk) : 0., gl = p ? ge * G[p] / (ge + G[p]) : 0., v0 = V * Gs / (Gs + G[0] + gl), f = v0 * gl;
        if (p == 0 && lastP > 0 && lastG > 0) { const double sl = lastG * G[lastP] / (lastG + G[lastP]), s0 = V * Gs / (Gs + G[0] + sl); if (c.near(k.v(0), s0, 1e-8, 1e-9) && c.near(k.v(lastP), s0 * sl / G[lastP], 1e-8, 1e-9) && s0 < v0 * (1 - 1e-7)) c.known("selector-off"); } lastP = p; lastG = ge;
        for (int i = 0; i < n; ++i) c.checkNear(k.v(i), i == 0 ? v0 : i == p ? f / G[p] : 0., 1e-8, 1e-9, "potential", S() << "step " << q << " node " << i); c.checkNear(s.getFlux(), f, 1e-6, 1e-12 * V * g, "flux", S() << "step " << q); c.check(s.getConnectedPort() == p, "port", ""); if (!p) c.check(s.getFlux() == 0., "off-flux", S() << s.getFlux()); }
    if (changes >= 2) c.nontrivial();
}
