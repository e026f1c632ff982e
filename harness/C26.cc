// C26: batteries. Charge is counted exactly, state of charge stays in [0,1], the terminal law is the
// vpt: san
// open-circuit voltage table behind the cells' resistance, and malfunctions do what they state.
#include "vpt.hh"
class VptFriend;
#include "elec.hh"
#include "aspects/electrical/Batt/GunnsElectBattery.hh"
#include "aspects/electrical/Batt/GunnsElectBatteryCell.hh"
#include "math/approximation/TsLinearInterpolator.hh"
#include "math/UnitConversion.hh"
#include <memory>
using namespace vpt;

namespace {
struct Table { std::vector<double> x, v; std::unique_ptr<TsLinearInterpolator> t;
    double get(double s) const { for (size_t i = 1; i < x.size(); ++i) if (s <= x[i]) return v[i - 1] + (v[i] - v[i - 1]) * (s - x[i - 1]) / (x[i] - x[i - 1]); return v.back(); } };
// a non-decreasing table over [0,1]
void genTable(Case& c, Table& t, bool flat = false, double vmin = 0.) {
    const int n = c.i(2, 6); t.x.push_back(0.); for (int i = 1; i < n - 1; ++i) t.x.push_back(t.x.back() + (1. - t.x.back()) * c.r(0.15, 0.5)); t.x.push_back(1.);
    double v = std::max(vmin, c.b(0.2) ? 0. : c.r(0.5, 30.)); for (int i = 0; i < n; ++i) { t.v.push_back(v); if (!flat) v += c.r(0.01, 3.); }
    t.t.reset(new TsLinearInterpolator(&t.x[0], &t.v[0], n, 0., 1.));
}
struct Malf { bool open, shrt, cap, run; double capV, dur; Malf() : open(false), shrt(false), cap(false), run(false), capV(0.), dur(0.) {} };
// What is known about a cell from its text: nothing but charge in and out.
struct RefCell { double soc, cap, P, rate; Malf m; RefCell() : soc(0.), cap(0.), P(0.), rate(0.) {}
    bool dead() const { return m.open || m.shrt; }
    double effCap() const { return dead() ? 0. : m.cap ? m.capV : cap; }
    double effSoc() const { return dead() ? 0. : soc; }
    double effR(double r) const { return m.shrt ? DBL_EPSILON : (m.open || m.run) ? 1. / DBL_EPSILON : r; }
    double effV(const Table& t) const { return dead() || m.run ? 0. : t.get(soc); }
    void update(double I, double dt, const Table& t) {
        if (m.shrt) soc = 0.;
        else if (!m.open) {
            const double q = m.cap ? m.capV : cap;
            if (!(q > DBL_EPSILON)) soc = 0.;
            else {
                double Ir = 0.;
                if (m.run && soc > 0.) { const double V = std::max(DBL_EPSILON, t.get(soc)); if (P == 0.) rate = 2. * soc * q * V * 3600. / std::max(DBL_EPSILON, m.dur * m.dur); P += rate * dt; Ir = P / V; }
                soc -= (I + Ir) * dt / (q * 3600.);
            }
            soc = std::min(1., std::max(0., soc));
        }
        if (soc == 0. || !m.run) P = rate = 0.;
    } };
void genMalf(Case& c, RefCell& r, double T) {
    switch (c.i(0, 5)) {
        case 0: r.m.open = !r.m.open; break;
        case 1: r.m.shrt = !r.m.shrt; break;
        case 2: r.m.cap = !r.m.cap; r.m.capV = r.m.cap ? (c.b(0.15) ? 0. : r.cap * c.r(0.05, 2.)) : 0.; break;
        case 3: r.m.run = !r.m.run; r.m.dur = r.m.run ? T * c.r(0.5, 20.) : 0.; break;
        default: r.m = Malf();
    }
}
void put(GunnsElectBatteryCell& k, const Malf& m) { k.setMalfOpenCircuit(m.open); k.setMalfShortCircuit(m.shrt); k.setMalfCapacity(m.cap, m.capV); k.setMalfThermalRunaway(m.run, m.dur); }
struct Batt { Table t; int n; bool par; double R, Ri, Q; double soc; GunnsElectBattery b;
    void gen(Case& c, bool flat = false, double vmin = 0.) { genTable(c, t, flat, vmin); n = c.weighted({3, 7}) ? c.i(2, 8) : 1; par = c.b(); R = c.b(0.1) ? 0. : c.lr(1e-4, 1.); Ri = c.b(0.3) ? 0. : c.lr(1e-4, 1.); if (R == 0. && Ri == 0.) Ri = 0.01; Q = c.lr(0.5, 200.); soc = c.b(0.1) ? (c.b() ? 0. : 1.) : std::min(1., c.r(0., 1.)); }
    void add(el::Circuit& k, int p0, int p1, bool run = false, double dur = 0., double inter = 0.) { GunnsElectBatteryConfigData cd("batt", &k.nl, n, par, R, Ri, Q, t.t.get()); GunnsElectBatteryInputData id(false, 0., soc, run, dur, inter); b.initialize(cd, id, k.links, p0, p1); } 
    double I() const { return b.getCurrent(); } };
double refR(const Batt& B, const std::vector<RefCell>& r) { double x = 0.; for (size_t i = 0; i < r.size(); ++i) { const double e = r[i].effR(B.R); x += B.par ? 1. / std::max(e, DBL_EPSILON) : e; } return B.Ri + (B.par ? 1. / std::max(x, DBL_EPSILON) : std::max(x, DBL_EPSILON)); }
double refV(const Batt& B, const std::vector<RefCell>& r) { double v = 0.; for (size_t i = 0; i < r.size(); ++i) { const double e = r[i].effV(B.t); v = B.par ? std::max(v, e) : v + e; } return v; }
}

FACET(cell, 20000, 200000, "at least ten updates with a malfunction, a clip at a limit or a runaway among them") {
    Table t; genTable(c, t); RefCell r; r.cap = c.lr(0.1, 100.); r.soc = c.b(0.2) ? (c.b() ? 0. : 1.) : std::min(1., c.r(0., 1.)); const double R = c.lr(1e-4, 1.);
    GunnsElectBatteryCell k; GunnsElectBatteryCellConfigData cd(R, r.cap); r.m.run = c.b(0.1); r.m.dur = r.m.run ? c.lr(10., 1e4) : 0.; GunnsElectBatteryCellInputData id(false, false, false, 0., r.m.run, r.m.dur, r.soc); k.initialize(cd, id, "cell");
    const double dt = c.lr(0.05, 600.); const int n = c.i(3, 30); int ev = 0; bool malf = false;
    for (int s = 0; s < n; ++s) {
        if (c.b(0.25)) { genMalf(c, r, n * dt); put(k, r.m); ++ev; malf = true; }
        const double before = r.effSoc(), sb = k.getEffectiveSoc(), I = c.b(0.1) ? 0. : c.sr(r.cap * 3600. / dt * 1e-5, r.cap * 3600. / dt * 1.5);
        const RefCell r0 = r; r.update(I, dt, t); k.updateSoc(I, dt, t.t.get());
        const double a = k.getEffectiveSoc(); (void)before; c.log() << "step " << s << " I " << I << " soc " << sb << " -> " << a << (r.m.open ? " open" : "") << (r.m.shrt ? " short" : "") << (r.m.cap ? " cap" : "") << (r.m.run ? " runaway" : "") << "\n";
        c.check(a >= 0. && a <= 1., "soc-range", S() << a);
        c.checkNear(a, r.effSoc(), 1e-10, 1e-12, "soc-count", "state of charge after one update");
        if (!r0.dead() && !r0.m.run && r0.effCap() > 1e-9 && a > 0. && a < 1.) c.checkNear((sb - a) * r0.effCap() * 3600., I * dt, 1e-9, 1e-10 * r0.effCap() * 3600., "charge-in-out", "charge taken from the cell");
        c.checkNear(k.getEffectiveCapacity(), r.effCap(), 1e-14, 0., "capacity", "effective capacity");
        c.checkNear(k.getEffectiveResistance(), r.effR(R), 1e-14, 0., "resistance", "effective resistance");
        c.checkNear(k.getEffectiveVoltage(t.t.get()), r.effV(t), 1e-9, 1e-9, "voltage", "open circuit voltage");
        c.checkNear(k.getRunawayPower(), r.P, 1e-8, 1e-12, "runaway-power", "runaway power"); c.check(k.getRunawayPower() >= 0., "runaway-sign", "negative runaway power");
        if (a == 0. || a == 1.) ++ev;
        // The copy follows the original from here on, so rounding does not pile up.
        if (!r.dead()) r.soc = a; r.P = k.getRunawayPower(); if (r.P == 0.) r.rate = 0.;
    }
    (void)malf; if (n >= 10 && ev) c.nontrivial();
}

FACET(circuit, 12000, 120000, "current flows in both directions or a cell fails during the history") {
    Batt B; B.gen(c); el::Circuit k(1); B.add(k, k.gnd(), 0); GunnsBasicConductor* load = k.cond(c.lr(1e-3, 10.), 0, k.gnd()); GunnsBasicSource* src = k.src(0., 0);
    k.start(5); const double dt = c.lr(0.1, 300.); std::vector<RefCell> r(B.n); for (int i = 0; i < B.n; ++i) { r[i].cap = B.Q / B.n; r[i].soc = B.soc; }
    const int n = c.i(3, 25); bool out = false, in = false, failed = false; const double scale = B.Q * 3600. / dt; bool runs = false;
    for (int s = 0; s < n; ++s) {
        if (c.b(0.25)) { const int i = c.i(0, B.n - 1); genMalf(c, r[i], n * dt); put(B.b.mCells[i], r[i].m); failed = true; if (r[i].m.run) runs = true; }
        if (c.b(0.5)) src->setFluxDemand(c.b(0.3) ? 0. : c.sr(scale * 1e-4, scale * 0.6));
        if (c.b(0.2)) load->setDefaultConductivity(c.lr(1e-3, 10.));
        std::vector<double> soc0(B.n); for (int i = 0; i < B.n; ++i) soc0[i] = B.b.mCells[i].getEffectiveSoc();
        const double V = refV(B, r), R = refR(B, r); k.step(dt);
        const double I = B.I(), v = k.v(0);
        c.log() << "step " << s << " Voc " << V << " R " << R << " I " << I << " v " << v << " soc " << B.b.getSoc() << "\n";
        if (!std::isfinite(v) || std::fabs(v) > 1e9) c.discard();
        c.checkNear(B.b.getVoltage(), v, 1e-12, 1e-12, "terminal-voltage", "reported voltage");
        // terminal law. An all-shorted stack is a near-perfect conductor: its current is only as good as the potentials over it.
        const double G = std::min(1. / R, 1e15), noise = 1e-11 * (std::fabs(v) + std::fabs(V) + 1.);
        c.checkNear(I, (V - v) * G, 1e-8, noise * G + 1e-9, "terminal-law", "current");
        const double heatOhm = I * I / G;
        double runP = 0.; for (int i = 0; i < B.n; ++i) runP += B.b.mCells[i].getRunawayPower();
        if (G > 1e-12) c.checkNear(B.b.getHeat(), heatOhm + runP, 1e-9, 1e-12, "heat", "waste heat");
        if (G < 1e6 && G > 1e-12) c.checkNear(v * I + heatOhm, V * I, 1e-7, 1e-9 * (std::fabs(V) + std::fabs(v)) * std::max(1., std::fabs(I)), "power-balance", "delivered plus heat");
        // charge count
        int act = 0; for (int i = 0; i < B.n; ++i) if (r[i].effSoc() > DBL_EPSILON || (I < 0. && r[i].effCap() > DBL_EPSILON)) ++act;
        bool clip = false; double dq = 0., socSum = 0., capSum = 0.;
        if (act) for (int i = 0; i < B.n; ++i) r[i].update(I / act, dt, B.t);
        for (int i = 0; i < B.n; ++i) {
            const double a = B.b.mCells[i].getEffectiveSoc(); c.check(a >= 0. && a <= 1., "soc-range", S() << "cell " << i << " " << a);
            c.checkNear(a, r[i].effSoc(), 1e-9, 1e-11, "cell-soc", S() << "cell " << i);
            if (r[i].dead()) continue; if (r[i].m.run || (r[i].m.cap && r[i].m.capV < 1e-9) || a == 0. || a == 1.) clip = true;
            dq += (soc0[i] - a) * r[i].effCap() * 3600.; r[i].soc = a; }
        for (int i = 0; i < B.n; ++i) { socSum += r[i].effSoc(); capSum += r[i].effCap(); r[i].P = B.b.mCells[i].getRunawayPower(); if (r[i].P == 0.) r[i].rate = 0.; }
        if (!clip && act) { c.checkNear(dq, I * dt, 1e-8, 1e-9 * B.Q * 3600., "charge", "charge taken from the cells against charge through the terminals"); (I > 0. ? out : in) = true; }
        c.checkNear(B.b.getSoc(), socSum / B.n, 1e-9, 1e-11, "battery-soc", "battery state of charge"); c.checkNear(B.b.getCapacity(), capSum, 1e-12, 0., "battery-capacity", "battery capacity");
        for (int i = 0; i < B.n; ++i) c.checkNear(B.b.getCellEffectiveVoltage(i), r[i].effV(B.t), 1e-9, 1e-9, "cell-voltage", S() << "cell " << i);
        c.check(B.b.getCellEffectiveVoltage(B.n) == 0., "no-such-cell", "a cell past the last has a voltage");
    }
    (void)runs; if ((in && out) || failed) c.nontrivial();
}

FACET(roundtrip, 6000, 60000, "the battery is charged and discharged by a visible amount") {
    Batt B; B.gen(c); B.soc = c.r(0.3, 0.7); el::Circuit k(1); B.add(k, k.gnd(), 0); GunnsBasicSource* src = k.src(0., 0); k.start(3);
    const double dt = c.lr(0.1, 300.); const int n = c.i(2, 10); const double full = B.Q * 3600. / dt; std::vector<double> f(n); double tot = 0.; for (int i = 0; i < n; ++i) { f[i] = c.r(-0.25, 0.25) / n * full; tot += std::fabs(f[i]); }
    const int dead = B.par && B.n > 1 && c.b(0.3) ? c.i(0, B.n - 1) : -1; if (dead >= 0) B.b.mCells[dead].setMalfOpenCircuit(true);
    const double share = dead >= 0 ? B.n / (B.n - 1.) : 1.;   // the live cells carry the load of the dead one
    if (B.soc + 0.25 * share >= 1. || B.soc - 0.25 * share <= 0.) c.discard();
    src->setFluxDemand(0.); k.step(dt); const double s0 = B.b.getSoc();
    double q = 0.; for (int i = 0; i < n; ++i) { src->setFluxDemand(f[i]); k.step(dt); q += f[i] * dt; c.checkNear(B.b.getSoc(), s0 + q / (B.Q * 3600.), 1e-7, 1e-8, "coulomb", "state of charge after charge q"); }
    for (int i = n - 1; i >= 0; --i) { if (c.b(0.2)) { // in two halves
            src->setFluxDemand(-f[i]); k.step(dt * 0.5); k.step(dt * 0.5); } else { src->setFluxDemand(-f[i]); k.step(dt); } }
    c.checkNear(B.b.getSoc(), s0, 1e-7, 1e-8, "restored", "state of charge after the same charge back");
    if (tot > full * 1e-3) c.nontrivial();
}

FACET(limits, 6000, 60000, "the battery hits empty or full and comes back") {
    Batt B; B.gen(c); el::Circuit k(1); B.add(k, k.gnd(), 0); GunnsBasicSource* src = k.src(0., 0); k.start(3); const double dt = c.lr(1., 300.), full = B.Q * 3600. / dt;
    const bool down = c.b(); const int n = c.i(2, 8); for (int i = 0; i < n; ++i) { src->setFluxDemand((down ? -1. : 1.) * full * c.r(0.2, 1.2)); k.step(dt); const double s = B.b.getSoc(); c.check(s >= 0. && s <= 1., "soc-range", S() << s); }
    const double end = B.b.getSoc(); if (end != (down ? 0. : 1.)) c.discard();
    const double back = c.r(0.05, 0.6); const int m = c.i(1, 5); for (int i = 0; i < m; ++i) { src->setFluxDemand((down ? 1. : -1.) * full * back / m); k.step(dt); }
    c.checkNear(B.b.getSoc(), down ? back : 1. - back, 1e-7, 1e-8, "leaves-limit", S() << "state of charge after " << (down ? "recharging an empty" : "discharging a full") << " battery by " << back);
    c.nontrivial();
}

FACET(uneven, 6000, 60000, "cells of different charge take current in both directions") {
    Batt B; B.gen(c); B.n = c.i(2, 6); B.soc = c.r(0.1, 0.9); el::Circuit k(1); B.add(k, k.gnd(), 0); GunnsBasicSource* src = k.src(0., 0); k.start(3);
    const double dt = c.lr(1., 100.), Qs = B.Q * 3600.; std::vector<double> cap(B.n, B.Q / B.n);
    // fail some of the cells for a while so they fall apart
    for (int ph = 0; ph < 2; ++ph) { std::vector<bool> off(B.n, false); int live = B.n; for (int i = 0; i < B.n; ++i) if (live > 1 && c.b(0.4)) { off[i] = true; --live; }
        for (int i = 0; i < B.n; ++i) { B.b.mCells[i].setMalfOpenCircuit(off[i]); if (!off[i] && c.b(0.15)) { B.b.mCells[i].setMalfShortCircuit(true); } }
        for (int i = 0; i < 3; ++i) { src->setFluxDemand(c.sr(1e-3, 0.3) * Qs / dt); if (!B.par && live < B.n) src->setFluxDemand(0.); k.step(dt); }
        for (int i = 0; i < B.n; ++i) put(B.b.mCells[i], Malf()); }
    for (int s = 0; s < 6; ++s) {
        std::vector<double> a(B.n); for (int i = 0; i < B.n; ++i) a[i] = B.b.mCells[i].getEffectiveSoc();
        src->setFluxDemand(c.sr(1e-3, 0.3) * Qs / dt); k.step(dt); const double I = B.I(); double dq = 0.; bool clip = false;
        for (int i = 0; i < B.n; ++i) { const double b = B.b.mCells[i].getEffectiveSoc(); dq += (a[i] - b) * cap[i] * 3600.; if (b == 1. || (b < 1e-12 && I > 0. && a[i] > 0.) || (I > 0. && a[i] > 0. && a[i] < 1e-12)) clip = true; }
        bool any = false; for (int i = 0; i < B.n; ++i) if (a[i] > 1e-12 || I < 0.) any = true;
        c.log() << "I " << I << " dq " << dq << "\n"; for (int i = 0; i < B.n; ++i) c.log() << " " << a[i]; c.log() << "\n";
        if (!clip && any) { c.checkNear(dq, I * dt, 1e-8, 1e-10 * Qs, "charge-uneven", "charge counted by cells of different charge"); c.nontrivial(); }
        if (I > 0.) c.check(dq <= I * dt + 1e-9 * Qs, "charge-more", "cells lost more charge than went through the terminals");
    }
}

FACET(runaway, 5000, 50000, "a runaway releases the stored energy or is stopped on the way") {
    Batt B; B.gen(c, true, 1.); B.soc = c.r(0.1, 1.); if (B.soc > 1.) B.soc = 1.; el::Circuit k(1); const double dt = c.pickOf<double>({1., 0.125, 0.25, 0.5, 2., 8.}); const int N = c.i(60, 200);
    const double dur = dt * N, inter = c.b(0.25) ? 0. : dt * c.i(1, N); const bool late = c.b();
    B.add(k, k.gnd(), 0, !late, late ? 0. : dur, late ? 0. : inter); k.cond(1e-12, 0, k.gnd()); k.start(3);
    if (late) { k.step(dt); B.b.setMalfThermalRunaway(true, dur, inter); }
    const double E = B.soc * B.Q / B.n * B.t.v[0] * 3600.; // per cell
    const double per = std::max(1., std::ceil(inter / dt - 1e-9)); const int stop = c.b(0.4) ? c.i(1, int(per) * B.n + N) : 0;
    std::vector<int> began(B.n, -1), ended(B.n, -1); std::vector<double> heat(B.n, 0.); double tot = 0.; const int last = std::min(4000, int(per) * B.n + N + 10);
    int s = 1; for (; s <= last; ++s) {
        if (s == stop) { B.b.setMalfThermalRunaway(false); k.step(dt); for (int i = 0; i < B.n; ++i) c.check(!B.b.mCells[i].mMalfThermalRunawayFlag && B.b.mCells[i].getRunawayPower() == 0., "stopped", S() << "cell " << i << " still runs away after the malfunction is reset at step " << s); c.nontrivial(); return; }
        std::vector<double> P0(B.n), S0(B.n); for (int i = 0; i < B.n; ++i) { P0[i] = B.b.mCells[i].getRunawayPower(); S0[i] = B.b.mCells[i].getEffectiveSoc(); }
        k.step(dt);
        for (int i = 0; i < B.n; ++i) { const double P = B.b.mCells[i].getRunawayPower(), so = B.b.mCells[i].getEffectiveSoc(); if (began[i] < 0 && B.b.mCells[i].mMalfThermalRunawayFlag) began[i] = s; if (began[i] >= 0 && ended[i] < 0 && so == 0.) ended[i] = s;
            heat[i] += P * dt; tot += P * dt; if (P > 0.) c.check(P > P0[i], "ramp", S() << "runaway power of cell " << i << " does not grow: " << P0[i] << " -> " << P); }
        double P = 0.; for (int i = 0; i < B.n; ++i) P += B.b.mCells[i].getRunawayPower(); c.checkNear(B.b.getHeat(), P, 1e-6, 1e-6, "heat", "battery heat");
    }
    for (int i = 0; i < B.n; ++i) {
        const int due = 1 + int(per) * i; if (due + N + 3 > last) continue;
        c.check(began[i] == due, "cascade", S() << "cell " << i << " starts at step " << began[i] << ", due at " << due);
        c.check(ended[i] > 0 && std::abs(ended[i] - began[i] + 1 - N) <= 2, "duration", S() << "cell " << i << " empties in " << ended[i] - began[i] + 1 << " steps, due in " << N);
        c.checkNear(heat[i], E, 3. / N, 0., "energy", S() << "heat released by cell " << i << " against the energy stored"); c.nontrivial();
    }
}

FACET(reject, 3000, 20000, "an invalid configuration or input") {
    Batt B; B.gen(c); el::Circuit k(1); bool ok = true; switch (c.i(0, 6)) { case 0: B.Ri = -c.lr(1e-9, 1.); ok = false; break; case 1: B.n = -c.i(0, 1); ok = false; break; case 2: B.R = -c.lr(1e-9, 1.); ok = false; break; case 3: B.soc = c.b() ? -c.lr(1e-9, 1.) : 1. + c.lr(1e-9, 1.); ok = false; break; case 4: B.Q = c.b() ? 0. : -c.lr(1e-9, 1.); ok = false; break; case 5: B.t.t.reset(); ok = false; break; default: break; }
    if (B.n < 0) B.n = 0;
    bool threw = false; try { B.add(k, k.gnd(), 0); } catch (...) { threw = true; }
    c.check(threw == !ok, "rejects", S() << (ok ? "valid data refused" : "invalid data accepted")); c.check(B.b.isInitialized() == ok, "init-flag", "initialized flag"); if (!ok) c.nontrivial();
}
