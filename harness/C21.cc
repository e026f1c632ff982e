// C21: distributed interfaces agree on roles whatever the delays and histories, and neither lose nor create flow.
#include "core/GunnsFluidDistributedIf.hh"
#include "aspects/electrical/PowerBus/GunnsElectDistributedIf.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/fluid/conductor/GunnsFluidEqConductor.hh"
#include "interop/Distributed2WayBusFluid.hh"
#include "interop/Distributed2WayBusElect.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "fluidnet.hh"
#include "elec.hh"
using namespace fn;
namespace {
typedef Distributed2WayBusFluidInterfaceData FData;
std::vector<double> fracs(const double* p, int n) { return p ? std::vector<double>(p, p + n) : std::vector<double>(); }
std::vector<double> resized(std::vector<double> v, int n) { v.resize(n, 0.); return v; }
class FBus : public Distributed2WayBusFluid { public: int latency() const { return mLoopLatency; } };
class EBus : public Distributed2WayBusElect { public: int latency() const { return mLoopLatency; } };
double badValue(Case& c) { return c.b(0.3) ? std::nan("") : -c.lr(1e-9, 1.); }
}
FACET(data, 3000, 60000, "two mixtures of different sizes, with a copy either way") {
    const int n[2] = {c.i(0, 5), c.i(0, 5)}, t[2] = {c.i(0, 4), c.i(0, 4)}; FData d[2]; std::vector<double> f[2], g[2]; c.log() << "bulk " << n[0] << " and " << n[1] << " trace " << t[0] << " and " << t[1] << "\n";
    for (int k = 0; k < 2; ++k) { d[k].initialize(n[k], t[k]); f[k].assign(n[k], 0.); g[k].assign(t[k], 0.); }
    auto same = [&](int k, const char* tag) { c.check(fracs(d[k].mMoleFractions, n[k]) == f[k], tag, S() << "fractions of side " << k); c.check(fracs(d[k].mTcMoleFractions, t[k]) == g[k], tag, S() << "trace fractions of side " << k); }; same(0, "initial"); same(1, "initial"); bool copied = false;
    for (int q = 0, N = c.i(1, 12); q < N; ++q) { const int k = c.raw(2);
        switch (c.raw(4)) { case 0: { std::vector<double> v = genFractions(c, c.i(1, 6)); d[k].setMoleFractions(&v[0], v.size()); f[k] = resized(v, n[k]); same(k, "set"); break; }
            case 1: { std::vector<double> v = genFractions(c, c.i(1, 6)); d[k].setTcMoleFractions(&v[0], v.size()); g[k] = resized(v, t[k]); same(k, "set"); break; }
            case 2: { d[k].mEnergy = c.lr(1., 1e6); d[k].mCapacitance = c.lr(1e-9, 1.); d[k].mSource = c.sr(1e-6, 1e6); d[k].mFrameCount = c.i(0, 1000); d[k].mFrameLoopback = c.i(0, 1000); d[k].mDemandMode = c.b(); d[1 - k] = d[k]; copied = true; for (int i = 0; i < std::min(n[0], n[1]); ++i) f[1 - k][i] = f[k][i]; for (int i = 0; i < std::min(t[0], t[1]); ++i) g[1 - k][i] = g[k][i]; same(0, "copy"); same(1, "copy");
                c.check(d[0].mEnergy == d[1].mEnergy && d[0].mCapacitance == d[1].mCapacitance && d[0].mSource == d[1].mSource && d[0].mFrameCount == d[1].mFrameCount && d[0].mFrameLoopback == d[1].mFrameLoopback && d[0].mDemandMode == d[1].mDemandMode, "copy", "scalars"); break; }
            default: { std::vector<double> v(8, 7.), w(8, 7.); const int a = c.i(0, 7), b = c.i(0, 7); d[k].getMoleFractions(&v[0], a); d[k].getTcMoleFractions(&w[0], b); for (int i = 0; i < 8; ++i) { c.check(v[i] == (i >= a ? 7. : i < n[k] ? f[k][i] : 0.), "get", S() << "bulk " << i << " of " << a << " is " << v[i]); c.check(w[i] == (i >= b ? 7. : i < t[k] ? g[k][i] : 0.), "get", S() << "trace " << i << " of " << b << " is " << w[i]); } } } }
    // what counts as valid
    FData& x = d[0]; x.mFrameCount = c.i(1, 1000); x.mEnergy = c.lr(1e-3, 1e6); x.mCapacitance = c.b(0.2) ? 0. : c.lr(1e-9, 1.); x.mDemandMode = c.b(); x.mSource = x.mDemandMode ? c.sr(1e-6, 1e3) : c.b(0.2) ? 0. : c.lr(1e-6, 1e6); std::vector<double> v = genFractions(c, 6); x.setMoleFractions(&v[0], 6); x.setTcMoleFractions(&v[0], 6); c.check(x.hasValidData(), "valid", "good data was refused");
    std::vector<int> ways; for (int i = 0; i < 4; ++i) if (i != 3 || !x.mDemandMode) ways.push_back(i); if (n[0]) ways.push_back(4); if (t[0]) ways.push_back(5); const int w = c.pick(ways);
    switch (w) { case 0: x.mFrameCount = 0; break; case 1: x.mEnergy = c.b(0.3) ? 0. : badValue(c); break; case 2: x.mCapacitance = badValue(c); break; case 3: x.mSource = badValue(c); break; case 4: x.mMoleFractions[c.raw(n[0])] = badValue(c); break; default: x.mTcMoleFractions[c.raw(t[0])] = badValue(c); }
    c.check(!x.hasValidData(), "invalid", S() << "bad data of kind " << w << " was accepted"); if (copied && (n[0] != n[1] || t[0] != t[1])) c.nontrivial();
}
namespace {
// Messages in flight from one side to the other.
struct Msg { int count, loop; bool demand; double cap, source, energy; std::vector<double> f, t; bool ok; Msg() : count(0), loop(0), demand(false), cap(0.), source(0.), energy(0.), ok(false) {} };
struct Wire { int delay; std::vector<std::pair<int, Msg> > sent; Msg last; bool any; Wire() : delay(1), any(false) {}
    void send(int t, const Msg& m) { sent.push_back(std::make_pair(t, m)); }
    // The newest message that has had time to arrive; what was received before when the line is down.
    const Msg& at(int t, bool up) { if (up) while (!sent.empty() && sent.front().first + delay <= t) { last = sent.front().second; any = true; sent.erase(sent.begin()); } return last; } };
struct Side { int period, phase, start; Side() : period(1), phase(0), start(0) {} bool runs(int t) const { return t >= start && (t - start) % period == 0; } };
// What a side of the fluid interface has to do, by its documentation.
struct RefFluid { bool master, demand, lastIn; int since, latency, count, loop, forced; double cap, source;
    RefFluid(bool m) : master(m), demand(false), lastIn(false), since(0), latency(0), count(0), loop(0), forced(0), cap(0.), source(0.) {}
    bool flip(bool d) { if (forced == (d ? 1 : 2)) return false; demand = d; since = 0; return true; }
    bool input(const Msg& in) { ++count; ++since; latency = count - in.loop; loop = in.count; const bool was = demand;
        if (forced == 2 && !demand) flip(true); else if (forced == 1 && demand) flip(false);
        else if (in.ok) { if (demand && in.demand) { if (!lastIn || since > latency) flip(false); } else if (!demand && !in.demand && (cap < in.cap || (cap == in.cap && master))) flip(true); lastIn = in.demand; }
        return was != demand; }
    bool output(double C, const Msg& in) { cap = C; if (!demand && since > latency && cap * 1.25 < in.cap) { if (flip(true)) { source = 0.; return true; } source = 0.; } return false; } };
}
FACET(fluid_roles, 3000, 60000, "roles were exchanged after the start, with delay, lost or bad data or forced roles in the history") {
    const int nf = c.i(1, 3), nt = c.i(0, 2), master = c.raw(2); Side sd[2]; Wire w[2]; int slow = 1; for (int k = 0; k < 2; ++k) { sd[k].period = c.b(0.7) ? 1 : c.i(1, 4); sd[k].start = c.b(0.5) ? 0 : c.i(0, 30); w[k].delay = c.b(0.3) ? 1 : c.i(0, 12); slow = std::max(slow, sd[k].period); }
    const int loop = (w[0].delay + w[1].delay + 2 * slow + 2), settle = 12 * loop + 60, M = c.i(20, 200), N = M + settle + 6 * loop + 60; c.log() << "periods " << sd[0].period << " " << sd[1].period << " starts " << sd[0].start << " " << sd[1].start << " delays " << w[0].delay << " " << w[1].delay << " master " << master << " frozen from " << M << "\n";
    FBus bus[2]; std::vector<RefFluid> ref; double cap[2]; bool up[2] = {true, true}; int bad[2] = {0, 0}, flips = 0, late = 0; bool odd = loop > 6; for (int k = 0; k < 2; ++k) { bus[k].initialize(k == master, nf, nt); ref.push_back(RefFluid(k == master)); cap[k] = c.lr(1e-6, 1e-2); }
    for (int t = 0; t < N; ++t) {
        if (t < M) for (int k = 0; k < 2; ++k) if (c.b(0.06)) switch (c.weighted({5, 1, 1, 1, 1})) { case 0: cap[k] = c.b(0.2) ? cap[1 - k] : c.b(0.5) ? cap[1 - k] * c.r(0.7, 1.4) : c.b(0.05) ? 0. : c.lr(1e-6, 1e-2); break; case 1: up[k] = !up[k]; odd = true; break; case 2: bad[k] = c.i(0, 6); odd = true; break; case 3: ref[k].forced = c.i(0, 2); if (ref[k].forced == 1) bus[k].forceSupplyRole(); else if (ref[k].forced == 2) bus[k].forceDemandRole(); else bus[k].resetForceRole(); odd = true; break; default: break; }
        if (t == M) { if (c.b(0.2)) cap[0] = cap[1]; for (int k = 0; k < 2; ++k) { up[k] = true; bad[k] = 0; ref[k].forced = 0; bus[k].resetForceRole(); } }
        for (int k = 0; k < 2; ++k) { if (!sd[k].runs(t)) continue; FBus& b = bus[k]; RefFluid& r = ref[k]; Msg in = w[1 - k].at(t, up[1 - k]); const bool corrupt = bad[1 - k] && w[1 - k].any; const std::string at = S() << "tick " << t << " side " << k;
            b.mInData.mFrameCount = in.count; b.mInData.mFrameLoopback = in.loop; b.mInData.mDemandMode = in.demand; b.mInData.mCapacitance = in.cap; b.mInData.mSource = in.source; b.mInData.mEnergy = in.energy; for (int i = 0; i < nf; ++i) b.mInData.mMoleFractions[i] = i < (int)in.f.size() ? in.f[i] : 0.; for (int i = 0; i < nt; ++i) b.mInData.mTcMoleFractions[i] = i < (int)in.t.size() ? in.t[i] : 0.;
            if (corrupt) { const double x = badValue(c); switch (bad[1 - k]) { case 1: b.mInData.mEnergy = x; break; case 2: b.mInData.mCapacitance = in.cap = x; break; case 3: b.mInData.mMoleFractions[c.raw(nf)] = x; break; case 4: b.mInData.mFrameCount = in.count = 0; break; case 5: b.mInData.mSource = in.demand ? std::nan("") : x; break; default: if (nt) b.mInData.mTcMoleFractions[c.raw(nt)] = x; else b.mInData.mEnergy = 0.; } in.ok = false; }
            b.processInputs(); const bool f1 = r.input(in); c.check(b.isInDemandRole() == r.demand, "role-on-input", S() << at << " demand role " << b.isInDemandRole() << " expected " << r.demand << " (in: demand " << in.demand << " cap " << in.cap << " valid " << in.ok << ")");
            c.check(b.latency() == r.latency, "latency", S() << at << " measured " << b.latency() << " expected " << r.latency); c.check(b.mOutData.mFrameCount == r.count && b.mOutData.mFrameLoopback == r.loop, "frame-count", at);
            if (in.ok && up[0] && up[1] && t > M + 3 * loop && sd[0].period == sd[1].period) c.check(r.latency >= 1 && r.latency * sd[k].period <= w[0].delay + w[1].delay + 2 * slow, "latency-range", S() << at << " latency " << r.latency);
            // what comes in reaches the model only in the right roles
            Distributed2WayBusFluidFluidState fs; Distributed2WayBusFluidFlowState fl; fs.initialize(nf, nt); fl.initialize(nf, nt); fs.mPressure = fl.mFlowRate = -77.; fs.mEnergy = fl.mEnergy = -5.; const bool gs = b.getFluidState(fs), gl = b.getFlowState(fl); c.check(gs == (r.demand && in.ok && !in.demand), "fluid-state", at); c.check(gl == (!r.demand && in.ok && in.demand), "flow-state", at);
            c.check(gs ? fs.mPressure == in.source && fs.mEnergy == in.energy && fracs(fs.mMoleFractions, nf) == in.f && fracs(fs.mTcMoleFractions, nt) == in.t : fs.mPressure == -77. && fs.mEnergy == -5. && fracs(fs.mMoleFractions, nf) == std::vector<double>(nf, 0.), "fluid-state", at); c.check(gl ? fl.mFlowRate == in.source && fl.mEnergy == in.energy && fracs(fl.mMoleFractions, nf) == in.f && fracs(fl.mTcMoleFractions, nt) == in.t : fl.mFlowRate == -77. && fl.mEnergy == -5. && fracs(fl.mMoleFractions, nf) == std::vector<double>(nf, 0.), "flow-state", at);
            // demand limit
            { const double dt = c.b(0.05) ? 0. : c.lr(1e-3, 1.), P = c.r(0., 2e5); double g = 0., q = 0.; const double Cs = in.cap, Cd = r.cap; if (r.demand && !in.demand && dt > 1e-15 && Cd > DBL_EPSILON && Cs > DBL_EPSILON) { const double lag = std::min(1., 1.5 * std::pow(0.75, std::min(100, std::max(1, r.latency)))), s = std::min(1.25, std::max(1., Cs / Cd)); g = lag + (1. - lag) * (s - 1.) / 0.25; q = g * std::fabs(P - in.source) / dt / (1. / Cs + 1. / Cd); } if (!corrupt) { c.checkNear(b.computeDemandLimit(dt, P), q, 1e-12, 0., "demand-limit", at); c.checkNear(b.getDemandLimitGain(), g, 1e-12, 0., "demand-gain", at); c.check(b.getDemandLimitGain() >= 0. && b.getDemandLimitGain() <= 1. + 1e-12, "gain-range", at); } }
            // outputs, sometimes into the wrong role
            for (int q = 0; q < 2; ++q) { Distributed2WayBusFluidFluidState x; Distributed2WayBusFluidFlowState y; if (q == 1 && !c.b(0.1)) continue; const bool dem = (q == 0) == r.demand; const std::vector<double> a = genFractions(c, nf), z = genFractions(c, std::max(1, nt)); const double src = dem ? c.sr(1e-3, 100.) : c.lr(1e3, 1e6), en = c.lr(100., 1e5); const FData& o = b.mOutData; const double s0 = o.mSource, e0 = o.mEnergy; const std::vector<double> f0 = fracs(o.mMoleFractions, nf);
                if (dem) { y.initialize(nf, nt); y.mFlowRate = src; y.mEnergy = en; y.setMoleFractions(&a[0], nf); y.setTcMoleFractions(&z[0], nt); b.setFlowState(y); } else { x.initialize(nf, nt); x.mPressure = src; x.mEnergy = en; x.setMoleFractions(&a[0], nf); x.setTcMoleFractions(&z[0], nt); b.setFluidState(x); }
                if (q == 0) { r.source = src; c.check(o.mSource == src && o.mEnergy == en && fracs(o.mMoleFractions, nf) == a && fracs(o.mTcMoleFractions, nt) == resized(z, nt), "set-state", at); } else c.check(o.mSource == s0 && o.mEnergy == e0 && fracs(o.mMoleFractions, nf) == f0, "wrong-role", S() << at << " data set in the wrong role went out"); }
            b.processOutputs(cap[k]); if (corrupt && bad[1 - k] == 2) r.cap = cap[k]; const bool f2 = r.output(cap[k], in); c.check(b.isInDemandRole() == r.demand, "role-on-output", S() << at << " demand role " << b.isInDemandRole() << " expected " << r.demand << " since " << r.since << " latency " << r.latency << " caps " << cap[k] << " " << in.cap); c.check(b.mOutData.mCapacitance == cap[k], "capacitance", at); c.check(b.mOutData.mSource == r.source, "source-out", at);
            Distributed2WayBusNotification note; int n = 0, warn = 0; unsigned left; do { left = b.popNotification(note); if (note.mLevel == Distributed2WayBusNotification::INFO) ++n; if (note.mLevel == Distributed2WayBusNotification::WARN) ++warn; } while (left > 0); c.check((n > 0) == (f1 || f2), "notification", S() << at << " " << n << " notices");
            if (f1 || f2) { c.log() << at << " now " << (r.demand ? "demand" : "supply") << (f1 ? " on input" : " on output") << " cap " << cap[k] << " other " << in.cap << " since " << r.since << " latency " << r.latency << (in.ok ? "" : " invalid") << "\n"; if (t > sd[1 - k].start && t > sd[k].start + loop) ++flips; if (t >= M + settle) ++late; }
            Msg o; o.count = b.mOutData.mFrameCount; o.loop = b.mOutData.mFrameLoopback; o.demand = b.mOutData.mDemandMode; o.cap = b.mOutData.mCapacitance; o.source = b.mOutData.mSource; o.energy = b.mOutData.mEnergy; o.f = fracs(b.mOutData.mMoleFractions, nf); o.t = fracs(b.mOutData.mTcMoleFractions, nt); o.ok = true; w[k].send(t, o); }
        if (t >= M + settle) c.check(ref[0].demand != ref[1].demand && late == 0, "settled", S() << "tick " << t << " both " << (ref[0].demand ? "demand" : "supply") << " or still changing, frozen since " << M << " capacitances " << cap[0] << " " << cap[1]);
    }
    const int s = ref[0].demand ? 1 : 0; c.check(cap[s] * 1.25 >= cap[1 - s], "supply-capacitance", S() << "supply side has " << cap[s] << " demand side " << cap[1 - s]); if (flips >= 2 && odd) c.nontrivial();
}
FACET(stability, 1500, 30000, "demand side limited below its own demand while the pressures come together") {
    // Two volumes tied by an interface whose demand side keeps its flow within the limit given.
    const double dt = c.lr(0.01, 1.), Cs = c.lr(1e-6, 1e-2), Cd = Cs / (c.b(0.5) ? c.r(1., 1.25) : c.lr(1.25, 1e3)); double P[2] = {c.r(1e4, 2e5), c.r(1e4, 2e5)}; Wire w[2]; for (int k = 0; k < 2; ++k) w[k].delay = c.i(1, 8); Distributed2WayBusFluid bus[2]; for (int k = 0; k < 2; ++k) bus[k].initialize(k == 1, 1, 0);
    const double d0 = std::fabs(P[0] - P[1]); double peak = 0.; bool limited = false; c.log() << "supply capacitance " << Cs << " demand " << Cd << " delays " << w[0].delay << " " << w[1].delay << " pressures " << P[0] << " " << P[1] << "\n"; const double one = 1.; const int N = 400 + 100 * (w[0].delay + w[1].delay);
    for (int t = 0; t < N; ++t) { for (int k = 0; k < 2; ++k) { Distributed2WayBusFluid& b = bus[k]; const Msg& in = w[1 - k].at(t, true); b.mInData.mFrameCount = in.count; b.mInData.mFrameLoopback = in.loop; b.mInData.mDemandMode = in.demand; b.mInData.mCapacitance = in.cap; b.mInData.mSource = in.source; b.mInData.mEnergy = in.energy; b.mInData.mMoleFractions[0] = in.ok ? 1. : 0.; b.processInputs();
            Distributed2WayBusFluidFluidState fs; Distributed2WayBusFluidFlowState fl; fs.initialize(1, 0); fl.initialize(1, 0); fs.mEnergy = fl.mEnergy = 300.; fs.setMoleFractions(&one, 1); fl.setMoleFractions(&one, 1);
            if (b.isInDemandRole()) { double q = 0.; if (b.getFluidState(fs)) { const double lim = b.computeDemandLimit(dt, P[k]); q = (fs.mPressure - P[k] > 0. ? 1. : -1.) * lim; if (b.getDemandLimitGain() < 1. && t > 50) limited = true; } P[k] += q * dt / (k == 0 ? Cs : Cd); fl.mFlowRate = q; b.setFlowState(fl); }
            else { if (b.getFlowState(fl)) P[k] -= fl.mFlowRate * dt / (k == 0 ? Cs : Cd); fs.mPressure = P[k]; b.setFluidState(fs); }
            b.processOutputs(k == 0 ? Cs : Cd); Msg o; o.count = b.mOutData.mFrameCount; o.loop = b.mOutData.mFrameLoopback; o.demand = b.mOutData.mDemandMode; o.cap = b.mOutData.mCapacitance; o.source = b.mOutData.mSource; o.energy = b.mOutData.mEnergy; o.ok = true; w[k].send(t, o); }
        if (t > N / 2) peak = std::max(peak, std::fabs(P[0] - P[1])); }
    c.check(bus[0].isInDemandRole() != bus[1].isInDemandRole(), "roles", "both in the same role"); c.check(peak <= 1.5 * d0 + 1., "stable", S() << "difference of pressures was " << d0 << " and still reaches " << peak); if (limited && d0 > 100.) c.nontrivial();
}
namespace {
// What a side of the electrical interface has to do, by its documentation.
struct RefElect { bool prim, demand; int since, latency, count, loop, forced; RefElect(bool primary) : prim(primary), demand(!primary), since(0), latency(0), count(0), loop(0), forced(0) {}
    void frame(int inCount, int inLoop) { ++count; ++since; latency = count - inLoop; loop = inCount; }
    bool update(float avail, bool inDemand, float inV, int inLoop) { if (forced) { demand = forced == 2; return false; } if (inLoop <= 0) return false; if (demand) { if (inDemand && since > latency) { demand = false; since = 0; return true; } } else if (avail < inV || (!inDemand && !prim && since > latency)) { demand = true; since = 0; return true; } return false; } };
}
FACET(elect_roles, 3000, 60000, "roles exchanged at least twice after the start, with delay, lost data or forced roles in the history") {
    Side sd[2]; Wire w[2]; int slow = 1; for (int k = 0; k < 2; ++k) { sd[k].period = c.b(0.7) ? 1 : c.i(1, 4); sd[k].start = c.b(0.5) ? 0 : c.i(0, 30); w[k].delay = c.b(0.3) ? 1 : c.i(0, 12); slow = std::max(slow, sd[k].period); }
    const int loop = (w[0].delay + w[1].delay + 2 * slow + 2), settle = 12 * loop + 60, M = c.i(20, 200), N = M + settle + 6 * loop + 60, prim = c.raw(2); c.log() << "periods " << sd[0].period << " " << sd[1].period << " starts " << sd[0].start << " " << sd[1].start << " delays " << w[0].delay << " " << w[1].delay << " primary " << prim << " frozen from " << M << "\n";
    EBus bus[2]; std::vector<RefElect> ref; std::vector<Distributed2WayBusElectSupplyData*> sup[2]; float load[2], init[2], droop[2]; bool up[2] = {true, true}; int flips = 0, late = 0; bool odd = loop > 6; Msg first[2];
    auto volts = [&](int k) { float v = 0.f; for (size_t i = 0; i < sup[k].size(); ++i) if (sup[k][i]->mAvailable) v = std::max(v, sup[k][i]->mMaximumVoltage); return v; };
    for (int k = 0; k < 2; ++k) { init[k] = c.b() ? 0.f : (float)c.r(0., 150.); bus[k].initialize(k == prim, init[k]); ref.push_back(RefElect(k == prim)); load[k] = (float)c.r(0., 1e4); droop[k] = c.b() ? 0.f : (float)c.r(0., 0.05); for (int i = c.i(0, 3); i > 0; --i) sup[k].push_back(bus[k].createSupplyData()); first[k].demand = k == prim; first[k].source = init[k]; w[1 - k].last = first[k]; c.check(bus[k].isInDemandRole() == (k != prim), "start-role", S() << "side " << k); c.check(bus[k].getRemoteLoad() == 0.f && bus[k].getRemoteSupply() == init[k], "start-data", S() << "side " << k); }
    auto vary = [&](int k) { for (size_t i = 0; i < sup[k].size(); ++i) if (c.b(0.6)) { sup[k][i]->mAvailable = c.b(0.7); sup[k][i]->mMaximumVoltage = c.b(0.2) ? 120.f : (float)c.r(0., 160.); } }; vary(0); vary(1);
    for (int t = 0; t < N; ++t) {
        if (t < M) for (int k = 0; k < 2; ++k) if (c.b(0.06)) switch (c.weighted({6, 1, 1, 1})) { case 0: vary(k); break; case 1: up[k] = !up[k]; odd = true; break; case 2: ref[k].forced = c.i(0, 2); if (ref[k].forced == 1) bus[k].forceSupplyRole(); else if (ref[k].forced == 2) bus[k].forceDemandRole(); else bus[k].resetForceRole(); odd = true; break; default: load[k] = (float)c.r(0., 1e4); }
        if (t == M) for (int k = 0; k < 2; ++k) { up[k] = true; ref[k].forced = 0; bus[k].resetForceRole(); }
        for (int k = 0; k < 2; ++k) { if (!sd[k].runs(t)) continue; EBus& b = bus[k]; RefElect& r = ref[k]; const Msg& in = w[1 - k].at(t, up[1 - k]); const std::string at = S() << "tick " << t << " side " << k;
            b.mInData.mFrameCount = in.count; b.mInData.mFrameLoopback = in.loop; b.mInData.mDemandMode = in.demand; b.mInData.mSupplyVoltage = (float)in.source; b.mInData.mDemandPower = (float)in.energy; b.processInputs(); r.frame(in.count, in.loop); c.check(b.latency() == r.latency, "latency", at); c.check(b.isInDemandRole() == r.demand, "role-on-input", at);
            for (int q = 0, n = c.i(1, 3); q < n; ++q) { const float avail = volts(k), V = r.demand ? (float)in.source : avail * (1.f - droop[k]); const bool flip = r.update(avail, in.demand, (float)in.source, in.loop); b.update(V, load[k]); c.check(b.isInDemandRole() == r.demand, "role", S() << at << " demand role " << b.isInDemandRole() << " expected " << r.demand << " available " << avail << " remote " << in.source << " remote demand " << in.demand << " since " << r.since << " latency " << r.latency);
                c.check(b.mOutData.mSupplyVoltage == (r.demand ? avail : V), "voltage-out", S() << at << " sent " << b.mOutData.mSupplyVoltage << " available " << avail << " local " << V); c.check(b.mOutData.mDemandPower == (r.demand ? load[k] : 0.f), "power-out", at); c.check(b.getRemoteLoad() == (r.demand ? 0.f : (float)in.energy), "remote-load", at); c.check(b.getRemoteSupply() == (float)in.source, "remote-supply", at);
                Distributed2WayBusNotification note; int cnt = 0; unsigned left; do { left = b.popNotification(note); if (note.mLevel == Distributed2WayBusNotification::INFO) ++cnt; } while (left > 0); c.check((cnt > 0) == flip, "notification", at); if (flip) { if (t > sd[k].start + loop) ++flips; if (t >= M + settle) ++late; } }
            c.check(b.mOutData.mFrameCount == r.count && b.mOutData.mFrameLoopback == r.loop, "frame-count", at); Msg o; o.count = b.mOutData.mFrameCount; o.loop = b.mOutData.mFrameLoopback; o.demand = b.mOutData.mDemandMode; o.source = b.mOutData.mSupplyVoltage; o.energy = b.mOutData.mDemandPower; w[k].send(t, o); }
        if (t >= M + settle) c.check(ref[0].demand != ref[1].demand && late == 0, "settled", S() << "tick " << t << " both " << (ref[0].demand ? "demand" : "supply") << " or still changing, frozen since " << M << " voltages " << volts(0) << " " << volts(1));
    }
    const int s = ref[0].demand ? 1 : 0; c.check(volts(s) >= volts(1 - s), "supply-voltage", S() << "supply side has " << volts(s) << " demand side " << volts(1 - s)); if (flips >= 2 && odd) c.nontrivial();
}
namespace {
class FluidIf : public GunnsFluidDistributedIf { public: using GunnsFluidDistributedIf::mInterface; bool demandInStep; FluidIf() : demandInStep(false) {} virtual void step(const double dt) { demandInStep = mInterface.isInDemandRole(); GunnsFluidDistributedIf::step(dt); } };
struct Inv { std::vector<double> m, tc; double e, scale; };
Inv hold(FluidNet& f, bool skip0) { Inv v; v.m.assign(f.spec.types.size(), 0.); v.tc.assign(f.spec.tcs.size(), 0.); v.e = v.scale = 0.; for (int k = skip0 ? 1 : 0; k < f.n(); ++k) { const State s = snap(*f.nodes[k].getContent()); for (size_t i = 0; i < v.m.size(); ++i) v.m[i] += s.mass * s.mf[i]; for (size_t i = 0; i < v.tc.size(); ++i) v.tc[i] += s.tcMass[i]; v.e += s.mass * s.h; v.scale += s.mass; } return v; }
bool stepped(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
// One side of a fluid interface: the interface's node 0 and a tank behind a conductor.
struct FluidSide { FluidNet f; FluidIf x; bool last; FluidSide(const FSpec& s) : f(s, false), last(false) {} };
// What a molar flow of a reported mixture and energy amounts to.
void worth(FluidNet& f, double moles, const double* fr, const double* tc, double energy, bool enthalpy, double P, Inv& v) { const int n = f.spec.types.size(); std::vector<double> mf(n, 0.); double m = 0., sum = 0.; for (int i = 0; i < n; ++i) { v.m[i] = moles * fr[i] * prop(f.spec.types[i])->getMWeight(); m += v.m[i]; mf[i] = fr[i] * prop(f.spec.types[i])->getMWeight(); sum += mf[i]; } for (size_t i = 0; i < f.spec.tcs.size(); ++i) v.tc[i] = moles * tc[i] * f.tcCfg.mCompounds[i]->mMWeight; if (sum <= 0.) { v.e = 0.; return; } for (int i = 0; i < n; ++i) mf[i] /= sum; double h = energy; if (!enthalpy) { PolyFluid p(f.cfg, PolyFluidInputData(energy, P, 0., 0., &mf[0])); h = p.getSpecificEnthalpy(); } v.e = m * h; v.scale = std::fabs(m); }
}
FACET(fluid_networks, 600, 12000, "flow crossed the interface both before and after a change of the networks, each side having taken it at some time") {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; FSpec s = genFluid(c, g); s.links.clear(); s.nodes[0].exF = 0.; s.nodes.push_back(s.nodes[0]); const bool enth = c.b(0.3); const double dt = c.pickOf<double>({0.1, 0.05, 1.}); const bool close = c.b(), option = c.b(0.3); FSpec sp[2]; std::unique_ptr<FluidSide> X[2]; Wire w[2]; std::vector<std::pair<int, std::unique_ptr<GunnsFluidDistributedIfData> > > fly[2]; const int master = c.raw(2), over = c.b(0.25) ? c.i(0, 2) : -1; for (int k = 0; k < 2; ++k) w[k].delay = c.i(1, 6);
    const double P0 = s.nodes[0].P, v0 = c.lr(0.1, 10.);
    for (int k = 0; k < 2; ++k) { sp[k] = s; for (int q = 0; q < 2; ++q) { FNode& x = sp[k].nodes[q]; if (q == 0) { x.mf = genFractions(c, (int)s.types.size(), false); x.T = s.gas ? c.r(230., 450.) : c.r(s.Tlo + 10., s.Thi - 10.); x.P = close ? P0 * c.r(0.9, 1.1) : c.lr(s.gas ? 50. : 100., 500.); for (size_t i = 0; i < s.tcs.size(); ++i) x.tc[i] = c.lr(1e-9, 1e-3); } else { x = sp[k].nodes[0]; if (c.b(0.3)) x.P *= c.r(0.7, 1.4); } x.vol = q == 0 ? v0 : v0 * c.lr(1., 1000.); }
        FLink l; l.type = COND; l.p0 = 0; l.p1 = 1; l.a = s.gas ? c.lr(1e-6, 1e-4) : c.lr(1e-7, 1e-5); sp[k].links.push_back(l); }
    for (int k = 0; k < 2; ++k) { X[k].reset(new FluidSide(sp[k])); FluidSide& y = *X[k]; GunnsFluidDistributedIfConfigData cc("if", &y.f.nl, k == master, enth, option, y.f.caps[0]); if (over >= 0) cc.overrideInterfaceMixtureSizes(s.types.size() + over, s.tcs.size() + over); y.x.initialize(cc, GunnsFluidDistributedIfInputData(), y.f.links, 0); y.f.start(); c.log() << "side " << k << " delay " << w[k].delay << (k == master ? " master" : "") << "\n"; logFluid(c.log(), y.f.spec); }
    bool changed = false, before = false, after = false, dem[2] = {false, false}, good[2] = {false, false}; double big = 0., tail = 0.; const int M = c.i(40, 200), N = M + 60; const int ev = c.i(15, M); int lastEv = 0;
    for (int t = 0; t < N; ++t) for (int k = 0; k < 2; ++k) {
        FluidSide& y = *X[k]; FluidNet& f = y.f; FluidIf& x = y.x; const std::string at = S() << "step " << t << " side " << k;
        { std::vector<std::pair<int, std::unique_ptr<GunnsFluidDistributedIfData> > >& q = fly[1 - k]; while (!q.empty() && q.front().first + w[1 - k].delay <= t) { x.mInData.Distributed2WayBusFluidInterfaceData::operator=(*q.front().second); q.erase(q.begin()); } }
        if (t < M && (t == ev || c.b(0.02))) { changed = true; lastEv = t; after = false; FLink& l = f.spec.links[0]; if (c.b()) { l.blk = !l.blk; l.blkV = c.b(0.5) ? 1. : c.r(0., 1.); } else l.a = s.gas ? c.lr(1e-6, 1e-4) : c.lr(1e-7, 1e-5); f.apply(f.spec); if (c.b(0.2)) { x.mInterface.resetForceRole(); if (c.b()) x.mInterface.forceDemandRole(); c.log() << at << " forces\n"; } }
        if (t == M) x.mInterface.resetForceRole();
        const Inv b0 = hold(f, false), b1 = hold(f, true); const bool was = y.last; const double vol0 = f.nodes[0].getVolume(); (void)vol0; if (!stepped(f, dt)) c.discard(); const bool d = x.demandInStep; y.last = x.mInterface.isInDemandRole(); const FData& in = x.mInterface.mInData; const FData& out = x.mInterface.mOutData;
        for (int q = d ? 1 : 0; q < 2; ++q) { const State z = snap(*f.nodes[q].getContent()); if (z.P < 1. || z.P > 5e4 || (s.gas ? z.T < 150. || z.T > 800. : z.T < s.Tlo || z.T > s.Thi)) c.discard(); }
        c.checkNear(f.nodes[0].getVolume(), d ? 0. : v0, 1e-12, 0., "interface-volume", at); if (d) dem[k] = true; good[k] = in.hasValidData();
        c.check(x.mOutData.mDemandMode == out.mDemandMode && x.mOutData.mFrameCount == out.mFrameCount && x.mOutData.mSource == out.mSource && x.mOutData.mEnergy == out.mEnergy && x.mOutData.mCapacitance == out.mCapacitance, "output-data", at);
        c.check(std::isfinite(f.nodes[0].getPotential()) && std::isfinite(f.nodes[1].getPotential()), "finite", at);
        Inv want = b0; want.m.assign(want.m.size(), 0.); want.tc.assign(want.tc.size(), 0.); want.e = want.scale = 0.; const double P = std::max(1., f.nodes[0].getContent()->getPressure()), noise = 50. * dt * (2e-14 + 2e-12 * P * (VptFriend::admittance(x) + VptFriend::admittance(*f.user[0])));
        if (!d) { // supply: takes the flow the other side reported, and nothing else
            if (was) continue; // its volume has just been restored
            double n = 0.; if (in.hasValidData() && in.mDemandMode) { n = -in.mSource * 0.001 * dt; worth(f, n, in.mMoleFractions, in.mTcMoleFractions ? in.mTcMoleFractions : 0, in.mEnergy, enth, P, want); }
            if (want.scale > 0.05 * f.nodes[0].getContent()->getMass()) c.discard();
            const Inv e = hold(f, false); { const State z = snap(*f.nodes[0].getContent()); bool over = false; for (size_t i = 0; i < want.m.size(); ++i) if (-want.m[i] > 0.5 * z.mass * z.mf[i]) over = true; for (size_t i = 0; i < want.tc.size(); ++i) if (-want.tc[i] > 0.5 * z.tcMass[i]) over = true; if (over) continue; } for (size_t i = 0; i < want.m.size(); ++i) c.checkNear(e.m[i] - b0.m[i], want.m[i], 1e-6, 1e-11 * b0.scale + 3e-7 * want.scale + noise, "supply-mass", S() << at << " fluid " << i << " flow " << n / dt);  for (size_t i = 0; i < want.tc.size(); ++i) c.checkNear(e.tc[i] - b0.tc[i], want.tc[i], 1e-6, 1e-11 * b0.scale + noise * 1e-3 + 1e-12 * want.scale, "supply-trace", S() << at << " compound " << i << " flow " << n / dt); c.checkNear(e.e - b0.e, want.e, 1e-5, 1e-10 * std::fabs(b0.e) + noise * 1e6, "supply-energy", S() << at << " flow " << n / dt << " energy " << in.mEnergy);
            if (!out.mDemandMode) { c.checkNear(out.mSource, f.nodes[0].getPotential() * 1000., 1e-12, 0., "supply-pressure", at); const State z = snap(*f.nodes[0].getContent()); c.checkNear(out.mEnergy, enth ? z.h : z.T, 1e-12, 0., "supply-temperature", at); double sum = 0., tot = 0., MW = 0.; for (size_t i = 0; i < s.types.size(); ++i) { sum += out.mMoleFractions[i]; MW += z.mf[i] / prop(s.types[i])->getMWeight(); } for (size_t i = 0; i < s.tcs.size(); ++i) sum += out.mTcMoleFractions[i]; tot = 1.; for (size_t i = 0; i < s.tcs.size(); ++i) tot += z.tcMole[i]; c.checkNear(sum, 1., 1e-9, 0., "supply-fractions", at); for (size_t i = 0; i < s.types.size(); ++i) c.checkNear(out.mMoleFractions[i], z.mf[i] / prop(s.types[i])->getMWeight() / MW / tot, 1e-9, 1e-15, "supply-fractions", at); for (size_t i = 0; i < s.tcs.size(); ++i) c.checkNear(out.mTcMoleFractions[i], z.tcMole[i] / tot, 1e-9, 1e-18, "supply-fractions", at); }
        } else { // demand: what it reports is what its own network received
            if (!was || !out.mDemandMode) continue; const double n = out.mSource * 0.001 * dt; worth(f, n, out.mMoleFractions, out.mTcMoleFractions, out.mEnergy, enth, P, want); const Inv e = hold(f, true); if (want.scale > 0.05 * f.nodes[1].getContent()->getMass()) c.discard();
            if (f.spec.links[0].blk && f.spec.links[0].blkV == 1.) { c.check(std::fabs(out.mSource) < 1e-9, "blocked", S() << at << " flow " << out.mSource); continue; } if (want.scale < 1e-12 * dt) continue;
            for (size_t i = 0; i < want.m.size(); ++i) c.checkNear(e.m[i] - b1.m[i], want.m[i], 1e-6, 1e-11 * b1.scale + 3e-7 * want.scale + noise, "demand-mass", S() << at << " fluid " << i << " flow " << n / dt); for (size_t i = 0; i < want.tc.size(); ++i) c.checkNear(e.tc[i] - b1.tc[i], want.tc[i], 1e-6, 1e-11 * b1.scale + noise * 1e-3 + 1e-12 * want.scale, "demand-trace", S() << at << " compound " << i << " flow " << n / dt); c.checkNear(e.e - b1.e, want.e, 1e-5, 1e-10 * std::fabs(b1.e) + noise * 1e6, "demand-energy", S() << at << " flow " << n / dt << " energy " << out.mEnergy);
            if (std::fabs(out.mSource) > 1e-6) { (changed ? after : before) = true; if (t < 60) big = std::max(big, std::fabs(out.mSource)); if (t > N - 15) tail = std::max(tail, std::fabs(out.mSource)); }
        }
        std::unique_ptr<GunnsFluidDistributedIfData> m(new GunnsFluidDistributedIfData); m->initialize(s.types.size() + std::max(0, over), s.tcs.size() + std::max(0, over), "m"); m->Distributed2WayBusFluidInterfaceData::operator=(x.mOutData); fly[k].push_back(std::make_pair(t, std::move(m)));
    }
    (void)lastEv; (void)tail; (void)big; if (before && after && (dem[0] || dem[1])) c.nontrivial();
}
// Two power buses joined by the interface settle to the state of one network, in which the pair is a conductor.
FACET(elect_networks, 500, 10000, "the supply moved from one network to the other during the run and both settled states carried power") {
    const int n = 2; std::unique_ptr<el::Circuit> k[n]; GunnsElectConverterOutput out[n]; GunnsElectDistributedIf x[n]; GunnsBasicConductor* load[n]; double U[n], G[n], GL[n]; bool on[n]; Wire w[n]; const double Gi = c.lr(20., 500.), dt = 0.1; const int prim = c.raw(2); int swaps = 0, powered = 0, lastSupply = -1, loop = 6;
    for (int j = 0; j < n; ++j) { w[j].delay = c.i(1, 6); loop += w[j].delay; U[j] = c.r(60., 160.); G[j] = c.lr(50., 1e3); GL[j] = c.lr(1e-3, 1.); on[j] = c.b(0.7); k[j].reset(new el::Circuit(1)); load[j] = k[j]->cond(GL[j], 0, k[j]->gnd());
        GunnsElectConverterOutputConfigData co("out", &k[j]->nl, GunnsElectConverterOutput::VOLTAGE, G[j], 1.); GunnsElectConverterOutputInputData io(false, 0., true, 200., 0., U[j]); const bool first = c.b(); if (first) out[j].initialize(co, io, k[j]->links, 0);
        GunnsElectDistributedIfConfigData ci("if", &k[j]->nl, j == prim, Gi, 1e-6); ci.addSupply(&out[j]); GunnsElectDistributedIfInputData ii; x[j].initialize(ci, ii, k[j]->links, 0); if (!first) out[j].initialize(co, io, k[j]->links, 0); out[j].setEnabled(on[j]);
        k[j]->start(50, 1e-10); c.log() << "side " << j << (j == prim ? " primary" : "") << " delay " << w[j].delay << " supply " << U[j] << " V through " << G[j] << " load " << GL[j] << (on[j] ? "" : " off") << "\n"; }
    c.log() << "interface conductance " << Gi << "\n"; int t = 0; const int phases = c.i(1, 4);
    for (int p = 0; p < phases; ++p) {
        if (p) for (int e = c.i(1, 2); e > 0; --e) { const int j = c.raw(2); switch (c.weighted({2, 2, 2, 1, 1})) { case 3: x[j].mMalfPowerLoad = !x[j].mMalfPowerLoad; c.log() << "phase " << p << " side " << j << " load malfunction " << x[j].mMalfPowerLoad << "\n"; break; case 4: x[j].mMalfVoltageSource = !x[j].mMalfVoltageSource; c.log() << "phase " << p << " side " << j << " source malfunction " << x[j].mMalfVoltageSource << "\n"; break; case 0: on[j] = !on[j]; out[j].setEnabled(on[j]); c.log() << "phase " << p << " supply " << j << (on[j] ? " on\n" : " off\n"); break; case 1: U[j] = c.r(60., 160.); out[j].setSetpoint(U[j]); c.log() << "phase " << p << " supply " << j << " at " << U[j] << "\n"; break; default: GL[j] = c.lr(1e-3, 1.); load[j]->setDefaultConductivity(GL[j]); c.log() << "phase " << p << " load " << j << " " << GL[j] << "\n"; } }
        const int N = 14 * loop + 60; bool settled = true;
        for (int s = 0; s < N; ++s, ++t) for (int j = 0; j < n; ++j) { const Msg& in = w[1 - j].at(t, true); Distributed2WayBusElectInterfaceData& d = x[j].mInterface.mInData; d.mFrameCount = in.count; d.mFrameLoopback = in.loop; d.mDemandMode = in.demand; d.mSupplyVoltage = (float)in.source; d.mDemandPower = (float)in.energy; settled = k[j]->step(dt) || s < N - 2; if (!settled) break; const Distributed2WayBusElectInterfaceData& q = x[j].mInterface.mOutData; Msg o; o.count = q.mFrameCount; o.loop = q.mFrameLoopback; o.demand = q.mDemandMode; o.source = q.mSupplyVoltage; o.energy = q.mDemandPower; w[j].send(t, o); }
        const std::string at = S() << "phase " << p; if (!settled) { c.label("unsettled"); c.discard(); }
        c.check(x[0].mInterface.isInDemandRole() != x[1].mInterface.isInDemandRole(), "roles", at);
        const int a = x[0].mInterface.isInDemandRole() ? 1 : 0, b = 1 - a; if (std::fabs(U[0] - U[1]) > 1. && (on[0] || on[1])) { const int best = on[0] && on[1] ? (U[0] > U[1] ? 0 : 1) : on[0] ? 0 : 1; if (best == a) ; else c.check(!on[b], "supply-side", S() << at << " side " << a << " supplies"); if (lastSupply >= 0 && lastSupply != a) ++swaps; lastSupply = a; }
        const double Sa = on[a] ? U[a] : 0., Sb = on[b] ? U[b] : 0.; const bool noLoad = x[a].mMalfPowerLoad, noSource = x[b].mMalfVoltageSource; double Geq = noLoad || noSource ? 0. : Gi * GL[b] / (Gi + GL[b]), Va = on[a] ? Sa * G[a] / (G[a] + GL[a] + Geq) : 0., Vb = noSource ? 0. : Va * Gi / (Gi + GL[b]);
        c.log() << at << " supply side " << a << " volts " << k[a]->v(0) << " / " << k[b]->v(0) << " one network " << Va << " / " << Vb << "\n";
        if (on[b] && Sb > Vb - 1.) { c.label("both supply"); continue; } 
        c.checkNear(k[a]->v(0), Va, 1e-5, 1e-6, "supply-voltage", at); c.checkNear(k[b]->v(0), Vb, 1e-5, 1e-6, "demand-voltage", at); c.checkNear(x[b].mInterface.mOutData.mDemandPower, noSource ? 0. : Va * Gi * (Va - Vb), 1e-5, 1e-4, "power-reported", at); const double I = out[a].getFlux() - GL[a] * k[a]->v(0); c.checkNear(I * k[a]->v(0), noLoad || noSource ? 0. : Va * Gi * (Va - Vb), 1e-5, 1e-4, "power-drawn", at); if (Va > 1.) ++powered;
    }
    if (powered >= 2 && swaps) c.nontrivial();
}
