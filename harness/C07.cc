// Property C07: fluid networks conserve the mass of every compound.
#include "fluidnet.hh"
using namespace fn;

static double pickDt(Case& c) { return c.b(0.5) ? 0.1 : c.lr(1e-3, 20.); }

// Per node: stored mass of each compound changes by what the links carried in and out.
static void checkNodes(Case& c, FluidNet& f, const std::vector<State>& old, const std::vector<State>& now, const Account& a, int t) {
    const int n = f.n();
    for (int k = 0; k < n; ++k) {
        const double sc = old[k].mass + now[k].mass + a.scale[k];
        if (f.spec.nodes[k].cap) {
            double sum = 0.;
            for (size_t i = 0; i < f.spec.types.size(); ++i) { sum += now[k].mf[i];
                const double want = old[k].mass * old[k].mf[i] + a.gain[k][i], got = now[k].mass * now[k].mf[i];
                c.check(std::fabs(got - want) <= 1e-10 * sc + a.slack[k] * 0.05 + 4e-15, "node-compound-mass", S() << "step " << t << " node " << k << " compound " << i << " mass " << got << " expected " << want << " (was " << old[k].mass * old[k].mf[i] << ", node mass " << old[k].mass << " -> " << now[k].mass << ")"); }
            c.checkNear(sum, 1., 1e-6, 0., "fractions-sum", S() << "node " << k << " mass fractions");
            for (size_t i = 0; i < f.spec.tcs.size(); ++i) {
                const double want = old[k].tcMass[i] + a.tcGain[k][i], got = now[k].tcMass[i], tcs = 1e-10 * (std::fabs(old[k].tcMass[i]) + std::fabs(a.tcGain[k][i]) + old[k].tcMole[i] * a.scale[k] * 5.) + 1e-13 * sc + 1e-15 + a.slack[k] * 2. * std::fabs(old[k].tcMass[i]) / std::max(1e-300, old[k].mass);
                c.check(std::fabs(got - want) <= tcs, "node-trace-mass", S() << "step " << t << " node " << k << " trace compound " << i << " mass " << got << " expected " << want << " (was " << old[k].tcMass[i] << ")"); }
        } else {
            c.check(now[k].mass == 0., "no-volume-mass", S() << "node " << k << " without volume holds " << now[k].mass);
            c.check(std::fabs(a.net[k]) <= 1e-9 * a.scale[k] + a.slack[k] * 50., "no-volume-balance", S() << "step " << t << " node " << k << " without volume: net inflow " << a.net[k] << " of " << a.scale[k]);
        }
    }
}

static void run(Case& c, const FOpt& o) {
    FSpec s = genFluid(c, o); logFluid(c.log(), s); FluidNet f(s); const int steps = c.i(1, 12), n = f.n(); double dt = pickDt(c); int flowSteps = 0;
    std::vector<double> total0(s.types.size(), 0.), through(s.types.size(), 0.); double sc = 0., slack = 0.; std::vector<State> old = snapAll(f);
    for (int k = 0; k < n; ++k) for (size_t i = 0; i < s.types.size(); ++i) total0[i] += old[k].mass * old[k].mf[i];
    for (int t = 0; t < steps; ++t) {
        if (t && c.b(0.4)) { FLink& l = s.links[c.raw(s.links.size())]; params(c, l, s, o); f.apply(s); c.log() << "step " << t << " changes a " << tname(l.type) << " to G=" << l.a << " s=" << l.s << "\n"; }
        if (c.b(0.2)) dt = pickDt(c);
        old = snapAll(f); f.net.step(dt); std::vector<State> now = snapAll(f); Account a = account(f, old, dt);
        if (a.overDemand) { c.label("ended: demanded more than held"); break; }
        if (a.floating) { c.label("ended: flow into a dead end"); break; }
        if (a.cycle) { c.label("ended: cycle of emptying nodes"); break; }
        if (a.anyOverflow) c.label("a node's outflow exceeded its contents");
        if (a.anyFlow) ++flowSteps;
        checkNodes(c, f, old, now, a, t);
        for (size_t i = 0; i < s.types.size(); ++i) { through[i] -= a.gain[n][i]; double tot = 0.; for (int k = 0; k < n; ++k) { tot += now[k].mass * now[k].mf[i]; }
            if (i == 0) for (int k = 0; k < n; ++k) { sc += now[k].mass + a.scale[k]; slack += a.slack[k]; }
            c.check(std::fabs(tot - total0[i] - through[i]) <= 1e-10 * sc + slack * 10. + 1e-14, "network-compound-mass", S() << "after step " << t << " network holds " << tot << " of compound " << i << ", started with " << total0[i] << ", boundary brought " << through[i]); }
        if (a.boundary) c.label("boundary flow");
    }
    if (flowSteps >= 1 && n >= 2) c.nontrivial();
    if (!s.tcs.empty()) c.label("trace compounds"); if (!s.gas) c.label("liquid");
}
FACET(networks, 250000, 4000000, "random fluid network (gas or liquid, up to 4 compounds and 3 trace compounds) of capacitors, conductors, potentials, sources, flow controllers and check valves, 1-12 steps with changes; nontrivial = at least 2 nodes and flow in a step that could be accounted for") { FOpt o; run(c, o); }
FACET(closed, 100000, 2000000, "network without boundary links: every compound's total stays; nontrivial = at least 2 nodes and flow") {
    FOpt o; FSpec s = genFluid(c, o); const int n = s.n(); if (n < 2) c.discard();
    for (size_t k = 0; k < s.links.size(); ++k) { FLink& l = s.links[k]; if (l.p0 == n) l.p0 = l.p1 == 0 ? 1 : 0; if (l.p1 == n) l.p1 = l.p0 == 0 ? 1 : 0; }
    logFluid(c.log(), s); FluidNet f(s); const int steps = c.i(1, 20); double dt = pickDt(c), slack = 0., sc = 0.; std::vector<State> old = snapAll(f); std::vector<double> total(s.types.size(), 0.); bool flow = false;
    for (int k = 0; k < n; ++k) { sc += old[k].mass; for (size_t i = 0; i < s.types.size(); ++i) total[i] += old[k].mass * old[k].mf[i]; }
    for (int t = 0; t < steps; ++t) {
        old = snapAll(f); f.net.step(dt); std::vector<State> now = snapAll(f); Account a = account(f, old, dt); if (a.overDemand || a.cycle || a.floating) { c.label("ended early"); break; }
        flow = flow || a.anyFlow; for (int k = 0; k < n; ++k) { slack += a.slack[k]; sc += a.scale[k] + 1e-3 * now[k].mass; }
        for (size_t i = 0; i < s.types.size(); ++i) { double tot = 0.; for (int k = 0; k < n; ++k) tot += now[k].mass * now[k].mf[i];
            c.check(std::fabs(tot - total[i]) <= 1e-10 * sc + slack * 10. + 1e-14, "closed-total", S() << "after step " << t << " compound " << i << " total " << tot << " was " << total[i]); }
    }
    if (flow) c.nontrivial();
}
