// Property C01: every network solution balances flux at every node.
#include "basicnet.hh"
using namespace bn;

static std::vector<double> dpPrev(BasicNet& b, const NetSpec& s) {
    std::vector<double> v; for (size_t k = 0; k < s.links.size(); ++k) v.push_back(b.bySpec[k]->getPotentialVector()[0] - b.bySpec[k]->getPotentialVector()[1]); return v; }

// Checks one step's result of one network against the physics of its spec.
static void checkStep(Case& c, BasicNet& b, const NetSpec& s, double dt, const std::vector<double>& dq, bool compareSolve) {
    const int n = s.n; const std::vector<double> p = b.potentials();
    std::vector<long double> net(n + 1, 0.L), in(n + 1, 0.L), out(n + 1, 0.L), scale(n + 1, 1e-9L), floor(n + 1, 1e-12L);
    long double pmax = 1e-6L; for (int k = 0; k < n; ++k) { c.check(vpt::finite(p[k]), "finite", S() << "node " << k << " potential " << p[k]); pmax = std::max(pmax, (long double)std::fabs(p[k])); }
    double gmin = 1e300, gmax = 0.;
    for (size_t k = 0; k < s.links.size(); ++k) {
        const LinkSpec& l = s.links[k]; const long double f = refFlux(l, dt, p, dq[k]); const double g = l.g(dt, dq[k]);
        if (g > 0.) { gmin = std::min(gmin, g); gmax = std::max(gmax, g); }
        const long double sc = g * (fabsl(p[l.p0]) + fabsl(p[l.p1]) + (l.type == CAP ? fabsl(dq[k]) : 0.L) + (l.type == POT ? fabsl(l.s) : 0.L)) + (l.type == SRC ? fabsl(l.s) : 0.L);
        const double got = b.bySpec[k]->getFlux();
        c.check(std::fabs((double)(got - f)) <= 1e-12 * (double)sc + 1e-13 * g * (double)pmax + 1e-12, "link-flux",
                S() << "link " << k << " (" << l << ") reports flux " << got << " but its law gives " << (double)f);
        const double drop = b.bySpec[k]->getDeltaPotential();
        c.checkNear(drop, p[l.p0] - p[l.p1], 1e-12, 1e-12 * (double)pmax, "link-delta-potential", S() << "link " << k << " delta potential");
        // each link's own view of its node potentials
        c.checkNear(b.bySpec[k]->getPotentialVector()[0], p[l.p0], 1e-12, 1e-300, "link-potential", S() << "link " << k << " port 0 potential");
        c.checkNear(b.bySpec[k]->getPotentialVector()[1], p[l.p1], 1e-12, 1e-300, "link-potential", S() << "link " << k << " port 1 potential");
        c.checkNear(b.bySpec[k]->getPower(), -got * (p[l.p0] - p[l.p1]), 1e-9, 1e-12 * (double)(sc * pmax) + 1e-12, "link-power", S() << "link " << k << " power");
        net[l.p0] -= got; net[l.p1] += got; scale[l.p0] += sc; scale[l.p1] += sc;
        // the solver zeroes potentials below DBL_EPSILON, and links zero their flux below a relative potential difference
        floor[l.p0] += g * (1e-15L + 1e-13L * pmax); floor[l.p1] += g * (1e-15L + 1e-13L * pmax);
        if (got > 0.) { out[l.p0] += got; in[l.p1] += got; } else { in[l.p0] -= got; out[l.p1] -= got; }
    }
    for (int k = 0; k < n; ++k) {
        c.check(fabsl(net[k]) <= 1e-10L * scale[k] + floor[k] + 1e-14L * pmax, "balance", S() << "flux does not balance at node " << k << ": net " << (double)net[k] << " of " << (double)scale[k]);
        GunnsBasicNode& nd = b.node(k); const double sc = (double)scale[k];
        c.checkNear(nd.getInflux(), (double)in[k], 1e-9, 1e-12 * sc, "node-influx", S() << "node " << k << " influx");
        c.checkNear(nd.getOutflux(), (double)out[k], 1e-9, 1e-12 * sc, "node-outflux", S() << "node " << k << " outflux");
        c.checkNear(nd.getNetFlux(), nd.getInflux() - nd.getOutflux(), 1e-9, 1e-12 * sc, "node-netflux", S() << "node " << k << " net flux");
        c.checkNear(nd.getFluxThrough(), std::min((double)in[k], (double)out[k]), 1e-9, 1e-10 * sc, "node-through", S() << "node " << k << " flux through");
    }
    if (compareSolve && gmax > 0. && gmax / gmin < 1e7) {
        std::vector<long double> r = refSolve(s, dt, dq); long double rm = 1e-6L; for (int k = 0; k < n; ++k) rm = std::max(rm, fabsl(r[k]));
        for (int k = 0; k < n; ++k) c.check(fabsl(r[k] - p[k]) <= 1e-6L * rm, "reference-solution", S() << "node " << k << " potential " << p[k] << " but independent solution " << (double)r[k]);
        c.label("compared-with-reference");
    }
}
static void mutate(Case& c, NetSpec& s, const std::vector<bool>& anchor, const GenOpt& o) {
    const int m = c.i(0, 3);
    for (int q = 0; q < m; ++q) { size_t k = c.raw(s.links.size()); randomParams(c, s.links[k], o, anchor[k]); }
}
static double pickDt(Case& c) { return c.b(0.5) ? 0.1 : c.lr(1e-3, 10.); }

FACET(linear_history, 80000, 2000000, "random network of conductors/capacitors/potentials/sources/flow controllers, 1-6 steps with parameter edits between; nontrivial = at least 2 nodes, 3 links and a non-zero flux in every step") {
    GenOpt o; o.fctl = true; o.maxN = 12; if (c.b(0.3)) { o.lo = 1e-6; o.hi = 1e6; }
    std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); if (s.links.empty()) c.discard();
    const int steps = c.i(1, 6); double dt = pickDt(c); logNet(c.log(), s);
    std::vector<int> none; BasicNet b(s, none, none); bool allFlow = true;
    if (c.b(0.2)) b.net.setWorstCaseTiming(true);
    for (int t = 0; t < steps; ++t) {
        if (t) { mutate(c, s, anchor, o); if (c.b(0.2)) dt = pickDt(c); b.apply(s); }
        std::vector<double> dq = dpPrev(b, s);
        c.log() << "step dt=" << dt; for (size_t k = 0; k < s.links.size() && t; ++k) c.log() << " [" << k << " a=" << s.links[k].a << " s=" << s.links[k].s << " blk=" << s.links[k].blk << ":" << s.links[k].blkV << "]"; c.log() << "\n";
        b.net.step(dt); checkStep(c, b, s, dt, dq, true);
        bool any = false; for (size_t k = 0; k < s.links.size(); ++k) any |= b.bySpec[k]->getFlux() != 0.; allFlow &= any;
    }
    c.check(b.net.getMajorStepCount() == steps, "step-count", S() << "major step count " << b.net.getMajorStepCount() << " after " << steps);
    if (s.n > 1 && s.links.size() > 2 && allFlow) c.nontrivial();
    c.label(S() << "nodes " << (s.n < 4 ? "1-3" : s.n < 8 ? "4-7" : "8-12"));
}

FACET(order_invariance, 40000, 1000000, "the same random network built with links and nodes in two different orders, stepped together; nontrivial = the orders differ and potentials are non-zero") {
    GenOpt o; o.fctl = c.b(0.3); o.maxN = 10; o.lo = 1e-2; o.hi = 1e2;
    std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); if (s.links.empty()) c.discard(); logNet(c.log(), s);
    std::vector<int> np, lo, none; for (int k = 0; k < s.n; ++k) np.push_back(k); for (size_t k = 0; k < s.links.size(); ++k) lo.push_back((int)k);
    c.shuffle(np); c.shuffle(lo); BasicNet a(s, none, none), b(s, np, lo); bool nz = false;
    c.log() << "node order"; for (int x : np) c.log() << " " << x; c.log() << " link order"; for (int x : lo) c.log() << " " << x; c.log() << "\n";
    const int steps = c.i(1, 5); double dt = pickDt(c); bool fc = false; for (size_t k = 0; k < s.links.size(); ++k) fc |= s.links[k].type == FCTL;
    for (int t = 0; t < steps; ++t) {
        if (t) { mutate(c, s, anchor, o); a.apply(s); b.apply(s); }
        a.net.step(dt); b.net.step(dt); double pm = 1.; for (int k = 0; k < s.n; ++k) pm = std::max(pm, std::fabs(a.p(k)));
        // a flow controller divides by its previous potential difference: rounding can be amplified, so compare only the first step
        if (!fc || t == 0) for (int k = 0; k < s.n; ++k) { c.checkNear(a.p(k), b.p(k), 0., 1e-7 * pm, "order", S() << "node " << k << " potential depends on the order of nodes or links (step " << t << ")"); nz |= a.p(k) != 0.; }
    }
    bool differ = false; for (int k = 0; k < s.n; ++k) differ |= np[k] != k; for (size_t k = 0; k < lo.size(); ++k) differ |= lo[k] != (int)k;
    if (differ && nz) c.nontrivial();
}

FACET(nonlinear_flow_control, 20000, 400000, "one non-linear flow controller between a potential and a loaded node, enough minor steps; nontrivial = the controller is the limiting element and the network converged") {
    NetSpec s; s.n = 2; LinkSpec p; p.type = POT; p.p0 = 2; p.p1 = 0; p.a = c.lr(1., 1e3); p.s = c.lr(1., 100.); s.links.push_back(p);
    LinkSpec f; f.type = FCTL; f.p0 = 0; f.p1 = 1; f.a = c.lr(1e-2, 10.); f.s = c.lr(1e-4, 1.); s.links.push_back(f);
    LinkSpec l; l.type = COND; l.p0 = 1; l.p1 = 2; l.a = c.lr(1e-1, 100.); s.links.push_back(l); logNet(c.log(), s);
    std::vector<int> none; BasicNet b(s, none, none, 1e-8, 200, 200, true);
    for (int t = 0; t < 3; ++t) b.net.step(0.1);
    const double flux = b.bySpec[1]->getFlux(), dp = b.p(0) - b.p(1);
    if (b.net.getConvergenceFailCount() == 0) {
        const double series = 1. / (1. / p.a + 1. / f.a + 1. / l.a) * p.s;   // flux if the controller is fully open
        const double expect = std::min(f.s, series); 
        c.checkNear(flux, expect, 1e-4, 1e-6, "flow-control", S() << "flow controller flux with dp " << dp); if (f.s < series) c.nontrivial(); c.label("converged");
    } else c.label("not converged");
    c.checkNear(b.bySpec[0]->getFlux(), flux, 1e-6, 1e-7, "balance", "source flux against controller flux"); c.checkNear(b.bySpec[2]->getFlux(), flux, 1e-6, 1e-7, "balance", "load flux against controller flux");
}

FACET(restart, 20000, 400000, "a network stepped, restarted from saved node potentials and stepped again must continue as an undisturbed copy of non-storing links; nontrivial = potentials non-zero") {
    GenOpt o; o.caps = false; o.maxN = 8; o.lo = 1e-2; o.hi = 1e2; std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); if (s.links.empty()) c.discard(); logNet(c.log(), s);
    std::vector<int> none; BasicNet a(s, none, none), b(s, none, none); const int pre = c.i(0, 3), post = c.i(1, 3);
    for (int t = 0; t < pre; ++t) { a.net.step(0.1); b.net.step(0.1); }
    b.net.restart(); bool nz = false;
    for (int t = 0; t < post; ++t) { a.net.step(0.1); b.net.step(0.1); double pm = 1.; for (int k = 0; k < s.n; ++k) pm = std::max(pm, std::fabs(a.p(k)));
        for (int k = 0; k < s.n; ++k) { c.checkNear(a.p(k), b.p(k), 0., 1e-9 * pm, "restart", S() << "node " << k << " differs after a restart"); nz |= a.p(k) != 0.; } }
    if (nz) c.nontrivial();
}
