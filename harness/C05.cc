// Property C05: network capacitance is the response to an added flow, and asking changes nothing.
#include "basicnet.hh"
using namespace bn;
static double dpOf(GunnsBasicLink* l) { return l->getPotentialVector()[0] - l->getPotentialVector()[1]; }
// Reference potentials with an extra flux into one node.
static std::vector<long double> solveWith(const NetSpec& s, double dt, const std::vector<double>& dq, int node, double flux) {
    NetSpec q = s; LinkSpec l; l.type = SRC; l.p0 = s.n; l.p1 = node; l.s = flux; q.links.push_back(l); std::vector<double> d = dq; d.push_back(0.); return refSolve(q, dt, d); }

FACET(response, 60000, 1500000, "random linear network stepped 1-4 times, any subset of nodes asking for its capacitance with any flux in any island mode, compared with the same network really given that flux; nontrivial = at least two nodes asked in one step with several nodes coupled") {
    GenOpt o; o.lo = 1e-2; o.hi = 1e2; o.maxN = 8; o.isolated = false; std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); logNet(c.log(), s); std::vector<int> none; BasicNet b(s, none, none), quiet(s, none, none);
    const Gunns::IslandMode im = c.pickOf({Gunns::OFF, Gunns::FIND, Gunns::SOLVE}); b.net.setIslandMode(im); quiet.net.setIslandMode(im); const int n = s.n; double dt = 0.1;
    for (int t = c.i(1, 4); t > 0; --t) {
        if (c.b()) { size_t k = c.raw(s.links.size()); randomParams(c, s.links[k], o, anchor[k]); b.apply(s); quiet.apply(s); c.log() << "  edit " << k << ": " << s.links[k] << "\n"; }
        if (c.b(0.3)) dt = c.lr(1e-2, 10.);
        std::vector<double> dq, req(n, 0.); for (size_t k = 0; k < s.links.size(); ++k) dq.push_back(dpOf(b.bySpec[k])); int asked = 0; c.log() << "step dt=" << dt << " asked:";
        for (int k = 0; k < n; ++k) if (c.b(0.5)) { const int w = c.weighted({6, 1, 1}); req[k] = w == 0 ? c.lr(1e-2, 1e2) : w == 1 ? 1. : -c.lr(1e-2, 10.); b.node(k).setNetworkCapacitanceRequest(req[k]); asked += req[k] > 0.; c.log() << " " << k << "(" << req[k] << ")"; }
        c.log() << "\n"; b.net.step(dt); quiet.net.step(dt); double pm = 1.; for (int k = 0; k < n; ++k) pm = std::max(pm, std::fabs(quiet.p(k)));
        for (int k = 0; k < n; ++k) c.checkNear(b.p(k), quiet.p(k), 0., 1e-12 * pm, "disturbs", S() << "node " << k << " potential when capacitances were asked for");
        std::vector<long double> base = refSolve(s, dt, dq);
        for (int k = 0; k < n; ++k) {
            const double got = b.node(k).getNetworkCapacitance();
            if (req[k] > 0.) {
                std::vector<long double> r = solveWith(s, dt, dq, k, req[k]); const double d = (double)(r[k] - base[k]); const double err = 1e-11 * pm * (1. + 1e3 / 1.); 
                if (d > 1e-6 * pm) c.checkNear(got, dt * req[k] / d, 1e-6 + err / d, 0., "capacitance", S() << "network capacitance of node " << k);
                const double* a = b.node(k).getNetCapDeltaPotential(); c.check(a != 0, "delta-array", "no delta potential array");
                for (int j = 0; j < n; ++j) c.checkNear(a[b.nodeOf[j]], (double)(r[j] - base[j]), 1e-6, 1e-9 * (pm + std::fabs(d)), "delta-array", S() << "delta potential of node " << j << " due to node " << k);
                c.check(b.node(k).getNetworkCapacitanceRequest() == 0., "request", S() << "request of node " << k << " was not cleared");
            } else c.check(got == 0., "capacitance", S() << "node " << k << " asked for nothing (" << req[k] << ") but reports capacitance " << got);
        }
        if (asked > 1 && n > 2) c.nontrivial(); c.label(S() << "asked " << (asked < 4 ? std::to_string(asked) : std::string("4+")));
        for (int k = 0; k < n; ++k) if (req[k] < 0.) b.node(k).setNetworkCapacitanceRequest(0.);
    }
}

FACET(response_nonlinear, 20000, 400000, "the same with non-linear flow controllers and many minor steps: the capacitance belongs to the final linearised system of the links; nontrivial = the network took several minor steps and converged") {
    GenOpt o; o.lo = 1e-1; o.hi = 10.; o.maxN = 5; o.isolated = false; o.fctl = true; o.maxExtra = 5; std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); LinkSpec f; f.type = FCTL; f.p0 = c.i(0, s.n - 1); f.p1 = s.n; f.a = c.lr(.1, 10.); f.s = c.lr(1e-2, 10.); s.links.push_back(f); logNet(c.log(), s);
    std::vector<int> none; BasicNet b(s, none, none, 1e-9, 60, 60, true), quiet(s, none, none, 1e-9, 60, 60, true); const int n = s.n;
    for (int t = c.i(1, 3); t > 0; --t) {
        std::vector<double> req(n, 0.); for (int k = 0; k < n; ++k) if (c.b(0.6)) { req[k] = c.lr(1e-1, 1e1); b.node(k).setNetworkCapacitanceRequest(req[k]); }
        const int m0 = b.net.getMinorStepCount(), f0 = b.net.getConvergenceFailCount(); b.net.step(0.1); quiet.net.step(0.1); const int minors = b.net.getMinorStepCount() - m0;
        if (b.net.getConvergenceFailCount() > f0) { c.label("not converged"); return; }
        c.label(minors > 1 ? "several minor steps" : "one minor step"); double pm = 1.; for (int k = 0; k < n; ++k) pm = std::max(pm, std::fabs(quiet.p(k)));
        for (int k = 0; k < n; ++k) c.checkNear(b.p(k), quiet.p(k), 0., 1e-9 * pm, "disturbs", S() << "node " << k << " potential when capacitances were asked for");
        NetSpec lin; lin.n = n; std::vector<double> dq; for (size_t k = 0; k < s.links.size(); ++k) { LinkSpec l; l.p0 = s.links[k].p0; l.p1 = s.links[k].p1; l.a = b.bySpec[k]->getAdmittanceMatrix()[0]; lin.links.push_back(l); dq.push_back(0.); }
        std::vector<long double> base = refSolve(lin, 0.1, dq);
        for (int k = 0; k < n; ++k) if (req[k] > 0.) { std::vector<long double> r = solveWith(lin, 0.1, dq, k, req[k]); const double d = (double)(r[k] - base[k]);
            if (d > 1e-5 * pm) c.checkNear(b.node(k).getNetworkCapacitance(), 0.1 * req[k] / d, 1e-4, 0., "capacitance", S() << "network capacitance of node " << k << " after " << minors << " minor steps"); if (minors > 1) c.nontrivial(); }
    }
}
