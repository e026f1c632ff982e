// Property C03: the minor-step iteration follows the convergence protocol.
// Scripted links answer from a generated script; a reference model of the documented protocol predicts
// every call each link receives, the counters and the node potentials.
#include "script.hh"
using namespace bn;

FACET(protocol, 400000, 10000000, "2-7 links playing generated scripts of admittances, sources, overrides and answers over 1-5 major steps with small minor step and decomposition limits; nontrivial = a non-linear network that took several minor steps and used a reject or delay, or failed to converge") {
    const int n = c.i(1, 4); int nn = 0; std::vector<LinkScript> sc = genScript(c, n, nn); const double tol = c.pickOf({1e-3, 1., 1e-6, 5.}); const int ml = c.i(1, 10), dl = c.i(1, 10); const bool worst = c.b(0.15); const int steps = c.i(1, 5);
    c.log() << "nodes " << n << " tol " << tol << " minor limit " << ml << " decomposition limit " << dl << " worst " << worst << " steps " << steps << "\n";
    for (size_t k = 0; k < sc.size(); ++k) { c.log() << " link " << k << (sc[k].nonlin ? " nonlinear " : " linear ") << sc[k].p0 << "->" << sc[k].p1; for (const Act& a : sc[k].acts) c.log() << " (g=" << a.g << " s=" << a.s << " ans=" << a.ans << (a.resetOk ? "" : " noreset") << (a.ov ? " ov=" + std::to_string(a.ovV) : std::string()) << ")"; c.log() << "\n"; }
    GunnsBasicNode nodes[8]; GunnsNodeList nl; nl.mNumNodes = n + 1; nl.mNodes = nodes; for (int k = 0; k <= n; ++k) nodes[k].initialize("n" + std::to_string(k), 0.);
    std::vector<GunnsBasicLink*> links; std::vector<Call> calls; std::vector<TestLink> tl(sc.size()); Gunns net; net.initializeNodes(nl);
    for (size_t k = 0; k < sc.size(); ++k) tl[k].init(&nl, sc[k], (int)k, links, &calls);
    GunnsConfigData cfg("net", tol, 1e-8, ml, dl); net.initialize(cfg, links); net.setWorstCaseTiming(worst);
    for (size_t k = 0; k < sc.size(); ++k) tl[k].logging = true;
    Model m(n, sc, tol, ml, dl, worst); bool interesting = false;
    for (int t = 0; t < steps; ++t) {
        calls.clear(); m.calls.clear(); const int f0 = m.fails, mm0 = m.minors; 
        m.step(); net.step(0.1);
        if (m.margin < 1e-9) c.discard();    // a convergence test decided by rounding
        bool rd = false; for (const Call& k : m.calls) rd |= k.ev == RESET; interesting |= (m.fails > f0) || (m.minors - mm0 > 1 && rd);
        size_t k = 0; while (k < calls.size() && k < m.calls.size() && calls[k] == m.calls[k]) ++k;
        if (k < calls.size() || k < m.calls.size()) c.fail("calls", S() << "major step " << t + 1 << ", call " << k << ": the links received " << (k < calls.size() ? show(calls[k]) : std::string("nothing more")) << " but the protocol calls for " << (k < m.calls.size() ? show(m.calls[k]) : std::string("nothing more")));
        c.check(net.getMajorStepCount() == m.majors, "majors", S() << "major step count " << net.getMajorStepCount() << " not " << m.majors);
        c.check(net.getMinorStepCount() == m.minors, "minors", S() << "minor step count " << net.getMinorStepCount() << " not " << m.minors);
        c.check(net.getMaxMinorStepCount() == m.maxMinor, "max-minors", S() << "max minor steps " << net.getMaxMinorStepCount() << " not " << m.maxMinor);
        c.check(net.getConvergenceFailCount() == m.fails, "fails", S() << "convergence failures " << net.getConvergenceFailCount() << " not " << m.fails);
        c.check(net.getLinkResetStepFailCount() == m.resetFails, "reset-fails", S() << "reset failures " << net.getLinkResetStepFailCount() << " not " << m.resetFails);
        c.check(net.getDecompositionCount() == m.decomps, "decompositions", S() << "decompositions " << net.getDecompositionCount() << " not " << m.decomps);
        c.checkNear(net.getAvgMinorStepCount(), (double)m.minors / m.majors, 1e-12, 0., "average", "average minor steps");
        for (int q = 0; q < n; ++q) c.checkNear(nodes[q].getPotential(), m.p[q], 1e-9, 1e-9, "potential", S() << "major step " << t + 1 << (m.converged ? " (converged)" : " (not converged)") << ": node " << q << " potential");
        for (size_t q = 0; q < sc.size(); ++q) { c.checkNear(tl[q].getPotentialVector()[0], m.p[sc[q].p0], 1e-9, 1e-9, "link-potential", S() << "link " << q << " port 0"); c.checkNear(tl[q].getPotentialVector()[1], sc[q].p1 < n ? m.p[sc[q].p1] : 0., 1e-9, 1e-9, "link-potential", S() << "link " << q << " port 1"); }
        if (!m.linear) for (size_t q = 0; q < sc.size(); ++q) if (sc[q].nonlin) c.check((int)net.getLinksConvergence()[q] == m.lres[q], "link-result", S() << "link " << q << " recorded result " << net.getLinksConvergence()[q] << " not " << m.lres[q]);
        if (!m.linear) for (int q = 0; q < n; ++q) c.checkNear(net.getNodesConvergence()[q], m.conv[q], 1e-9, 1e-9, "node-convergence", S() << "node " << q << " recorded convergence");
    }
    if (interesting) c.nontrivial(); c.label(m.linear ? "linear" : "nonlinear"); if (m.fails) c.label("had convergence failures"); if (m.resetFails) c.label("had reset failures");
}
