// Property C04: run modes and life-cycle calls behave as documented.
#include "basicnet.hh"
#include "software/exceptions/TsInitializationException.hh"
using namespace bn;


static double dpOf(GunnsBasicLink* l) { return l->getPotentialVector()[0] - l->getPotentialVector()[1]; }

FACET(mode_history, 60000, 1500000, "2-10 steps of a random network interleaved with solver, run, island and SOR mode changes, restarts and parameter edits, against a reference that always solves the current circuit; nontrivial = a normal step follows a step in another mode") {
    GenOpt o; o.lo = 1e-2; o.hi = 1e2; o.maxN = 6; o.maxExtra = 6; o.isolated = false; std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); logNet(c.log(), s);
    std::vector<int> none; BasicNet b(s, none, none); const int n = s.n, steps = c.i(2, 10); int mode = 0, majors = 0; bool pause = false, sawOther = false; double dt = 0.1; bool sor = false, loose = false;
    std::vector<double> slave(n, 0.);
    for (int t = 0; t < steps; ++t) {
        if (c.b(0.5)) mode = c.i(0, 2);
        pause = c.b(0.15); if (c.b(0.2)) b.net.setIslandMode(c.pickOf({Gunns::OFF, Gunns::FIND, Gunns::SOLVE})); if (c.b(0.1)) sor = !sor;
        b.net.sor(sor); mode == 0 ? b.net.setNormalMode() : mode == 1 ? b.net.setDummyMode() : b.net.setSlaveMode(); pause ? b.net.setPauseMode() : b.net.setRunMode();
        if (c.b(0.1)) { b.net.restart(); b.apply(s); c.log() << "  restart\n"; c.check(b.net.getConvergenceFailCount() == 0, "restart", "failure count after restart"); }
        if (c.b(0.3)) { size_t k = c.raw(s.links.size()); randomParams(c, s.links[k], o, anchor[k]); b.apply(s); c.log() << "  edit " << k << ": " << s.links[k] << "\n"; }
        if (c.b(0.4)) { std::vector<double> v; for (int k = 0; k < n; ++k) v.push_back(c.r(-10., 10.)); b.net.setSlavePotentialVector(v.data()); if (mode == 2) slave = v; }
        c.log() << "step " << t << " mode " << (mode == 0 ? "NORMAL" : mode == 1 ? "DUMMY" : "SLAVE") << (pause ? " PAUSED" : "") << (sor ? " SOR" : "") << "\n";
        std::vector<double> before = b.potentials(), dq, flux0, in0; for (size_t k = 0; k < s.links.size(); ++k) { dq.push_back(dpOf(b.bySpec[k])); flux0.push_back(b.bySpec[k]->getFlux()); } for (int k = 0; k < n; ++k) in0.push_back(b.node(k).getInflux());
        const int mc = b.net.getMinorStepCount(), dc = b.net.getDecompositionCount();
        b.net.step(dt); std::vector<double> now = b.potentials();
        if (pause) {
            for (int k = 0; k < n; ++k) c.check(now[k] == before[k] && b.node(k).getInflux() == in0[k], "pause", S() << "node " << k << " changed while paused");
            for (size_t k = 0; k < s.links.size(); ++k) c.check(b.bySpec[k]->getFlux() == flux0[k], "pause", S() << "link " << k << " flux changed while paused");
            c.check(b.net.getMajorStepCount() == majors && b.net.getMinorStepCount() == mc && b.net.getDecompositionCount() == dc, "pause", "step counters advanced while paused"); continue;
        }
        ++majors; c.check(b.net.getMajorStepCount() == majors, "count", S() << "major steps " << b.net.getMajorStepCount() << " not " << majors);
        std::vector<double> want(n);
        if (mode == 0) { std::vector<long double> r = refSolve(s, dt, dq); for (int k = 0; k < n; ++k) want[k] = (double)r[k]; } else if (mode == 1) want = std::vector<double>(before.begin(), before.begin() + n); else want = slave;
        double pm = 1.; for (int k = 0; k < n; ++k) pm = std::max(pm, std::fabs(want[k]));
        const double tol = mode == 0 ? (sor ? 1e-5 : 1e-7) * pm : 0.;
        for (int k = 0; k < n; ++k) c.check(std::fabs(now[k] - want[k]) <= tol, mode == 0 ? "normal" : mode == 1 ? "dummy" : "slave", S() << "node " << k << " potential " << now[k] << " should be " << want[k]);
        for (size_t k = 0; k < s.links.size(); ++k) { const LinkSpec& l = s.links[k];
            if (mode != 1) { c.check(b.bySpec[k]->getPotentialVector()[0] == now[l.p0] && b.bySpec[k]->getPotentialVector()[1] == now[l.p1], "link-potentials", S() << "link " << k << " does not see its nodes' potentials"); }
            const double f = (double)refFlux(l, dt, now, dq[k]), g = l.g(dt, dq[k]); c.checkNear(b.bySpec[k]->getFlux(), f, 1e-9, 1e-9 * (1. + g) * (pm + std::fabs(l.s) + std::fabs(dq[k])), "link-flux", S() << "link " << k << " flux"); }
        if (mode == 0 && sawOther) c.nontrivial(); if (mode != 0) sawOther = true; (void)loose;
    }
}

struct Bad { const char* what; };
// Tries to initialise one link with at most one thing wrong; returns whether it must be refused.
FACET(link_validation, 20000, 200000, "each basic link initialised with valid data or with exactly one corrupted field or port; nontrivial = a corrupted case") {
    GunnsBasicNode nodes[5]; GunnsNodeList nl; nl.mNumNodes = 5; nl.mNodes = nodes; for (int k = 0; k < 5; ++k) nodes[k].initialize("n", 0.);
    std::vector<GunnsBasicLink*> links; const int type = c.i(0, 4), bad = c.i(0, 7); double a = c.lr(1e-6, 1e6), blkV = c.r(0., 1.), s = c.sr(1e-3, 1e3); bool blk = c.b(); int p0 = c.i(0, 4), p1 = c.i(0, 4); if (p0 == p1 && p0 != 4) p1 = 4; std::string name = "link"; GunnsNodeList* list = &nl;
    std::string what = "nothing"; bool refuse = true;
    switch (bad) {
        case 0: refuse = false; break;
        case 1: a = -c.lr(1e-9, 1e3); what = "negative conductivity or capacitance"; refuse = type == COND || type == CAP || type == POT || type == FCTL; break;
        case 2: blkV = c.b() ? -c.lr(1e-9, 10.) : 1. + c.lr(1e-9, 10.); what = "blockage out of range"; break;
        case 3: name = ""; what = "empty name"; break;
        case 4: list = 0; what = "no node list"; break;
        case 5: p0 = c.b() ? -c.i(1, 3) : 5 + c.i(0, 3); what = "bad port 0 node"; break;
        case 6: p1 = c.b() ? -c.i(1, 3) : 5 + c.i(0, 3); what = "bad port 1 node"; break;
        default: p0 = p1 = c.i(0, 3); what = "both ports on one node"; break;
    }
    c.log() << tname(type) << " " << p0 << "->" << p1 << " a=" << a << " blockage " << blkV << ": wrong is " << what << "\n"; c.label(S() << tname(type) << ": " << what); if (refuse) c.nontrivial();
    GunnsBasicConductor co; GunnsBasicCapacitor ca; GunnsBasicPotential po; GunnsBasicSource so; GunnsBasicFlowController fc; GunnsBasicLink* x = 0; bool threw = false;
    try {
        if (type == COND) { x = &co; GunnsBasicConductorConfigData cf(name, list, a); GunnsBasicConductorInputData in(blk, blkV); co.initialize(cf, in, links, p0, p1); }
        else if (type == CAP) { x = &ca; GunnsBasicCapacitorConfigData cf(name, list); GunnsBasicCapacitorInputData in(blk, blkV, a, s); ca.initialize(cf, in, links, p0, p1); }
        else if (type == POT) { x = &po; GunnsBasicPotentialConfigData cf(name, list, a); GunnsBasicPotentialInputData in(blk, blkV, s); po.initialize(cf, in, links, p0, p1); }
        else if (type == SRC) { x = &so; GunnsBasicSourceConfigData cf(name, list); GunnsBasicSourceInputData in(blk, blkV, s); so.initialize(cf, in, links, p0, p1); }
        else { x = &fc; GunnsBasicFlowControllerConfigData cf(name, list, a, false, false); GunnsBasicFlowControllerInputData in(blk, blkV, false, 0., s); fc.initialize(cf, in, links, p0, p1); }
    } catch (TsInitializationException&) { threw = true; }
    c.check(threw == refuse, "validation", S() << tname(type) << (threw ? " refused" : " accepted") << " initialisation with " << what);
    c.check(x->isInitialized() == !refuse, "init-flag", S() << tname(type) << (x->isInitialized() ? " claims" : " denies") << " to be initialised with " << what);
    if (!refuse) { c.check(x->getNodeMap()[0] == p0 && x->getNodeMap()[1] == p1, "node-map", "node map differs from the ports given"); c.check(links.size() == 1 && links[0] == x, "link-list", "link did not add itself to the list once"); }
}

FACET(life_cycle, 20000, 200000, "a network put through one illegal call or invalid configuration at a random point of its life; nontrivial = an illegal call was made") {
    GenOpt o; o.lo = 1e-2; o.hi = 1e2; o.maxN = 4; o.maxExtra = 3; o.isolated = false; std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor); logNet(c.log(), s);
    const int bad = c.i(0, 11); const char* what[] = {"nothing", "step before initialisation", "initialise twice", "tolerance", "linearisation potential", "minor limit", "decomposition limit", "empty name", "duplicate link", "uninitialised link", "initialise nodes twice", "only a ground node"};
    c.log() << "illegal: " << what[bad] << "\n"; c.label(what[bad]); if (bad) c.nontrivial();
    GunnsBasicNode nodes[8]; GunnsNodeList nl; nl.mNumNodes = s.n + 1; nl.mNodes = nodes; for (int k = 0; k <= s.n; ++k) nodes[k].initialize("n" + std::to_string(k), 0.);
    std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicConductor> > own; Gunns net; bool threw = false;
    if (bad == 11) nl.mNumNodes = 1;
    net.initializeNodes(nl);
    if (bad == 10) { try { c.b() ? net.initializeNodes(nl) : net.initializeFluidNodes(nl); } catch (TsInitializationException&) { threw = true; } c.check(threw, "twice", "nodes could be initialised twice"); }
    if (bad == 1) { try { net.step(0.1); } catch (TsInitializationException&) { threw = true; } c.check(threw, "uninitialised-step", "an uninitialised network stepped"); c.check(net.getMajorStepCount() == 0, "uninitialised-step", "a refused step was counted"); }
    if (bad != 11) for (size_t k = 0; k < s.links.size(); ++k) { const LinkSpec& l = s.links[k]; own.emplace_back(new GunnsBasicConductor); GunnsBasicConductorConfigData cf("l" + std::to_string(k), &nl, l.a); GunnsBasicConductorInputData in; own.back()->initialize(cf, in, links, l.p0, l.p1); }
    GunnsConfigData cfg("net", 1e-6, 1e-8, 5, 5);
    GunnsConfigData wrong(bad == 7 ? "" : "net", bad == 3 ? -c.sr(1e-3, 1.) * (c.b() ? 0. : 1.) : 1e-6, bad == 4 ? -c.r(0., 1.) : 1e-8, bad == 5 ? -c.i(0, 3) : 5, bad == 6 ? -c.i(0, 3) : 5);
    if (bad == 3) wrong.mConvergenceTolerance = -c.r(0., 1.);
    // limits are unsigned in the configuration: only zero is certainly too small
    if (bad == 5) wrong.mMinorStepLimit = 0; if (bad == 6) wrong.mDecompositionLimit = 0;
    GunnsBasicConductor stray; if (bad == 8) links.push_back(links[c.raw(links.size())]); if (bad == 9) { if (c.b()) links.push_back(&stray); else { GunnsBasicConductorConfigData cf("stray", &nl, -1.); GunnsBasicConductorInputData in; try { stray.initialize(cf, in, links, 0, s.n); } catch (TsInitializationException&) {} } }
    const bool refuse = bad >= 3 && bad <= 9 || bad == 11; threw = false;
    try { net.initialize(refuse && bad != 8 && bad != 9 && bad != 11 ? wrong : cfg, links); } catch (TsInitializationException&) { threw = true; }
    c.check(threw == refuse, "validation", S() << "network " << (threw ? "refused" : "accepted") << " initialisation with illegal: " << what[bad]);
    if (refuse) { threw = false; try { net.step(0.1); } catch (TsInitializationException&) { threw = true; } c.check(threw, "uninitialised-step", S() << "a network that failed to initialise (" << what[bad] << ") stepped"); return; }
    for (int t = c.i(0, 2); t > 0; --t) net.step(0.1);
    if (bad == 2) { threw = false; try { net.initialize(cfg, links); } catch (TsInitializationException&) { threw = true; } c.check(threw, "twice", "a network could be initialised twice"); threw = false; try { net.step(0.1); } catch (TsInitializationException&) { threw = true; } c.check(threw, "twice", "a network still steps after a refused second initialisation"); }
    else net.step(0.1);
}
