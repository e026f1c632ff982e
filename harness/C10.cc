// Property C10: flow orchestration serves every node and link once, in dependency order.
#include "fluidnet.hh"
#include "core/GunnsFluidFlowOrchestrator.hh"
#include "core/GunnsBasicFlowOrchestrator.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
using namespace fn;
namespace {
struct Event { char what; int id; };                      // c = computeFlows, t = transportFlows, i = integrateFlows
struct Trace { std::vector<Event> ev; };
class StubLink : public GunnsBasicLink { public:
    Trace* tr; int id; std::vector<PortDirection> next;
    StubLink(int ports) : GunnsBasicLink(ports), tr(0), id(0) { mPortDirections = dirs = new PortDirection[ports]; for (int k = 0; k < ports; ++k) dirs[k] = NONE; }
    PortDirection* dirs;
    virtual void step(const double) {} virtual void computeFlows(const double) { Event e = {'c', id}; tr->ev.push_back(e); for (size_t k = 0; k < next.size(); ++k) mPortDirections[k] = next[k]; }
    virtual void transportFlows(const double) { Event e = {'t', id}; tr->ev.push_back(e); }
    virtual void restartModel() {} virtual void updateNodePointer(const int) {} };
class StubNode : public GunnsBasicNode { public:
    Trace* tr; int id; bool over; StubNode() : tr(0), id(0), over(false) {}
    virtual bool isOverflowing(const double) const { return over; } virtual void integrateFlows(const double) { Event e = {'i', id}; tr->ev.push_back(e); } };
}
FACET(order, 500000, 4000000, "scripted links with 1-5 ports of any direction, nodes overflowing or not, several steps with changing directions; nontrivial = some link had to wait for a node") {
    const int n = c.i(1, 8), m = c.i(0, 14), steps = c.i(1, 4); Trace tr; bool waited = false;
    std::vector<StubLink*> ls; std::vector<GunnsBasicLink*> lp; std::vector<StubNode*> ns; std::vector<GunnsBasicNode*> np; std::vector<int*> maps; std::vector<int> ports;
    std::vector<std::vector<int> > map;
    // every network has at least one link that is always ready, as a capacitor is
    const int readyAt = c.i(0, m);
    for (int k = 0; k <= m; ++k) { const int p = k == readyAt ? 2 : c.i(1, 5); ls.push_back(new StubLink(p)); ls[k]->tr = &tr; ls[k]->id = k; ports.push_back(p); std::vector<int> q; for (int z = 0; z < p; ++z) q.push_back(c.i(0, n)); map.push_back(q); }
    for (int k = 0; k <= m; ++k) { lp.push_back(ls[k]); maps.push_back(&map[k][0]); }
    for (int k = 0; k <= n; ++k) { ns.push_back(new StubNode); ns[k]->tr = &tr; ns[k]->id = k; np.push_back(ns[k]); }
    const int L = m + 1, N = n + 1; GunnsFluidFlowOrchestrator o(L, N); o.initialize("orch", &lp[0], &np[0], &maps[0], &ports[0]);
    for (int s = 0; s < steps; ++s) {
        for (int k = 0; k < L; ++k) { ls[k]->next.assign(ports[k], GunnsBasicLink::NONE); if (k == readyAt) continue; for (int z = 0; z < ports[k]; ++z) ls[k]->next[z] = c.pickOf({GunnsBasicLink::NONE, GunnsBasicLink::SOURCE, GunnsBasicLink::SINK, GunnsBasicLink::SOURCE, GunnsBasicLink::SINK, GunnsBasicLink::BOTH}); }
        for (int k = 0; k < n; ++k) ns[k]->over = c.b(0.5);
        c.log() << "step " << s << ":"; for (int k = 0; k < L; ++k) { c.log() << " link" << k << "("; for (int z = 0; z < ports[k]; ++z) c.log() << map[k][z] << "NSDB"[ls[k]->next[z]] << " "; c.log() << ")"; } c.log() << " overflowing:"; for (int k = 0; k < n; ++k) if (ns[k]->over) c.log() << " " << k; c.log() << "\n";
        tr.ev.clear(); o.update(0.1);
        // replay the trace against the rules
        std::vector<int> comp(L, 0), trans(L, 0), integ(N, 0); int computed = 0; bool force = false;
        std::function<bool(int)> linkReady = [&](int k) { for (int z = 0; z < ports[k]; ++z) if ((ls[k]->next[z] == GunnsBasicLink::SOURCE || ls[k]->next[z] == GunnsBasicLink::BOTH) && map[k][z] < n && ns[map[k][z]]->over && !integ[map[k][z]]) return false; return true; };
        std::function<bool(int)> nodeReady = [&](int k) { for (int q = 0; q < L; ++q) if (!trans[q]) for (int z = 0; z < ports[q]; ++z) if (map[q][z] == k && (ls[q]->next[z] == GunnsBasicLink::SINK || ls[q]->next[z] == GunnsBasicLink::BOTH)) return false; return true; };
        for (int k = 0; k < L; ++k) if (!linkReady(k)) waited = true;
        for (size_t e = 0; e < tr.ev.size(); ++e) {
            const Event& v = tr.ev[e];
            if (v.what == 'c') { c.check(e < (size_t)L && comp[v.id] == 0, "compute-once-first", S() << "step " << s << " link " << v.id << " computes flows again or late"); comp[v.id] = 1; ++computed; }
            if (v.what == 't') { c.check(computed == L, "compute-before-transport", S() << "step " << s << " link " << v.id << " transported before all links computed their flows"); c.check(!trans[v.id], "transport-once", S() << "step " << s << " link " << v.id << " transported again");
                if (!linkReady(v.id)) { force = true; bool stuck = true; int who = -1; for (int k = 0; k < L; ++k) if (!trans[k] && linkReady(k)) { stuck = false; who = k; } for (int k = 0; k < n; ++k) if (!integ[k] && nodeReady(k)) { stuck = false; who = 1000 + k; }
                    c.check(stuck, "early-transport", S() << "step " << s << " link " << v.id << " transported before its overflowing source node was integrated although " << (who >= 1000 ? "node " : "link ") << who % 1000 << " could proceed"); }
                trans[v.id] = 1; }
            if (v.what == 'i') { c.check(v.id < n, "ground-integrated", "the ground node was integrated"); c.check(!integ[v.id], "integrate-once", S() << "step " << s << " node " << v.id << " integrated again"); c.check(nodeReady(v.id), "integrate-after-inflow", S() << "step " << s << " node " << v.id << " integrated before all links into it were transported"); integ[v.id] = 1; }
        }
        for (int k = 0; k < L; ++k) { c.check(comp[k] == 1, "compute-all", S() << "step " << s << " link " << k << " never computed flows"); c.check(trans[k] == 1, "transport-all", S() << "step " << s << " link " << k << " never transported"); }
        for (int k = 0; k < n; ++k) c.check(integ[k] == 1, "integrate-all", S() << "step " << s << " node " << k << " never integrated");
        if (force) c.label("a cycle forced an early transport");
    }
    if (waited) { c.nontrivial(); }
    for (size_t k = 0; k < ls.size(); ++k) { delete ls[k]; } for (size_t k = 0; k < ns.size(); ++k) delete ns[k];
}
FACET(basic, 20000, 300000, "orchestrator of networks without fluids: every link computes, every node integrates, exactly once; nontrivial = at least 2 links and 2 nodes") {
    const int n = c.i(1, 8), m = c.i(1, 10); Trace tr; std::vector<StubLink*> ls; std::vector<GunnsBasicLink*> lp; std::vector<StubNode*> ns; std::vector<GunnsBasicNode*> np; std::vector<int*> maps; std::vector<int> ports(m, 2); std::vector<std::vector<int> > map;
    for (int k = 0; k < m; ++k) { ls.push_back(new StubLink(2)); ls[k]->tr = &tr; ls[k]->id = k; std::vector<int> q; q.push_back(c.i(0, n)); q.push_back(c.i(0, n)); map.push_back(q); } for (int k = 0; k < m; ++k) { lp.push_back(ls[k]); maps.push_back(&map[k][0]); }
    for (int k = 0; k <= n; ++k) { ns.push_back(new StubNode); ns[k]->tr = &tr; ns[k]->id = k; np.push_back(ns[k]); }
    const int nn = n + 1; GunnsBasicFlowOrchestrator o(m, nn); o.initialize("orch", &lp[0], &np[0], &maps[0], &ports[0]);
    for (int s = 0; s < 2; ++s) { tr.ev.clear(); o.update(0.1); std::vector<int> comp(m, 0), integ(n + 1, 0); int computed = 0;
        for (size_t e = 0; e < tr.ev.size(); ++e) { if (tr.ev[e].what == 'c') { ++comp[tr.ev[e].id]; ++computed; } if (tr.ev[e].what == 'i') { c.check(computed == m, "compute-first", "a node was integrated before all links computed flows"); ++integ[tr.ev[e].id]; } }
        for (int k = 0; k < m; ++k) c.check(comp[k] == 1, "compute-all", S() << "link " << k << " computed " << comp[k] << " times"); for (int k = 0; k <= n; ++k) c.check(integ[k] == (k < n ? 1 : 0), "integrate-all", S() << "node " << k << " of " << n << " integrated " << integ[k] << " times"); }
    if (n > 1 && m > 1) c.nontrivial();
    for (size_t k = 0; k < ls.size(); ++k) { delete ls[k]; } for (size_t k = 0; k < ns.size(); ++k) delete ns[k];
}
// The same network with its links added in another order behaves the same.
FACET(permute, 200000, 1200000, "chains, trees and random networks with many nodes without volume, built twice with links in different order; nontrivial = flow passed through nodes without volume") {
    FOpt o; o.src = c.b(0.3); o.fctl = false; o.maxN = 8; FSpec s = genFluid(c, o); const int n = s.n();
    for (int k = 1; k < n; ++k) if (c.b(0.5)) { s.nodes[k].cap = false; s.nodes[k].vol = 0.; }
    for (int k = 0; k + 1 < n; ++k) if (c.b(0.7)) { FLink l; l.type = COND; params(c, l, s, o); l.a = s.gas ? c.lr(1e-8, 1e-5) : c.lr(1e-9, 1e-6); l.p0 = k; l.p1 = k + 1; if (c.b()) std::swap(l.p0, l.p1); s.links.push_back(l); }
    std::vector<int> perm; for (size_t q = 0; q < s.links.size(); ++q) perm.push_back((int)q); c.shuffle(perm); FSpec s2 = s; for (size_t q = 0; q < perm.size(); ++q) s2.links[q] = s.links[perm[q]];
    logFluid(c.log(), s); FluidNet f(s), g(s2); const int steps = 1; const double dt = c.b() ? 0.1 : c.lr(1e-3, 5.); bool thru = false;
    for (int t = 0; t < steps; ++t) {
        std::vector<State> old = snapAll(f), old2 = snapAll(g); f.net.step(dt); g.net.step(dt); Account a = account(f, old, dt), b = account(g, old2, dt);
        if (a.overDemand || a.cycle || a.floating || b.overDemand || b.cycle || b.floating) { c.label("ended early"); break; }
        std::vector<State> x = snapAll(f), y = snapAll(g);
        for (int k = 0; k < n; ++k) {
            const bool tiny = f.caps[k] ? x[k].mass < 1e-9 : a.scale[k] < 1e-9; if (tiny) continue; if (!f.caps[k]) thru = true;
            const double rel = 1e-5 + a.slack[k] * 100. / (f.caps[k] ? x[k].mass : a.scale[k]); if (rel > 1e-2) continue;
            c.checkNear(y[k].P, x[k].P, rel, 1e-6, "order-pressure", S() << "step " << t << " node " << k << " pressure with links reordered"); c.checkNear(y[k].T, x[k].T, rel, 0., "order-temperature", S() << "step " << t << " node " << k << " temperature with links reordered");
            for (size_t i = 0; i < s.types.size(); ++i) c.checkNear(y[k].mf[i], x[k].mf[i], rel, rel, "order-mixture", S() << "step " << t << " node " << k << " fraction " << i << " with links reordered"); }
        if (!thru) continue;
    }
    if (thru) c.nontrivial();
}
