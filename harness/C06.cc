// Property C06: re-mapping link ports gives the network that the new map describes.
#include "basicnet.hh"
using namespace bn;
class VptFriend { public:
    static void command(GunnsBasicLink& l, int port, int node, GunnsBasicLink::UserPortControl ctl) { l.mUserPortSelect = port; l.mUserPortSelectNode = node; l.mUserPortSetControl = ctl; }
    static GunnsBasicLink::UserPortControl feedback(GunnsBasicLink& l) { return l.mUserPortSetControl; } };
static double dpOf(GunnsBasicLink* l) { return l->getPotentialVector()[0] - l->getPotentialVector()[1]; }

struct Map { int cur[2], def[2]; bool locked; int cmdPort, cmdNode; };
static bool allowed(const Map& m, int port, int node, int ground) { return !m.locked && port >= 0 && port < 2 && node >= 0 && node <= ground && (node == ground || m.cur[1 - port] != node); }

FACET(basic_links, 60000, 1500000, "2-9 steps of a random network with 0-4 direct or user port commands before each (valid, invalid, duplicate, locked, swaps, restarts), solved against the reference circuit of the resulting map; nontrivial = at least two moves accepted, one between non-ground nodes") {
    GenOpt o; o.lo = 1e-2; o.hi = 1e2; o.maxN = 6; o.maxExtra = 8; o.isolated = false; std::vector<bool> anchor; NetSpec s = genNet(c, o, anchor);
    // every node keeps an anchor to ground, so that any map of the other links gives a solvable network
    std::vector<size_t> movable; for (size_t k = 0; k < s.links.size(); ++k) if (!anchor[k]) movable.push_back(k);
    for (int k = 0; k < s.n; ++k) { LinkSpec l; l.p0 = k; l.p1 = s.n; l.a = c.lr(.1, 1.); s.links.push_back(l); }
    if (movable.empty()) { LinkSpec l; l.type = c.b() ? POT : COND; l.p0 = 0; l.p1 = s.n; l.a = 1.; l.s = 5.; movable.push_back(s.links.size()); s.links.push_back(l); } logNet(c.log(), s);
    std::vector<int> perm; for (int k = 0; k < s.n; ++k) perm.push_back(k); std::vector<int> none; BasicNet b(s, none, none); const int g = s.n;
    std::vector<Map> map(s.links.size()); for (size_t k = 0; k < s.links.size(); ++k) { map[k].cur[0] = map[k].def[0] = s.links[k].p0; map[k].cur[1] = map[k].def[1] = s.links[k].p1; map[k].locked = false; }
    int moves = 0; bool inner = false; if (c.b(0.3)) b.net.setIslandMode(Gunns::SOLVE);
    const int steps = c.i(2, 9);
    for (int t = 0; t < steps; ++t) {
        struct Pend { size_t k; bool ok; }; std::vector<Pend> pend; std::set<size_t> used;
        for (int q = c.i(0, 4); q > 0; --q) {
            const size_t k = c.pick(movable); GunnsBasicLink* x = b.bySpec[k]; Map& m = map[k]; const int what = c.weighted({6, 6, 2, 2, 1, 1, 1});
            int port = c.b(0.92) ? c.i(0, 1) : c.pickOf({-1, 2, 5}), node = c.b(0.9) ? c.i(0, g) : c.pickOf({-1, -2, g + 1, g + 7});
            if (what == 0) { const bool ok = allowed(m, port, node, g); c.log() << "  set link " << k << " port " << port << " to " << node << (ok ? "" : " (must be refused)") << "\n";
                const bool got = x->setPort(port, node, "test", false); c.check(got == ok, "direct-result", S() << "link " << k << " (now " << m.cur[0] << "->" << m.cur[1] << ") port " << port << " to node " << node << (got ? " was accepted" : " was refused"));
                if (ok) { if (m.cur[port] != node) { ++moves; inner |= node != g; } m.cur[port] = node; } }
            else if (what <= 3 && !used.count(k)) { used.insert(k); GunnsBasicLink::UserPortControl ctl = what == 1 ? GunnsBasicLink::EXECUTE : what == 2 ? GunnsBasicLink::GROUND : GunnsBasicLink::DEFAULT; VptFriend::command(*x, port, node, ctl);
                const int to = what == 1 ? node : what == 2 ? g : (port == 0 || port == 1) ? m.def[port] : -1; Pend p; p.k = k; p.ok = false; c.log() << "  command link " << k << " port " << port << " to " << to << "\n";
                // executed in the step, after any direct calls still to come in this frame: resolved below
                pend.push_back(p); pend.back().ok = false; m.cmdPort = port; m.cmdNode = to; }
            else if (what == 4) { m.locked = true; x->lockNodeMap(); c.log() << "  lock link " << k << "\n"; }
            else if (what == 5) { m.locked = false; x->unlockNodeMap(); c.log() << "  unlock link " << k << "\n"; }
            else if (what == 6) { for (size_t z : movable) { b.bySpec[z]->unlockNodeMap(); map[z].locked = false; } b.net.restart(); b.apply(s); pend.clear(); used.clear(); c.log() << "  restart\n";
                for (size_t z = 0; z < s.links.size(); ++z) { map[z].cur[0] = map[z].def[0]; map[z].cur[1] = map[z].def[1]; for (int p = 0; p < 2; ++p) c.check(b.bySpec[z]->getNodeMap()[p] == map[z].def[p], "restart-default", S() << "after a restart link " << z << " port " << p << " is on node " << b.bySpec[z]->getNodeMap()[p] << ", not its default " << map[z].def[p]); } }
        }
        for (Pend& p : pend) { Map& m = map[p.k]; const int port = m.cmdPort, node = m.cmdNode; p.ok = allowed(m, port, node, g); if (p.ok) { if (m.cur[port] != node) { ++moves; inner |= node != g; } m.cur[port] = node; } }
        std::vector<double> dq; for (size_t k = 0; k < s.links.size(); ++k) dq.push_back(dpOf(b.bySpec[k]));
        NetSpec now = s; for (size_t k = 0; k < s.links.size(); ++k) { now.links[k].p0 = map[k].cur[0]; now.links[k].p1 = map[k].cur[1]; }
        b.net.step(0.1); c.log() << "step\n";
        for (Pend& p : pend) c.check(VptFriend::feedback(*b.bySpec[p.k]) == (p.ok ? GunnsBasicLink::READY : GunnsBasicLink::FAILED), "feedback", S() << "command of link " << p.k << " reports " << (int)VptFriend::feedback(*b.bySpec[p.k]) << (p.ok ? " though it is valid" : " though it is invalid"));
        for (size_t k = 0; k < s.links.size(); ++k) for (int p = 0; p < 2; ++p) c.check(b.bySpec[k]->getNodeMap()[p] == map[k].cur[p], "map", S() << "link " << k << " port " << p << " is on node " << b.bySpec[k]->getNodeMap()[p] << " not " << map[k].cur[p]);
        std::vector<long double> r = refSolve(now, 0.1, dq); double pm = 1.; for (int k = 0; k < s.n; ++k) pm = std::max(pm, (double)fabsl(r[k]));
        for (int k = 0; k < s.n; ++k) c.check(fabsl(r[k] - b.p(k)) <= 1e-7L * pm, "solution", S() << "step " << t << ": node " << k << " potential " << b.p(k) << " but the mapped circuit gives " << (double)r[k]);
        std::vector<double> pp = b.potentials(); std::vector<double> in(s.n + 1, 0.), out(s.n + 1, 0.);
        for (size_t k = 0; k < s.links.size(); ++k) { const double f = b.bySpec[k]->getFlux(); const int a = map[k].cur[f >= 0. ? 0 : 1], z = map[k].cur[f >= 0. ? 1 : 0]; out[a] += std::fabs(f); in[z] += std::fabs(f); }
        for (int k = 0; k < s.n; ++k) { c.checkNear(b.node(k).getInflux(), in[k], 1e-9, 1e-9, "transport", S() << "node " << k << " influx"); c.checkNear(b.node(k).getOutflux(), out[k], 1e-9, 1e-9, "transport", S() << "node " << k << " outflux"); }
    }
    if (moves > 1 && inner) c.nontrivial(); c.label(S() << "moves " << (moves < 5 ? std::to_string(moves) : std::string("5+")));
}
