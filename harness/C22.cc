// C22: jumpers plug into exactly the sockets asked for, sockets hold one jumper, and gangs of links move together.
#include "core/GunnsBasicSocket.hh"
#include "core/GunnsBasicJumper.hh"
#include "core/GunnsBasicJumperPlug.hh"
#include "core/GunnsFluidSocket.hh"
#include "core/GunnsFluidJumper.hh"
#include "core/GunnsFluidJumperPlug.hh"
#include "core/network/GunnsMultiLinkConnector.hh"
#include "core/network/GunnsNetworkBase.hh"
#include "software/exceptions/TsInitializationException.hh"
#define VPT_FRIEND_EXTRA static double basicFlux(const GunnsBasicLink& l) { return l.mFlux; }
#include "fluidnet.hh"
#include "elec.hh"
using namespace fn;
namespace {
// A plug keeps its commands and state as the drawing tool's plugs do.
template<class B> class Plug : public B { public: int act, last, con, dis, n; Plug(const std::string& nm, int size) : B(nm, size), act(size), last(size), con(size), dis(size), n(size) {}
    virtual void setActiveConnection(const int i) { act = i; } virtual void setLastDisconnection(const int i) { last = i; } virtual void setConnectionRequest(const int i) { con = i; } virtual void setDisconnectionRequest(const int i) { dis = i; }
    virtual int getActiveConnection() { return act; } virtual int getLastDisconnection() { return last; } virtual int getConnectionRequest() { return con; } virtual int getDisconnectionRequest() { return dis; } virtual int getNoConnection() { return n; }
    using B::mDirectConnectionDisable; };
// What the plugs and sockets have to do, by their documentation.
struct RSock { int node, amb, who; bool seal; };
struct RPlug { bool there; std::vector<int> list; int act, last, con, dis, direct, node; bool off; };
struct Ref { std::vector<RSock> s; std::vector<RPlug> p; int moves, refused;
    void leave(RPlug& p, int me, int k) { RSock& z = s[p.list[k]]; if (z.who == me) z.who = -1; p.node = z.amb; p.last = k; }
    int holder(const RPlug& p, int me) const { for (size_t k = 0; k < p.list.size(); ++k) if (s[p.list[k]].who == me) return (int)k; return (int)p.list.size(); }
    void update(int me, int at) { RPlug& q = p[me]; const int NC = (int)q.list.size(); q.node = at; if (q.off) q.direct = -99;
        if (q.direct >= 0 && q.direct <= NC && q.direct != q.act) { q.dis = q.act; if (q.direct < NC && s[q.list[q.direct]].who < 0) q.con = q.direct; }
        if (q.dis != NC && (q.act == NC || q.act == q.dis)) { if (q.act == q.dis) ++moves; leave(q, me, q.dis); } q.dis = NC; q.act = holder(q, me);
        if (q.con != NC && q.act == NC) { RSock& z = s[q.list[q.con]]; if (z.who < 0) { z.who = me; q.node = z.node; q.last = NC; ++moves; } else ++refused; } q.con = NC; q.act = holder(q, me); } };
template<class T> struct Kind;
template<class PlugT> void operate(Case& c, Ref& r, std::vector<std::unique_ptr<PlugT> >& plugs) {
    for (int e = c.i(0, 4); e > 0; --e) { const int k = c.raw((unsigned)r.p.size()); RPlug& q = r.p[k]; if (!q.there) continue; PlugT& g = *plugs[k]; const int NC = (int)q.list.size(), t = c.i(0, NC - 1);
        switch (c.weighted({4, 2, 3, 2, 1, 1})) { case 0: q.con = t; g.setConnectionRequest(t); c.log() << "  plug " << k << " into " << t << "\n"; break; case 1: q.dis = q.act; g.setDisconnectionRequest(q.act); c.log() << "  plug " << k << " out\n"; break; case 2: q.direct = c.i(0, NC); g.setDirectConnectionRequest(q.direct); c.log() << "  plug " << k << " direct " << q.direct << "\n"; break;
            case 3: q.dis = t; g.setDisconnectionRequest(t); c.log() << "  plug " << k << " out of " << t << "\n"; break; case 4: q.direct = c.i(-3, -1); g.setDirectConnectionRequest(q.direct); c.log() << "  plug " << k << " direct " << q.direct << "\n"; break; default: q.off = !q.off; g.mDirectConnectionDisable = q.off; c.log() << "  plug " << k << " direct disabled " << q.off << "\n"; } }
}
struct JCfg { int a, b; bool s0, s1; double g; };
// sockets, jumpers and plugs of a case
void layout(Case& c, int n, int& nS, int& nJ, Ref& r, std::vector<JCfg>& j, bool ground) { nS = c.i(1, 5); nJ = c.i(1, 3); r.moves = r.refused = 0; for (int i = 0; i < nS; ++i) { RSock s; s.node = c.i(0, n - 1); s.amb = c.i(0, ground ? n : n - 1); if (s.amb == s.node) s.amb = ground ? n : (s.node + 1) % n; s.who = -1; s.seal = c.b(); r.s.push_back(s); c.log() << "socket " << i << " at " << s.node << " ambient " << s.amb << (s.seal ? " sealing" : "") << "\n"; }
    for (int i = 0; i < nJ; ++i) { JCfg q; q.a = c.i(0, n - 1); q.b = c.i(0, ground ? n : n - 1); if (q.a == q.b) q.b = (q.a + 1) % n; q.s0 = c.b(); q.s1 = c.b(); q.g = 0.; j.push_back(q); for (int e = 0; e < 2; ++e) { RPlug p; p.there = e == 0 || c.b(0.85); for (int k = 0; k < nS; ++k) if (c.b(0.8)) p.list.push_back(k); if (p.list.empty()) p.list.push_back(c.i(0, nS - 1)); c.shuffle(p.list); p.act = p.last = p.con = p.dis = (int)p.list.size(); p.direct = -99; p.node = e ? q.b : q.a; p.off = false; if (p.there && c.b(0.4)) { const int k = c.i(0, (int)p.list.size() - 1); if (r.s[p.list[k]].who < 0) { p.act = k; } } r.p.push_back(p); RPlug& z = r.p.back(); if (z.act < (int)z.list.size()) { RSock& s = r.s[z.list[z.act]]; s.who = (int)r.p.size() - 1; z.node = s.node; } c.log() << "jumper " << i << " end " << e << (p.there ? "" : " fixed") << " starts at " << (e ? q.b : q.a) << " plugged " << (p.act < (int)p.list.size() ? p.list[p.act] : -1) << " sockets"; for (size_t k = 0; k < p.list.size(); ++k) c.log() << " " << p.list[k]; c.log() << "\n"; } } }
template<class PlugT, class SockT, class JumpT> void agree(Case& c, const Ref& r, std::vector<std::unique_ptr<PlugT> >& plugs, std::vector<SockT*>& socks, std::vector<JumpT*>& jumps, const std::string& at) {
    for (size_t k = 0; k < r.p.size(); ++k) { const RPlug& q = r.p[k]; const int port = jumps[k / 2]->getNodeMap()[k % 2]; c.check(port == q.node, "port-node", S() << at << " plug " << k << " at node " << port << " expected " << q.node); if (!q.there) continue; const PlugT& g = *plugs[k]; c.check(g.act == q.act, "connection", S() << at << " plug " << k << " reports " << g.act << " expected " << q.act); c.check(g.con == q.con && g.dis == q.dis, "request-left", S() << at << " plug " << k); c.check(g.getDirectConnectionRequest() == q.direct, "direct-left", S() << at << " plug " << k << " " << g.getDirectConnectionRequest() << " expected " << q.direct);
        int in = 0; for (size_t i = 0; i < q.list.size(); ++i) if (socks[q.list[i]]->isConnected(&g)) ++in; c.check(in <= 1, "two-sockets", S() << at << " plug " << k); if (q.act < (int)q.list.size()) c.check(port == r.s[q.list[q.act]].node && socks[q.list[q.act]]->isConnected(&g), "attached", S() << at << " plug " << k); }
    for (size_t i = 0; i < r.s.size(); ++i) { int held = 0; for (size_t k = 0; k < r.p.size(); ++k) if (r.p[k].there && socks[i]->isConnected(plugs[k].get())) { ++held; c.check(r.s[i].who == (int)k, "socket-holds", S() << at << " socket " << i << " holds plug " << k << " expected " << r.s[i].who); } c.check(held <= 1 && (held == 1) == (r.s[i].who >= 0) && socks[i]->isConnected() == (r.s[i].who >= 0), "socket-state", S() << at << " socket " << i); }
}
void restarted(Ref& r, int j, const int* def, bool both) { (void)both; for (int e = 0; e < 2; ++e) { RPlug& q = r.p[2 * j + e]; q.node = def[e]; if (!q.there) continue; const int NC = (int)q.list.size(); if (q.act != NC) { q.dis = q.act; q.con = q.act; } else { q.dis = q.last; q.con = NC; } } for (int e = 0; e < 2; ++e) if (r.p[2 * j + e].there) r.update(2 * j + e, def[e]); }
}
FACET(basic, 40000, 600000, "three or more plugs moved and a refusal, or a restart after a move") {
    const int n = c.i(2, 4); int nS, nJ; Ref r; std::vector<JCfg> jc; layout(c, n, nS, nJ, r, jc, true); const Ref r0 = r; el::Circuit k(n); std::vector<std::unique_ptr<GunnsBasicSocket> > so; std::vector<std::unique_ptr<GunnsBasicJumper> > ju; std::vector<GunnsBasicSocket*> socks; std::vector<GunnsBasicJumper*> jumps; std::vector<std::unique_ptr<Plug<GunnsBasicJumperPlug> > > plugs; std::vector<double> V(n), Gs(n), GS(nS), blk(nJ, 0.); std::vector<GunnsBasicPotential*> pots;
    for (int i = 0; i < n; ++i) { V[i] = c.r(0., 100.); Gs[i] = c.lr(0.1, 10.); pots.push_back(k.pot(V[i], Gs[i], i)); }
    std::vector<std::pair<int, int> > order; for (int i = 0; i < nS; ++i) { so.emplace_back(new GunnsBasicSocket); socks.push_back(so.back().get()); GS[i] = c.lr(0.01, 10.); order.push_back(std::make_pair(0, i)); } for (int i = 0; i < nJ; ++i) { ju.emplace_back(new GunnsBasicJumper); jumps.push_back(ju.back().get()); jc[i].g = c.lr(0.01, 10.); }
    c.shuffle(order); for (int i = 0; i < nJ; ++i) order.push_back(std::make_pair(1, i)); // jumpers are initialised after the sockets they start in
    for (size_t i = 0; i < r.p.size(); ++i) { plugs.emplace_back(new Plug<GunnsBasicJumperPlug>("plug" + std::to_string(i), (int)r.p[i].list.size())); for (size_t q = 0; q < r.p[i].list.size(); ++q) plugs.back()->addSocket(*socks[r.p[i].list[q]]); }
    for (size_t o = 0; o < order.size(); ++o) { const int i = order[o].second; if (order[o].first == 0) { GunnsBasicSocketConfigData cc("socket" + std::to_string(i), &k.nl, GS[i], r.s[i].seal); GunnsBasicSocketInputData ii(false, 0.); socks[i]->initialize(cc, ii, k.links, r.s[i].node, r.s[i].amb); } else { GunnsBasicJumperConfigData cc("jumper" + std::to_string(i), &k.nl, jc[i].g, plugs[2 * i].get(), r.p[2 * i + 1].there ? plugs[2 * i + 1].get() : 0, jc[i].s0, jc[i].s1); GunnsBasicJumperInputData ii(false, 0., r.p[2 * i].act, r.p[2 * i + 1].act); jumps[i]->initialize(cc, ii, k.links, jc[i].a, jc[i].b); } }
    if (c.b()) { std::vector<GunnsBasicLink*> l = k.links; c.shuffle(l); k.links = l; } k.start(30, 1e-10); agree(c, r, plugs, socks, jumps, "initially"); const int mode = c.i(0, 2); k.net.setIslandMode(mode == 0 ? Gunns::OFF : mode == 1 ? Gunns::FIND : Gunns::SOLVE); bool redo = false;
    const int steps = c.i(1, 12); for (int t = 0; t < steps; ++t) { const std::string at = S() << "step " << t; c.log() << at << "\n"; operate(c, r, plugs); for (int i = 0; i < nJ; ++i) if (c.b(0.1)) { blk[i] = c.b() ? 0. : c.r(0., 1.); jumps[i]->setMalfBlockage(blk[i] > 0., blk[i]); }
        if (c.b(0.06)) { c.log() << "  restart\n"; k.net.restart(); for (size_t l = 0; l < k.links.size(); ++l) for (int i = 0; i < nJ; ++i) if (k.links[l] == jumps[i]) { const int def[2] = {jc[i].a, jc[i].b}; restarted(r, i, def, true); } agree(c, r, plugs, socks, jumps, at + " restart"); if (r.moves) redo = true; }
        // the links step in order: a socket stepped before a jumper still sees the jumper's old place
        std::vector<double> g(nS), gj(nJ); for (size_t l = 0; l < k.links.size(); ++l) { for (int i = 0; i < nS; ++i) if (k.links[l] == socks[i]) g[i] = r.s[i].seal || r.s[i].who >= 0 ? 0. : GS[i]; for (int i = 0; i < nJ; ++i) if (k.links[l] == jumps[i]) { bool sealed = false; for (int e = 0; e < 2; ++e) { RPlug& q = r.p[2 * i + e]; if (!q.there) continue; r.update(2 * i + e, q.node); if ((e ? jc[i].s1 : jc[i].s0) && q.act == (int)q.list.size()) sealed = true; } gj[i] = sealed || r.p[2 * i].node == r.p[2 * i + 1].node ? 0. : jc[i].g * (1. - blk[i]); } }
        if (!k.step(0.1)) c.discard(); agree(c, r, plugs, socks, jumps, at);
        std::vector<double> A(n * n, 0.), w(n, 0.); auto tie = [&](int a, int b, double q) { if (a < n) A[a * n + a] += q; if (b < n) A[b * n + b] += q; if (a < n && b < n) { A[a * n + b] -= q; A[b * n + a] -= q; } }; for (int i = 0; i < n; ++i) { A[i * n + i] += Gs[i]; w[i] += Gs[i] * V[i]; } for (int i = 0; i < nS; ++i) tie(r.s[i].node, r.s[i].amb, g[i]); for (int i = 0; i < nJ; ++i) if (r.p[2 * i].node != r.p[2 * i + 1].node) tie(r.p[2 * i].node, r.p[2 * i + 1].node, gj[i]);
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { const double f = A[j * n + i] / A[i * n + i]; for (int q = i; q < n; ++q) A[j * n + q] -= f * A[i * n + q]; w[j] -= f * w[i]; } for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) w[i] -= A[i * n + j] * w[j]; w[i] /= A[i * n + i]; } auto v = [&](int i) { return i < n ? w[i] : 0.; };
        for (int i = 0; i < n; ++i) c.checkNear(k.v(i), w[i], 1e-9, 1e-9, "potential", S() << at << " node " << i); for (int i = 0; i < nS; ++i) c.checkNear(VptFriend::basicFlux(*socks[i]), g[i] * (v(r.s[i].node) - v(r.s[i].amb)), 1e-9, 1e-9, "socket-flux", S() << at << " socket " << i); for (int i = 0; i < nJ; ++i) c.checkNear(VptFriend::basicFlux(*jumps[i]), gj[i] * (v(r.p[2 * i].node) - v(r.p[2 * i + 1].node)), 1e-9, 1e-9, "jumper-flux", S() << at << " jumper " << i); }
    if ((r.moves >= 3 && r.refused) || redo) c.nontrivial();
}
FACET(fluid, 20000, 240000, "three or more plugs moved and a refusal, or a restart after a move") {
    FOpt o; o.maxN = 4; o.maxLinks = 1; o.zeroVol = false; FSpec s = genFluid(c, o); s.links.clear(); if (s.nodes.size() < 2) s.nodes.push_back(s.nodes[0]); for (size_t i = 0; i < s.nodes.size(); ++i) { s.nodes[i].exF = 0.; s.nodes[i].cap = true; s.nodes[i].vol = c.r(0.5, 10.); s.nodes[i].P = c.r(80., 120.); } const int n = (int)s.nodes.size(); int nS, nJ; Ref r; std::vector<JCfg> jc; layout(c, n, nS, nJ, r, jc, false);
    std::vector<std::unique_ptr<GunnsFluidSocket> > so; std::vector<std::unique_ptr<GunnsFluidJumper> > ju; std::vector<GunnsFluidSocket*> socks; std::vector<GunnsFluidJumper*> jumps; std::vector<std::unique_ptr<Plug<GunnsFluidJumperPlug> > > plugs; FluidNet f(s, false); logFluid(c.log(), f.spec); const double g = s.gas ? 1e-6 : 1e-7; std::vector<double> leak(nS, 0.), jleak(nJ, 0.), blk(nJ, 0.), GS(nS); std::vector<double> prevS(nS, 0.), prevJ(nJ, 0.);
    for (int i = 0; i < nS; ++i) { so.emplace_back(new GunnsFluidSocket); socks.push_back(so.back().get()); GS[i] = g * c.lr(0.1, 10.); } for (int i = 0; i < nJ; ++i) { ju.emplace_back(new GunnsFluidJumper); jumps.push_back(ju.back().get()); jc[i].g = g * c.lr(0.1, 10.); } for (size_t i = 0; i < r.p.size(); ++i) { plugs.emplace_back(new Plug<GunnsFluidJumperPlug>("plug" + std::to_string(i), (int)r.p[i].list.size())); for (size_t q = 0; q < r.p[i].list.size(); ++q) plugs.back()->addSocket(*socks[r.p[i].list[q]]); }
    for (int i = 0; i < nS; ++i) { GunnsFluidSocketConfigData cc("socket" + std::to_string(i), &f.nl, GS[i], 0., r.s[i].seal); GunnsFluidSocketInputData ii; socks[i]->initialize(cc, ii, f.links, r.s[i].node, r.s[i].amb); } for (int i = 0; i < nJ; ++i) { GunnsFluidJumperConfigData cc("jumper" + std::to_string(i), &f.nl, jc[i].g, 0., plugs[2 * i].get(), r.p[2 * i + 1].there ? plugs[2 * i + 1].get() : 0, jc[i].s0, jc[i].s1); GunnsFluidJumperInputData ii(false, 0., false, 0., r.p[2 * i].act, r.p[2 * i + 1].act); jumps[i]->initialize(cc, ii, f.links, jc[i].a, jc[i].b); }
    f.start(); agree(c, r, plugs, socks, jumps, "initially"); bool redo = false; int leaks = 0; const int steps = c.i(1, 10);
    for (int t = 0; t < steps; ++t) { const std::string at = S() << "step " << t; c.log() << at << "\n"; operate(c, r, plugs); for (int i = 0; i < nJ; ++i) if (c.b(0.1)) { blk[i] = c.b() ? 0. : c.r(0., 1.); jumps[i]->setMalfBlockage(blk[i] > 0., blk[i]); } for (int i = 0; i < nS; ++i) if (c.b(0.1)) { leak[i] = c.b(0.3) ? 0. : c.lr(1e-8, 1e-5); socks[i]->setMalfLeakRate(leak[i] > 0., leak[i]); c.log() << "  socket " << i << " leak " << leak[i] << "\n"; } for (int i = 0; i < nJ; ++i) if (c.b(0.1)) { jleak[i] = c.b(0.3) ? 0. : c.lr(1e-8, 1e-5); jumps[i]->setMalfLeakRate(jleak[i] > 0., jleak[i]); c.log() << "  jumper " << i << " leak " << jleak[i] << "\n"; }
        if (c.b(0.06)) { c.log() << "  restart\n"; f.net.restart(); for (int i = 0; i < nJ; ++i) { const int def[2] = {jc[i].a, jc[i].b}; restarted(r, i, def, true); } agree(c, r, plugs, socks, jumps, at + " restart"); if (r.moves) redo = true; }
        std::vector<bool> shut(nS), sealed(nJ, false); for (int i = 0; i < nS; ++i) shut[i] = r.s[i].seal || r.s[i].who >= 0; for (int i = 0; i < nJ; ++i) for (int e = 0; e < 2; ++e) { RPlug& q = r.p[2 * i + e]; if (!q.there) continue; r.update(2 * i + e, q.node); if ((e ? jc[i].s1 : jc[i].s0) && q.act == (int)q.list.size()) sealed[i] = true; }
        std::vector<double> m0(n), p0(n), rho(n), mw(n); for (int i = 0; i < n; ++i) { m0[i] = f.nodes[i].getContent()->getMass(); p0[i] = f.nodes[i].getContent()->getPressure(); mw[i] = f.nodes[i].getContent()->getMWeight(); rho[i] = f.nodes[i].getContent()->getDensity(); } f.net.step(0.1); agree(c, r, plugs, socks, jumps, at); std::vector<double> in(n, 0.);
        for (int l = 0; l < nS + nJ; ++l) { const bool jump = l >= nS; const int i = jump ? l - nS : l; const int a = jump ? r.p[2 * i].node : r.s[i].node, b = jump ? r.p[2 * i + 1].node : r.s[i].amb; GunnsFluidLink& x = jump ? (GunnsFluidLink&)*jumps[i] : (GunnsFluidLink&)*socks[i]; const double Y = VptFriend::admittance(x), fl = VptFriend::flow(x); in[a] -= fl; in[b] += fl; const bool closed = jump ? sealed[i] : shut[i]; const double lk = jump ? jleak[i] : leak[i], dP = f.nodes[a].getPotential() - f.nodes[b].getPotential(); const std::string w = S() << at << (jump ? " jumper " : " socket ") << i;
            if (a == b) { c.check(Y == 0. && fl == 0., "loop-flow", w); continue; } double& seen = jump ? prevJ[i] : prevS[i]; const bool fresh = closed && seen != lk; if (closed) seen = lk; if (closed && lk == 0.) { c.check(Y == 0. && fl == 0., "sealed-flow", S() << w << " flow " << fl); continue; } if (jump && blk[i] == 1.) { c.check(Y == 0., "blocked", w); continue; } if (closed) { if (fresh && std::fabs(mw[a] - mw[b]) < 0.02 * mw[a] && std::fabs(p0[a] - p0[b]) > 5. && std::fabs(dP) > 5. && (!jump || blk[i] == 0.) && lk < 0.3 * (jump ? jc[i].g : GS[i]) * std::sqrt(1000. * std::fabs(dP) * rho[a])) { c.checkNear(std::fabs(fl), lk * std::fabs(dP / (p0[a] - p0[b])), 0.1, 0., "leak-rate", S() << w << " drop " << dP); ++leaks; } continue; } c.check(Y > 0., "open", S() << w << " does not conduct"); if (std::fabs(dP) > 1e-3) c.check((fl > 0.) == (dP > 0.), "direction", S() << w << " flow " << fl << " drop " << dP); }
        for (int i = 0; i < n; ++i) c.checkNear(f.nodes[i].getContent()->getMass() - m0[i], in[i] * 0.1, 1e-6, 1e-12 * m0[i] + 1e-14, "node-mass", S() << at << " node " << i); }
    if (leaks) c.label("leak checked"); if ((r.moves >= 3 && r.refused) || redo) c.nontrivial();
}
namespace { class Nothing : public GunnsNetworkBase { public: GunnsBasicNode nd[1]; Nothing() : GunnsNetworkBase("nothing", 1, nd) {} virtual void initNodes(const std::string&) {} virtual void initNetwork() {} };
class Gang : public GunnsMultiLinkConnector { public: Gang(GunnsNetworkBase* n, int t) : GunnsMultiLinkConnector(n, t) {} }; }
FACET(connectors, 5000, 100000, "three or more connections made, at two or more offsets") {
    const int n = c.i(4, 10); el::Circuit k(n); std::vector<GunnsBasicConductor*> l; const int L = c.i(1, 6); std::vector<std::pair<int, int> > at; for (int i = 0; i < L; ++i) { const int a = c.i(0, n - 1), b = (a + c.i(1, n - 1)) % n; l.push_back(k.cond(1., a, b)); at.push_back(std::make_pair(a, b)); }
    Nothing net; const int type = c.i(0, 3); Gang g(&net, type); GunnsMultiLinkConnectorConfigData cc("gang"); GunnsMultiLinkConnectorInputData ii; g.initialize(&cc, &ii); c.check(g.getNetwork() == &net && g.getJointType() == type, "properties", ""); struct Con { int link, port, node; }; std::vector<Con> con; int uses = 0; bool throws = false; try { g.getJointIndex(); } catch (TsInitializationException&) { throws = true; } c.check(throws, "joint-index", "accepted without a joint network"); net.setJointIndex(type + 2); g.setJointNetwork(&net); c.check((int)g.getJointIndex() == type + 2, "joint-index", "");
    k.start(); for (int u = c.i(1, 4); u > 0; --u) { for (int q = c.i(0, 3); q > 0; --q) { Con x = {c.i(0, L - 1), c.i(0, 1), c.i(0, 3)}; con.push_back(x); g.addConnection(l[x.link], x.port, x.node); c.log() << "link " << x.link << " port " << x.port << " to " << x.node << "\n"; } const int off = c.i(0, n - 4); c.log() << "connect at " << off << "\n"; g.connect(off); if (!con.empty()) ++uses;
        for (size_t q = 0; q < con.size(); ++q) { std::pair<int, int>& w = at[con[q].link]; const int node = con[q].node + off, other = con[q].port ? w.first : w.second; if (node == other) continue; (con[q].port ? w.second : w.first) = node; } for (int i = 0; i < L; ++i) c.check(l[i]->getNodeMap()[0] == at[i].first && l[i]->getNodeMap()[1] == at[i].second, "gang-ports", S() << "link " << i << " at " << l[i]->getNodeMap()[0] << " " << l[i]->getNodeMap()[1] << " expected " << at[i].first << " " << at[i].second); if (c.b(0.3)) { g.stepPreSolver(0.1); g.stepPostSolver(0.1); } }
    if (con.size() >= 3 && uses >= 2) c.nontrivial();
}
