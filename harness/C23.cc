// C23: external supply and demand pairs, shadow links and super networks against one network.
#include "core/GunnsBasicExternalSupply.hh"
#include "core/GunnsBasicExternalDemand.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsFluidExternalSupply.hh"
#include "core/GunnsFluidExternalDemand.hh"
#include "core/GunnsFluidShadow.hh"
#include "core/network/GunnsMultiLinkConnector.hh"
#include "core/network/GunnsNetworkBase.hh"
#include "core/network/GunnsBasicSuperNetwork.hh"
#include "core/network/GunnsFluidSuperNetwork.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#define VPT_FRIEND_EXTRA static double basicFlux(const GunnsBasicLink& l) { return l.mFlux; }
#include "fluidnet.hh"
#include "elec.hh"
using namespace fn;
namespace {
class BSup : public GunnsBasicExternalSupply { public: using GunnsBasicExternalSupply::mDemandFlux_queue; using GunnsBasicExternalSupply::mDemandFlux_queue_size; using GunnsBasicExternalSupply::mSupplyPotential; using GunnsBasicExternalSupply::mFlux; };
class BDem : public GunnsBasicExternalDemand { public: using GunnsBasicExternalDemand::mSupplyPotential; using GunnsBasicExternalDemand::mDemandFlux; using GunnsBasicExternalDemand::mEffectiveConductivity; using GunnsBasicExternalDemand::mFlux; };
// What the demand side documents: moving averages over two frames, and a filtered estimate of the supply's capacitance.
struct Estimate { double avgD, avgP, cap, big, minG, minDp, gain; Estimate(double g, double d, double k) : avgD(0.), avgP(0.), cap(0.), big(0.), minG(g), minDp(d), gain(k) {}
    // the conductivity of the next step, from the flux of the last one
    double next(double flux, double P, double dt, double given = 0.) { avgD = 0.5 * (avgD + flux); const double p = 0.5 * (avgP + P), d = p - avgP; avgP = p; if (std::fabs(d) > minDp) { const double x = -avgD * dt / d; cap = (1. - gain) * cap + gain * x; big = std::max(big, gain * std::fabs(x)); } return given > 0. ? given / dt : std::max(cap / dt, minG); } };
}
FACET(basic_pair, 1500, 30000, "the networks changed during the run and settled after with a flow across the pair") {
    el::Circuit A(2), B(2); const double Va = c.sr(1., 200.), Vb = c.sr(1., 200.), ga = c.lr(0.01, 10.), gb = c.lr(0.01, 10.), ra = c.lr(0.01, 10.), rb = c.lr(0.01, 10.); GunnsBasicPotential* pa = A.pot(Va, ga, 1); GunnsBasicPotential* pb = B.pot(Vb, gb, 1); GunnsBasicConductor* la = A.cond(ra, 0, 1); GunnsBasicConductor* lb = B.cond(rb, 0, 1); const double xa = c.lr(0.01, 1.), xb = c.lr(0.01, 1.); A.cond(xa, 0, A.gnd()); B.cond(xb, 0, B.gnd());
    const double gain = c.b(0.6) ? 0. : c.r(0., 0.3); const bool queue = c.b(0.4); const double weak = 1. / (1. / ga + 1. / ra) + xa; const double minG = c.r(0.05, 0.6) * weak, minDp = c.lr(1e-9, 1e-3);
    BSup s; { GunnsBasicExternalSupplyConfigData cc("supply", &A.nl); GunnsBasicExternalSupplyInputData ii(false, 0., 0.); s.initialize(cc, ii, A.links, 0, A.gnd()); } BDem d; { GunnsBasicExternalDemandConfigData cc("demand", &B.nl, 0.5, minG, minDp, gain); GunnsBasicExternalDemandInputData ii(false, 0., 0.); d.initialize(cc, ii, B.links, B.gnd(), 0); } A.start(1); B.start(1); c.log() << "gains " << gain << " minimum conductivity " << minG << " supply " << Va << " behind " << ga << "," << ra << "|" << xa << " demand " << Vb << " behind " << gb << "," << rb << "|" << xb << "\n";
    Estimate e(minG, minDp, gain); double Y = minG, sent = 0., seen = 0.; double q[3] = {0., 0., 0.}; double ea = Va, eb = Vb, ca = ra, cb = rb; bool blkD = false, blkS = false; double bv = 0., sv = 0.; const int M = c.i(3, 25), N = M + 120; const double dt = c.pickOf<double>({0.1, 0.0125, 1.}); int changes = 0;
    for (int t = 0; t < N; ++t) {
        if (t < M && c.b(0.2)) { ++changes; switch (c.raw(6)) { case 0: pa->setSourcePotential(ea = c.sr(1., 200.)); break; case 1: pb->setSourcePotential(eb = c.sr(1., 200.)); break; case 2: cb = c.lr(0.01, 10.); lb->setDefaultConductivity(cb); break; case 3: blkD = c.b(0.6); bv = c.b(0.3) ? 1. : c.r(0., 1.); d.setMalfBlockage(blkD, bv); break; case 4: blkS = c.b(0.6); sv = c.b(0.3) ? 1. : c.r(0., 1.); s.setMalfBlockage(blkS, sv); break; default: if (c.b()) A.net.restart(); else B.net.restart(); break; } (void)la; (void)ca; }
        if (!(std::fabs(seen) < 1e6 && std::fabs(B.v(0)) < 1e6)) c.discard(); // an estimate of the capacitance that makes the pair unstable
        const std::string at = S() << "step " << t; // demand side
        Y = e.next(d.mFlux, seen, dt); d.mSupplyPotential = seen; B.net.step(dt); const double eff = Y * (blkD ? 1. - bv : 1.); c.checkNear(d.mFlux, eff * (seen - B.v(0)), 1e-9, 1e-12 * (1. + eff) * 300., "demand-flux", S() << at << " conductivity " << Y << " supply " << seen << " node " << B.v(0)); c.check(d.mDemandFlux == d.mFlux, "demand-output", at);
        // the flux leaves the supply side and comes into this one
        const double inB = -(rb == cb ? rb : cb) * (B.v(0) - B.v(1)) - xb * B.v(0); c.checkNear(d.mDemandFlux, -inB, 1e-8, 1e-10 * (1. + cb + Y) * 300., "demand-conserved", at); c.check(c.near(cb * (B.v(1) - B.v(0)), gb * (B.v(1) - eb) * -1., 1e-8, 1e-9 * (1. + cb + gb + Y) * 300.), "demand-network", at);
        c.checkNear(d.mEffectiveConductivity, Y, 1e-9, 1e-10 * e.big / dt, "demand-conductivity", at);
        if (queue) { q[t % 3] = d.mDemandFlux; s.mDemandFlux_queue = q; s.mDemandFlux_queue_size = t % 5 == 0 ? 1 : 3; sent = s.mDemandFlux_queue_size == 1 ? q[0] : (q[0] + q[1] + q[2]) / 3.; } else { sent = d.mDemandFlux; s.setFluxDemand(sent); }
        A.net.step(dt); const double took = sent * (blkS ? 1. - sv : 1.); c.checkNear(s.mFlux, took, 1e-12, 1e-14, "supply-flux", S() << at << " demanded " << sent); const double outA = ra * (A.v(1) - A.v(0)) - xa * A.v(0); c.checkNear(outA, took, 1e-8, 1e-10 * (1. + ra + xa) * 300. + 1e-8 * std::fabs(took), "supply-conserved", at); c.checkNear(ga * (ea - A.v(1)), ra * (A.v(1) - A.v(0)), 1e-8, 1e-10 * (1. + ra + ga) * 300. + 1e-8 * std::fabs(took), "supply-network", at); c.check(s.mSupplyPotential == A.v(0), "supply-output", at); seen = s.mSupplyPotential;
    }
    if (gain == 0. && !queue && !(blkS && !blkD)) { // one network, the pair being a conductor between its nodes; a blocked supply keeps its share from the other
        const double y = Y * (blkD ? 1. - bv : 1.), k = blkS ? 1. - sv : 1.; double a[4][5] = {{ra + xa, -ra, 0, 0, 0}, {-ra, ra + ga, 0, 0, ga * ea}, {0, 0, cb + xb, -cb, 0}, {0, 0, -cb, cb + gb, gb * eb}}; a[0][0] += k * y; a[0][2] -= k * y; a[2][2] += y; a[2][0] -= y;
        for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) if (j != i) { const double f = a[j][i] / a[i][i]; for (int m = i; m < 5; ++m) a[j][m] -= f * a[i][m]; } } const double one[4] = {a[0][4] / a[0][0], a[1][4] / a[1][1], a[2][4] / a[2][2], a[3][4] / a[3][3]}, two[4] = {A.v(0), A.v(1), B.v(0), B.v(1)};
        for (int i = 0; i < 4; ++i) c.checkNear(two[i], one[i], 1e-7, 1e-7, "one-network", S() << "node " << i); if (changes && std::fabs(s.mFlux) > 1e-6) c.nontrivial(); }
    else if (changes && std::fabs(s.mFlux) > 1e-6) c.label("not settled exactly");
}
namespace {
struct BL { int type, a, b; double g, s; };
class Gang : public GunnsMultiLinkConnector { public: Gang(GunnsNetworkBase* n, int t) : GunnsMultiLinkConnector(n, t) {} };
// A network of basic links that can stand alone or be part of a super network. Ends at nodes of -1 are at the ground, ends of -2-k belong to node k of a joint.
class BSub : public GunnsNetworkBase { public: GunnsBasicNode own[8]; int n; std::vector<BL> spec; std::vector<GunnsBasicLink*> made; std::vector<Gang*> loc; int pre, post;
    BSub(const std::string& name, int n_) : GunnsNetworkBase(name, n_ + 1, own), n(n_), pre(0), post(0) {} ~BSub() { for (size_t i = 0; i < made.size(); ++i) delete made[i]; for (size_t i = 0; i < loc.size(); ++i) delete loc[i]; }
    int off() const { return netSuperNodesOffset; }
    virtual void initNodes(const std::string& name) { for (int k = 0; k < n; ++k) netNodeList.mNodes[k + netSuperNodesOffset].initialize(name + createNodeName(k), 0.); }
    virtual void stepSpottersPre(const double) { ++pre; } virtual void stepSpottersPost(const double) { ++post; }
    virtual void initNetwork() { const int gnd = netNodeList.mNumNodes - 1; if (!netIsSubNetwork) { netNodeList.mNodes[gnd].initialize(mName + ".GROUND", 0.); netSolver.initializeNodes(netNodeList); }
        for (size_t i = 0; i < spec.size(); ++i) { const BL& l = spec[i]; const std::string nm = mName + ".link" + std::to_string(i); const int a = l.a >= 0 ? l.a + netSuperNodesOffset : gnd, b = l.b >= 0 ? l.b + netSuperNodesOffset : gnd;
            if (l.type == 0) { GunnsBasicConductor* k = new GunnsBasicConductor; made.push_back(k); GunnsBasicConductorConfigData cc(nm, &netNodeList, l.g); GunnsBasicConductorInputData ii(false, 0.); k->initialize(cc, ii, netLinks, a, b); }
            else if (l.type == 1) { GunnsBasicPotential* k = new GunnsBasicPotential; made.push_back(k); GunnsBasicPotentialConfigData cc(nm, &netNodeList, l.g); GunnsBasicPotentialInputData ii(false, 0., l.s); k->initialize(cc, ii, netLinks, a, b); }
            else if (l.type == 2) { GunnsBasicSource* k = new GunnsBasicSource; made.push_back(k); GunnsBasicSourceConfigData cc(nm, &netNodeList); GunnsBasicSourceInputData ii(false, 0., l.s); k->initialize(cc, ii, netLinks, a, b); }
            else { GunnsBasicCapacitor* k = new GunnsBasicCapacitor; made.push_back(k); GunnsBasicCapacitorConfigData cc(nm, &netNodeList); GunnsBasicCapacitorInputData ii(false, 0., l.g, l.s); k->initialize(cc, ii, netLinks, a, b); } }
        for (size_t i = 0; i < loc.size(); ++i) { GunnsMultiLinkConnectorConfigData cc(mName + ".loc" + std::to_string(i)); GunnsMultiLinkConnectorInputData ii; loc[i]->initialize(&cc, &ii); for (size_t q = 0; q < spec.size(); ++q) for (int p = 0; p < 2; ++p) { const int e = p ? spec[q].b : spec[q].a; if (e <= -2 && owner[e] == (int)i) loc[i]->addConnection(made[q], p, (-2 - e) % 10); } }
        if (!netIsSubNetwork) { GunnsConfigData cc("net", 1e-9, 1e-12, 1, 1); netSolver.initialize(cc, netLinks); } }
    std::map<int, int> owner; // which location an end code belongs to
};
class BSuper : public GunnsBasicSuperNetwork { public: int jn; std::vector<BSub*> joints; BSuper(const std::string& name) : GunnsBasicSuperNetwork(name), jn(2) { netSolverConfig.mName = "super"; netSolverConfig.mConvergenceTolerance = 1e-9; netSolverConfig.mMinLinearizationPotential = 1e-12; netSolverConfig.mMinorStepLimit = 1; netSolverConfig.mDecompositionLimit = 1; }
    virtual GunnsNetworkBase* createJointNetwork(const int type) { BSub* j = new BSub("joint" + std::to_string(joints.size()), type); joints.push_back(j); return j; } };
}
FACET(super_basic, 1200, 25000, "three or more sub-networks, two of them joined through a joint network, solved for ten or more steps") {
    const int K = c.i(1, 5); std::vector<std::unique_ptr<BSub> > sub; const int type = c.i(1, 3); 
    auto end = [&](int n, bool gnd) { return gnd && c.b(0.3) ? -1 : c.i(0, n - 1); }; auto fill = [&](BSub& b) { for (int k = 0; k < b.n; ++k) { BL l = {c.b() ? 3 : 0, k, -1, c.lr(1e-3, 1.), 0.}; if (l.type == 3) l.s = c.sr(0.1, 100.); b.spec.push_back(l); } for (int q = c.i(1, 5); q > 0; --q) { BL l = {c.raw(3), end(b.n, true), end(b.n, false), c.lr(1e-3, 10.), c.sr(0.1, 100.)}; if (l.a == l.b) l.a = -1; b.spec.push_back(l); } };
    for (int k = 0; k < K; ++k) { sub.push_back(std::unique_ptr<BSub>(new BSub("sub" + std::to_string(k), c.i(1, 4)))); fill(*sub[k]); }
    BSuper one("one"), two("two"); const bool nested = K >= 2 && c.b(0.4); one.jn = two.jn = type; std::vector<int> order; for (int k = 0; k < K; ++k) order.push_back(k); c.shuffle(order); bool joined = false; 
    // locations that join: each ties links of its network to the nodes of the joint
    std::vector<std::pair<int, int> > pairs; if (K >= 2 && c.b(0.7)) { for (int q = c.i(1, 3); q > 0; --q) { int a = c.raw(K), b = (a + 1 + c.raw(K - 1)) % K; pairs.push_back(std::make_pair(a, b)); } }
    struct Loc { int sub, idx, joint; }; std::vector<Loc> L; std::vector<std::pair<int, int> > js; int numJ = 0; 
    for (size_t q = 0; q < pairs.size(); ++q) { int lo[2]; int J = -1; const bool share = q > 0 && c.b(0.4) && !L.empty(); if (share) { lo[0] = c.raw(L.size()); J = L[lo[0]].joint; if (L[lo[0]].sub == pairs[q].second) continue; }
        for (int w = share ? 1 : 0; w < 2; ++w) { const int sn = w ? pairs[q].second : pairs[q].first; BSub& b = *sub[sn]; const int idx = b.loc.size(); b.loc.push_back(new Gang(&b, type)); if (J < 0) J = numJ++; Loc x = {sn, idx, J}; lo[w] = L.size(); L.push_back(x);
            for (int m = c.i(1, 3); m > 0; --m) { const int node = c.i(0, type - 1), code = -2 - (node + 10 * (int)b.owner.size()); b.owner[code] = idx; BL l = {c.b(0.8) ? 0 : 1, c.i(0, b.n - 1), code, c.lr(1e-2, 10.), c.sr(0.1, 50.)}; b.spec.push_back(l); } }
        js.push_back(std::make_pair(lo[0], lo[1])); joined = true; }
    // assembly
    std::vector<int> first; for (int i = 0; i < K; ++i) if (nested && c.b()) first.push_back(order[i]); BSuper& top = one; bool lateJoin = !nested || c.b(); for (size_t i = 0; i < first.size(); ++i) two.addSubNetwork(sub[first[i]].get());
    auto jn = [&](BSuper& s) { for (size_t q = 0; q < js.size(); ++q) { const Loc& a = L[js[q].first]; const Loc& b = L[js[q].second]; s.joinLocations(sub[a.sub]->loc[a.idx], sub[b.sub]->loc[b.idx]); } };
    if (nested && !lateJoin) { jn(two); c.log() << "joined before being absorbed\n"; } std::vector<int> rest = order; for (int i = c.i(0, 2); i > 0; --i) rest.push_back(c.pick(order)); const int when = c.i(0, (int)rest.size()); for (int i = 0; i <= (int)rest.size(); ++i) { if (nested && i == when) { if (c.b()) one.addSubNetwork(&two); else if (!first.empty()) one.addSubNetwork(static_cast<GunnsNetworkBase*>(sub[first[0]].get())); else one.addSubNetwork(&two); } if (i < (int)rest.size()) one.addSubNetwork(static_cast<GunnsNetworkBase*>(sub[rest[i]].get())); } if (nested) one.addSubNetwork(&two);
    if (lateJoin) jn(one); std::vector<BSub*> joints = one.joints; joints.insert(joints.end(), two.joints.begin(), two.joints.end()); for (size_t j = 0; j < joints.size(); ++j) for (int k = 0; k < joints[j]->n; ++k) { BL l = {0, k, -1, 0.05, 0.}; joints[j]->spec.push_back(l); }
    for (int k = 0; k < K; ++k) { c.check(top.isSubNetworkAdded(sub[k].get()), "added", S() << k); c.check(sub[k]->getSuperNetwork() == &top, "owner", S() << k); c.log() << "sub " << k << " nodes " << sub[k]->n << " at " << sub[k]->off() << "\n"; for (size_t q = 0; q < sub[k]->spec.size(); ++q) { const BL& l = sub[k]->spec[q]; c.log() << "  type " << l.type << " " << l.a << " to " << l.b << " " << l.g << " " << l.s << "\n"; } } for (size_t q = 0; q < js.size(); ++q) c.log() << "join sub " << L[js[q].first].sub << " and sub " << L[js[q].second].sub << " at joint " << L[js[q].first].joint << "\n";
    top.registerSuperNodes(); std::vector<int> used; int total = 0; { std::vector<BSub*> all; for (int k = 0; k < K; ++k) all.push_back(sub[k].get()); all.insert(all.end(), joints.begin(), joints.end()); for (size_t i = 0; i < all.size(); ++i) { total += all[i]->n; used.resize(std::max((int)used.size(), all[i]->off() + all[i]->n), 0); for (int k = 0; k < all[i]->n; ++k) ++used[all[i]->off() + k]; } } c.check((int)used.size() == total && top.netNodeList.mNumNodes == total + 1 && std::count(used.begin(), used.end(), 1) == total, "node-layout", S() << "nodes " << top.netNodeList.mNumNodes << " of " << total); c.check((int)joints.size() == numJ, "joint-count", S() << joints.size());
    for (size_t q = 0; q < L.size() && joined; ++q) c.check(top.getLocationJoint(sub[L[q].sub]->loc[L[q].idx]) != 0, "location-joint", S() << q); top.initialize(); two.initialize(); for (int k = 0; k < K; ++k) for (size_t q = 0; q < sub[k]->made.size(); ++q) c.log() << "  sub " << k << " link " << q << " " << sub[k]->made[q]->getNodeMap()[0] << "-" << sub[k]->made[q]->getNodeMap()[1] << "\n"; for (size_t j = 0; j < joints.size(); ++j) c.log() << "joint " << j << " at " << joints[j]->off() << " nodes " << joints[j]->n << " links " << joints[j]->made.size() << "\n"; if (joined) for (size_t q = 0; q < L.size(); ++q) { Gang* g = sub[L[q].sub]->loc[L[q].idx]; for (int r = 0; r < 2; ++r) c.check((int)top.getJointIndex(g->getName()) == top.getLocationJoint(g)->getJointIndex(), "joint-index", S() << q); for (size_t w = 0; w < q; ++w) { const GunnsNetworkBase* x = top.getLocationJoint(g); const GunnsNetworkBase* y = top.getLocationJoint(sub[L[w].sub]->loc[L[w].idx]); c.check((x == y) == (L[q].joint == L[w].joint), "joints-shared", S() << q << " " << w); c.check((x->getJointIndex() == y->getJointIndex()) == (x == y), "joint-index", S() << q << " " << w); } }
    // the same as one network
    el::Circuit flat(total); std::vector<int> base(K), jb(numJ); { int o = 0; for (int k = 0; k < K; ++k) { base[k] = o; o += sub[k]->n; } for (int j = 0; j < numJ; ++j) { jb[j] = o; o += type; } } std::vector<std::unique_ptr<GunnsBasicCapacitor> > caps; std::vector<std::vector<GunnsBasicLink*> > fl(K);
    auto put = [&](int k, const BL& l, int b0) { auto nodeOf = [&](int e) { if (e >= 0) return e + b0; if (e == -1) return flat.gnd(); const int idx = sub[k]->owner[e]; int J = 0; for (size_t q = 0; q < L.size(); ++q) if (L[q].sub == k && L[q].idx == idx) J = L[q].joint; return jb[J] + (-2 - e) % 10; }; const int a = nodeOf(l.a), b = nodeOf(l.b);
        if (l.type == 0) return (GunnsBasicLink*)flat.cond(l.g, a, b); if (l.type == 1) { GunnsBasicPotential* x = new GunnsBasicPotential; flat.own.push_back(x); GunnsBasicPotentialConfigData cc("p", &flat.nl, l.g); GunnsBasicPotentialInputData ii(false, 0., l.s); x->initialize(cc, ii, flat.links, a, b); return (GunnsBasicLink*)x; } if (l.type == 2) { GunnsBasicSource* x = new GunnsBasicSource; flat.own.push_back(x); GunnsBasicSourceConfigData cc("s", &flat.nl); GunnsBasicSourceInputData ii(false, 0., l.s); x->initialize(cc, ii, flat.links, a, b); return (GunnsBasicLink*)x; }
        GunnsBasicCapacitor* x = new GunnsBasicCapacitor; flat.own.push_back(x); GunnsBasicCapacitorConfigData cc("c", &flat.nl); GunnsBasicCapacitorInputData ii(false, 0., l.g, l.s); x->initialize(cc, ii, flat.links, a, b); return (GunnsBasicLink*)x; };
    for (int k = 0; k < K; ++k) for (size_t q = 0; q < sub[k]->spec.size(); ++q) fl[k].push_back(put(k, sub[k]->spec[q], base[k])); for (int j = 0; j < numJ; ++j) for (int m = 0; m < type; ++m) flat.cond(0.05, jb[j] + m, flat.gnd()); flat.start(1);
    const int N = c.i(1, 30); const double dt = c.pickOf<double>({0.1, 0.01, 1.}); bool frozen = c.b(0.1); if (frozen) top.setMutexEnabled(true);
    for (int t = 0; t < N; ++t) { if (c.b(0.2)) { const int k = c.raw(K); if (!sub[k]->spec.empty()) { const size_t q = c.raw(sub[k]->spec.size()); const bool bl = c.b(); const double v = c.b(0.3) ? 1. : c.r(0., 1.); sub[k]->made[q]->setMalfBlockage(bl, v); fl[k][q]->setMalfBlockage(bl, v); } } if (c.b(0.05)) { top.restart(); flat.net.restart(); } if (nested && c.b(0.2)) { two.update(dt); two.restart(); } if (c.b(0.2)) sub[c.raw(K)]->update(dt), sub[0]->restart();
        top.update(dt); flat.step(dt); double big = 1.; for (int i = 0; i < total; ++i) big = std::max(big, std::fabs(flat.v(i)));
        for (int k = 0; k < K; ++k) { c.check(sub[k]->pre == t + 1 && sub[k]->post == t + 1, "spotters", S() << "sub " << k << " step " << t); for (int m = 0; m < sub[k]->n; ++m) c.checkNear(top.netNodeList.mNodes[sub[k]->off() + m].getPotential(), flat.v(base[k] + m), 1e-8, 1e-9 * big, "super-potential", S() << "step " << t << " sub " << k << " node " << m); for (size_t q = 0; q < sub[k]->spec.size(); ++q) c.checkNear(VptFriend::basicFlux(*sub[k]->made[q]), VptFriend::basicFlux(*fl[k][q]), 1e-7, 1e-7 * big, "super-flux", S() << "step " << t << " sub " << k << " link " << q); } }
    if (K >= 3 && joined && N >= 10) c.nontrivial(); for (int k = 0; k < K; ++k) sub[k]->setNodeOffset(0, 0);
}
namespace {
struct FSup : GunnsFluidExternalSupply { using GunnsFluidExternalSupply::mDemandFlux; using GunnsFluidExternalSupply::mDemandTemperature; using GunnsFluidExternalSupply::mDemandMassFractions; using GunnsFluidExternalSupply::mDemandTcMoleFractions; using GunnsFluidExternalSupply::mSupplyPressure; using GunnsFluidExternalSupply::mSupplyTemperature; using GunnsFluidExternalSupply::mSupplyMassFractions; using GunnsFluidExternalSupply::mSupplyTcMoleFractions; using GunnsFluidExternalSupply::mSupplyCapacitance; using GunnsFluidExternalSupply::mFlux; using GunnsFluidExternalSupply::mFlowRate; };
struct FDem : GunnsFluidExternalDemand { using GunnsFluidExternalDemand::mDemandFlux; using GunnsFluidExternalDemand::mDemandTemperature; using GunnsFluidExternalDemand::mDemandMassFractions; using GunnsFluidExternalDemand::mDemandTcMoleFractions; using GunnsFluidExternalDemand::mSupplyPressure; using GunnsFluidExternalDemand::mSupplyTemperature; using GunnsFluidExternalDemand::mSupplyMassFractions; using GunnsFluidExternalDemand::mSupplyTcMoleFractions; using GunnsFluidExternalDemand::mSupplyCapacitance; using GunnsFluidExternalDemand::mFlux; using GunnsFluidExternalDemand::mEffectiveConductivity; };
struct Held { std::vector<double> m, tc; double e, mass; };
Held held(FluidNet& f, int from) { Held v; v.m.assign(f.spec.types.size(), 0.); v.tc.assign(f.spec.tcs.size(), 0.); v.e = v.mass = 0.; for (int k = from; k < f.n(); ++k) { const State s = snap(*f.nodes[k].getContent()); for (size_t i = 0; i < v.m.size(); ++i) v.m[i] += s.mass * s.mf[i]; for (size_t i = 0; i < v.tc.size(); ++i) v.tc[i] += s.tcMass[i]; v.e += s.mass * s.h; v.mass += s.mass; } return v; }
// A mixture described with one list of fluids in terms of another; fluids not in that list become the given one or are left out.
std::vector<double> mapped(const std::vector<FP::FluidType>& in, const double* mf, const std::vector<FP::FluidType>& out, FP::FluidType other) { std::vector<double> r(out.size(), 0.); double sum = 0.; for (size_t i = 0; i < in.size(); ++i) { size_t j = std::find(out.begin(), out.end(), in[i]) - out.begin(); if (j == out.size() && other != FP::NO_FLUID) j = std::find(out.begin(), out.end(), other) - out.begin(); if (j < out.size()) { r[j] += mf[i]; sum += mf[i]; } } for (size_t j = 0; j < r.size(); ++j) r[j] = sum > 0. ? r[j] / sum : 0.; return r; }
double molar(const std::vector<FP::FluidType>& t, const std::vector<double>& mf) { double n = 0.; for (size_t i = 0; i < t.size(); ++i) n += mf[i] / prop(t[i])->getMWeight(); return n > 0. ? 1. / n : 0.; }
bool went(FluidNet& f, double dt) { try { f.net.step(dt); return true; } catch (TsOutOfBoundsException&) { return false; } }
}
FACET(fluid_pair, 600, 12000, "flow crossed in either direction, or in one with the fluids listed differently on the two sides") {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; FSpec s = genFluid(c, g); s.links.clear(); s.nodes[0].exF = 0.; s.nodes.push_back(s.nodes[0]); FSpec sp[2] = {s, s}; std::vector<FP::FluidType> more = idealGases(); bool differ = false; FP::FluidType conv[2] = {FP::NO_FLUID, FP::NO_FLUID};
    if (s.gas) { c.shuffle(sp[1].types); for (int k = 0; k < 2; ++k) if (c.b(0.4)) { for (int q = 0; q < 2; ++q) { const FP::FluidType t = c.pick(more); if (std::find(sp[0].types.begin(), sp[0].types.end(), t) == sp[0].types.end() && std::find(sp[1].types.begin(), sp[1].types.end(), t) == sp[1].types.end()) sp[k].types.insert(sp[k].types.begin() + c.raw(sp[k].types.size() + 1), t); } } for (int k = 0; k < 2; ++k) if (c.b()) conv[k] = c.pick(sp[k].types); differ = sp[0].types != sp[1].types; }
    for (int k = 0; k < 2; ++k) for (int q = 0; q < 2; ++q) { FNode& x = sp[k].nodes[q]; x.mf = genFractions(c, (int)sp[k].types.size(), false); x.T = s.gas ? c.r(230., 450.) : c.r(s.Tlo + 10., s.Thi - 10.); x.P = c.lr(s.gas ? 50. : 100., 500.); for (size_t i = 0; i < s.tcs.size(); ++i) x.tc[i] = c.lr(1e-9, 1e-3); x.vol = c.lr(0.1, 10.); if (q == 1 && k == 1) x.vol *= 10.; }
    sp[1].nodes[0] = sp[1].nodes[1]; sp[1].nodes[0].cap = false; sp[1].nodes[0].vol = 0.; for (int k = 0; k < 2; ++k) { FLink l; l.type = COND; l.p0 = 0; l.p1 = 1; l.a = s.gas ? c.lr(1e-6, 1e-4) : c.lr(1e-7, 1e-5); sp[k].links.push_back(l); }
    const double minG = c.lr(1e-7, 1e-4), minDp = c.lr(1e-9, 1e-4), gain = c.b(0.3) ? 0. : c.r(0.01, 0.2), dt = c.pickOf<double>({0.1, 0.05, 1.}); const bool useCap = c.b(), useMass = c.b(0.3); FluidNet A(sp[0], false), B(sp[1], false); FSup x; FDem y; const int nt = s.tcs.size();
    { GunnsFluidExternalSupplyConfigData cc("supply", &A.nl, &B.cfg, conv[0], useCap); GunnsFluidExternalSupplyInputData ii(false, 0., 0.); x.initialize(cc, ii, A.links, 0, A.n()); } { GunnsFluidExternalDemandConfigData cc("demand", &B.nl, 0., 0., minG, minDp, gain, &A.cfg, conv[1]); GunnsFluidExternalDemandInputData ii(false, 0., sp[0].nodes[0].P, 0.); y.initialize(cc, ii, B.links, B.n(), 0); } A.start(); B.start(); logFluid(c.log(), sp[0]); logFluid(c.log(), sp[1]); c.log() << "minimum conductivity " << minG << " gain " << gain << (useCap ? " capacitance passed" : "") << (useMass ? " mass flow" : "") << " dt " << dt << " conversions " << conv[0] << " " << conv[1] << "\n";
    Estimate est(minG, minDp, gain); const int N = c.i(3, 40); bool fwd = false, rev = false; std::vector<double> mf; double cap = 0.; double Yn = 0.;
    for (int t = 0; t < N; ++t) { const std::string at = S() << "step " << t; if (c.b(0.1)) { FluidNet& f = c.b() ? A : B; FLink& l = f.spec.links[0]; l.blk = !l.blk; l.blkV = c.b(0.3) ? 1. : c.r(0., 1.); f.apply(f.spec); }
        // the demand side sees the supply as it was after its last step
        y.mSupplyPressure = x.mSupplyPressure; y.mSupplyTemperature = x.mSupplyTemperature; for (size_t i = 0; i < sp[0].types.size(); ++i) y.mSupplyMassFractions[i] = x.mSupplyMassFractions[i]; for (int i = 0; i < nt; ++i) y.mSupplyTcMoleFractions[i] = x.mSupplyTcMoleFractions[i]; if (useCap) { cap = x.mSupplyCapacitance; y.mSupplyCapacitance = cap; if (t > 1) { const State z = snap(*A.nodes[0].getContent()); c.check(cap > 0., "capacitance", S() << at << " " << cap); (void)z; } }
        std::vector<double> smf = mapped(sp[0].types, x.mSupplyMassFractions, sp[1].types, conv[1]); std::vector<double> stc(nt); for (int i = 0; i < nt; ++i) stc[i] = x.mSupplyTcMoleFractions[i]; const double sT = x.mSupplyTemperature, sP = x.mSupplyPressure; const bool some = molar(sp[1].types, smf) > 0.; if (!some) c.discard();
        Yn = est.next(y.mFlux, sP, dt, cap); const Held b0 = held(B, 1); const State tank = snap(*B.nodes[1].getContent()); if (!went(B, dt)) c.discard(); const double F = y.mFlux; c.checkNear(y.mEffectiveConductivity, Yn, 1e-9, 1e-15 + 1e-10 * est.big / dt, "demand-conductivity", at); const double noise = 50. * dt * (2e-14 + 2e-12 * std::max(sP, B.nodes[0].getPotential()) * (Yn + VptFriend::admittance(*B.user[0])));
        c.checkNear(F, Yn * (sP - B.nodes[0].getPotential()), 1e-8, noise / dt, "demand-flux", S() << at << " supply " << sP << " node " << B.nodes[0].getPotential() << " conductivity " << Yn); c.check(y.mDemandFlux == F, "demand-output", at);
        const Held b1 = held(B, 1); const double MW = F > 0. ? molar(sp[1].types, smf) : tank.MW; std::vector<double> in = F > 0. ? smf : tank.mf; const double dm = F * MW * dt; if (std::fabs(dm) > 0.05 * b0.mass) c.discard(); { double h = tank.h; if (F > 0.) { PolyFluid p(B.cfg, PolyFluidInputData(sT, sP, 0., 0., &smf[0])); h = p.getSpecificEnthalpy(); }
            for (size_t i = 0; i < in.size(); ++i) c.checkNear(b1.m[i] - b0.m[i], dm * in[i], 1e-6, 1e-11 * b0.mass + noise + 3e-7 * std::fabs(dm), "demand-mass", S() << at << " fluid " << i << " flux " << F); for (int i = 0; i < nt; ++i) c.checkNear(b1.tc[i] - b0.tc[i], F * dt * (F > 0. ? stc[i] : tank.tcMole[i]) * B.tcCfg.mCompounds[i]->mMWeight, 1e-6, 1e-12 * b0.mass + noise * 1e-2, "demand-trace", S() << at << " compound " << i << " flux " << F); c.checkNear(b1.e - b0.e, dm * h, 1e-5, 1e-10 * std::fabs(b0.e) + noise * 1e6, "demand-energy", S() << at << " flux " << F << " supply T " << sT << " tank T " << tank.T); }
        const double sure = 1e-9 + noise / dt; if (F < -sure) { c.checkNear(y.mDemandTemperature, tank.T, 1e-9, 1e-6, "demand-temperature", at); for (size_t i = 0; i < in.size(); ++i) c.checkNear(y.mDemandMassFractions[i], tank.mf[i], 1e-7, 1e-7, "demand-fractions", S() << at << " fluid " << i); for (int i = 0; i < nt; ++i) c.checkNear(y.mDemandTcMoleFractions[i], tank.tcMole[i], 1e-6, 1e-15, "demand-fractions", S() << at << " compound " << i); } else if (std::fabs(F) <= sure && std::fabs(F) > 0.) c.label("flow lost in the noise");
        if (std::fabs(F) > sure) (F > 0. ? fwd : rev) = true; else if (F != 0.) break;
        // the supply side gives or takes it
        x.mDemandTemperature = y.mDemandTemperature; for (size_t i = 0; i < sp[1].types.size(); ++i) x.mDemandMassFractions[i] = y.mDemandMassFractions[i]; for (int i = 0; i < nt; ++i) x.mDemandTcMoleFractions[i] = y.mDemandTcMoleFractions[i]; std::vector<double> dmf = mapped(sp[1].types, x.mDemandMassFractions, sp[0].types, conv[0]); if (molar(sp[0].types, dmf) <= 0.) c.discard(); std::vector<double> dtc(nt); for (int i = 0; i < nt; ++i) dtc[i] = x.mDemandTcMoleFractions[i]; const double dT = x.mDemandTemperature;
        const State n0 = snap(*A.nodes[0].getContent()); const Held a0 = held(A, 0); const double mw = F > 0. ? n0.MW : molar(sp[0].types, dmf); if (useMass) { x.mDemandFlux = 0.; x.setFlowDemand(F * mw); } else { x.mDemandFlux = F; x.setFlowDemand(0.); } if (std::fabs(F * mw * dt) > 0.05 * n0.mass) c.discard(); if (!went(A, dt)) c.discard(); const Held a1 = held(A, 0); const std::vector<double>& out = F > 0. ? n0.mf : dmf; c.checkNear(x.mFlux, F, 1e-9, 1e-13, "supply-flux", at); c.checkNear(x.mFlowRate, F * mw, 1e-9, 1e-14, "supply-flow", at); const double lost = F * mw * dt, nz = 50. * dt * (2e-14 + 2e-12 * n0.P * VptFriend::admittance(*A.user[0]));
        for (size_t i = 0; i < out.size(); ++i) c.checkNear(a0.m[i] - a1.m[i], lost * out[i], 1e-6, 1e-11 * a0.mass + nz + 3e-7 * std::fabs(lost), "supply-mass", S() << at << " fluid " << i << " flux " << F); for (int i = 0; i < nt; ++i) c.checkNear(a0.tc[i] - a1.tc[i], F * dt * (F > 0. ? n0.tcMole[i] : dtc[i]) * A.tcCfg.mCompounds[i]->mMWeight, 1e-6, 1e-12 * a0.mass + nz * 1e-2, "supply-trace", S() << at << " compound " << i << " flux " << F); { double h = n0.h; if (F < 0.) { PolyFluid p(A.cfg, PolyFluidInputData(dT, n0.P, 0., 0., &dmf[0])); h = p.getSpecificEnthalpy(); } c.checkNear(a0.e - a1.e, lost * h, 1e-5, 1e-10 * std::fabs(a0.e) + nz * 1e6, "supply-energy", S() << at << " flux " << F << " T " << dT); }
        const State z = snap(*A.nodes[0].getContent()); c.check(x.mSupplyPressure == A.nodes[0].getPotential() && x.mSupplyTemperature == z.T, "supply-output", at); for (size_t i = 0; i < z.mf.size(); ++i) c.check(x.mSupplyMassFractions[i] == z.mf[i], "supply-output", at); for (int i = 0; i < nt; ++i) c.check(x.mSupplyTcMoleFractions[i] == z.tcMole[i], "supply-output", at);
        for (int k = 0; k < 2; ++k) { FluidNet& f = k ? B : A; const State w = snap(*f.nodes[1].getContent()); if (w.P < 5. || w.P > 5e3 || (s.gas ? w.T < 180. || w.T > 600. : w.T < s.Tlo || w.T > s.Thi)) c.discard(); } if (z.P < 5. || z.P > 5e3 || (s.gas ? z.T < 180. || z.T > 600. : z.T < s.Tlo || z.T > s.Thi)) c.discard();
    }
    if ((fwd && rev) || (differ && (fwd || rev))) c.nontrivial();
}
namespace {
struct Shadow : GunnsFluidShadow { using GunnsFluidShadow::mShadowActiveControl; using GunnsFluidShadow::mShadowIsActive; using GunnsFluidShadow::mFlux; };
std::vector<double> partials(const std::vector<FP::FluidType>& t, const double* mf, int kind, double P) { std::vector<double> r(mf, mf + t.size()); if (kind == 0) return r; double sum = 0.; for (size_t i = 0; i < r.size(); ++i) { r[i] /= prop(t[i])->getMWeight(); sum += r[i]; } for (size_t i = 0; i < r.size(); ++i) r[i] *= (kind == 2 ? P : 1.) / sum; return r; }
}
FACET(shadow, 1200, 25000, "shadowing was on for two or more steps with inputs held and off for one, with two or more fluids") {
    FOpt g; g.maxN = 1; g.maxLinks = 1; g.zeroVol = false; g.liquids = false; g.tcs = false; FSpec s = genFluid(c, g); s.links.clear(); s.nodes[0].exF = 0.; s.nodes[0].vol = c.lr(0.1, 10.); s.nodes[0].P = c.lr(20., 500.); s.nodes.push_back(s.nodes[0]); s.nodes[1].P = c.lr(20., 500.); s.nodes[1].mf = genFractions(c, (int)s.types.size(), false); FLink l; l.type = COND; l.p0 = 0; l.p1 = 1; l.a = c.lr(1e-11, 1e-9) * s.nodes[0].vol; s.links.push_back(l);
    std::vector<FP::FluidType> ext = s.types, more = idealGases(); c.shuffle(ext); FP::FluidType conv = FP::NO_FLUID; if (c.b(0.4)) { const FP::FluidType t = c.pick(more); if (std::find(ext.begin(), ext.end(), t) == ext.end()) ext.insert(ext.begin() + c.raw(ext.size() + 1), t); if (c.b()) conv = c.pick(s.types); } PolyFluidConfigData ecfg(&props(), &ext[0], (int)ext.size());
    FluidNet f(s, false); const GunnsFluidUtils::MixtureTypes kinds[3] = {GunnsFluidUtils::MASS_FRACTION, GunnsFluidUtils::MOLE_FRACTION, GunnsFluidUtils::PARTIAL_PRESSURE}; const int ki = c.raw(3), ko = c.raw(3), target = c.i(0, 3); const double G = c.lr(1e6, 1e8), dt = 0.1; Shadow x; GunnsFluidShadowConfigData cc("shadow", &f.nl, G, 0., target, kinds[ki], kinds[ko], &ecfg, conv); x.initialize(cc, GunnsFluidShadowInputData(), f.links, f.n(), 0); f.start(); logFluid(c.log(), s); c.log() << "input kind " << ki << " output kind " << ko << " target " << target << " G " << G << "\n";
    double P = 0., T = 0.; std::vector<double> mf; int heldSteps = 0, off = 0, control = 0; bool first = true;
    for (int t = 0, N = c.i(2, 20); t < N; ++t) { const std::string at = S() << "step " << t; const bool fresh = mf.empty() || c.b(0.5); if (fresh) { P = c.lr(20., 500.); T = c.r(230., 450.); mf = genFractions(c, (int)ext.size(), false); x.setInputs(P, T, &partials(ext, &mf[0], ki, P)[0]); c.log() << at << " source P " << P << " T " << T << " fractions"; for (size_t i = 0; i < mf.size(); ++i) c.log() << " " << mf[i]; c.log() << "\n"; }
        if (c.b(0.3) || t == 0) control = c.b(0.7) ? target : c.i(0, 3); x.mShadowActiveControl = control; const bool on = !first && control == target; first = false; const Held h0 = held(f, 0); const double P0 = f.nodes[0].getContent()->getPressure(), T0 = f.nodes[0].getContent()->getTemperature(); if (!went(f, dt)) c.discard(); c.check(x.mShadowIsActive == on, "active", S() << at << " control " << control);
        const State z = snap(*f.nodes[0].getContent()); if (on) { const std::vector<double> want = mapped(ext, &mf[0], s.types, conv); if (molar(s.types, want) <= 0.) c.discard(); c.checkNear(z.P, P, 1e-4, 0., "shadow-pressure", at); const bool calm = std::fabs(P0 - P) < 1e-5 * P && std::fabs(T0 - T) < 1e-5 * T; if (calm) c.checkNear(z.T, T, 1e-4, 0., "shadow-temperature", at); for (size_t i = 0; i < want.size() && calm; ++i) c.checkNear(z.mf[i], want[i], 1e-4, 1e-4, "shadow-mixture", S() << at << " fluid " << i); const double moles = z.P * f.nodes[0].getVolume() / 8.314472 / z.T; if (calm) c.checkNear(z.moles, moles, 1e-4, 0., "shadow-mass", at); if (!fresh && calm) ++heldSteps; }
        else { ++off; c.check(std::fabs(x.mFlux) < 1e-12, "inactive-flux", S() << at << " flux " << x.mFlux); const Held h1 = held(f, 0); for (size_t i = 0; i < h1.m.size(); ++i) c.checkNear(h1.m[i], h0.m[i], 1e-5, 1e-6 * h0.mass, "inactive-mass", S() << at << " fluid " << i); } (void)P0;
        double oP = 0., oT = 0.; std::vector<double> o(s.types.size(), 0.); x.getOutputs(oP, oT, &o[0]); c.checkNear(oP, f.nodes[0].getPotential(), 0., 0., "output", at); c.checkNear(oT, z.T, 0., 0., "output", at); const std::vector<double> want = partials(s.types, &z.mf[0], ko, oP); for (size_t i = 0; i < want.size(); ++i) c.checkNear(o[i], want[i], 1e-9, 1e-12, "output", S() << at << " fluid " << i << " kind " << ko); }
    bool threw = false; try { x.setInputs(1., 1., 0); } catch (TsOutOfBoundsException&) { threw = true; } c.check(threw, "null-mixture", ""); if (heldSteps >= 2 && off && ext.size() >= 2) c.nontrivial();
}
namespace {
// The part of a fluid network that lies in some of its nodes, as a sub-network.
class FSub : public GunnsNetworkBase { public: GunnsFluidNode own[8]; const FSpec& s; const PolyFluidConfigData& cfg; std::vector<int> idx, lk; std::vector<GunnsFluidLink*> made; std::vector<HeatCap*> caps;
    FSub(const std::string& name, const FSpec& s_, const PolyFluidConfigData& c_, const std::vector<int>& i) : GunnsNetworkBase(name, (int)i.size() + 1, own), s(s_), cfg(c_), idx(i) {} ~FSub() { for (size_t i = 0; i < made.size(); ++i) delete made[i]; for (size_t i = 0; i < caps.size(); ++i) delete caps[i]; }
    GunnsFluidNode* node(int k) { return &static_cast<GunnsFluidNode*>(netNodeList.mNodes)[k + netSuperNodesOffset]; } virtual const PolyFluidConfigData* getFluidConfig() const { return &cfg; }
    int at(int k) { if (k == s.n()) return netNodeList.mNumNodes - 1; return int(std::find(idx.begin(), idx.end(), k) - idx.begin()) + netSuperNodesOffset; }
    virtual void initNodes(const std::string& name) { for (size_t k = 0; k < idx.size(); ++k) { const FNode& x = s.nodes[idx[k]]; std::vector<double> mf = x.mf, tcv = x.tc; PolyFluidInputData in(x.T, x.P, 0., 0., &mf[0]); GunnsFluidTraceCompoundsInputData t(s.tcs.empty() ? 0 : &tcv[0]); if (!s.tcs.empty()) in.mTraceCompounds = &t; node(k)->initialize(name + createNodeName(k), &cfg, &in); } }
    virtual void initNetwork() { for (size_t k = 0; k < idx.size(); ++k) { const FNode& x = s.nodes[idx[k]]; if (!x.cap) continue; HeatCap* h = new HeatCap; caps.push_back(h); std::vector<double> mf = x.mf, tcv = x.tc; PolyFluidInputData in(x.T, x.P, 0., 0., &mf[0]); GunnsFluidTraceCompoundsInputData t(s.tcs.empty() ? 0 : &tcv[0]); if (!s.tcs.empty()) in.mTraceCompounds = &t; GunnsFluidCapacitorConfigData cc(mName + ".cap" + std::to_string(k), &netNodeList, x.exF); GunnsFluidCapacitorInputData ci(false, 0., x.vol, &in); h->initialize(cc, ci, netLinks, k + netSuperNodesOffset, at(s.n())); }
        for (size_t i = 0; i < lk.size(); ++i) { const FLink& l = s.links[lk[i]]; const std::string nm = mName + ".link" + std::to_string(i); const int a = at(l.p0), b = at(l.p1); if (l.type == COND) { GunnsFluidConductor* x = new GunnsFluidConductor; made.push_back(x); GunnsFluidConductorConfigData cc(nm, &netNodeList, l.a, 0., l.ex); GunnsFluidConductorInputData ci(l.blk, l.blkV); x->initialize(cc, ci, netLinks, a, b); } else if (l.type == POT) { GunnsFluidPotential* x = new GunnsFluidPotential; made.push_back(x); GunnsFluidPotentialConfigData cc(nm, &netNodeList, l.a, 0.); GunnsFluidPotentialInputData ci(l.blk, l.blkV, l.s); x->initialize(cc, ci, netLinks, a, b); } else { GunnsFluidSource* x = new GunnsFluidSource; made.push_back(x); GunnsFluidSourceConfigData cc(nm, &netNodeList); GunnsFluidSourceInputData ci(l.blk, l.blkV, l.s); x->initialize(cc, ci, netLinks, a, b); } } } };
}
FACET(super_fluid, 500, 10000, "two or more sub-networks with flow within two of them") {
    FOpt g; g.maxN = 6; g.maxLinks = 10; g.fctl = g.chk = false; FSpec s = genFluid(c, g); const int n = s.n(), K = c.i(1, 4); std::vector<int> of(n), order; for (int k = 0; k < n; ++k) of[k] = c.raw(K); { std::vector<FLink> keep; for (size_t q = 0; q < s.links.size(); ++q) { const FLink& l = s.links[q]; if (l.p0 == n || l.p1 == n || of[l.p0] == of[l.p1]) keep.push_back(l); } s.links = keep; } if (s.links.empty()) c.discard();
    FluidNet f(s); std::vector<std::unique_ptr<FSub> > sub; for (int k = 0; k < K; ++k) { std::vector<int> i; for (int m = 0; m < n; ++m) if (of[m] == k) i.push_back(m); sub.push_back(std::unique_ptr<FSub>(new FSub("sub" + std::to_string(k), f.spec, f.cfg, i))); order.push_back(k); } for (size_t q = 0; q < s.links.size(); ++q) { const FLink& l = s.links[q]; sub[of[l.p0 == n ? l.p1 : l.p0]]->lk.push_back(q); } c.shuffle(order); logFluid(c.log(), s); for (int k = 0; k < n; ++k) c.log() << "node " << k << " in sub " << of[k] << "\n";
    GunnsFluidSuperNetwork top("top"); top.netSolverConfig.mName = "top"; top.netSolverConfig.mConvergenceTolerance = 1e-9; top.netSolverConfig.mMinLinearizationPotential = 1e-8; top.netSolverConfig.mMinorStepLimit = 1; top.netSolverConfig.mDecompositionLimit = 1; for (int i = 0; i < K; ++i) { top.addSubNetwork(sub[order[i]].get()); if (c.b(0.2)) top.addSubNetwork(sub[order[0]].get()); } top.registerSuperNodes(); top.initialize(); c.check(top.netNodeList.mNumNodes == n + 1, "node-layout", S() << top.netNodeList.mNumNodes); std::vector<bool> flowing(K, false); const double dt = 0.1;
    for (int t = 0, N = c.i(1, 20); t < N; ++t) { if (!went(f, dt)) c.discard(); top.update(dt); if (c.b(0.05)) { f.net.restart(); top.restart(); }
        for (int k = 0; k < K; ++k) { for (size_t m = 0; m < sub[k]->idx.size(); ++m) { const State a = snap(*f.nodes[sub[k]->idx[m]].getContent()), b = snap(*sub[k]->node(m)->getContent()); const std::string at = S() << "step " << t << " node " << sub[k]->idx[m]; if (!std::isfinite(a.P) || a.P < 1e-3 || a.P > 1e6) c.discard(); c.checkNear(b.P, a.P, 1e-7, 1e-9, "super-pressure", at); c.checkNear(b.T, a.T, 1e-6, 0., "super-temperature", at); c.checkNear(b.mass, a.mass, 1e-7, 1e-12, "super-mass", at); for (size_t i = 0; i < a.mf.size(); ++i) c.checkNear(b.mf[i], a.mf[i], 1e-6, 1e-7, "super-mixture", at); for (size_t i = 0; i < a.tcMass.size(); ++i) c.checkNear(b.tcMass[i], a.tcMass[i], 1e-6, 1e-12 * a.mass, "super-trace", at); }
            for (size_t q = 0; q < sub[k]->lk.size(); ++q) { const double w = VptFriend::flow(*f.user[sub[k]->lk[q]]); c.checkNear(VptFriend::flow(*sub[k]->made[q]), w, 1e-6, 1e-9, "super-flow", S() << "step " << t << " link " << sub[k]->lk[q]); if (std::fabs(w) > 1e-7) flowing[k] = true; } } }
    if (std::count(flowing.begin(), flowing.end(), true) >= 2) c.nontrivial();
}
