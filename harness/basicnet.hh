// Generated networks of GUNNS basic links and an independent reference for one step of them.
#ifndef BASICNET_HH
#define BASICNET_HH
#include "vpt.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicFlowController.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicFlowOrchestrator.hh"

namespace bn {
enum Type { COND, CAP, POT, SRC, FCTL };
inline const char* tname(int t) { static const char* n[] = {"conductor", "capacitor", "potential", "source", "flowctl"}; return n[t]; }

struct LinkSpec {
    int type, p0, p1;
    double a;        // conductance or capacitance
    double s;        // source potential / source flux / commanded flux
    double init;     // initial capacitor potential
    bool blk; double blkV; bool rev;
    LinkSpec() : type(COND), p0(0), p1(0), a(0), s(0), init(0), blk(false), blkV(0), rev(false) {}
    double g(double dt, double dpPrev) const {   // effective conductance in the system of equations
        double c = a;
        if (type == CAP) return a / std::max(dt, (double)DBL_EPSILON);
        if (type == SRC) return 0.;
        if (type == FCTL) { c = std::min(a, std::fabs(s) / std::max((double)DBL_EPSILON, std::fabs(dpPrev))); if (dpPrev < 0. && !rev) c = 0.; }
        if (blk) c *= 1. - blkV;
        return std::min(std::max(c, 0.), 1.e15);
    }
};
inline std::ostream& operator<<(std::ostream& o, const LinkSpec& l) {
    o << tname(l.type) << " " << l.p0 << "->" << l.p1 << " a=" << l.a << " s=" << l.s; if (l.type == CAP) o << " init=" << l.init;
    if (l.blk) o << " blocked " << l.blkV; if (l.rev) o << " rev"; return o; }

// Trick's input processor may set any field of the solver; the SOR option has no other interface.
struct OpenGunns : Gunns { void sor(bool on) { mSorActive = on; mSorWeight = 1.f; mSorMaxIter = 3000; mSorTolerance = 1e-13; } };

struct NetSpec {
    int n;                        // non-ground nodes; ground is n
    std::vector<LinkSpec> links;
};

// Builds the objects for a spec, with a chosen order of links and numbering of nodes.
class BasicNet {
  public:
    std::vector<int> nodeOf;      // spec node -> network node (ground stays last)
    std::vector<int> order;       // network link position -> spec link
    int n;
    GunnsBasicNode* nodes;
    GunnsNodeList nl;
    std::vector<GunnsBasicLink*> links;     // as the solver sees them
    std::vector<GunnsBasicLink*> bySpec;
    OpenGunns net;
    BasicNet(const NetSpec& spec, std::vector<int> nodePerm, std::vector<int> linkOrder, double tol = 1e-9, int minorLimit = 1, int decompLimit = 1, bool nonLinearFc = false)
        : nodeOf(nodePerm), order(linkOrder), n(spec.n), nodes(new GunnsBasicNode[spec.n + 1]), bySpec(spec.links.size(), (GunnsBasicLink*)0) {
        if (nodeOf.empty()) for (int k = 0; k < n; ++k) nodeOf.push_back(k);
        nodeOf.resize(n + 1); nodeOf[n] = n;
        if (order.empty()) for (size_t k = 0; k < spec.links.size(); ++k) order.push_back((int)k);
        nl.mNumNodes = n + 1; nl.mNodes = nodes;
        for (int k = 0; k < n; ++k) nodes[nodeOf[k]].initialize("node" + std::to_string(k), 0.);
        nodes[n].initialize("ground", 0.);
        net.initializeNodes(nl);
        for (size_t q = 0; q < order.size(); ++q) {
            const LinkSpec& l = spec.links[order[q]]; const int a = nodeOf[l.p0], b = nodeOf[l.p1];
            const std::string nm = "link" + std::to_string(order[q]); GunnsBasicLink* x = 0;
            if (l.type == COND) { GunnsBasicConductor* k = new GunnsBasicConductor; x = k; GunnsBasicConductorConfigData c(nm, &nl, l.a); GunnsBasicConductorInputData i(l.blk, l.blkV); k->initialize(c, i, links, a, b); }
            else if (l.type == CAP) { GunnsBasicCapacitor* k = new GunnsBasicCapacitor; x = k; GunnsBasicCapacitorConfigData c(nm, &nl); GunnsBasicCapacitorInputData i(l.blk, l.blkV, l.a, l.init); k->initialize(c, i, links, a, b); }
            else if (l.type == POT) { GunnsBasicPotential* k = new GunnsBasicPotential; x = k; GunnsBasicPotentialConfigData c(nm, &nl, l.a); GunnsBasicPotentialInputData i(l.blk, l.blkV, l.s); k->initialize(c, i, links, a, b); }
            else if (l.type == SRC) { GunnsBasicSource* k = new GunnsBasicSource; x = k; GunnsBasicSourceConfigData c(nm, &nl); GunnsBasicSourceInputData i(l.blk, l.blkV, l.s); k->initialize(c, i, links, a, b); }
            else { GunnsBasicFlowController* k = new GunnsBasicFlowController; x = k; GunnsBasicFlowControllerConfigData c(nm, &nl, l.a, nonLinearFc, l.rev); GunnsBasicFlowControllerInputData i(l.blk, l.blkV, false, 0., l.s); k->initialize(c, i, links, a, b); }
            bySpec[order[q]] = x;
        }
        GunnsConfigData cfg("net", tol, 1e-8, minorLimit, decompLimit);
        net.initialize(cfg, links);
    }
    ~BasicNet() { for (size_t k = 0; k < bySpec.size(); ++k) delete bySpec[k]; delete[] nodes; }
    // Copies changeable parameters of the spec into the objects.
    void apply(const NetSpec& spec) {
        for (size_t k = 0; k < spec.links.size(); ++k) {
            const LinkSpec& l = spec.links[k]; GunnsBasicLink* x = bySpec[k]; x->setMalfBlockage(l.blk, l.blkV);
            if (l.type == COND) static_cast<GunnsBasicConductor*>(x)->setDefaultConductivity(l.a);
            else if (l.type == CAP) static_cast<GunnsBasicCapacitor*>(x)->editCapacitance(true, l.a);
            else if (l.type == POT) { static_cast<GunnsBasicPotential*>(x)->setDefaultConductivity(l.a); static_cast<GunnsBasicPotential*>(x)->setSourcePotential(l.s); }
            else if (l.type == SRC) static_cast<GunnsBasicSource*>(x)->setFluxDemand(l.s);
            else { static_cast<GunnsBasicFlowController*>(x)->setDefaultConductivity(l.a); static_cast<GunnsBasicFlowController*>(x)->setFluxCommand(l.s); }
        }
    }
    double p(int specNode) const { return specNode == n ? 0. : nodes[nodeOf[specNode]].getPotential(); }
    GunnsBasicNode& node(int specNode) { return nodes[nodeOf[specNode]]; }
    std::vector<double> potentials() const { std::vector<double> v(n + 1, 0.); for (int k = 0; k < n; ++k) v[k] = p(k); return v; }
  private:
    BasicNet(const BasicNet&); BasicNet& operator=(const BasicNet&);
};

// Reference: flux of link l from port 0 to port 1 given potentials now (p) and before the step (q).
inline long double refFlux(const LinkSpec& l, double dt, const std::vector<double>& p, double dpPrev) {
    const long double dp = (long double)p[l.p0] - (long double)p[l.p1];
    switch (l.type) {
        case SRC: return (long double)l.s * (l.blk ? 1.L - (long double)l.blkV : 1.L);
        case POT: return (long double)l.g(dt, dpPrev) * (dp + l.s);
        case CAP: return (long double)l.g(dt, dpPrev) * (dp - (long double)dpPrev);
        default:  return (long double)l.g(dt, dpPrev) * dp;
    }
}
// The constant part of the flux (at zero potentials), for the right-hand side.
inline long double refConst(const LinkSpec& l, double dt, double dpPrev) {
    static thread_local std::vector<double> z; z.assign(64, 0.); return refFlux(l, dt, z, dpPrev); }

// Solves the dense reference system by Gaussian elimination with partial pivoting in long double.
inline std::vector<long double> refSolve(const NetSpec& spec, double dt, const std::vector<double>& dpPrev) {
    const int n = spec.n; std::vector<std::vector<long double> > A(n, std::vector<long double>(n + 1, 0.L));
    for (size_t k = 0; k < spec.links.size(); ++k) {
        const LinkSpec& l = spec.links[k]; const long double g = l.g(dt, dpPrev[k]), s = refConst(l, dt, dpPrev[k]);
        if (l.p0 < n) { A[l.p0][l.p0] += g; if (l.p1 < n) A[l.p0][l.p1] -= g; A[l.p0][n] -= s; }
        if (l.p1 < n) { A[l.p1][l.p1] += g; if (l.p0 < n) A[l.p1][l.p0] -= g; A[l.p1][n] += s; }
    }
    std::vector<long double> x(n, 0.L);
    std::vector<int> piv(n, -1); std::vector<bool> used(n, false);
    for (int c = 0; c < n; ++c) {
        int b = -1; for (int r = 0; r < n; ++r) if (!used[r] && (b < 0 || fabsl(A[r][c]) > fabsl(A[b][c]))) b = r;
        if (b < 0 || A[b][c] == 0.L) continue;
        used[b] = true; piv[c] = b;
        for (int r = 0; r < n; ++r) if (r != b && A[r][c] != 0.L) { const long double f = A[r][c] / A[b][c]; for (int k = c; k <= n; ++k) A[r][k] -= f * A[b][k]; }
    }
    for (int c = 0; c < n; ++c) if (piv[c] >= 0) x[c] = A[piv[c]][n] / A[piv[c]][c];
    return x;
}

// Components of the graph of links with a non-negligible conductance (ground included as node n).
inline std::vector<int> components(const NetSpec& s, const std::vector<double>& g, double eps = 1e-100, bool groundJoins = true) {
    std::vector<int> c(s.n + 1); for (int k = 0; k <= s.n; ++k) c[k] = k;
    std::function<int(int)> f = [&](int x) { return c[x] == x ? x : c[x] = f(c[x]); };
    for (size_t k = 0; k < s.links.size(); ++k) if (g[k] > eps && (groundJoins || (s.links[k].p0 != s.n && s.links[k].p1 != s.n))) c[f(s.links[k].p0)] = f(s.links[k].p1);
    for (int k = 0; k <= s.n; ++k) c[k] = f(k); return c;
}

// Generates a network in which every node has a conductive path to ground through links that stay conductive.
struct GenOpt { int minN, maxN; bool caps, pots, srcs, fctl; double lo, hi; bool isolated; int maxExtra;
    GenOpt() : minN(1), maxN(10), caps(true), pots(true), srcs(true), fctl(false), lo(1e-3), hi(1e3), isolated(true), maxExtra(14) {} };
inline void randomParams(Case& c, LinkSpec& l, const GenOpt& o, bool anchor) {
    switch (l.type) {
        case COND: l.a = (!anchor && c.b(0.1)) ? 0. : c.lr(o.lo, o.hi); break;
        case CAP:  l.a = (!anchor && c.b(0.1)) ? 0. : c.lr(o.lo, o.hi); break;
        case POT:  l.a = (!anchor && c.b(0.1)) ? 0. : c.lr(o.lo, o.hi); l.s = c.sr(1e-2, 1e3); break;
        case SRC:  l.s = c.sr(1e-3, 1e2); break;
        case FCTL: l.a = c.lr(o.lo, o.hi); l.s = c.sr(1e-3, 1e2); break;
    }
    if (!anchor && c.b(0.15)) { l.blk = true; l.blkV = c.r(0., 1.); } else l.blk = false;
}
inline NetSpec genNet(Case& c, const GenOpt& o, std::vector<bool>& anchor) {
    NetSpec s; s.n = c.i(o.minN, o.maxN); anchor.clear();
    std::vector<int> kinds; kinds.push_back(COND); if (o.caps) kinds.push_back(CAP); if (o.pots) kinds.push_back(POT);
    std::vector<int> all = kinds; if (o.srcs) all.push_back(SRC); if (o.fctl) all.push_back(FCTL);
    std::vector<bool> iso(s.n + 1, false);
    for (int k = 0; k < s.n; ++k) if (o.isolated && s.n > 1 && c.b(0.07)) iso[k] = true;
    for (int k = 0; k < s.n; ++k) {               // spanning structure: each node to ground or to an earlier node
        if (iso[k]) continue;
        LinkSpec l; l.type = c.pick(kinds); std::vector<int> cand; cand.push_back(s.n); for (int j = 0; j < k; ++j) if (!iso[j]) cand.push_back(j);
        int other = c.pick(cand); if (c.b()) { l.p0 = k; l.p1 = other; } else { l.p0 = other; l.p1 = k; }
        if (l.type == CAP && l.p0 == s.n) std::swap(l.p0, l.p1);
        randomParams(c, l, o, true); s.links.push_back(l); anchor.push_back(true);
    }
    const int extra = c.i(0, o.maxExtra);
    for (int q = 0; q < extra; ++q) {
        LinkSpec l; l.type = c.pick(all); std::vector<int> cand; for (int j = 0; j <= s.n; ++j) if (!iso[j]) cand.push_back(j);
        if (cand.size() < 2) break;
        l.p0 = c.pick(cand); l.p1 = c.pick(cand); if (l.p0 == l.p1) { l.p1 = s.n; if (l.p0 == s.n) l.p0 = cand[0]; }
        if (l.type == CAP && l.p0 == s.n) std::swap(l.p0, l.p1);
        l.rev = c.b(); randomParams(c, l, o, false); s.links.push_back(l); anchor.push_back(false);
    }
    std::vector<double> ini(s.n + 1, 0.); for (int k = 0; k < s.n; ++k) ini[k] = c.sr(1e-1, 1e3);
    for (size_t k = 0; k < s.links.size(); ++k) if (s.links[k].type == CAP) s.links[k].init = ini[s.links[k].p0];
    return s;
}
inline void logNet(std::ostream& o, const NetSpec& s) { o << "nodes " << s.n << " (ground " << s.n << ")\n"; for (size_t k = 0; k < s.links.size(); ++k) o << "  " << k << ": " << s.links[k] << "\n"; }
}
#endif
