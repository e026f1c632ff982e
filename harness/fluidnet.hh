// Generated fluid networks and an independent account of one step's transport.
#ifndef FLUIDNET_HH
#define FLUIDNET_HH
#include "vpt.hh"
#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidConductor.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidPotential.hh"
#include "core/GunnsFluidSource.hh"
#include "core/GunnsFluidFlowController.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/conductor/GunnsFluidCheckValve.hh"
#include "aspects/fluid/fluid/PolyFluid.hh"
#include "properties/FluidProperties.hh"
#include "properties/ChemicalCompound.hh"
#ifndef VPT_FRIEND_EXTRA
#define VPT_FRIEND_EXTRA
#endif
class VptFriend { public:
    static void maxG(GunnsFluidConductor& l, double g) { l.mMaxConductivity = g; }
    static void flowCmd(GunnsFluidFlowController& l, double v) { l.mFlowRateCommand = v; }
    static void srcP(GunnsFluidPotential& l, double v) { l.mSourcePressure = v; }
    static double flow(const GunnsFluidLink& l) { return l.mFlowRate; }
    static double flux(const GunnsFluidLink& l) { return l.mFlux; }
    static double admittance(const GunnsBasicLink& l) { return l.mAdmittanceMatrix[0]; }
    static double volume(GunnsFluidNode& n) { return n.mVolume; }
    VPT_FRIEND_EXTRA
};
namespace fn {
typedef FluidProperties FP;
inline const DefinedFluidProperties& props() { static DefinedFluidProperties p; return p; }
inline const FluidProperties* prop(FP::FluidType t) { return props().getProperties(t); }
inline const DefinedChemicalCompounds& chem() { static DefinedChemicalCompounds p; return p; }

// Fluids with the temperature range within which all their fits are valid.
inline std::vector<FP::FluidType> idealGases() { FP::FluidType t[] = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O, FP::GUNNS_H2, FP::GUNNS_CO, FP::GUNNS_NH3, FP::GUNNS_CH4, FP::GUNNS_HE, FP::GUNNS_AR, FP::GUNNS_HCL, FP::GUNNS_HCN}; return std::vector<FP::FluidType>(t, t + 12); }
struct Liquid { FP::FluidType t; double lo, hi; };
inline std::vector<Liquid> liquids() { Liquid l[] = {{FP::GUNNS_WATER, 280, 360}, {FP::GUNNS_HFE7000, 250, 400}, {FP::GUNNS_PG50, 260, 370}, {FP::GUNNS_AMMONIA, 220, 300}, {FP::GUNNS_GALDEN170, 260, 400}, {FP::GUNNS_NTO, 270, 330}, {FP::GUNNS_HYDRAZINE, 280, 370}}; return std::vector<Liquid>(l, l + 7); }

enum Type { COND, POT, SRC, FCTL, CHK };
inline const char* tname(int t) { static const char* n[] = {"conductor", "potential", "source", "flowctl", "checkvalve"}; return n[t]; }
struct FLink { int type, p0, p1; double a, s, ex; bool blk; double blkV; bool rev; double open, close;
    FLink() : type(0), p0(0), p1(0), a(0), s(0), ex(0.5), blk(false), blkV(0), rev(false), open(0), close(0) {} };
struct FNode { bool cap; double vol, T, P, exF; std::vector<double> mf, tc; };
struct FSpec { bool gas; double Tlo, Thi; std::vector<FP::FluidType> types; std::vector<ChemicalCompound::Type> tcs; std::vector<FNode> nodes; std::vector<FLink> links; int n() const { return (int)nodes.size(); } };

inline std::vector<double> genFractions(Case& c, int n, bool allowZero = true) {
    std::vector<double> f(n, 0.); double s = 0.;
    for (int k = 0; k < n; ++k) { f[k] = (allowZero && c.b(0.3)) ? 0. : c.lr(1e-4, 1.); s += f[k]; }
    if (s <= 0.) { f[c.raw(n)] = 1.; s = 1.; }
    for (int k = 0; k < n; ++k) f[k] /= s; return f;
}
struct FOpt { int maxN, maxLinks; bool src, pot, fctl, chk, zeroVol, expansion, liquids, tcs; double srcScale; FOpt() : maxN(6), maxLinks(10), src(true), pot(true), fctl(true), chk(true), zeroVol(true), expansion(false), liquids(true), tcs(true), srcScale(1.) {} };

inline void params(Case& c, FLink& l, const FSpec& s, const FOpt& o) {
    l.a = c.b(0.05) ? 0. : s.gas ? c.lr(1e-8, 1e-4) : c.lr(1e-9, 1e-5);
    if (l.type == POT) l.s = c.sr(1e-2, 200.);
    if (l.type == SRC) l.s = o.srcScale * c.sr(1e-7, 1e-3);
    if (l.type == FCTL) l.s = c.lr(1e-7, 1e-2);
    l.blk = c.b(0.1); l.blkV = l.blk ? c.r(0., 1.) : 0.;
}
inline FSpec genFluid(Case& c, const FOpt& o) {
    FSpec s; s.gas = !o.liquids || c.b(0.75); 
    if (s.gas) { std::vector<FP::FluidType> t = idealGases(); c.shuffle(t); t.resize(c.i(1, 4)); s.types = t; s.Tlo = 200.; s.Thi = 500.; }
    else { std::vector<Liquid> l = liquids(); Liquid x = c.pick(l); s.types.push_back(x.t); s.Tlo = x.lo; s.Thi = x.hi; }
    if (o.tcs && s.gas && c.b(0.4)) { std::vector<ChemicalCompound::Type> t; ChemicalCompound::Type all[] = {ChemicalCompound::CH2O, ChemicalCompound::C2H6O, ChemicalCompound::C6H6, ChemicalCompound::NH3, ChemicalCompound::CO, ChemicalCompound::CH4O}; t.assign(all, all + 6); c.shuffle(t); t.resize(c.i(1, 3)); s.tcs = t; }
    const int n = c.i(1, o.maxN);
    for (int k = 0; k < n; ++k) {
        FNode x; x.cap = !o.zeroVol || k == 0 || c.b(0.75); x.vol = x.cap ? c.lr(1e-3, 100.) : 0.; x.T = c.r(s.Tlo + 20., s.Thi - 20.); x.P = s.gas ? c.lr(1., 1e3) : c.lr(50., 1e3);
        x.exF = o.expansion && c.b(0.5) ? c.r(0., 1.) : 0.; x.mf = genFractions(c, (int)s.types.size());
        for (size_t q = 0; q < s.tcs.size(); ++q) x.tc.push_back(c.b(0.3) ? 0. : c.lr(1e-9, 1e-3));
        s.nodes.push_back(x);
    }
    std::vector<int> kinds; kinds.push_back(COND); kinds.push_back(COND); if (o.pot) kinds.push_back(POT); if (o.src) kinds.push_back(SRC); if (o.fctl) kinds.push_back(FCTL); if (o.chk) kinds.push_back(CHK);
    const int m = c.i(1, o.maxLinks);
    for (int q = 0; q < m; ++q) {
        FLink l; l.type = c.pick(kinds); l.p0 = c.i(0, n); l.p1 = c.i(0, n); if (c.b(0.7) && n > 1) { l.p0 = c.i(0, n - 1); l.p1 = c.i(0, n - 1); }
        if (l.p0 == l.p1) { if (l.p0 == n) l.p0 = 0; else l.p1 = n; }
        l.ex = c.b(0.7) ? 0.5 : c.r(0.5, 1.0); l.rev = c.b(); l.open = c.r(0.1, 5.); l.close = c.r(0., 1.) * l.open; params(c, l, s, o); s.links.push_back(l);
    }
    return s;
}
inline void logFluid(std::ostream& o, const FSpec& s) {
    o << "fluids"; for (size_t k = 0; k < s.types.size(); ++k) o << " " << (int)s.types[k]; o << (s.gas ? " (gas)" : " (liquid)") << " trace compounds"; for (size_t k = 0; k < s.tcs.size(); ++k) o << " " << (int)s.tcs[k]; o << "\n";
    for (int k = 0; k < s.n(); ++k) { const FNode& x = s.nodes[k]; o << "  node " << k << ": " << (x.cap ? "V=" : "no volume ") << x.vol << " T=" << x.T << " P=" << x.P << " ex=" << x.exF << " mf="; for (size_t q = 0; q < x.mf.size(); ++q) o << x.mf[q] << ","; o << " tc="; for (size_t q = 0; q < x.tc.size(); ++q) o << x.tc[q] << ","; o << "\n"; }
    for (size_t k = 0; k < s.links.size(); ++k) { const FLink& l = s.links[k]; o << "  link " << k << ": " << tname(l.type) << " " << l.p0 << "->" << l.p1 << " G=" << l.a << " s=" << l.s << " exp=" << l.ex; if (l.blk) o << " blocked " << l.blkV; o << "\n"; }
}

// A capacitor whose heat inputs the check sets.
class HeatCap : public GunnsFluidCapacitor { public: double q, qu; HeatCap() : q(0.), qu(0.) {}
  protected: virtual double getHeatFlux() const { return q; } virtual double getUndampedHeatFlux() const { return qu; } };
class FluidNet {
  public:
    FSpec spec; GunnsFluidTraceCompoundsConfigData tcCfg; PolyFluidConfigData cfg; GunnsFluidNode* nodes; GunnsNodeList nl; std::vector<GunnsBasicLink*> links;
    std::vector<GunnsFluidLink*> user;               // the links of the spec, in order
    std::vector<HeatCap*> caps;          // by node, 0 when it has none
    Gunns net;
    FluidNet(const FSpec& s, bool initNow = true) : spec(s), tcCfg(s.tcs.empty() ? 0 : &spec.tcs[0], (int)s.tcs.size(), "tc"), cfg(&props(), &spec.types[0], (int)s.types.size(), s.tcs.empty() ? 0 : &tcCfg), nodes(new GunnsFluidNode[s.n() + 1]) {
        const int n = s.n(); nl.mNumNodes = n + 1; nl.mNodes = nodes;
        for (int k = 0; k < n; ++k) { PolyFluidInputData in = input(k); GunnsFluidTraceCompoundsInputData t(spec.tcs.empty() ? 0 : &spec.nodes[k].tc[0]); if (!spec.tcs.empty()) in.mTraceCompounds = &t; nodes[k].initialize("node" + std::to_string(k), &cfg, &in); }
        std::vector<double> z(s.types.size(), 0.); z[0] = 1.; PolyFluidInputData g(s.nodes[0].T, 1e-3, 0., 0., &z[0]); nodes[n].initialize("ground", &cfg, &g);
        net.initializeFluidNodes(nl);
        for (int k = 0; k < n; ++k) { caps.push_back(0); if (!s.nodes[k].cap) continue;
            HeatCap* x = new HeatCap; caps[k] = x; GunnsFluidCapacitorConfigData cc("cap" + std::to_string(k), &nl, s.nodes[k].exF); PolyFluidInputData in = input(k);
            GunnsFluidTraceCompoundsInputData t(spec.tcs.empty() ? 0 : &spec.nodes[k].tc[0]); if (!spec.tcs.empty()) in.mTraceCompounds = &t;
            GunnsFluidCapacitorInputData ci(false, 0., s.nodes[k].vol, &in); x->initialize(cc, ci, links, k, n); }
        for (size_t q = 0; q < s.links.size(); ++q) {
            const FLink& l = s.links[q]; const std::string nm = "link" + std::to_string(q); GunnsFluidLink* y = 0;
            if (l.type == COND) { GunnsFluidConductor* x = new GunnsFluidConductor; y = x; GunnsFluidConductorConfigData cc(nm, &nl, l.a, 0., l.ex); GunnsFluidConductorInputData ci(l.blk, l.blkV); x->initialize(cc, ci, links, l.p0, l.p1); }
            else if (l.type == POT) { GunnsFluidPotential* x = new GunnsFluidPotential; y = x; GunnsFluidPotentialConfigData cc(nm, &nl, l.a, 0.); GunnsFluidPotentialInputData ci(l.blk, l.blkV, l.s); x->initialize(cc, ci, links, l.p0, l.p1); }
            else if (l.type == SRC) { GunnsFluidSource* x = new GunnsFluidSource; y = x; GunnsFluidSourceConfigData cc(nm, &nl); GunnsFluidSourceInputData ci(l.blk, l.blkV, l.s); x->initialize(cc, ci, links, l.p0, l.p1); }
            else if (l.type == FCTL) { GunnsFluidFlowController* x = new GunnsFluidFlowController; y = x; GunnsFluidFlowControllerConfigData cc(nm, &nl, l.a, 0., 1., l.rev); GunnsFluidFlowControllerInputData ci(l.blk, l.blkV, false, 0., l.s); x->initialize(cc, ci, links, l.p0, l.p1); }
            else { GunnsFluidCheckValve* x = new GunnsFluidCheckValve; y = x; GunnsFluidCheckValveConfigData cc(nm, &nl, l.a, 0., 0., 0., 0., 10., l.close, l.open); GunnsFluidCheckValveInputData ci(l.blk, l.blkV, 0.); x->initialize(cc, ci, links, l.p0, l.p1); }
            user.push_back(y);
        }
        if (initNow) start();
    }
    void start(int minor = 1, int decomp = 1) { GunnsConfigData nc("net", 1e-9, 1e-8, minor, decomp); net.initialize(nc, links); }
    ~FluidNet() { for (size_t k = 0; k < user.size(); ++k) delete user[k]; for (size_t k = 0; k < caps.size(); ++k) delete caps[k]; delete[] nodes; }
    PolyFluidInputData input(int k) { return PolyFluidInputData(spec.nodes[k].T, spec.nodes[k].P, 0., 0., &spec.nodes[k].mf[0]); }
    void apply(const FSpec& s) { spec.links = s.links;
        for (size_t k = 0; k < user.size(); ++k) { const FLink& l = s.links[k]; user[k]->setMalfBlockage(l.blk, l.blkV);
            if (l.type == SRC) static_cast<GunnsFluidSource*>(user[k])->setFlowDemand(l.s); else VptFriend::maxG(*static_cast<GunnsFluidConductor*>(user[k]), l.a);
            if (l.type == FCTL) VptFriend::flowCmd(*static_cast<GunnsFluidFlowController*>(user[k]), l.s);
            if (l.type == POT) VptFriend::srcP(*static_cast<GunnsFluidPotential*>(user[k]), l.s); } }
    int n() const { return spec.n(); }
  private: FluidNet(const FluidNet&); FluidNet& operator=(const FluidNet&);
};

// What a fluid object holds.
struct State { double mass, moles, T, P, h, MW, rho; std::vector<double> mf, tcMass, tcMole; };
inline State snap(const PolyFluid& f) {
    State s; s.mass = f.getMass(); s.moles = f.getMole(); s.T = f.getTemperature(); s.P = f.getPressure(); s.h = f.getSpecificEnthalpy(); s.MW = f.getMWeight(); s.rho = f.getDensity();
    for (int k = 0; k < f.getNConstituents(); ++k) s.mf.push_back(f.getMassFraction(k));
    if (f.getTraceCompounds()) for (int k = 0; k < f.getTraceCompounds()->getConfig()->mNTypes; ++k) { s.tcMass.push_back(f.getTraceCompounds()->getMasses()[k]); s.tcMole.push_back(f.getTraceCompounds()->getMoleFractions()[k]); }
    return s;
}
inline std::vector<State> snapAll(FluidNet& f) { std::vector<State> v; for (int k = 0; k < f.n(); ++k) v.push_back(snap(*f.nodes[k].getContent())); return v; }

// The independent account of one step: what each node should have gained, from the links' reported flows.
struct Account {
    bool overDemand, cycle, floating; bool anyFlow, anyOverflow, boundary; std::vector<bool> over;
    std::vector<std::vector<double> > gain, tcGain; std::vector<double> heat, scale, hScale, slack, inMass, inflowTmin, inflowTmax, net;
};
inline Account account(FluidNet& f, const std::vector<State>& old, double dt) {
    const int n = f.n(), nt = (int)f.spec.types.size(), nc = (int)f.spec.tcs.size(); Account a; a.overDemand = a.cycle = a.floating = a.anyFlow = a.anyOverflow = a.boundary = false;
    a.gain.assign(n + 1, std::vector<double>(nt, 0.)); a.tcGain.assign(n + 1, std::vector<double>(nc, 0.)); a.heat.assign(n + 1, 0.); a.scale.assign(n + 1, 0.); a.hScale.assign(n + 1, 0.); a.slack.assign(n + 1, 0.); a.inMass.assign(n + 1, 0.); a.net.assign(n + 1, 0.); a.inflowTmin.assign(n + 1, 1e300); a.inflowTmax.assign(n + 1, -1e300);
    std::vector<double> outMoles(n + 1, 0.), inMoles(n + 1, 0.), forced(n + 1, 0.); std::vector<std::pair<int, int> > edges; double pmax = 1.;
    for (int k = 0; k < n; ++k) pmax = std::max(pmax, std::max(f.nodes[k].getContent()->getPressure(), old[k].P));
    for (size_t q = 0; q < f.user.size(); ++q) {
        const FLink& l = f.spec.links[q]; const double r = VptFriend::flow(*f.user[q]), fx = VptFriend::flux(*f.user[q]), g = VptFriend::admittance(*f.user[q]);
        const double sl = dt * (g * 2e-13 * pmax + 1e-13); a.slack[l.p0] += sl * 50.; a.slack[l.p1] += sl * 50.;
        if (r == 0.) continue;
        const int from = r > 0. ? l.p0 : l.p1, to = r > 0. ? l.p1 : l.p0;
        State m; if (from == n) m = old[to]; else m = snap(*f.nodes[from].getOutflow());
        a.anyFlow = true; if (from == n || to == n) a.boundary = true;
        const double dm = std::fabs(r) * dt, mol = std::fabs(fx) * dt;
        outMoles[from] += mol; inMoles[to] += mol; edges.push_back(std::make_pair(from, to));
        for (int i = 0; i < nt; ++i) { a.gain[to][i] += dm * m.mf[i]; a.gain[from][i] -= dm * m.mf[i]; }
        for (int i = 0; i < nc; ++i) { const double t = mol * m.tcMole[i] * f.tcCfg.mCompounds[i]->mMWeight; a.tcGain[to][i] += t; a.tcGain[from][i] -= t; }
        a.heat[to] += dm * m.h; a.heat[from] -= dm * m.h; a.hScale[to] += dm * std::fabs(m.h); a.hScale[from] += dm * std::fabs(m.h);
        a.scale[to] += dm; a.scale[from] += dm; a.inMass[to] += dm; a.net[to] += dm; a.net[from] -= dm; if (dm > 0.) { a.inflowTmin[to] = std::min(a.inflowTmin[to], m.T); a.inflowTmax[to] = std::max(a.inflowTmax[to], m.T); }
    }
    a.over.assign(n + 1, false);
    for (int k = 0; k < n; ++k) {
        const double have = old[k].moles + inMoles[k]; if (outMoles[k] > old[k].moles) { a.over[k] = true; if (old[k].mass > 0.) a.anyOverflow = true; }
        if (outMoles[k] > have * (1. + 1e-9) + a.slack[k] / std::max(1e-3, old[k].MW)) a.overDemand = true;
        else if (outMoles[k] > have) a.slack[k] += 4. * (outMoles[k] - have) * 500.;
    }
    // flow forced into a node without volume that no conductance ties to a volume or to ground has nowhere to go
    std::vector<char> tied(n + 1, 0); tied[n] = 1; for (int k = 0; k < n; ++k) tied[k] = f.spec.nodes[k].cap;
    for (int pass = 0; pass <= n; ++pass) for (size_t q = 0; q < f.user.size(); ++q) if (VptFriend::admittance(*f.user[q]) > 1e-14) { const FLink& l = f.spec.links[q]; if (tied[l.p0] || tied[l.p1]) tied[l.p0] = tied[l.p1] = 1; }
    for (int k = 0; k < n; ++k) if (!tied[k] && a.scale[k] > 0.) a.floating = true;
    // a cycle of flow among nodes whose outflow exceeds their contents cannot be ordered
    std::vector<int> st(n + 1, 0); std::function<void(int)> go = [&](int k) { st[k] = 1; for (size_t e = 0; e < edges.size(); ++e) if (edges[e].first == k && edges[e].second < n && a.over[edges[e].second]) { int t = edges[e].second; if (st[t] == 1) a.cycle = true; else if (!st[t]) go(t); } st[k] = 2; };
    for (int k = 0; k < n; ++k) if (a.over[k] && !st[k]) go(k);
    return a;
}
}
#endif
