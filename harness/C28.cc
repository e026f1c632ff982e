// C28: thermal networks conserve energy, heat flows from hot to cold, each element delivers the heat it is configured for.
#include "elec.hh"
#include "aspects/thermal/GunnsThermalCapacitor.hh"
#include "aspects/thermal/GunnsThermalCapacitorHeatQueues.hh"
#include "aspects/thermal/GunnsThermalHeater.hh"
#include "aspects/thermal/GunnsThermalMultiPanel.hh"
#include "aspects/thermal/GunnsThermalPanel.hh"
#include "aspects/thermal/GunnsThermalPhaseChangeBattery.hh"
#include "aspects/thermal/GunnsThermalPotential.hh"
#include "aspects/thermal/GunnsThermalRadiation.hh"
#include "aspects/thermal/GunnsThermalSource.hh"
#include "aspects/thermal/GunnsThermoelectricDevice.hh"
#include <cfloat>
#include <memory>

class VptFriend {
  public:
    static double& incident(GunnsThermalPanel& p) { return p.mIncidentHeatFluxPerArea; }
    static double& view(GunnsThermalMultiPanel& p, int i) { return p.mViewScalar[i]; }
    static double& incident(GunnsThermalMultiPanel& p, int i) { return p.mIncidentFlux[i]; }
    static double& demand(GunnsThermalSource& s) { return s.mDemandedFlux; }
    static double& view(GunnsThermalRadiation& r) { return r.mViewScalar; }
    static void queue(GunnsThermalCapacitorHeatQueues& q, int i, std::vector<double>& v) { q.mQueues[i].mHeat_queue = v.empty() ? 0 : &v[0]; q.mQueues[i].mHeat_queue_size = int(v.size()); }
    static double* ext(GunnsThermalPhaseChangeBattery& b) { return b.mExternalHeatFlux; }
    static double mass(GunnsThermalPhaseChangeBattery& b) { return b.mMass; }
};

static const double SIGMA = 5.67e-8;
typedef std::vector<GunnsBasicLink*> Links;

// the thermoelectric element from its material data, by quadrature
struct TeModel {
    double n, g, r0, r1, s0, s1, s2, k0, k1, k2, plate, tmin, tmax, cur = 0., scalar = 1.;
    double lim(double t) const { return std::min(std::max(t, tmin), tmax); }
    double S(double t) const { return scalar * 2. * n * (s0 + t * (s1 + t * s2)); }
    double res(double th, double tc) const { return 2. * n / g * (r0 + r1 * 0.5 * (lim(th) + lim(tc))); }
    double K0() const { double c0 = 2. * n * g * k0; if (plate > 0.) c0 = 1. / (1. / c0 + 2. / plate); return c0; }
    // both sides at one temperature, where the code leaves out the temperature terms of the conductance
    bool flat(double th, double tc) const { return (k1 != 0. || k2 != 0.) && std::fabs(lim(th) - lim(tc)) <= DBL_EPSILON; }
    double K(double th, double tc) const {
        const double a = lim(th), b = lim(tc), m = 0.5 * (a + b);
        double c0 = 2. * n * g * k0; if (plate > 0.) c0 = 1. / (1. / c0 + 2. / plate);
        struct L { static double f(const TeModel& o, double t) { return 2. * o.n * o.g * t * (o.k1 + t * o.k2); } };
        return c0 + (L::f(*this, a) + 4. * L::f(*this, m) + L::f(*this, b)) / 6.;      // Simpson, exact for a quadratic
    }
    double volts(double th, double tc) const { const double a = lim(th), b = lim(tc); return (a - b) * (S(a) + 4. * S(0.5 * (a + b)) + S(b)) / 6.; }
    double hot(double th, double tc) const { return 0.5 * cur * cur * res(th, tc) - cur * lim(th) * S(lim(th)); }
    double cold(double th, double tc) const { return 0.5 * cur * cur * res(th, tc) + cur * lim(tc) * S(lim(tc)); }
};
static TeModel genTe(Case& c) {
    TeModel m;
    m.n = c.b(0.5) ? c.i(1, 200) : c.r(0.5, 50.); m.g = c.lr(1e-4, 1e-1);
    m.r0 = c.lr(1e-7, 1e-4); m.r1 = c.b(0.4) ? 0. : c.r(0., 1e-7);
    m.s0 = c.r(1e-5, 4e-4) * (c.b(0.2) ? -1. : 1.); m.s1 = c.b(0.4) ? 0. : c.r(-3e-7, 3e-7); m.s2 = c.b(0.5) ? 0. : c.r(-1e-10, 1e-10);
    m.k0 = c.r(0.1, 3.); m.k1 = c.b(0.4) ? 0. : c.r(0., 3e-3); m.k2 = c.b(0.5) ? 0. : c.r(0., 1e-5);
    m.plate = c.b(0.5) ? 0. : c.lr(1e-2, 1e3); m.tmin = c.r(50., 250.); m.tmax = c.r(300., 900.);
    return m;
}

static std::vector<double> genFr(Case& c, int n) {
    std::vector<double> f(n); double s = 0.;
    for (int i = 0; i < n; ++i) s += f[i] = (n > 1 && c.b(0.15)) ? 0. : c.r(0.05, 1.);
    if (s <= 0.) { f[0] = s = 1.; }
    const double off = c.b(0.25) ? c.r(0.991, 1.009) : 1.;       // the configuration tolerates a sum about 1% off
    for (int i = 0; i < n; ++i) f[i] = std::min(1., f[i] / s * off);
    return f;
}

FACET(network, 30000, 600000, "a link carried more than 1e-3 W, or a source delivered heat, between nodes with heat capacity") {
    const int n = c.i(1, 8);
    el::Circuit k(n); Links& links = k.links;
    struct Cap { std::unique_ptr<GunnsThermalCapacitor> l; int node; double C; double q[15] = {0}; std::unique_ptr<GunnsThermalCapacitorHeatQueues> hq; std::vector<double> data[15]; bool over = false; double overT = 0.; };
    struct Con { GunnsBasicConductor* l; bool rad; int a, b; double g; double view = 1.; double blk = 0.; };
    struct Src { GunnsThermalSource* l; int kind; std::vector<int> ports; std::vector<double> fr; double tune, d; double area = 1., abs[5] = {0}, inc[5] = {0}, vw[5] = {0}; double blk = 0.; bool ov = false; double ovv = 0.; };
    struct Pot { GunnsThermalPotential* l; int node; double g, T; };
    struct Te { GunnsThermoelectricDevice* l; TeModel m; int a, b; double blk = 0.; };
    std::vector<std::unique_ptr<GunnsBasicLink>> own;
    std::vector<std::unique_ptr<Cap>> caps; std::vector<Con> cons; std::vector<Src> srcs; std::vector<Pot> pots; std::vector<Te> tes;
    std::vector<bool> anchored(n, false);
    auto blocked = [&](GunnsBasicLink* l) { double b = 0.; if (c.b(0.2)) { b = c.b(0.3) ? 1. : c.r(0., 1.); l->setMalfBlockage(true, b); } return b; };
    GunnsNetworkSpotterConfigData* qc = 0; (void)qc;
    GunnsThermalCapacitorHeatQueuesConfigData qcfg("hq"); GunnsThermalCapacitorHeatQueuesInputData qin;
    const double tScale = c.pickOf<double>({300., 100., 1000.});
    for (int i = 0; i < n; ++i) {
        const int m = c.weighted({12, 80, 8});
        const double T = tScale * (c.b(0.15) ? 1. : c.r(0.5, 1.5));
        for (int j = 0; j < m; ++j) {
            std::unique_ptr<Cap> p(new Cap); p->l.reset(new GunnsThermalCapacitor); p->node = i; p->C = c.b(0.04) ? 0. : c.lr(1., 1e5);
            if (j == m - 1 && c.b(0.05)) { p->over = true; p->overT = tScale * c.r(0.5, 1.5); }
            GunnsThermalCapacitorConfigData cf("cap" + std::to_string(i) + "_" + std::to_string(j), &k.nl, -1);
            GunnsThermalCapacitorInputData in(false, 0., p->C, T, p->over, p->overT);
            p->l->initialize(cf, in, links, i, k.gnd());
            if (p->C > 0.) anchored[i] = true;
            if (c.b(0.2)) { p->hq.reset(new GunnsThermalCapacitorHeatQueues(*p->l)); p->hq->initialize(&qcfg, &qin); }
            caps.push_back(std::move(p));
        }
    }
    for (int e = c.i(n > 1 ? n - 1 : 0, n > 1 ? 2 * n : 0); e-- > 0;) {
        Con x; x.a = c.i(0, n - 1); x.b = c.b(0.05) ? k.gnd() : (x.a + c.i(1, n - 1)) % n; if (c.b(0.1)) std::swap(x.a, x.b);
        x.rad = c.b(0.4);
        if (x.rad) {
            x.g = SIGMA * c.lr(1e-2, 50.); x.view = c.b(0.3) ? 1. : c.r(0., 1.);
            GunnsThermalRadiation* l = new GunnsThermalRadiation; own.emplace_back(l); GunnsThermalRadiationConfigData cf("rad" + std::to_string(e), &k.nl, x.g); GunnsThermalRadiationInputData in(false, 0., x.view);
            l->initialize(cf, in, links, x.a, x.b); x.l = l;
        } else {
            x.g = c.b(0.05) ? 0. : c.lr(1e-3, 1e3); x.l = new GunnsBasicConductor; own.emplace_back(x.l); GunnsBasicConductorConfigData cf("con" + std::to_string(e), &k.nl, x.g); GunnsBasicConductorInputData in(false, 0.); x.l->initialize(cf, in, links, x.a, x.b);
        }
        x.blk = blocked(x.l); cons.push_back(x);
    }
    for (int e = c.weighted({3, 3, 2, 1}); e-- > 0;) {
        Src x; x.kind = c.i(0, 3); const int np = c.i(1, std::min(n, 5)); std::vector<int> all(n); for (int i = 0; i < n; ++i) all[i] = i; c.shuffle(all); x.ports.assign(all.begin(), all.begin() + np); x.fr = genFr(c, np);
        x.tune = c.b(0.6) ? 1. : c.r(0., 2.); x.d = c.b(0.2) ? 0. : c.lr(1e-2, 1e3);
        const std::string nm = "src" + std::to_string(e);
        if (x.kind == 0) { x.l = new GunnsThermalSource; own.emplace_back(x.l); GunnsThermalSourceConfigData cf(nm, &k.nl, x.tune, &x.fr); GunnsThermalSourceInputData in(false, 0., x.d, false, 0.); x.l->initialize(cf, in, links, &x.ports); }
        else if (x.kind == 1) { GunnsThermalHeater* l = new GunnsThermalHeater; x.l = l; own.emplace_back(l); GunnsThermalHeaterConfigData cf(nm, &k.nl, x.tune, &x.fr); GunnsThermalHeaterInputData in(false, 0., 0., false, 0.); l->initialize(cf, in, links, &x.ports); l->setPowerElectrical(x.d); }
        else if (x.kind == 2) {
            x.area = c.b(0.08) ? 0. : c.lr(0.01, 30.); x.abs[0] = c.b(0.08) ? 0. : c.r(0.05, 1.); const double f = c.b(0.5) ? 0. : x.d;
            GunnsThermalPanel* l = new GunnsThermalPanel; x.l = l; own.emplace_back(l); GunnsThermalPanelConfigData cf(nm, &k.nl, x.tune, &x.fr, x.abs[0], x.area); GunnsThermalPanelInputData in(false, 0., f, false, 0.); l->initialize(cf, in, links, &x.ports);
            if (f > 0. && c.b(0.7)) { x.inc[0] = (x.abs[0] > 0. && x.area > 0.) ? f / (x.abs[0] * x.area) : 0.; c.label("panel starts from a demand"); }
            else VptFriend::incident(*l) = x.inc[0] = c.lr(1., 2000.);
        } else {
            x.area = c.lr(0.01, 30.); for (int i = 0; i < 5; ++i) { x.abs[i] = c.b(0.2) ? 0. : c.r(0., 1.); x.vw[i] = c.b(0.2) ? 0. : c.r(0., 1.); x.inc[i] = c.b(0.2) ? 0. : c.lr(1., 2000.); }
            GunnsThermalMultiPanel* l = new GunnsThermalMultiPanel; x.l = l; own.emplace_back(l); GunnsThermalMultiPanelConfigData cf(nm, &k.nl, x.tune, &x.fr, x.abs[0], x.abs[1], x.abs[2], x.abs[3], x.abs[4], x.area);
            GunnsThermalMultiPanelInputData in(false, 0., 0., false, 0., x.vw[0], x.vw[1], x.vw[2], x.vw[3], x.vw[4], x.inc[0], x.inc[1], x.inc[2], x.inc[3], x.inc[4]); l->initialize(cf, in, links, &x.ports);
        }
        x.blk = blocked(x.l); srcs.push_back(x);
    }
    for (int e = c.weighted({6, 3, 1}); e-- > 0;) {
        Pot x; x.node = c.i(0, n - 1); x.g = c.lr(1e-2, 1e3); x.T = tScale * c.r(0.5, 1.5);
        x.l = new GunnsThermalPotential; own.emplace_back(x.l); GunnsThermalPotentialConfigData cf("pot" + std::to_string(e), &k.nl, x.g); GunnsThermalPotentialInputData in(false, 0., x.T); x.l->initialize(cf, in, links, k.gnd(), x.node); anchored[x.node] = true; pots.push_back(x);
    }
    if (n > 1 && c.b(0.25)) {
        Te x; x.m = genTe(c); x.m.cur = c.b(0.3) ? 0. : c.sr(0.01, 3.); x.a = c.i(0, n - 1); x.b = (x.a + c.i(1, n - 1)) % n;
        const TeModel& m = x.m; x.l = new GunnsThermoelectricDevice; own.emplace_back(x.l);
        GunnsThermoelectricDeviceConfigData cf("ted", &k.nl, m.n, m.g, m.r0, m.r1, m.s0, m.s1, m.s2, m.k0, m.k1, m.k2, m.plate, m.tmin, m.tmax); GunnsThermoelectricDeviceInputData in(false, 0., false, 0.);
        bool zero = k.v(x.a) <= 0. || k.v(x.b) <= 0.;
        if (zero) { own.pop_back(); } else { x.l->initialize(cf, in, links, x.a, x.b); x.blk = blocked(x.l); if (c.b(0.3)) { x.m.scalar = c.r(0., 1.5); x.l->mThermoelectricEffect.setMalfThermoelectricEffects(true, x.m.scalar); } tes.push_back(x); }
    }
    // a node with neither heat capacity nor a way to an anchored node has no defined temperature
    std::vector<int> comp(n); for (int i = 0; i < n; ++i) comp[i] = i;
    for (int r = 0; r < n; ++r) { for (size_t i = 0; i < cons.size(); ++i) { const Con& x = cons[i]; if (x.blk >= 1. || x.g <= 0. || x.rad) continue; if (x.a == n || x.b == n) { anchored[x.a == n ? x.b : x.a] = true; continue; } const int m = std::min(comp[x.a], comp[x.b]); comp[x.a] = comp[x.b] = m; }
        for (size_t i = 0; i < tes.size(); ++i) if (tes[i].blk < 1.) { const int m = std::min(comp[tes[i].a], comp[tes[i].b]); comp[tes[i].a] = comp[tes[i].b] = m; } }
    for (int i = 0; i < n; ++i) { bool ok = false; for (int j = 0; j < n; ++j) ok = ok || (comp[j] == comp[i] && anchored[j]); if (!ok) c.discard(); }
    k.start(30, 1e-6);
    const double dt = c.lr(0.01, 100.); bool busy = false, equalT = false, equalTe = false;
    for (int s = c.i(1, 8); s-- > 0;) {
        // commands
        for (size_t i = 0; i < caps.size(); ++i) {
            Cap& x = *caps[i];
            if (c.b(0.35)) { const int j = c.i(0, 14); x.q[j] = c.b(0.3) ? 0. : c.sr(1e-2, 300.); if (x.hq && c.b(0.7)) { x.data[j].resize(c.i(1, 6)); double m = 0.; for (size_t q = 0; q < x.data[j].size(); ++q) m += x.data[j][q] = c.sr(1e-2, 300.); x.q[j] = m / x.data[j].size(); VptFriend::queue(*x.hq, j, x.data[j]); c.label("heat queue"); } else { x.data[j].clear(); if (x.hq) VptFriend::queue(*x.hq, j, x.data[j]); x.l->setExternalHeatFlux(j, x.q[j]); } }
            if (c.b(0.1) && x.C > 0.) { x.C = c.lr(1., 1e5); x.l->editCapacitance(true, x.C); c.label("capacitance edit"); }
            if (x.hq) x.hq->stepPreSolver(dt);
        }
        for (size_t i = 0; i < cons.size(); ++i) { Con& x = cons[i]; if (c.b(0.1)) { if (x.rad) VptFriend::view(*static_cast<GunnsThermalRadiation*>(x.l)) = x.view = c.r(0.1, 1.); else if (x.g > 0. && x.blk < 1.) { x.g = c.lr(1e-3, 1e3); x.l->setDefaultConductivity(x.g); } } }
        for (size_t i = 0; i < srcs.size(); ++i) {
            Src& x = srcs[i];
            if (c.b(0.3)) {
                if (x.kind == 0) VptFriend::demand(*x.l) = x.d = c.b(0.2) ? 0. : c.lr(1e-2, 1e3);
                if (x.kind == 1) static_cast<GunnsThermalHeater*>(x.l)->setPowerElectrical(x.d = c.b(0.2) ? 0. : c.lr(1e-2, 1e3));
                if (x.kind == 2) VptFriend::incident(*static_cast<GunnsThermalPanel*>(x.l)) = x.inc[0] = c.lr(1., 2000.);
                if (x.kind == 3) { const int j = c.i(0, 4); VptFriend::view(*static_cast<GunnsThermalMultiPanel*>(x.l), j) = x.vw[j] = c.r(0., 1.); VptFriend::incident(*static_cast<GunnsThermalMultiPanel*>(x.l), j) = x.inc[j] = c.lr(1., 2000.); }
            }
            if (c.b(0.15)) { x.ov = c.b(0.6); x.ovv = c.sr(1e-2, 500.); x.l->setMalfFluxOverride(x.ov, x.ovv); }
        }
        for (size_t i = 0; i < pots.size(); ++i) if (c.b(0.1)) { pots[i].T = tScale * c.r(0.5, 1.5); pots[i].l->setSourcePotential(pots[i].T); }
        for (size_t i = 0; i < tes.size(); ++i) { if (c.b(0.3)) tes[i].m.cur = c.sr(0.01, 3.); tes[i].l->mThermoelectricEffect.setCurrent(tes[i].m.cur); }
        std::vector<double> T0(n + 1), T1(n + 1); for (int i = 0; i <= n; ++i) T0[i] = k.v(i);
        for (int i = 0; i < n; ++i) if (!(T0[i] >= 0.) || T0[i] > 1e5) c.discard();
        if (!k.step(dt)) c.discard();
        for (int i = 0; i <= n; ++i) { T1[i] = k.v(i); c.check(std::isfinite(T1[i]), "temperature", S() << "node " << i << " temperature " << T1[i]); }
        std::vector<double> net(n + 1, 0.), mag(n + 1, 0.), stiff(n + 1, 0.); bool heatOnly = true, coolOnly = true; double lo = 1e300, hi = -1e300;
        for (int i = 0; i < n; ++i) { lo = std::min(lo, T0[i]); hi = std::max(hi, T0[i]); }
        auto add = [&](int i, double q) { net[i] += q; mag[i] += std::fabs(q); };
        for (size_t i = 0; i < cons.size(); ++i) {
            const Con& x = cons[i]; if (x.a == n || x.b == n) lo = std::min(lo, 0.);
            const double g = (x.rad ? x.view * x.g * (T0[x.a] * T0[x.a] + T0[x.b] * T0[x.b]) * (T0[x.a] + T0[x.b]) : x.g) * (1. - x.blk);
            const double q = g * (T1[x.a] - T1[x.b]); const double scale = 1e-9 * g * (std::fabs(T1[x.a]) + std::fabs(T1[x.b])), lost = x.rad ? 1e-15 * (T0[x.a] + T0[x.b]) / std::max(std::fabs(T0[x.a] - T0[x.b]), 1e-300) : 0.;   // lost: cancellation in (Ta^4-Tb^4)/(Ta-Tb)
            if (x.rad && std::fabs(T0[x.a] - T0[x.b]) <= DBL_EPSILON && std::fabs(x.l->getFlux() - x.g * (1. - x.blk) * (T1[x.a] - T1[x.b])) <= 1e-6 * std::fabs(q) + 1e-9 * x.g * (std::fabs(T1[x.a]) + std::fabs(T1[x.b]))) { if (g > 0. && T1[x.a] != T1[x.b]) equalT = true; stiff[x.a] += x.g; stiff[x.b] += x.g; add(x.a, -x.l->getFlux()); add(x.b, x.l->getFlux()); continue; }
            c.check(std::fabs(x.l->getFlux() - q) <= (1e-6 + lost) * std::fabs(q) + scale + 1e-12, x.rad ? "radiation" : "conduction", S() << "link between " << T1[x.a] << " K (was " << T0[x.a] << ") and " << T1[x.b] << " K (was " << T0[x.b] << "), conductance " << g << " (view " << x.view << ", blockage " << x.blk << "), carries " << x.l->getFlux() << " W instead of " << q);
            if (std::fabs(q) > scale) c.check((x.l->getFlux() > 0.) == (T1[x.a] > T1[x.b]), "hot-to-cold", S() << x.l->getFlux() << " W from " << T1[x.a] << " K to " << T1[x.b] << " K");
            add(x.a, -x.l->getFlux()); add(x.b, x.l->getFlux()); stiff[x.a] += g; stiff[x.b] += g; if (std::fabs(q) > 1e-3) busy = true;
        }
        for (size_t i = 0; i < srcs.size(); ++i) {
            const Src& x = srcs[i]; double q = 0.; if (x.kind < 2) q = x.d; else for (int j = 0; j < 5; ++j) q += x.abs[j] * x.inc[j] * x.area * (x.kind == 2 ? 1. : x.vw[j]);
            q *= x.tune; if (x.ov) q = x.ovv; else q *= 1. - x.blk;
            c.checkNear(x.l->getFlux(), q, 1e-9, 1e-12, "source-flux", S() << "heat from source kind " << x.kind); if (q != 0.) busy = true;
            for (size_t j = 0; j < x.ports.size(); ++j) add(x.ports[j], q * x.fr[j]);
            if (q < 0.) heatOnly = false;
            if (q > 0.) coolOnly = false;
        }
        for (size_t i = 0; i < pots.size(); ++i) { const Pot& x = pots[i]; const double q = x.g * (x.T - T1[x.node]); add(x.node, q); stiff[x.node] += x.g; lo = std::min(lo, x.T); hi = std::max(hi, x.T); c.check(c.near(x.l->getFlux(), q, 1e-6, 1e-9 * x.g * (x.T + std::fabs(T1[x.node]))), "potential", S() << "boundary at " << x.T << " K delivers " << x.l->getFlux() << " W to " << T1[x.node] << " K"); }
        for (size_t i = 0; i < tes.size(); ++i) {
            const Te& x = tes[i]; const bool eq = x.m.flat(T0[x.a], T0[x.b]); if (eq) equalTe = true; const double g = (eq ? x.m.K0() : x.m.K(T0[x.a], T0[x.b])) * (1. - x.blk), q0 = g * (T1[x.a] - T1[x.b]), q = x.l->getFlux(), lost = 4e-15 * (T0[x.a] + T0[x.b]) / std::max(std::fabs(x.m.lim(T0[x.a]) - x.m.lim(T0[x.b])), 1e-300);
            c.check(std::fabs(q - q0) <= (1e-6 + (eq ? 0. : lost)) * std::fabs(q0) + 1e-9 * g * (std::fabs(T1[x.a]) + std::fabs(T1[x.b])) + 1e-12, "thermoelectric-conduction", S() << "thermoelectric device conducts " << q << " W instead of " << q0);
            add(x.a, -q); add(x.b, q); stiff[x.a] += g; stiff[x.b] += g;
            add(x.a, x.m.hot(T0[x.a], T0[x.b])); add(x.b, x.m.cold(T0[x.a], T0[x.b])); heatOnly = coolOnly = false; c.label("thermoelectric");
        }
        std::vector<double> store(n, 0.), C(n, 0.); std::vector<bool> held(n, false);
        for (size_t i = 0; i < caps.size(); ++i) {
            const Cap& x = *caps[i]; double q = 0.; for (int j = 0; j < 15; ++j) q += x.q[j];
            if (x.C > DBL_EPSILON) { add(x.node, q); store[x.node] += x.C * (T1[x.node] - T0[x.node]) / dt; stiff[x.node] += x.C / dt; if (q < 0. ) heatOnly = false; if (q > 0.) coolOnly = false; }
            if (x.over) { held[x.node] = true; lo = std::min(lo, x.overT); hi = std::max(hi, x.overT); c.checkNear(T1[x.node], x.overT, 1e-9, 0., "override", "overridden temperature"); }
            c.checkNear(x.l->getTemperature(), T1[x.node], 1e-12, 0., "capacitor-temperature", "capacitor temperature against its node");
        }
        // an override replaces the solved temperature afterwards, so heat does not balance around it either
        const std::vector<bool> own0 = held; auto near = [&](int a, int b) { if (a < n && b < n) { if (own0[a]) held[b] = true; if (own0[b]) held[a] = true; } };
        for (size_t i = 0; i < cons.size(); ++i) near(cons[i].a, cons[i].b);
        for (size_t i = 0; i < tes.size(); ++i) near(tes[i].a, tes[i].b);
        for (int i = 0; i < n; ++i) {
            if (held[i]) continue;
            const double tol = 1e-7 * (mag[i] + std::fabs(store[i])) + 2e-10 * stiff[i] * (std::fabs(T1[i]) + tScale) + 1e-9;
            c.check(std::fabs(store[i] - net[i]) <= tol, "balance", S() << "node " << i << " stores " << store[i] << " W but " << net[i] << " W enter (temperature " << T0[i] << " -> " << T1[i] << " K in " << dt << " s), tolerance " << tol << ", conductance around it " << stiff[i]);
        }
        for (int i = 0; i < n; ++i) if (!held[i]) {
            const double tol = 1e-6 * mag[i] + 1e-6 * std::fabs(store[i]) + 2e-10 * stiff[i] * (std::fabs(T1[i]) + tScale) + 1e-9;
            c.check(std::fabs(k.nodes[i].getInflux() - k.nodes[i].getOutflux()) <= tol, "node-flux", S() << "node " << i << " reports " << k.nodes[i].getInflux() << " W in and " << k.nodes[i].getOutflux() << " W out");
        }
        const double slack = 1e-6 * hi;
        for (int i = 0; i < n; ++i) {
            if (heatOnly) c.check(T1[i] >= lo - slack, "maximum-principle", S() << "node " << i << " fell to " << T1[i] << " K below everything around it (" << lo << " K) with no heat removed");
            if (coolOnly) c.check(T1[i] <= hi + slack, "maximum-principle", S() << "node " << i << " rose to " << T1[i] << " K above everything around it (" << hi << " K) with no heat added");
        }
    }
    if (busy) c.nontrivial();
    if (equalT) c.known("radiation-equal-temperatures");
    if (equalTe) c.known("thermoelectric-equal-temperatures");
}

FACET(equilibrium, 3000, 60000, "at least two nodes of one isolated group started more than 1 K apart") {
    const int n = c.i(2, 6); el::Circuit k(n); std::vector<std::unique_ptr<GunnsBasicLink>> own; std::vector<double> C(n), T(n); std::vector<int> comp(n);
    for (int i = 0; i < n; ++i) { comp[i] = i; C[i] = c.lr(10., 1e4); T[i] = c.r(50., 800.); GunnsThermalCapacitor* p = new GunnsThermalCapacitor; own.emplace_back(p); p->initialize(GunnsThermalCapacitorConfigData("cap" + std::to_string(i), &k.nl), GunnsThermalCapacitorInputData(false, 0., C[i], T[i]), k.links, i, k.gnd()); }
    auto join = [&](int a, int b) { const int x = comp[a], y = comp[b]; for (int i = 0; i < n; ++i) if (comp[i] == y) comp[i] = x; };
    for (int e = c.i(1, 2 * n); e-- > 0;) {
        const int a = c.i(0, n - 1), b = (a + c.i(1, n - 1)) % n; join(a, b);
        if (c.b(0.5)) { GunnsBasicConductor* l = new GunnsBasicConductor; own.emplace_back(l); l->initialize(GunnsBasicConductorConfigData("con" + std::to_string(e), &k.nl, c.lr(0.1, 10.)), GunnsBasicConductorInputData(false, 0.), k.links, a, b); }
        else { GunnsThermalRadiation* l = new GunnsThermalRadiation; own.emplace_back(l); l->initialize(GunnsThermalRadiationConfigData("rad" + std::to_string(e), &k.nl, SIGMA * c.lr(0.1, 10.)), GunnsThermalRadiationInputData(false, 0., 1.), k.links, a, b); }
    }
    k.start(30, 1e-8);
    for (int s = 0; s < 60; ++s) k.step(1e6);
    for (int i = 0; i < n; ++i) {
        double ct = 0., cc = 0.; bool apart = false; for (int j = 0; j < n; ++j) if (comp[j] == comp[i]) { ct += C[j] * T[j]; cc += C[j]; if (std::fabs(T[j] - T[i]) > 1.) apart = true; }
        c.check(std::fabs(k.v(i) - ct / cc) <= 1e-4 * (ct / cc), "equilibrium", S() << "node " << i << " settles at " << k.v(i) << " K, its isolated group balances at " << ct / cc << " K"); if (apart) c.nontrivial();
    }
}

FACET(battery, 20000, 400000, "the battery changed its hot phase fraction") {
    el::Circuit k(2); const double tpc = c.r(200., 600.), heat = c.lr(1., 500.), ch = c.lr(0.1, 10.), cc = c.lr(0.1, 10.), cs = c.lr(1., 1e4), mass = c.lr(0.01, 100.);
    const int st = c.i(0, 2); const double f0 = st == 0 ? 0. : st == 1 ? 1. : c.r(0.01, 0.99), spread = c.lr(0.01, 100.); const double t0 = c.b(0.05) ? tpc * c.r(0.7, 1.3) : st == 0 ? tpc - spread : st == 1 ? tpc + spread : tpc;
    GunnsThermalPhaseChangeBattery b; GunnsThermalPhaseChangeBatteryConfigData cf("bat", &k.nl, tpc, heat, ch, cc, cs); bool leak = c.b(0.25); double rate = c.b(0.2) ? 0. : mass * c.lr(1e-5, 1e-1);
    GunnsThermalPhaseChangeBatteryInputData in(mass, t0, f0, leak, rate); b.initialize(cf, in, k.links, 0);
    GunnsThermalCapacitor cap; cap.initialize(GunnsThermalCapacitorConfigData("cap", &k.nl), GunnsThermalCapacitorInputData(false, 0., c.lr(10., 1e6), tpc + c.sr(0.1, 150.)), k.links, 1, k.gnd());
    const double g = c.lr(0.01, 1e3); GunnsBasicConductor* con = k.cond(g, 0, 1); (void)con;
    GunnsThermalHeater h; std::vector<double> fr(1, 1.); std::vector<int> pt(1, 0); h.initialize(GunnsThermalHeaterConfigData("heater", &k.nl, 1., &fr), GunnsThermalHeaterInputData(), k.links, &pt);
    k.start(30, 1e-6); const double dt = c.lr(0.01, 50.); const double cap0 = mass * 1000. * std::max(ch, cc) + cs, pw = c.pickOf<double>({0.01, 0.3, 3.}) * cap0 / dt; double m = mass, f = f0, T = t0; bool moved = false;
    for (int s = c.i(1, 25); s-- > 0;) {
        if (c.b(0.3)) h.setPowerElectrical(c.b(0.5) ? 0. : c.sr(1e-3, 1.) * pw);
        double ext = 0.; if (c.b(0.3)) VptFriend::ext(b)[c.i(0, 14)] = c.b(0.3) ? 0. : c.sr(1e-3, 1.) * pw * 0.5;
        for (int i = 0; i < 15; ++i) ext += VptFriend::ext(b)[i];
        if (c.b(0.1)) { leak = c.b(0.5); rate = mass * c.lr(1e-5, 1e-1); b.setMalfHotPhaseLeak(leak, rate); }
        if (!k.step(dt)) c.discard();
        const double T1 = b.getTemperature(), f1 = b.getHotPhaseFraction(), m1 = VptFriend::mass(b); if (!(T1 > 0.) || T1 > 1e5 || k.v(1) <= 0.) c.discard();
        c.checkNear(T1, k.v(0), 1e-12, 0., "battery-temperature", "battery temperature against its node");
        const double in0 = g * (k.v(1) - T1) + h.getPowerElectrical(), tot = in0 + ext, big = std::fabs(g * (k.v(1) - T1)) + std::fabs(h.getPowerElectrical()) + std::fabs(ext);
        const bool cold = f == 0., hot = f == 1.; double exp;
        if (cold || hot) {
            const double C = cs + 1000. * m * (cold ? cc : ch);
            c.check(std::fabs(C * (T1 - T) - tot * dt) <= 1e-7 * (big * dt + C * std::fabs(T1 - T)) + 1e-9 * (C + g * dt) * T1, "sensible-heat", S() << "single-phase battery warms by " << T1 - T << " K on " << tot * dt << " J with capacity " << C << " J/K");
            exp = f; if (cold && T1 > tpc) exp = cc * (T1 - tpc) / heat; if (hot && T1 < tpc) exp = 1. - ch * (tpc - T1) / heat;
            if (exp != f) c.label("transition");
        } else {
            c.check(std::fabs(T1 - tpc) <= 1.01e-6 * big + 1e-9 * tpc, "latent-temperature", S() << "battery changing phase is at " << T1 << " K, not " << tpc << " K, with " << tot << " W");
            exp = f + tot * dt / (1000. * m * heat);
        }
        exp = std::min(1., exp); double em = m, noise = dt * (1e-9 * big + 1e-10 * 1e6 * T1) / (1000. * m * heat) + 1e-9 * (std::max(cc, ch) * T1 / heat);
        c.checkNear(b.getPower(), tot, 1e-6, 1e-9 * (g + std::max(1e6 * (f > 0. && f < 1.), cs + 1000. * m * std::max(cc, ch)) / std::min(dt, 1.)) * T1, "battery-power", "heat into the battery");
        if (leak && exp > 1e-12) {
            const double r = b.getActualLeakRate(); c.check(r <= rate * (1 + 1e-12) && r >= 0., "leak-rate", S() << "leak " << r << " of commanded " << rate); if (rate * dt < 0.9 * m * std::max(exp - noise, 0.)) c.checkNear(r, rate, 1e-9, 0., "leak-rate", "leak rate while there is hot phase");
            em = m - r * dt; const double hm = m * exp - r * dt; noise *= m / em; exp = hm / em;
        } else if (!leak || exp <= -1e-9) c.check(b.getActualLeakRate() == 0., "no-leak", S() << "leaks " << b.getActualLeakRate() << " kg/s without a leak or without hot phase");
        else break;
        c.checkNear(m1, em, 1e-9, 0., "battery-mass", "battery mass");
        if (em < 1e-6 * mass) break;
        exp = std::min(1., std::max(0., exp));
        c.check(std::fabs(f1 - exp) <= noise + 1e-9, "phase-fraction", S() << "hot fraction " << f << " -> " << f1 << " instead of " << exp << " with " << tot * dt << " J, temperature " << T << " -> " << T1 << " (change at " << tpc << ")");
        if (std::fabs(f1 - f) > 1e-6) moved = true;
        f = f1; m = m1; T = T1;
    }
    if (moved) c.nontrivial();
}

FACET(thermoelectric, 20000, 300000, "current flows and the two sides differ by more than 1 K") {
    TeModel m = genTe(c); GunnsThermoelectricEffect e; double th = c.r(20., 1000.), tc = c.b(0.2) ? th : c.r(20., 1000.); m.cur = c.b(0.2) ? 0. : c.sr(0.01, 20.);
    if (c.b(0.3)) { m.scalar = c.r(0., 2.); }
    GunnsThermoelectricEffectConfigData cf(m.n, m.g, m.r0, m.r1, m.s0, m.s1, m.s2, m.k0, m.k1, m.k2, m.plate, m.tmin, m.tmax); GunnsThermoelectricEffectInputData in(m.scalar != 1., m.scalar, m.cur, th, tc); e.initialize(cf, in, "te");
    bool equal = false;
    for (int s = c.i(0, 3);; --s) {
        double K = m.K(th, tc); const double I = m.cur, V = m.volts(th, tc), R = m.res(th, tc), sc = std::fabs(I) * m.lim(std::max(th, tc)) * std::max(std::fabs(m.S(m.lim(th))), std::fabs(m.S(m.lim(tc)))) + I * I * R;
        const double ph = m.lim(th) * 2. * m.n * m.scalar * (std::fabs(m.s0) + m.lim(th) * (std::fabs(m.s1) + m.lim(th) * std::fabs(m.s2))) * std::fabs(I);
        if (m.flat(th, tc) && c.near(e.getThermalConductance(), m.K0(), 1e-9, 0.)) { equal = true; K = m.K0(); }
        const double lost = 4e-15 * (th + tc) / std::max(std::fabs(m.lim(th) - m.lim(tc)), 1e-300);   // cancellation in the code's (Th^3-Tc^3)/(Th-Tc)
        if (lost > 1e-7) K = c.near(e.getThermalConductance(), K, std::min(lost, 1.), 0.) ? e.getThermalConductance() : K;
        c.checkNear(e.getThermalConductance(), K, 1e-7, 0., "te-conductance", S() << "thermal conductance between " << th << " and " << tc << " K");
        c.check(c.near(e.getVoltage(), V, 1e-9, 1e-7 * m.n * 1e-3), "te-voltage", S() << "Seebeck voltage " << e.getVoltage() << " instead of " << V << " between " << th << " and " << tc << " K");
        c.checkNear(1. / e.getElectricalConductance(), R, 1e-9, 1e-15, "te-resistance", "electrical resistance");
        c.check(std::fabs(e.getHeatFluxHot() - m.hot(th, tc)) <= 1e-9 * (sc + ph) + 1e-12, "te-hot", S() << "hot side heat " << e.getHeatFluxHot() << " instead of " << m.hot(th, tc));
        c.check(std::fabs(e.getHeatFluxCold() - m.cold(th, tc)) <= 1e-9 * (sc + ph) + 1e-12, "te-cold", S() << "cold side heat " << e.getHeatFluxCold() << " instead of " << m.cold(th, tc));
        c.checkNear(e.getHeatFluxThru(), K * (th - tc), 1e-6, 1e-9 * K * th, "te-through", "conducted heat");
        if (m.s1 == 0. && m.s2 == 0.) c.check(std::fabs(-e.getHeatFluxHot() - e.getHeatFluxCold() - (I * e.getVoltage() - I * I * R)) <= 1e-9 * (sc + ph) + 1e-12, "te-energy", S() << "heat taken up " << -e.getHeatFluxHot() - e.getHeatFluxCold() << " W, electrical power out " << I * V - I * I * R << " W");
        if (I != 0. && std::fabs(m.lim(th) - m.lim(tc)) > 1.) c.nontrivial();
        if (s <= 0) break;
        th = c.r(20., 1000.); if (c.b(0.7)) tc = c.b(0.3) ? th : c.r(20., 1000.); m.cur = c.sr(0.01, 20.); e.setTemperatureHot(th); e.setTemperatureCold(tc); e.setCurrent(m.cur); if (c.b(0.3)) { m.scalar = c.b(0.3) ? 1. : c.r(0., 2.); e.setMalfThermoelectricEffects(m.scalar != 1., m.scalar); } e.update();
    }
    if (equal) c.known("thermoelectric-equal-temperatures");
}
