// Property C08: fluid networks conserve energy.
#define VPT_FRIEND_EXTRA static double prevP(const GunnsFluidNode& n) { return n.mPreviousPressure; }
#include "fluidnet.hh"
using namespace fn;
static double pickDt(Case& c) { return c.b(0.5) ? 0.1 : c.lr(1e-3, 20.); }

// Enthalpy of a node's contents from first principles: mass times the mixture's heat capacity times temperature.
static double enthalpyAt(const FSpec& s, const State& x, double T) { double cp = 0.; for (size_t i = 0; i < s.types.size(); ++i) cp += x.mf[i] * prop(s.types[i])->getSpecificHeat(T); return cp * T; }
static double H(const FSpec& s, const State& x) { return x.mass * enthalpyAt(s, x, x.T); }
static bool inRange(const FSpec& s, double T) { return s.gas ? T > 101. && T < 1499. : T > s.Tlo - 5. && T < s.Thi + 5.; }

struct Opt { bool heat, damp, expand; };
static void run(Case& c, const FOpt& o, const Opt& p) {
    FSpec s = genFluid(c, o); logFluid(c.log(), s); FluidNet f(s); const int steps = c.i(1, 10), n = f.n(); double dt = pickDt(c); bool used = false;
    std::vector<double> md(n, 0.); if (p.damp) for (int k = 0; k < n; ++k) if (s.nodes[k].cap && c.b(0.6)) { md[k] = c.lr(0.01, 10.) * f.nodes[k].getContent()->getMass(); f.nodes[k].setThermalDampingMass(md[k]); c.log() << "damping mass at " << k << ": " << md[k] << "\n"; }
    for (int t = 0; t < steps; ++t) {
        if (t && c.b(0.4)) { FLink& l = s.links[c.raw(s.links.size())]; params(c, l, s, o); f.apply(s); c.log() << "step " << t << " changes a " << tname(l.type) << " to G=" << l.a << " s=" << l.s << "\n"; }
        if (c.b(0.2)) dt = pickDt(c);
        std::vector<State> old = snapAll(f); std::vector<double> q(n, 0.), qu(n, 0.), preP(n);
        if (p.heat) for (int k = 0; k < n; ++k) if (f.caps[k]) {
            if (c.b(0.5)) q[k] = c.r(-1., 1.) * (s.gas ? 20. : 0.1) * old[k].mass * old[k].h / old[k].T / dt;
            if (md[k] > 0. && c.b(0.5)) qu[k] = c.r(-1., 1.) * q[k];
            f.caps[k]->q = q[k]; f.caps[k]->qu = qu[k]; c.log() << "step " << t << " heat at " << k << ": " << q[k] << " undamped " << qu[k] << "\n"; }
        f.net.step(dt);
        std::vector<State> now = snapAll(f); Account a = account(f, old, dt);
        if (a.overDemand || a.cycle || a.floating) { c.label("ended: flow could not be accounted for"); break; }
        bool stop = false; for (int k = 0; k < n; ++k) { if (!inRange(s, now[k].T) || now[k].P < 0. || now[k].P > 1e5) stop = true; if (a.over[k] && (q[k] != 0. || md[k] > 0. || s.nodes[k].exF > 0.)) stop = true; }
        if (stop) { c.label("ended: left the range of the fits or emptied a heated node"); break; }
        for (int k = 0; k < n; ++k) {
            if (f.caps[k]) {
                if (now[k].mass < 1e-12) continue;
                const double h0 = H(s, old[k]), h1 = H(s, now[k]), sc = std::fabs(h0) + std::fabs(h1) + a.hScale[k] + std::fabs(q[k]) * dt;
                double want = h0 + a.heat[k] + q[k] * dt;
                if (q[k] != 0.) { const double tWant = want / now[k].mass / (enthalpyAt(s, now[k], old[k].T) / old[k].T); if (!inRange(s, tWant)) { c.label("ended: more heat than the remaining contents can take"); stop = true; break; } }
                if (md[k] > 0.) { // the damping mass takes up its share of the change from the contents' previous temperature
                    const double hT = now[k].mass * enthalpyAt(s, now[k], old[k].T) + qu[k] * dt; want = hT + (want - hT) * now[k].mass / (now[k].mass + md[k]); }
                double tol = 1e-9 * sc + a.slack[k] * 0.05 * 2e6;
                if (s.nodes[k].exF > 0. && s.gas && old[k].mass > 0.) { // work of compression or expansion on the mass that stayed in the node
                    double gammaSum = 0.; const PolyFluid& x = *f.nodes[k].getContent(); (void)x;
                    for (size_t i = 0; i < s.types.size(); ++i) { double mo = old[k].mf[i] * old[k].MW / prop(s.types[i])->getMWeight(); if (mo > 1e-12) gammaSum += mo * prop(s.types[i])->getAdiabaticIndex(old[k].T, old[k].P * mo); }
                    const double P1 = VptFriend::prevP(f.nodes[k]), P2 = f.nodes[k].getPotential(); const double ideal = old[k].T * std::pow(P2 / P1, (gammaSum - 1.) / gammaSum);
                    double outMass = 0.; for (size_t z = 0; z < f.user.size(); ++z) { const double r = VptFriend::flow(*f.user[z]); if ((r > 0. && s.links[z].p0 == k) || (r < 0. && s.links[z].p1 == k)) outMass += std::fabs(r) * dt; }
                    const double kept = std::max(0., old[k].mass - outMass), cpOldT = enthalpyAt(s, old[k], old[k].T) / old[k].T;
                    const double work = kept * s.nodes[k].exF * (ideal - old[k].T) * cpOldT; want += work; tol += 1e-6 * std::fabs(work) ; if (std::fabs(work) > 1e-6 * sc) c.label("work of expansion");
                    c.check((P2 < P1) == (ideal < old[k].T) || std::fabs(P1 - P2) < 1e-9 * P1, "expansion-direction", S() << "P " << P1 << " -> " << P2 << " ideal T " << ideal << " from " << old[k].T); }
                c.check(std::fabs(h1 - want) <= tol, "node-enthalpy", S() << "step " << t << " node " << k << " enthalpy " << h1 << " expected " << want << " (was " << h0 << ", flows brought " << a.heat[k] << ", heat " << q[k] * dt << ", T " << old[k].T << " -> " << now[k].T << ", mass " << old[k].mass << " -> " << now[k].mass << ", tol " << tol << ")");
                if (sc > 0.) { if (a.hScale[k] > 1e-6 * sc || q[k] != 0.) used = true; }
                if (q[k] == 0. && qu[k] == 0. && s.nodes[k].exF == 0. && now[k].mass > 1e-9) { // mixing bounds
                    double lo = std::min(old[k].T, a.inflowTmin[k]), hi = std::max(old[k].T, a.inflowTmax[k]); const double eps = 1e-7 + 1e-9 * hi + a.slack[k] * 20. / now[k].mass;
                    c.check(now[k].T >= lo - eps && now[k].T <= hi + eps, "mixing-range", S() << "step " << t << " node " << k << " temperature " << now[k].T << " outside [" << lo << ", " << hi << "] of what was mixed"); }
            } else {
                c.check(std::fabs(a.heat[k]) <= 1e-8 * a.hScale[k] + a.slack[k] * 50. * 2e6, "no-volume-enthalpy", S() << "step " << t << " node " << k << " old T " << old[k].T << " now T " << now[k].T << " h " << now[k].h << " inflow T " << a.inflowTmin[k] << " net mass " << a.net[k] << " slack " << a.slack[k] << " P " << now[k].P << " without volume: net enthalpy inflow " << a.heat[k] << " of " << a.hScale[k]);
                if (a.scale[k] > 1e-9 && a.slack[k] < 1e-7 * a.scale[k]) { c.label("flow through a node without volume"); c.check(now[k].T >= a.inflowTmin[k] - 1e-3 && now[k].T <= a.inflowTmax[k] + 1e-3, "no-volume-mixing-range", S() << "step " << t << " node " << k << " without volume at " << now[k].T << " fed by streams in [" << a.inflowTmin[k] << ", " << a.inflowTmax[k] << "]"); }
            }
        }
        if (stop) break;
    }
    if (used) c.nontrivial();
    if (!s.gas) c.label("liquid");
}
FACET(networks, 120000, 2500000, "random fluid network without expansion effects: enthalpy balance of every node, mixing stays in the range of its streams; nontrivial = a node exchanged a measurable enthalpy") { FOpt o; Opt p = {false, false, false}; run(c, o, p); }
FACET(heated, 100000, 2000000, "the same with heat applied to nodes; nontrivial = heat applied or enthalpy exchanged") { FOpt o; Opt p = {true, false, false}; run(c, o, p); }
FACET(damped, 60000, 1200000, "the same with heat and thermal damping masses sharing the heat; nontrivial = heat applied or enthalpy exchanged") { FOpt o; Opt p = {true, true, false}; run(c, o, p); }
FACET(expansion, 80000, 1500000, "gas networks with expansion effects: the enthalpy balance includes exactly the documented work on the mass that stayed; nontrivial = a node exchanged a measurable enthalpy") { FOpt o; o.expansion = true; o.liquids = false; Opt p = {false, false, true}; run(c, o, p); }
