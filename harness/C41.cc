// C41: the optimisers evaluate points in bounds, follow their update laws and report the best point evaluated.
#include "vpt.hh"
#include "core/optimization/GunnsOptimMonteCarlo.hh"
#include "core/optimization/GunnsOptimBase.hh"
#include "core/optimization/GunnsOptimFactory.hh"
#include "core/optimization/GunnsOptimParticleSwarm.hh"
#include "core/optimization/GunnsOptimGradientDescent.hh"
#include "core/optimization/GunnsOptimTest.hh"
#include "core/GunnsInfraFunctions.hh"
#include "math/MsMath.hh"
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vpt;
typedef std::vector<double> V;
class VptFriend {};
typedef GunnsOptimParticleSwarmConfigData PC;

// A private working directory, since the optimisers write their files to the current one; console output is dropped.
struct Scratch {
    std::string d; std::streambuf* old;
    Scratch() : d(S() << "/tmp/vptC41." << getpid()), old(std::cout.rdbuf(0)) { mkdir(d.c_str(), 0700); if (chdir(d.c_str())) {} clean(); }
    void clean() { for (const char* f : {"pso_cost_history.csv", "pso_swarm_history.csv", "pso_state.csv", "grad_cost_history.csv", "grad_gradients_history.csv", "grad_state.csv"}) unlink((d + "/" + f).c_str()); }
    ~Scratch() { clean(); if (chdir("/tmp")) {} rmdir(d.c_str()); std::cout.rdbuf(old); }
};
static std::vector<std::string> lines(const char* f) { std::vector<std::string> v; std::ifstream in(f); std::string s; while (std::getline(in, s)) v.push_back(s); return v; }
static V numbers(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == ',') s[i] = ' '; V v; std::istringstream in(s); std::string t; while (in >> t) v.push_back(atof(t.c_str())); return v; }
static bool near6(double a, double b) { return std::fabs(a - b) <= 1.e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }

// A cost landscape: bowl, ripple, or a few plateaus (which give ties).
struct Land {
    V centre, w; int kind; double off;
    double operator()(const V& x) const { double s = off; for (size_t i = 0; i < x.size(); ++i) { const double e = w[i] * (x[i] - centre[i]); s += kind == 1 ? e * e + 0.3 * (1. - std::cos(7. * e)) : kind == 3 ? std::fabs(e) : e * e; } return kind == 2 ? std::floor(s) : s; }
};
struct Problem {
    int n; V lo, hi; Land f; std::vector<int> src, src2; V ca, cb; std::vector<TsApproximation*> fit; std::vector<GunnsOptimMonteCarloConstraint*> con; std::vector<std::vector<GunnsOptimMonteCarloConstraint*> > extra; V model;
    ~Problem() { for (size_t i = 0; i < fit.size(); ++i) delete fit[i]; for (size_t i = 0; i < con.size(); ++i) delete con[i]; }
    bool constrained(int i) const { return src[size_t(i)] >= 0; }
    double want(int i, const V& x) const { const size_t k = size_t(i); return ca[k] + cb[k] * x[size_t(src[k])] + (src2[k] >= 0 ? 2. * x[size_t(src2[k])] : 0.); }
};
static void gen(Case& c, Problem& p, bool constraints) {
    p.n = c.i(1, 4); p.f.kind = c.i(0, 3); p.f.off = c.b(0.3) ? c.sr(0., 5.) : 0.; p.model.assign(size_t(p.n), 0.);
    for (int i = 0; i < p.n; ++i) { const double a = c.sr(1e-3, 1e3), r = c.lr(1e-2, 1e3); p.lo.push_back(c.b(0.2) ? 0. : a); p.hi.push_back(p.lo.back() + r); p.f.centre.push_back(p.lo.back() + r * c.r(-0.3, 1.3)); p.f.w.push_back(c.r(0.3, 5.) / r); p.model[size_t(i)] = c.r(-10., 10.); p.src.push_back(-1); p.src2.push_back(-1); p.ca.push_back(0.); p.cb.push_back(0.); }
    if (constraints && p.n > 1 && c.b(0.4)) { // variable i is a linear function of a variable settled before it, or of a free one
        for (int i = 0; i < p.n; ++i) { if (!c.b(0.4)) continue; const int j = c.i(0, p.n - 1); if (j == i) continue; bool used = false; for (int k = 0; k < i; ++k) used = used || p.src[size_t(k)] == i || p.src2[size_t(k)] == i; if (used || (j > i && p.constrained(j))) continue; const size_t s = size_t(i); p.src[s] = j; p.ca[s] = c.sr(0.1, 10.); p.cb[s] = c.sr(0.1, 2.); if (i > 0 && c.b(0.3)) p.src2[s] = c.i(0, i - 1); }
    }
}
struct Mc : public GunnsOptimMonteCarlo {
    std::vector<GunnsOptimMonteCarloInput>& inputs() { return mInputs; } std::vector<GunnsOptimMonteCarloOutput>& outputs() { return mOutputs; }
    void wire(Problem& p) {
        for (int i = 0; i < p.n; ++i) {
            const size_t s = size_t(i); GunnsOptimMonteCarloConstraint* k = 0;
            if (p.constrained(i)) { p.fit.push_back(new LinearFit(p.ca[s], p.cb[s], -1e30, 1e30)); p.con.push_back(k = new GunnsOptimMonteCarloConstraint(p.fit.back(), &p.model[size_t(p.src[s])])); }
            addInput(S() << "in" << i, &p.model[s], p.lo[s], p.hi[s], k);
            if (p.constrained(i) && p.src2[s] >= 0) { p.fit.push_back(new LinearFit(0., 2., -1e30, 1e30)); p.con.push_back(new GunnsOptimMonteCarloConstraint(p.fit.back(), &p.model[size_t(p.src2[s])])); mInputs.back().addNewConstraint(p.con.back()); }
        }
    }
};
static void deliver(Mc& m, double id, double cost) { GunnsInfraFunctions::mMcRead.clear(); GunnsInfraFunctions::mMcRead.push_back(id); GunnsInfraFunctions::mMcRead.push_back(cost); m.updateMasterPost(); }
struct Eval { V x; double cost; };
struct Swarm {
    Mc mc; GunnsOptimParticleSwarm* o; Problem& p; int np, epochs; std::vector<Eval> runs; std::vector<Eval> best; Eval gbest; std::vector<V> dispatched; bool moved = false, bounced = false, fromFile = false;
    Swarm(Problem& pp, PC& g) : o(0), p(pp) { GunnsInfraFunctions::mMcIsSlave = false; mc.addOptimizer(GunnsOptimFactory::PSO); o = dynamic_cast<GunnsOptimParticleSwarm*>(mc.mOptimizer); mc.mOptimizer->setConfigData(&g); mc.wire(p); np = int(g.mNumParticles); epochs = int(g.mMaxEpoch); gbest.cost = DBL_MAX; Eval none; none.cost = DBL_MAX; best.assign(size_t(np), none); }
    void bests(Case& c, const char* when) {
        c.check(o->mGlobalBestState.mCost == gbest.cost, "best-cost", S() << when << ": best cost " << o->mGlobalBestState.mCost << " instead of " << gbest.cost); c.check(p.f.kind == 2 || o->mGlobalBestState.mState == gbest.x, "best-state", S() << when << ": the reported best state is not the one with the lowest cost " << gbest.cost); c.check(fromFile || near6(p.f(o->mGlobalBestState.mState), gbest.cost), "best-state", S() << when << ": the reported best state costs " << p.f(o->mGlobalBestState.mState) << ", not " << gbest.cost);
        for (int i = 0; i < np; ++i) { const GunnsOptimParticleSwarmState& b = o->mParticles[size_t(i)].mBestState; c.check(b.mCost == best[size_t(i)].cost && (p.f.kind == 2 || b.mState == best[size_t(i)].x), "personal-best", S() << when << ": personal best cost of particle " << i << " is " << b.mCost << " instead of " << best[size_t(i)].cost); }
    }
    void evaluated(int i, const V& x, double cost) { if (cost < best[size_t(i)].cost) { best[size_t(i)].cost = cost; best[size_t(i)].x = x; } if (cost < gbest.cost) { gbest.cost = cost; gbest.x = x; } }
    void inBounds(Case& c, const V& x, double tol, const std::string& what) { for (int j = 0; j < p.n; ++j) { const size_t s = size_t(j); if (p.constrained(j)) c.checkNear(x[s], p.want(j, x), 1e-12, 1e-12, "constraint", S() << what << " constrained variable " << j); else c.check(x[s] >= p.lo[s] - tol * std::max(std::fabs(p.lo[s]), std::fabs(p.hi[s])) && x[s] <= p.hi[s] + tol * std::max(std::fabs(p.lo[s]), std::fabs(p.hi[s])), "bounds", S() << what << " variable " << j << " is " << x[s] << " outside [" << p.lo[s] << "," << p.hi[s] << "]"); } }
    // one whole optimisation; the costs of an epoch come back in any order
    void run(Case& c, const PC& g, int nEpochs, double tol) {
        for (int e = 0; e < nEpochs; ++e) {
            std::vector<V> x0, v0; for (int i = 0; i < np; ++i) { x0.push_back(o->mParticles[size_t(i)].mCurrentState.mState); v0.push_back(o->mParticles[size_t(i)].mCurrentState.mVelocity); }
            std::vector<int> pending; std::vector<V> xs;
            for (int i = 0; i < np; ++i) {
                mc.updateMasterPre(); xs.push_back(p.model); dispatched.push_back(p.model); c.check(mc.mRunId == double(dispatched.size() - 1), "run-id", S() << "run " << mc.mRunId << " instead of " << dispatched.size() - 1); inBounds(c, p.model, tol, S() << "epoch " << e << " particle " << i);
                if (i == 0 && e > 0) { moves(c, g, e, x0, v0); bests(c, "after an epoch"); }
                c.check(p.model == o->mParticles[size_t(i)].mCurrentState.mState, "dispatch", S() << "run " << dispatched.size() - 1 << " does not evaluate particle " << i);
                pending.push_back(i);
                while (!pending.empty() && (i + 1 == np || c.b(0.4))) { const size_t k = size_t(c.i(0, int(pending.size()) - 1)); const int q = pending[k]; pending.erase(pending.begin() + long(k)); for (size_t z = 0; z < p.model.size(); ++z) p.model[z] = c.r(-5., 5.); deliver(mc, double(e * np + q), p.f(xs[size_t(q)])); }
            }
            for (int i = 0; i < np; ++i) evaluated(i, xs[size_t(i)], p.f(xs[size_t(i)])); // in run order, so that ties keep the earlier point
        }
    }
    void moves(Case& c, const PC& g, int e, const std::vector<V>& x0, const std::vector<V>& v0) {
        const double w = g.mInertiaWeight + (g.mInertiaWeightEnd - g.mInertiaWeight) * (e + 1) / double(g.mMaxEpoch);
        for (int i = 0; i < np; ++i) for (int j = 0; j < p.n; ++j) {
            if (p.constrained(j)) continue; const size_t s = size_t(j); const GunnsOptimParticleSwarmState& q = o->mParticles[size_t(i)].mCurrentState; const double x = x0[size_t(i)][s], xn = q.mState[s], u = q.mVelocity[s], mv = g.mMaxVelocity * (p.hi[s] - p.lo[s]), scale = std::max(std::fabs(p.lo[s]), std::fabs(p.hi[s])), tol = (fromFile ? 1e-5 : 1e-9) * scale;
            const double a = g.mCognitiveCoeff * (best[size_t(i)].x[s] - x), b = g.mSocialCoeff * (gbest.x[s] - x); const double l = w * v0[size_t(i)][s] + std::min(a, 0.) + std::min(b, 0.), h = w * v0[size_t(i)][s] + std::max(a, 0.) + std::max(b, 0.); const double lo = std::max(-mv, std::min(mv, l)), hi = std::max(-mv, std::min(mv, h));
            auto ok = [&](double v) { return v >= lo - tol && v <= hi + tol; }; c.check(std::fabs(xn - x) <= mv + tol, "speed", S() << "epoch " << e << " particle " << i << " variable " << j << " moved " << xn - x << ", maximum " << mv);
            const bool plain = std::fabs(xn - (x + u)) <= tol && ok(u), low = xn == p.lo[s] && x - u <= p.lo[s] + tol && ok(-u), high = xn == p.hi[s] && x - u >= p.hi[s] - tol && ok(-u); moved = moved || xn != x; bounced = bounced || ((low || high) && !plain);
            c.check(plain || low || high, "velocity", S() << "epoch " << e << " particle " << i << " variable " << j << " moved from " << x << " to " << xn << " with velocity " << u << " after " << v0[size_t(i)][s] << ": velocity may be " << lo << " to " << hi << ", inertia " << w << ", bounds " << p.lo[s] << " to " << p.hi[s]);
        }
    }
};
static void genConfig(Case& c, PC& g) { g.mNumParticles = unsigned(c.i(1, 12)); g.mMaxEpoch = unsigned(c.i(1, 8)); g.mInertiaWeight = c.r(0.1, 1.2); g.mInertiaWeightEnd = c.r(0.1, 1.2); g.mCognitiveCoeff = c.lr(0.01, 3.); g.mSocialCoeff = c.lr(0.01, 3.); g.mMaxVelocity = c.pickOf<double>({1., 0.5, 0.2, 0.05}); g.mRandomSeed = unsigned(c.i(1, 100000)); g.mInitDistribution = c.b(0.7) ? PC::RANDOM : PC::MIN_MAX_CORNERS; }

FACET(swarm, 6000, 250000, "particles moved and at least one bounced off its bounds") {
    Scratch dir; Problem p; gen(c, p, true); PC g; genConfig(c, g); Swarm s(p, g); s.mc.initMaster(); const int N = int(s.o->getNumRuns()); c.check(N == s.np * s.epochs, "runs", S() << N << " runs for " << s.np << " particles and " << s.epochs << " epochs");
    const V before = p.model; int lowHalf = 0, n = 0, neg = 0;
    for (int i = 0; i < s.np; ++i) for (int j = 0; j < p.n; ++j) { const size_t k = size_t(j); const GunnsOptimParticleSwarmState& q = s.o->mParticles[size_t(i)].mCurrentState; const double mv = g.mMaxVelocity * (p.hi[k] - p.lo[k]); c.check(std::fabs(q.mVelocity[k]) <= mv * (1. + 1e-12), "first-velocity", S() << "velocity " << q.mVelocity[k] << ", maximum " << mv); ++n; if (q.mVelocity[k] < 0.) ++neg; if (p.constrained(j)) continue;
        if (g.mInitDistribution == PC::MIN_MAX_CORNERS) c.check(q.mState[k] == (i < s.np / 2 ? p.lo[k] : p.hi[k]), "corners", S() << "particle " << i << " of " << s.np << " starts at " << q.mState[k]); if (q.mState[k] < 0.5 * (p.lo[k] + p.hi[k])) ++lowHalf; }
    bool anyCon = false; for (int j = 0; j < p.n; ++j) anyCon = anyCon || p.constrained(j);
    if (n >= 40) { c.check(neg > 0 && neg < n, "spread", "initial velocities all have one sign"); if (!anyCon) c.check(lowHalf > 0 && lowHalf < n, "spread", "initial states all lie in one half of the ranges"); }
    s.run(c, g, s.epochs, 0.); s.mc.updateMasterShutdown(); s.bests(c, "at shutdown");
    const std::vector<std::string> st = lines("pso_state.csv"), ch = lines("pso_cost_history.csv"), sh = lines("pso_swarm_history.csv"); c.check(int(st.size()) == s.np + 2, "state-file", S() << st.size() << " rows in the state file"); V row = numbers(st[1]); c.check(int(row.size()) == 4 + 3 * p.n, "state-file", S() << row.size() << " columns"); c.check(near6(row[2], s.gbest.cost), "state-file", S() << "best cost in the file " << row[2] << ", really " << s.gbest.cost); for (int j = 0; j < p.n; ++j) c.check(near6(row[size_t(3 + j)], s.o->mGlobalBestState.mState[size_t(j)]), "state-file", "best state in the file");
    c.check(int(ch.size()) == s.epochs + 1 && int(sh.size()) == s.epochs + 1, "history", S() << ch.size() << " and " << sh.size() << " history rows for " << s.epochs << " epochs"); double m = DBL_MAX; for (int e = 0; e < s.epochs; ++e) { for (int i = 0; i < s.np; ++i) m = std::min(m, p.f(s.dispatched[size_t(e * s.np + i)])); const V r = numbers(ch[size_t(e + 1)]), q = numbers(sh[size_t(e + 1)]); c.check(r.size() == 2 && r[0] == e + 2 && near6(r[1], m), "history", S() << "epoch " << e << " history says " << ch[size_t(e + 1)] << ", best is " << m); c.check(int(q.size()) == 1 + (s.np + 1) * (p.n + 1) && near6(q.back(), m), "history", "swarm history row"); for (int i = 0; i < s.np; ++i) { const size_t at = size_t(1 + i * (p.n + 1)); c.check(near6(q[at + size_t(p.n)], p.f(s.dispatched[size_t(e * s.np + i)])), "history", S() << "swarm history cost of particle " << i << " in epoch " << e); } }
    bool refused = false; try { deliver(s.mc, double(N) + 1.5, 1.); } catch (const std::runtime_error&) { refused = true; } c.check(refused, "unknown-run", "a cost for an unknown run was accepted");
    if (c.b(0.4)) { // the same seed repeats the run, another one does not
        Problem p2; p2.n = p.n; p2.lo = p.lo; p2.hi = p.hi; p2.f = p.f; p2.src = p.src; p2.src2 = p.src2; p2.ca = p.ca; p2.cb = p.cb; p2.model.assign(size_t(p.n), 7.); const bool other = c.b(0.3); if (other) g.mRandomSeed += 1; for (int k = c.i(0, 5); k > 0; --k) (void)rand(); Swarm t(p2, g); t.mc.initMaster(); t.run(c, g, s.epochs, 0.); if (!other) c.check(t.dispatched == s.dispatched, "seed", "the same seed gave another run"); else if (g.mInitDistribution == PC::RANDOM && !anyCon) c.check(t.dispatched != s.dispatched, "seed", "another seed gave the same run"); }
    (void)before; if (s.moved && s.bounced) c.nontrivial();
}

FACET(resume, 3000, 100000, "a swarm was resumed from its file") {
    Scratch dir; Problem p; gen(c, p, false); PC g; genConfig(c, g); Swarm s(p, g); s.mc.initMaster(); s.run(c, g, s.epochs, 0.); s.mc.updateMasterShutdown(); const size_t rows = lines("pso_cost_history.csv").size();
    Problem p2; p2.n = p.n; p2.lo = p.lo; p2.hi = p.hi; p2.f = p.f; p2.src = p.src; p2.src2 = p.src2; p2.ca = p.ca; p2.cb = p.cb; p2.model.assign(size_t(p.n), 3.); PC h; h = g; const bool cont = c.b(0.5); h.mInitDistribution = cont ? PC::FILE_CONTINUOUS : PC::FILE;
    const int bad = c.b(0.2) ? c.i(1, 3) : 0; std::vector<std::string> st = lines("pso_state.csv"); if (bad == 1) h.mNumParticles += unsigned(c.i(1, 3)); else if (bad == 2) unlink("pso_state.csv"); else if (bad == 3) { std::ofstream out("pso_state.csv"); out << st[0] << " more\n"; for (size_t i = 1; i < st.size(); ++i) out << st[i] << "\n"; }
    Swarm t(p2, h); bool threw = false; try { t.mc.initMaster(); } catch (const std::runtime_error&) { threw = true; } c.check(threw == (bad != 0), "file", S() << "reading a " << (bad ? "wrong" : "good") << " state file " << (threw ? "throws" : "succeeds")); if (bad) { c.nontrivial(); return; }
    for (int i = 0; i < s.np; ++i) { const GunnsOptimParticleSwarmParticle &a = s.o->mParticles[size_t(i)], &b = t.o->mParticles[size_t(i)]; for (size_t j = 0; j < size_t(p.n); ++j) { c.check(near6(a.mCurrentState.mState[j], b.mCurrentState.mState[j]), "position", S() << "particle " << i << " resumes at " << b.mCurrentState.mState[j] << " instead of " << a.mCurrentState.mState[j]); if (cont) c.check(near6(a.mCurrentState.mVelocity[j], b.mCurrentState.mVelocity[j]), "velocity", "velocity not restored"); if (cont) c.check(near6(a.mBestState.mState[j], b.mBestState.mState[j]), "personal-best", "personal best state not restored"); if (!cont) c.check(std::fabs(b.mCurrentState.mVelocity[j]) <= g.mMaxVelocity * (p.hi[j] - p.lo[j]) * (1. + 1e-12), "velocity", "velocity too large"); } if (cont) c.check(near6(a.mBestState.mCost, b.mBestState.mCost), "personal-best", "personal best cost not restored"); else c.check(b.mBestState.mCost == DBL_MAX, "personal-best", "personal best cost not reset"); }
    if (cont) { c.check(near6(t.o->mGlobalBestState.mCost, s.gbest.cost), "best-cost", "best cost not restored"); for (size_t j = 0; j < size_t(p.n); ++j) c.check(near6(t.o->mGlobalBestState.mState[j], s.o->mGlobalBestState.mState[j]), "best-state", "best state not restored"); } else c.check(t.o->mGlobalBestState.mCost == DBL_MAX, "best-cost", "best cost not reset");
    t.fromFile = true; t.gbest.cost = t.o->mGlobalBestState.mCost; t.gbest.x = t.o->mGlobalBestState.mState; for (int i = 0; i < s.np; ++i) { t.best[size_t(i)].cost = t.o->mParticles[size_t(i)].mBestState.mCost; t.best[size_t(i)].x = t.o->mParticles[size_t(i)].mBestState.mState; }
    const int e = t.epochs; const double was = t.gbest.cost; t.run(c, h, e, 1e-5); t.mc.updateMasterShutdown(); c.check(t.o->mGlobalBestState.mCost <= was, "worse", S() << "the best cost went from " << was << " to " << t.o->mGlobalBestState.mCost); c.check(t.o->mGlobalBestState.mCost == t.gbest.cost, "best-cost", "best cost after resuming");
    const size_t now = lines("pso_cost_history.csv").size(); c.check(now == (cont ? rows : 1u) + size_t(e), "history", S() << now << " history rows, " << rows << " before, " << e << " more epochs, " << (cont ? "continued" : "new")); c.nontrivial();
}

FACET(descent, 6000, 250000, "the state moved for at least two epochs") {
    Scratch dir; Problem p; gen(c, p, false); GunnsOptimGradientDescentConfigData g; g.mNumVars = unsigned(p.n); g.mMaxEpoch = unsigned(c.i(1, 8)); g.mPropagationGain = c.lr(0.01, 3.); V init; for (int i = 0; i < p.n; ++i) init.push_back(c.b(0.15) ? 0. : p.lo[size_t(i)] + (p.hi[size_t(i)] - p.lo[size_t(i)]) * c.r(-0.2, 1.2)); g.mInitialState = &init[0];
    GunnsInfraFunctions::mMcIsSlave = false; Mc mc; mc.addOptimizer(GunnsOptimFactory::GRADIENT_DESCENT); GunnsOptimGradientDescent* o = dynamic_cast<GunnsOptimGradientDescent*>(mc.mOptimizer); mc.mOptimizer->setConfigData(&g); mc.wire(p); mc.initMaster();
    const int N = p.n, per = 2 * N + 1; c.check(int(o->getNumRuns()) == int(g.mMaxEpoch) * per, "runs", S() << o->getNumRuns() << " runs"); V x; for (int i = 0; i < N; ++i) x.push_back(std::max(p.lo[size_t(i)], std::min(p.hi[size_t(i)], init[size_t(i)]))); int moves = 0; std::vector<double> costs; double lastCost = 0.;
    auto within = [&](const V& y) { for (int i = 0; i < N; ++i) c.check(y[size_t(i)] >= p.lo[size_t(i)] && y[size_t(i)] <= p.hi[size_t(i)], "bounds", S() << "variable " << i << " is " << y[size_t(i)] << " outside [" << p.lo[size_t(i)] << "," << p.hi[size_t(i)] << "]"); };
    auto same = [&](const V& y, const V& z, const char* tag, const std::string& what) { for (int i = 0; i < N; ++i) c.checkNear(y[size_t(i)], z[size_t(i)], 1e-13, 0., tag, S() << what << " variable " << i); };
    for (int e = 0; e < int(g.mMaxEpoch); ++e) {
        mc.updateMasterPre(); within(p.model); same(p.model, x, "state", S() << "epoch " << e); x = p.model; const double cost = p.f(x); lastCost = cost; costs.push_back(cost); c.check(mc.mRunId == e * per, "run-id", "run id"); deliver(mc, mc.mRunId, cost);
        std::vector<double> dc(size_t(2 * N)), gr(size_t(2 * N)), cs(size_t(2 * N)); std::vector<int> pending; std::vector<V> ys(1, x);
        for (int k = 0; k < 2 * N; ++k) {
            mc.updateMasterPre(); within(p.model); const size_t v = size_t(k / 2); V y = x; const double d = 0.001 * (x[v] == 0. ? p.hi[v] - p.lo[v] : std::fabs(x[v])); y[v] = std::max(p.lo[v], std::min(p.hi[v], k % 2 ? x[v] - d : x[v] + d)); same(p.model, y, "gradient-state", S() << "epoch " << e << " gradient state " << k); ys.push_back(p.model); cs[size_t(k)] = p.f(p.model); dc[size_t(k)] = cs[size_t(k)] - cost; const double ds = p.model[v] - x[v]; gr[size_t(k)] = std::fabs(ds) > DBL_EPSILON ? dc[size_t(k)] / ds : 0.; pending.push_back(k);
            while (!pending.empty() && (k + 1 == 2 * N || c.b(0.4))) { const size_t z = size_t(c.i(0, int(pending.size()) - 1)); const int q = pending[z]; pending.erase(pending.begin() + long(z)); deliver(mc, double(e * per + 1 + q), cs[size_t(q)]); }
        }
        V old = x; for (int i = 0; i < N; ++i) { const size_t a = size_t(2 * i), b = a + 1, s = size_t(i); int use = -1; if (dc[a] < 0. && gr[a] != 0.) use = int(a); if (dc[b] < 0. && gr[b] != 0. && dc[b] < dc[a]) use = int(b); if (use >= 0) x[s] += -cost / gr[size_t(use)] * g.mPropagationGain / N; x[s] = std::max(p.lo[s], std::min(p.hi[s], x[s])); }
        if (x != old) ++moves;
    }
    mc.updateMasterShutdown(); same(o->mState->mState, x, "final", "the final state"); const std::vector<std::string> st = lines("grad_state.csv"), ch = lines("grad_cost_history.csv"), gh = lines("grad_gradients_history.csv"); c.check(st.size() == 2, "state-file", "state file rows"); const V r = numbers(st[1]); c.check(int(r.size()) == N + 1 && near6(r[0], lastCost), "state-file", "state file cost"); for (int i = 0; i < N; ++i) c.check(near6(r[size_t(i + 1)], x[size_t(i)]), "state-file", S() << "state file variable " << i << " is " << r[size_t(i + 1)] << " instead of " << x[size_t(i)]);
    c.check(ch.size() == costs.size() + 1 && gh.size() == 1 + size_t(2 * N) * costs.size(), "history", S() << ch.size() << " and " << gh.size() << " history rows"); for (size_t e = 0; e < costs.size(); ++e) { const V q = numbers(ch[e + 1]); c.check(q.size() == 2 && q[0] == double(e) + 2. && near6(q[1], costs[e]), "history", S() << "cost history row " << ch[e + 1] << " for cost " << costs[e]); }
    bool refused = false; try { deliver(mc, -1.5, 1.); } catch (const std::runtime_error&) { refused = true; } c.check(refused, "unknown-run", "a cost for an unknown run was accepted"); if (moves >= 2) c.nontrivial();
}

FACET(slave, 20000, 400000, "a trajectory target was followed for at least one step") {
    GunnsInfraFunctions::mMcIsSlave = true; GunnsInfraFunctions::mMcSlaveId = c.i(0, 50); GunnsInfraFunctions::mMcWrite.clear(); Mc m; bool threw = false; try { m.initMaster(); } catch (const std::runtime_error&) { threw = true; } c.check(threw, "role", "initMaster accepted the slave role"); double in = 1.; m.addInput("in", &in, 0., 1.); c.check(m.inputs().empty(), "inputs", "a slave keeps optimizer inputs"); m.initSlave();
    const int no = c.i(0, 4), nd = c.i(0, 3), rows = c.i(0, 6), drows = c.i(0, 6), nt = rows && no ? c.i(0, no) : 0, steps = c.i(0, 9); V out(size_t(no) + 1), target(no + 0u), w(no + 0u), cost(no + 0u, 0.), drv(nd + 1u, -77.); std::vector<V> tr, dr;
    for (int i = 0; i < no; ++i) { target[size_t(i)] = c.sr(0.1, 100.); w[size_t(i)] = c.sr(0.1, 10.); m.addOutput(S() << "o" << i, &out[size_t(i)], target[size_t(i)], w[size_t(i)]); } for (int i = 0; i < nd; ++i) m.addDriver(&drv[size_t(i)]);
    auto row = [&](int t, const V& v) { std::ostringstream s; s.precision(17); s << t * 0.1; for (size_t i = 0; i < v.size(); ++i) s << (c.b(0.3) ? ", " : ",") << v[i]; return s.str(); };
    for (int t = 0; t < rows && nt; ++t) { V v; for (int i = 0; i < nt; ++i) v.push_back(c.sr(0.01, 100.)); tr.push_back(v); m.addOutputDataRow(row(t, v)); } for (int t = 0; t < drows && nd; ++t) { V v; for (int i = 0; i < nd; ++i) v.push_back(c.sr(0.01, 100.)); dr.push_back(v); m.addDriverDataRow(row(t, v)); }
    m.mRunId = c.i(0, 999); m.updateSlavePre(); const double guard = 5.; drv[size_t(nd)] = guard;
    for (int t = 0; t < steps; ++t) { const V was = drv; m.updateSlaveInputs(); for (int i = 0; i < nd; ++i) c.check(drv[size_t(i)] == (t < int(dr.size()) ? dr[size_t(t)][size_t(i)] : was[size_t(i)]), "driver", S() << "step " << t << " driver " << i << " is " << drv[size_t(i)]);
        for (int i = 0; i < no; ++i) out[size_t(i)] = c.sr(0.01, 100.); m.updateSlaveOutputs(); for (int i = 0; i < nt; ++i) if (t < int(tr.size())) { const double e = w[size_t(i)] * (out[size_t(i)] - tr[size_t(t)][size_t(i)]); cost[size_t(i)] += e * e; } }
    double sum = 0.; for (int i = 0; i < no; ++i) { if (i >= nt) { const double e = w[size_t(i)] * (out[size_t(i)] - target[size_t(i)]); cost[size_t(i)] = e * e; } sum += cost[size_t(i)]; } m.updateSlavePost(); for (int i = 0; i < no; ++i) c.checkNear(m.outputs()[size_t(i)].mCost, cost[size_t(i)], 1e-12, 1e-12, "cost", S() << (i < nt ? "trajectory" : "scalar") << " output " << i << " cost");
    const V& wr = GunnsInfraFunctions::mMcWrite; c.check(wr.size() == 2, "written", S() << wr.size() << " values written to the master"); c.checkNear(wr[0], sum, 1e-12, 1e-12, "written", "total cost"); c.check(wr[1] == m.mRunId, "written", "run id"); GunnsInfraFunctions::mMcIsSlave = false; threw = false; try { m.initSlave(); } catch (const std::runtime_error&) { threw = true; } c.check(threw, "role", "initSlave accepted the master role"); GunnsInfraFunctions::mMcWrite.clear();
    if (nt && steps && !tr.empty()) c.nontrivial();
}

FACET(config, 4000, 60000, "a configuration with a wrong value") {
    Scratch dir; const bool pso = c.b(0.5); Problem p; gen(c, p, false); PC g; genConfig(c, g); GunnsOptimGradientDescentConfigData h; V init(size_t(p.n), 0.); h.mInitialState = &init[0]; h.mNumVars = unsigned(p.n); h.mMaxEpoch = 1; h.mPropagationGain = 1.; GunnsInfraFunctions::mMcIsSlave = false; Mc mc; mc.wire(p); const int bad = c.i(0, 14); bool ok = false; GunnsOptimMonteCarloInput& in = mc.inputs()[size_t(c.i(0, p.n - 1))]; bool any = bad > 0 && bad < 14;
    double tiny = c.pickOf<double>({0., -1., 0.5 * DBL_EPSILON}); if (bad == 1) in.mMaximum = in.mMinimum; else if (bad == 2) in.mMaximum = in.mMinimum - 1.; else if (bad == 3) in.mAddress = 0; else if (bad == 4) in.mName = ""; else if (bad == 5) mc.inputs().clear();
    if (bad == 6) { g.mMaxEpoch = 0; h.mMaxEpoch = 0; } else if (bad == 7) { g.mNumParticles = 0; h.mNumVars = 0; } else if (bad >= 8 && bad <= 13 && pso) { if (bad == 8) g.mInertiaWeight = tiny; if (bad == 9) g.mInertiaWeightEnd = tiny; if (bad == 10) g.mCognitiveCoeff = tiny; if (bad == 11) g.mSocialCoeff = tiny; if (bad == 12) g.mMaxVelocity = tiny; if (bad == 13) g.mMaxVelocity = 1. + c.lr(1e-12, 10.); } else if (bad >= 8 && !pso) any = false; if (bad == 14) g.mMaxVelocity = 1.;
    mc.addOptimizer(pso ? GunnsOptimFactory::PSO : GunnsOptimFactory::GRADIENT_DESCENT); bool refused = false; try { if (pso) mc.mOptimizer->setConfigData(&h); else mc.mOptimizer->setConfigData(&g); } catch (const std::runtime_error&) { refused = true; } c.check(refused, "type", "configuration data of another optimizer was accepted"); if (pso) mc.mOptimizer->setConfigData(&g); else mc.mOptimizer->setConfigData(&h);
    try { mc.initMaster(); ok = true; } catch (const std::range_error&) { } c.check(ok == !any, "validate", S() << (pso ? "swarm" : "descent") << " configuration " << bad << (ok ? " accepted" : " rejected")); if (any) c.nontrivial();
}

FACET(constraints, 10000, 200000, "a constrained variable depends on another variable of the vector") {
    Problem p; gen(c, p, true); if (p.n < 2) { p.n = 2; p.lo.assign(2, 0.); p.hi.assign(2, 1.); p.src = {-1, 0}; p.src2 = {-1, -1}; p.ca = {0., c.sr(0.1, 3.)}; p.cb = {0., c.sr(0.1, 3.)}; p.model = {c.r(-3., 3.), c.r(-3., 3.)}; } Mc mc; GunnsInfraFunctions::mMcIsSlave = false; mc.wire(p); GunnsOptimFactory f; GunnsOptimTest* t = dynamic_cast<GunnsOptimTest*>(f.createOptimizer(GunnsOptimFactory::TEST)); c.check(t != 0, "factory", "no test optimizer"); c.check(f.createOptimizer(GunnsOptimFactory::NONE) == 0, "factory", "an optimizer of no type"); t->initialize(&mc.inputs()); const V before = p.model; V x; for (int i = 0; i < p.n; ++i) x.push_back(c.r(-20., 20.)); const V was = x; V more = x; more.push_back(1.); bool threw = false; try { t->accessConstrainInputs(more); } catch (const std::range_error&) { threw = true; } c.check(threw, "size", "a vector of the wrong size was accepted");
    t->accessConstrainInputs(x); bool any = false; for (int i = 0; i < p.n; ++i) { if (p.constrained(i)) { any = true; c.checkNear(x[size_t(i)], p.want(i, x), 1e-12, 1e-12, "value", S() << "constrained variable " << i); } else c.check(x[size_t(i)] == was[size_t(i)], "free", S() << "free variable " << i << " changed"); } c.check(p.model == before, "model", "constraining a candidate changed the model variables"); if (any) c.nontrivial();
}
