// Scripted links and the reference model of the minor-step protocol (used by C03 and C43).
#ifndef SCRIPT_HH
#define SCRIPT_HH
#include "basicnet.hh"
using namespace bn;

struct Act { double g, s; int ans; bool resetOk; bool ov; double ovV; };   // ans: 0 reject, 1 confirm, 2 delay
struct LinkScript { bool nonlin; int p0, p1; std::vector<Act> acts; };
enum Ev { STEP, MINOR, CONFIRMQ, RESET, FLOWS, TRANSPORT, INPUTS, OUTPUTS };
static const char* evName(int e) { static const char* n[] = {"step", "minorStep", "confirmSolutionAcceptable", "resetLastMinorStep", "computeFlows", "transportFlows", "processInputs", "processOutputs"}; return n[e]; }
struct Call { int link, ev, a, b; bool operator==(const Call& o) const { return link == o.link && ev == o.ev && a == o.a && b == o.b; } };
static std::string show(const Call& k) { return S() << "link " << k.link << " " << evName(k.ev) << "(" << k.a << "," << k.b << ")"; }

// Shared scripted behaviour: each (minor)step call moves to the next act; an answer belongs to the latest act.
struct Player {
    const LinkScript* sc; size_t pos; double g, s; bool upd, ov; double ovV; int answers;
    Player() : sc(0), pos(0), g(0), s(0), upd(false), ov(false), ovV(0), answers(0) {}
    const Act& cur() const { return sc->acts[(pos - 1) % sc->acts.size()]; }
    void advance() { ++pos; const Act& a = cur(); if (a.g != g || pos == 1) { g = a.g; upd = true; } s = a.s; ov = a.ov; ovV = a.ovV; }
    int answer() { return cur().ans == 2 && ++answers % 3 == 0 ? 1 : cur().ans; }   // a delay is not repeated for ever
};

class TestLink : public GunnsBasicLink {
  public:
    Player pl; int id; std::vector<Call>* calls; bool logging;
    TestLink() : GunnsBasicLink(2), id(0), calls(0), logging(false) {}
    void init(GunnsNodeList* nl, const LinkScript& sc, int i, std::vector<GunnsBasicLink*>& links, std::vector<Call>* log) {
        pl.sc = &sc; id = i; calls = log; int ports[2] = {sc.p0, sc.p1}; GunnsBasicLinkConfigData cfg("t" + std::to_string(i), nl); GunnsBasicLinkInputData in;
        initialize(cfg, in, links, ports); }
    using GunnsBasicLink::initialize;
    void ev(int e, int a = 0, int b = 0) { if (logging) { Call k = {id, e, a, b}; calls->push_back(k); } }
    void put() { mAdmittanceMatrix[0] = mAdmittanceMatrix[3] = pl.g; mAdmittanceMatrix[1] = mAdmittanceMatrix[2] = -pl.g; mSourceVector[0] = -pl.s; mSourceVector[1] = pl.s;
        if (pl.upd) { mAdmittanceUpdate = true; pl.upd = false; }
        resetPortOverride(0); if (pl.ov) setPortOverride(0, pl.ovV); }
    void step(const double) { ev(STEP); pl.advance(); put(); }
    void minorStep(const double, const int m) { ev(MINOR, m); pl.advance(); put(); }
    bool isNonLinear() { return pl.sc->nonlin; }
    SolutionResult confirmSolutionAcceptable(const int cs, const int as) { ev(CONFIRMQ, cs, as); return (SolutionResult)pl.answer(); }
    bool resetLastMinorStep(const int cs, const int as) { ev(RESET, cs, as); return pl.cur().resetOk; }
    void computeFlows(const double) { ev(FLOWS); }
    void processInputs() { ev(INPUTS); }
    void processOutputs() { ev(OUTPUTS); }
};

// What a debug log would record of a minor step.
struct Row { int major, minor, decomp; const char *result, *answer; std::vector<double> p, conv, g, s; std::vector<int> ans; };
// Reference model of the protocol.
struct Model {
    int n; std::vector<LinkScript> sc; std::vector<Player> pl; std::vector<double> p, minor, major; std::vector<Call> calls;
    double tol; int minorLimit, decompLimit; bool worst, linear; std::vector<std::vector<double> > nodeOverride;
    int majors, minors, maxMinor, fails, resetFails, decomps; bool rebuild; double margin; std::vector<Row> rows;
    std::vector<double> conv, pv; std::vector<int> lres; bool converged;
    Model(int nn, const std::vector<LinkScript>& s, double t, int ml, int dl, bool w) : n(nn), sc(s), pl(s.size()), p(nn, 0.), minor(nn, 0.), major(nn, 0.), tol(t), minorLimit(ml), decompLimit(dl), worst(w), linear(true), majors(0), minors(0), maxMinor(0), fails(0), resetFails(0), decomps(0), rebuild(true), margin(1e300), conv(nn, 0.), pv(s.size(), 0.), lres(s.size(), 1), converged(false) {
        for (size_t k = 0; k < sc.size(); ++k) { pl[k].sc = &sc[k]; if (sc[k].nonlin) linear = false; } }
    void ev(int l, int e, int a = 0, int b = 0) { Call k = {l, e, a, b}; calls.push_back(k); }
    void act(int k) { pl[k].advance(); if (pl[k].ov) pv[k] = pl[k].ovV; }
    void solve() {
        std::vector<std::vector<long double> > A(n, std::vector<long double>(n + 1, 0.L));
        for (size_t k = 0; k < sc.size(); ++k) { const int a = sc[k].p0, b = sc[k].p1; const long double g = pl[k].g, s = pl[k].s;
            if (a < n) { A[a][a] += g; if (b < n) A[a][b] -= g; A[a][n] -= s; } if (b < n) { A[b][b] += g; if (a < n) A[b][a] -= g; A[b][n] += s; } }
        for (int c = 0; c < n; ++c) { int b = c; for (int r = c; r < n; ++r) if (fabsl(A[r][c]) > fabsl(A[b][c])) b = r; std::swap(A[b], A[c]);
            for (int r = 0; r < n; ++r) if (r != c) { const long double f = A[r][c] / A[c][c]; for (int k = c; k <= n; ++k) A[r][k] -= f * A[c][k]; } }
        for (int c = 0; c < n; ++c) p[c] = (double)(A[c][n] / A[c][c]);
    }
    void overrides() { for (size_t k = 0; k < sc.size(); ++k) if (pl[k].ov && sc[k].p0 < n) p[sc[k].p0] = pv[k]; }
    void output() { for (size_t k = 0; k < sc.size(); ++k) pv[k] = p[sc[k].p0]; }   // what the links see at port 0
    void begin(int m) { Row r; r.major = majors; r.minor = m; r.decomp = 0; r.result = r.answer = ""; r.conv.assign(n, 0.); r.ans.assign(sc.size(), 1); rows.push_back(r); }
    void end(int nd, const char* res) { Row& r = rows.back(); r.decomp = nd; r.result = res; r.p = p; r.g.clear(); r.s.clear(); for (size_t k = 0; k < sc.size(); ++k) { r.g.push_back(pl[k].g); r.s.push_back(pl[k].s); } }
    void step() {
        ++majors; rows.clear(); for (size_t k = 0; k < sc.size(); ++k) ev(k, INPUTS);
        converged = linear; int cs = 0, res = 1, nd = 0; const int lim = linear ? 1 : minorLimit;
        for (int m = 1; m <= lim; ++m) {
            ++minors; maxMinor = std::max(maxMinor, m); bool limit = false; begin(m);
            if (res != 2) {
                for (size_t k = 0; k < sc.size(); ++k) { if (m == 1) { ev(k, STEP); act(k); } else if (sc[k].nonlin) { ev(k, MINOR, m); act(k); } if (pl[k].upd) { rebuild = true; pl[k].upd = false; } }
                if (worst) rebuild = true;
                if (rebuild) { if (nd < decompLimit) { ++nd; ++decomps; rebuild = false; } else limit = true; }
                if (limit) { converged = false; end(nd, "DECOMP_LIMIT"); rows.back().conv = conv; break; }
                solve(); overrides(); output();
            }
            end(nd, "CONFIRM");
            if (!linear) {
                if (res == 2) ++cs;
                else { bool ok = true; for (int k = 0; k < n; ++k) { conv[k] = std::fabs(minor[k] - p[k]); if (conv[k] > tol) ok = false; margin = std::min(margin, std::fabs(conv[k] - tol)); } if (ok) ++cs; }
                bool rej = false, del = false;
                for (size_t k = 0; k < sc.size(); ++k) if (sc[k].nonlin) { ev(k, CONFIRMQ, cs, m); int a = pl[k].answer(); rows.back().ans[k] = a; if (a == 2 && cs == 0) a = 1; if (a == 0) rej = true; if (a == 2) del = true; lres[k] = a; }
                rows.back().conv = conv; rows.back().result = rej ? "REJECT" : del ? "DELAY" : "CONFIRM";
                res = rej ? 0 : del ? 2 : 1;
                if (rej) { p = minor; output(); for (size_t k = 0; k < sc.size(); ++k) if (sc[k].nonlin) { ev(k, RESET, cs, m); if (!pl[k].cur().resetOk) ++resetFails; } cs = 0; }
                else { minor = p; if (res == 1 && cs > 0) { converged = true; if (!worst || nd >= decompLimit) break; } }
            }
        }
        rows.back().answer = rows.back().result; if (rows.back().result != std::string("DECOMP_LIMIT")) rows.back().result = converged ? "SUCCESS" : "MINOR_LIMIT";
        if (converged) { for (int k = (int)sc.size() - 1; k >= 0; --k) ev(k, FLOWS); for (int k = (int)sc.size() - 1; k >= 0; --k) ev(k, OUTPUTS); }
        else { ++fails; p = major; overrides(); output(); rows.back().p = p; }
        major = p;
    }
};
static std::vector<LinkScript> genScript(Case& c, int n, int& nNonlin) {
    std::vector<LinkScript> v; const int extra = c.i(0, 4); nNonlin = 0;
    for (int k = 0; k < n + extra; ++k) {
        LinkScript l; l.p0 = k < n ? k : c.i(0, n - 1); l.p1 = k < n ? n : c.i(0, n); if (l.p1 == l.p0) l.p1 = n; l.nonlin = c.b(0.6); nNonlin += l.nonlin;
        const int m = c.i(1, 6); const double g0 = c.lr(.1, 10.), s0 = c.sr(.1, 10.);
        for (int q = 0; q < m; ++q) { Act a; a.g = c.b(0.3) ? c.lr(.1, 10.) : g0; a.s = c.b(0.4) ? c.sr(.1, 10.) : s0; a.ans = c.weighted({1, 5, 1}); a.ans = a.ans == 0 ? 1 : a.ans == 1 ? (c.b(0.85) ? 1 : 0) : 2; a.resetOk = !c.b(0.2); a.ov = c.b(0.03); a.ovV = a.ov ? c.r(-5., 5.) : 0.; l.acts.push_back(a); }
        v.push_back(l);
    }
    return v;
}
#endif
