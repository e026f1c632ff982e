// Property C02: network islands never change the answer, and are exactly the coupled sets of nodes.
#include "basicnet.hh"
#include "core/GunnsBasicIslandAnalyzer.hh"
using namespace bn;

// Several independent parts in shuffled node order plus bridges that open and close.
static NetSpec genParts(Case& c, std::vector<bool>& anchor, std::vector<size_t>& bridges, GenOpt o) {
    const int parts = c.i(1, 4); NetSpec s; s.n = 0; anchor.clear();
    std::vector<NetSpec> sub; std::vector<std::vector<bool> > an(parts); std::vector<int> off;
    for (int k = 0; k < parts; ++k) { GenOpt q = o; q.maxN = 5; q.maxExtra = 4; q.fctl = false; sub.push_back(genNet(c, q, an[k])); off.push_back(s.n); s.n += sub[k].n; }
    std::vector<int> perm; for (int k = 0; k < s.n; ++k) perm.push_back(k); c.shuffle(perm);
    for (int k = 0; k < parts; ++k) for (size_t q = 0; q < sub[k].links.size(); ++q) {
        LinkSpec l = sub[k].links[q]; l.p0 = l.p0 == sub[k].n ? s.n : perm[off[k] + l.p0]; l.p1 = l.p1 == sub[k].n ? s.n : perm[off[k] + l.p1];
        s.links.push_back(l); anchor.push_back(an[k][q]); }
    // weak points: any extra conductive link between two non-ground nodes may open; bridges join the parts
    const int nb = s.n > 1 ? c.i(0, 6) : 0;
    for (int q = 0; q < nb; ++q) { LinkSpec l; l.type = c.b(0.8) ? COND : POT; l.p0 = c.i(0, s.n - 1); l.p1 = c.i(0, s.n - 1); if (l.p0 == l.p1) l.p1 = (l.p0 + 1) % s.n;
        l.a = c.b() ? 0. : c.lr(o.lo, o.hi); if (l.type == POT) l.s = c.sr(1e-1, 1e2); bridges.push_back(s.links.size()); s.links.push_back(l); anchor.push_back(false); }
    return s;
}
static void edit(Case& c, NetSpec& s, const std::vector<bool>& anchor, const std::vector<size_t>& bridges, const GenOpt& o) {
    for (size_t q = 0; q < bridges.size(); ++q) if (c.b(0.4)) s.links[bridges[q]].a = c.b() ? 0. : c.lr(o.lo, o.hi);
    for (int q = c.i(0, 2); q > 0; --q) { size_t k = c.raw(s.links.size()); randomParams(c, s.links[k], o, anchor[k]); }
}
// The island of each node according to the links themselves.
static std::vector<int> reference(const BasicNet& b, const NetSpec& s, double dt, const std::vector<double>& dq) {
    std::vector<double> g; for (size_t k = 0; k < s.links.size(); ++k) g.push_back(s.links[k].g(dt, dq[k]));
    return components(s, g, 0., false);
}
static void checkIslands(Case& c, BasicNet& b, const NetSpec& s, double dt, const std::vector<double>& dq, const char* when) {
    std::vector<int> ref = reference(b, s, dt, dq);
    for (int k = 0; k < s.n; ++k) {
        const std::vector<int>* v = b.node(k).getIslandVector(); c.check(v != 0, "island", S() << "node " << k << " has no island " << when);
        std::set<int> got(v->begin(), v->end()), want; for (int j = 0; j < s.n; ++j) if (ref[j] == ref[k]) want.insert(b.nodeOf[j]);
        c.check(got.size() == v->size(), "island-duplicate", S() << "node " << k << " has a node listed twice in its island " << when);
        if (got != want) { std::string m = S() << "island of node " << k << " (network number " << b.nodeOf[k] << ") " << when << " is {"; for (int x : got) m += S() << " " << x; m += " } but links couple {"; for (int x : want) m += S() << " " << x; c.fail("island", m + " }"); }
        for (int x : got) c.check(b.nodes[x].getIslandVector() && *b.nodes[x].getIslandVector() == *v, "island-shared", S() << "nodes of one island disagree " << when);
    }
}
static std::vector<double> dpPrev(BasicNet& b, const NetSpec& s) {
    std::vector<double> v; for (size_t k = 0; k < s.links.size(); ++k) v.push_back(b.bySpec[k]->getPotentialVector()[0] - b.bySpec[k]->getPotentialVector()[1]); return v; }

FACET(partition, 40000, 1000000, "networks of 1-4 shuffled parts with bridges that open and close over 1-5 steps, islands found or solved; nontrivial = more than one island, and at least one with several nodes") {
    GenOpt o; o.lo = 1e-3; o.hi = 1e3; std::vector<bool> anchor; std::vector<size_t> br; NetSpec s = genParts(c, anchor, br, o); if (s.links.empty()) c.discard(); logNet(c.log(), s);
    std::vector<int> none; BasicNet b(s, none, none); int mode = c.i(1, 2); b.net.setIslandMode(mode == 1 ? Gunns::FIND : Gunns::SOLVE); const int steps = c.i(1, 5); double dt = c.lr(1e-2, 1.);
    for (int t = 0; t < steps; ++t) {
        if (t) { edit(c, s, anchor, br, o); b.apply(s); for (size_t k : br) c.log() << " bridge " << k << "=" << s.links[k].a; c.log() << "\n"; }
        if (t && c.b(0.2)) { mode = 3 - mode; b.net.setIslandMode(mode == 1 ? Gunns::FIND : Gunns::SOLVE); }
        std::vector<double> dq = dpPrev(b, s); b.net.step(dt); checkIslands(c, b, s, dt, dq, t ? "after later steps" : "after the first step");
        std::vector<int> ref = reference(b, s, dt, dq); std::map<int, int> cnt; for (int k = 0; k < s.n; ++k) cnt[ref[k]]++; int big = 0; for (auto& e : cnt) big = std::max(big, e.second);
        if (cnt.size() > 1 && big > 1) c.nontrivial(); c.label(S() << "islands " << (cnt.size() < 5 ? std::to_string(cnt.size()) : std::string("5+")));
    }
}

// Sparse random couplings over more nodes, to exercise the merge of partial islands in any numbering.
FACET(partition_sparse, 25000, 800000, "up to 30 nodes, each anchored to ground, joined by a random sparse set of conductors changed over 1-4 steps; nontrivial = an island of at least 3 nodes and at least two islands") {
    NetSpec s; s.n = c.i(2, 30); for (int k = 0; k < s.n; ++k) { LinkSpec l; l.p0 = k; l.p1 = s.n; l.type = c.b(0.3) ? POT : COND; l.a = c.lr(1e-2, 10.); if (l.type == POT) l.s = c.sr(.1, 100.); s.links.push_back(l); }
    const int m = c.i(0, s.n); for (int q = 0; q < m; ++q) { LinkSpec l; l.p0 = c.i(0, s.n - 1); l.p1 = c.i(0, s.n - 1); if (l.p0 == l.p1) continue; l.a = c.b(0.3) ? 0. : c.lr(1e-2, 10.); s.links.push_back(l); }
    logNet(c.log(), s); std::vector<int> none; BasicNet b(s, none, none), ref(s, none, none); b.net.setIslandMode(c.b() ? Gunns::SOLVE : Gunns::FIND); const int steps = c.i(1, 4);
    for (int t = 0; t < steps; ++t) {
        if (t) { for (size_t k = s.n; k < s.links.size(); ++k) if (c.b(0.3)) s.links[k].a = c.b() ? 0. : c.lr(1e-2, 10.); b.apply(s); ref.apply(s); }
        std::vector<double> dq = dpPrev(b, s); b.net.step(0.1); ref.net.step(0.1); checkIslands(c, b, s, 0.1, dq, "(sparse)");
        for (int k = 0; k < s.n; ++k) c.checkNear(b.p(k), ref.p(k), 1e-9, 1e-9, "answer", S() << "node " << k << " potential with islands differs from without");
        std::vector<int> r = reference(b, s, 0.1, dq); std::map<int, int> cnt; for (int k = 0; k < s.n; ++k) cnt[r[k]]++; int big = 0; for (auto& e : cnt) big = std::max(big, e.second);
        if (cnt.size() > 1 && big > 2) c.nontrivial();
    }
}

FACET(answer, 40000, 1000000, "the same network history solved with islands off, found, solved, and switching between modes; nontrivial = several parts and non-zero potentials") {
    GenOpt o; o.lo = 1e-2; o.hi = 1e2; std::vector<bool> anchor; std::vector<size_t> br; NetSpec s = genParts(c, anchor, br, o); if (s.links.empty()) c.discard(); logNet(c.log(), s);
    std::vector<int> none; BasicNet off(s, none, none), find(s, none, none), solve(s, none, none), mix(s, none, none); find.net.setIslandMode(Gunns::FIND); solve.net.setIslandMode(Gunns::SOLVE);
    const int steps = c.i(1, 6); double dt = c.lr(1e-2, 1.); bool nz = false;
    for (int t = 0; t < steps; ++t) {
        if (t && c.b(0.7)) { edit(c, s, anchor, br, o); off.apply(s); find.apply(s); solve.apply(s); mix.apply(s); if (c.b(0.1)) dt = c.lr(1e-2, 1.); }
        const int m = c.i(0, 2); mix.net.setIslandMode(m == 0 ? Gunns::OFF : m == 1 ? Gunns::FIND : Gunns::SOLVE); c.log() << "step " << t << " mix mode " << m << " dt " << dt << "\n";
        off.net.step(dt); find.net.step(dt); solve.net.step(dt); mix.net.step(dt); double pm = 1.; for (int k = 0; k < s.n; ++k) pm = std::max(pm, std::fabs(off.p(k)));
        for (int k = 0; k < s.n; ++k) { nz |= off.p(k) != 0.;
            c.checkNear(find.p(k), off.p(k), 0., 1e-9 * pm, "answer", S() << "step " << t << ": node " << k << " with islands found");
            c.checkNear(solve.p(k), off.p(k), 0., 1e-7 * pm, "answer", S() << "step " << t << ": node " << k << " with islands solved");
            c.checkNear(mix.p(k), off.p(k), 0., 1e-7 * pm, "answer", S() << "step " << t << ": node " << k << " with a changing island mode"); }
        for (size_t k = 0; k < s.links.size(); ++k) c.checkNear(solve.bySpec[k]->getFlux(), off.bySpec[k]->getFlux(), 1e-6, 1e-6 * pm * std::max(1., s.links[k].g(dt, 0.)), "answer-flux", S() << "step " << t << ": link " << k << " flux");
    }
    if (nz && s.n > 2) c.nontrivial();
}

FACET(analyzer, 10000, 200000, "a basic island analyzer attached to any node of a changing network reports that node's island; nontrivial = the island has several but not all nodes") {
    GenOpt o; o.lo = 1e-2; o.hi = 1e2; std::vector<bool> anchor; std::vector<size_t> br; NetSpec s = genParts(c, anchor, br, o); if (s.links.empty()) c.discard(); logNet(c.log(), s);
    std::vector<int> none; BasicNet b(s, none, none); b.net.setIslandMode(c.b() ? Gunns::FIND : Gunns::SOLVE);
    struct A : GunnsBasicIslandAnalyzer { A(GunnsNodeList& l) : GunnsBasicIslandAnalyzer(l) {} using GunnsBasicIslandAnalyzer::mAttachedNode; using GunnsBasicIslandAnalyzer::mIslandSize; using GunnsBasicIslandAnalyzer::mIslandNodes; using GunnsBasicIslandAnalyzer::mIslandNetFlux; using GunnsBasicIslandAnalyzer::mHiPotential; using GunnsBasicIslandAnalyzer::mLoPotential; } an(b.nl);
    GunnsBasicIslandAnalyzerConfigData cfg("an"); GunnsBasicIslandAnalyzerInputData in; an.initialize(&cfg, &in);
    for (int t = c.i(1, 4); t > 0; --t) {
        edit(c, s, anchor, br, o); b.apply(s); const int at = c.i(0, s.n - 1); an.mAttachedNode = b.nodeOf[at]; std::vector<double> dq = dpPrev(b, s);
        an.stepPreSolver(0.1); b.net.step(0.1); an.stepPostSolver(0.1); std::vector<int> ref = reference(b, s, 0.1, dq);
        int size = 0; double hi = -1e300, lo = 1e300; for (int k = 0; k < s.n; ++k) { const bool in = ref[k] == ref[at]; size += in; if (in) { hi = std::max(hi, b.p(k)); lo = std::min(lo, b.p(k)); }
            c.check(an.mIslandNodes[b.nodeOf[k]] == in, "analyzer", S() << "node " << k << (in ? " is missing from" : " is wrongly in") << " the reported island of node " << at); }
        c.check(an.mIslandSize == size, "analyzer", S() << "island size " << an.mIslandSize << " is not " << size);
        c.checkNear(an.mHiPotential, hi, 1e-12, 0., "analyzer", "highest potential"); c.checkNear(an.mLoPotential, lo, 1e-12, 0., "analyzer", "lowest potential");
        if (size > 1 && size < s.n) c.nontrivial();
    }
}
