// Property C12: trace compounds ride with the bulk fluid and are conserved.
#include "fluidnet.hh"
#include "aspects/fluid/fluid/GunnsFluidTraceCompounds.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
using namespace fn;
typedef ChemicalCompound CC;
namespace {
const double EPS = DBL_EPSILON;
std::vector<CC::Type> genTypes(Case& c, int lo, int hi) { CC::Type all[] = {CC::CH2O, CC::C2H6O, CC::C6H6, CC::NH3, CC::CO, CC::CH4O, CC::H2O, CC::CO2}; std::vector<CC::Type> t(all, all + 8); c.shuffle(t); t.resize(c.i(lo, hi)); return t; }
struct Tc { double moles; std::unique_ptr<GunnsFluidTraceCompounds> o; std::vector<double> m, y; bool sync; };
// fractions below the machine epsilon are documented to vanish together with their mass
void refFractions(Tc& t, const std::vector<double>& w) { for (size_t i = 0; i < w.size(); ++i) { if (t.moles > 0.) t.y[i] = t.m[i] / t.moles / w[i]; if (std::fabs(t.y[i]) < EPS) t.y[i] = t.m[i] = 0.; } }
bool nearEps(const Tc& t) { for (size_t i = 0; i < t.y.size(); ++i) if (std::fabs(t.y[i]) > EPS * 0.999999 && std::fabs(t.y[i]) < EPS * 1.000001) return true; return false; }
template<class E, class F> bool throws(F f) { try { f(); } catch (const E&) { return true; } return false; }
double genY(Case& c) { return c.b(0.25) ? 0. : c.lr(1e-12, 1e-2); }
}
FACET(operations, 150000, 3000000, "1-3 holders of 1-5 trace compounds (defined and custom) and 1-25 set, flow, mix, limit and restart operations against a model; nontrivial = 3 or more operations of which one moves compounds") {
    std::vector<CC::Type> types = genTypes(c, 0, 4); GunnsFluidTraceCompoundsConfigData cfg(types.empty() ? 0 : &types[0], (int)types.size(), "cfg"); std::vector<std::string> names; std::vector<double> w;
    for (size_t i = 0; i < types.size(); ++i) { w.push_back(chem().getCompound(types[i])->mMWeight); names.push_back(chem().getCompound(types[i])->mName); }
    const int extra = types.empty() ? c.i(1, 3) : c.i(0, 2); for (int i = 0; i < extra; ++i) { double mw = c.lr(1., 300.); std::string nm = "custom" + std::to_string(i); cfg.addCompound(mw, nm); w.push_back(mw); names.push_back(nm); types.push_back(CC::NO_COMPOUND); }
    const int n = (int)w.size(); c.check(cfg.mNTypes == n, "count", "number of compounds"); const int k = c.i(1, 3); std::vector<Tc> v(k); bool moved = false; int done = 0;
    for (int j = 0; j < k; ++j) { Tc& t = v[j]; t.moles = c.b(0.1) ? 0. : c.lr(1e-6, 1e3); t.o.reset(new GunnsFluidTraceCompounds(t.moles)); t.m.assign(n, 0.); t.y.assign(n, 0.); if (c.b(0.8)) { for (int i = 0; i < n; ++i) { t.y[i] = genY(c); t.m[i] = t.y[i] * t.moles * w[i]; } std::vector<double> y = t.y; GunnsFluidTraceCompoundsInputData in(&y[0]); t.o->initialize(&cfg, &in, "t"); refFractions(t, w); } else t.o->initialize(&cfg, 0, "t"); c.check(t.o->isInitialized(), "init", "initialized"); t.sync = true; }
    const int steps = c.i(1, 25);
    for (int s = 0; s < steps; ++s) {
        const int j = (int)c.raw(k); Tc& t = v[j]; GunnsFluidTraceCompounds& o = *t.o; std::string what; ++done; const int i = c.i(0, n - 1);
        switch (c.i(0, 13)) {
        case 0: { for (int q = 0; q < n; ++q) t.m[q] = c.b(0.2) ? 0. : c.lr(1e-12, 1e-2); std::vector<double> a = t.m; o.setMasses(&a[0]); what = "setMasses"; t.sync = false; break; }
        case 1: { for (int q = 0; q < n; ++q) t.y[q] = genY(c); std::vector<double> a = t.y; o.setMoleFractions(&a[0]); what = "setMoleFractions"; t.sync = false; break; }
        case 2: { t.m[i] = c.lr(1e-12, 1e-2); int h = c.i(0, 1); if (h) o.setMass(i, t.m[i]); else o.setMass(types[i], t.m[i], names[i]); what = "setMass"; t.sync = false; break; }
        case 3: { t.y[i] = genY(c); int h = c.i(0, 1); if (h) o.setMoleFraction(i, t.y[i]); else o.setMoleFraction(types[i], t.y[i], names[i]); what = "setMoleFraction"; t.sync = false; break; }
        case 4: o.updateMasses(); for (int q = 0; q < n; ++q) t.m[q] = t.y[q] * t.moles * w[q]; t.sync = true; what = "updateMasses"; break;
        case 5: o.updateMoleFractions(); refFractions(t, w); t.sync = t.moles > 0.; what = "updateMoleFractions"; break;
        case 6: t.moles = c.b(0.1) ? 0. : c.lr(1e-6, 1e3); o.updateMasses(); for (int q = 0; q < n; ++q) t.m[q] = t.y[q] * t.moles * w[q]; t.sync = true; what = "bulk changed, fractions held"; break;
        case 7: t.moles = c.lr(1e-6, 1e3); o.updateMoleFractions(); refFractions(t, w); t.sync = true; what = "bulk changed, masses held"; break;
        case 8: { Tc& z = v[c.raw(k)]; if (&z == &t) { --done; continue; } double mo = c.lr(1e-6, 10.); o.flowIn(*z.o, mo); for (int q = 0; q < n; ++q) t.m[q] += mo * z.y[q] * w[q]; refFractions(t, w); t.sync = t.moles > 0.; moved = true; what = "flowIn from another"; break; }
        case 9: { std::vector<double> r(n); for (int q = 0; q < n; ++q) r[q] = c.sr(1e-9, 1e-3); double dt = c.b(0.1) ? 0. : c.lr(1e-3, 10.); o.flowIn(&r[0], dt); for (int q = 0; q < n; ++q) t.m[q] = std::max(0., t.m[q] + r[q] * dt); refFractions(t, w); t.sync = t.moles > 0.; moved = true; what = "flowIn rates"; break; }
        case 10: { double mo = c.b(0.1) ? 0. : c.r(0., 1.) * t.moles; o.flowOut(mo); if (mo > EPS) for (int q = 0; q < n; ++q) t.m[q] -= mo * t.y[q] * w[q]; t.sync = false; moved = true; what = "flowOut"; bool neg = false; for (int q = 0; q < n; ++q) if (t.m[q] < 0.) neg = true; if (neg) { o.limitPositive(); for (int q = 0; q < n; ++q) t.m[q] = std::max(0., t.m[q]); refFractions(t, w); t.sync = t.moles > 0.; what = "flowOut and limit"; } break; }
        case 11: { o.limitPositive(); for (int q = 0; q < n; ++q) t.m[q] = std::max(0., t.m[q]); refFractions(t, w); t.sync = t.moles > 0.; what = "limitPositive"; break; }
        case 12: { // transfer with the bulk: what leaves one arrives in the other
            Tc& z = v[c.raw(k)]; if (&z == &t || !(t.moles > 0.) || !t.sync || !(z.moles > 0.) || !z.sync) { --done; continue; } double mo = c.r(0., 1.) * t.moles; std::vector<double> tot(n); for (int q = 0; q < n; ++q) tot[q] = t.m[q] + z.m[q]; std::vector<double> y0 = t.y;
            z.moles += mo; z.o->flowIn(o, mo); for (int q = 0; q < n; ++q) z.m[q] += mo * t.y[q] * w[q]; refFractions(z, w); z.sync = true; o.flowOut(mo); t.moles -= mo; if (mo > EPS) for (int q = 0; q < n; ++q) t.m[q] -= mo * t.y[q] * w[q]; t.sync = false;
            for (int q = 0; q < n; ++q) { const double now = o.getMasses()[q] + z.o->getMasses()[q]; c.check(std::fabs(now - tot[q]) <= 1e-12 * (tot[q] + std::fabs(z.m[q])) + 3. * EPS * w[q] * (z.moles + t.moles + mo) + EPS * w[q], "transfer-conserves", S() << "compound " << q << " " << tot[q] << " became " << now); }
            moved = true; what = "transfer"; bool neg = false; for (int q = 0; q < n; ++q) if (t.m[q] < 0. || o.getMasses()[q] < 0.) neg = true; if (neg) { o.limitPositive(); for (int q = 0; q < n; ++q) t.m[q] = std::max(0., o.getMasses()[q]); refFractions(t, w); t.sync = t.moles > 0.; } break; }
        case 13: o.restart(); for (int q = 0; q < n; ++q) t.m[q] = t.y[q] * t.moles * w[q]; t.sync = true; what = "restart"; break;
        }
        c.log() << "op " << s << " on " << j << ": " << what << "\n"; for (int q = 0; q < k; ++q) if (nearEps(v[q])) { c.label("at epsilon"); if (done >= 3 && moved) c.nontrivial(); return; }
        for (int jj = 0; jj < k; ++jj) { Tc& x = v[jj]; for (int q = 0; q < n; ++q) { const double ms = std::fabs(x.m[q]) + std::fabs(x.y[q]) * x.moles * w[q];
            c.checkNear(x.o->getMasses()[q], x.m[q], 1e-12, 1e-13 * ms, "trace-mass", S() << "op " << s << " " << what << ": mass " << q); c.checkNear(x.o->getMoleFractions()[q], x.y[q], 1e-12, 1e-18, "trace-fraction", S() << "op " << s << " " << what << ": mole fraction " << q);
            c.check(x.o->getMass(types[q], names[q]) == x.o->getMasses()[q] && x.o->getMoleFraction(types[q], names[q]) == x.o->getMoleFractions()[q] && x.o->find(types[q], names[q]) == q && x.o->getType(q) == types[q], "lookup", S() << "compound " << q);
            if (x.sync) c.check(x.o->getMasses()[q] >= 0. && x.o->getMoleFractions()[q] >= 0., "negative", S() << "op " << s << " " << what << ": compound " << q); x.m[q] = x.o->getMasses()[q]; x.y[q] = x.o->getMoleFractions()[q]; }
        }
    }
    if (done >= 3 && moved) c.nontrivial();
}
FACET(bulk, 80000, 1500000, "bulk fluid carrying trace compounds: setting mass or moles holds fractions, mixing streams gives the molar average; nontrivial = 2 or more streams of different fractions") {
    std::vector<FP::FluidType> a = idealGases(); c.shuffle(a); a.resize(c.i(1, 4)); std::vector<CC::Type> ty = genTypes(c, 1, 4); const int n = (int)ty.size(), nf = (int)a.size(); GunnsFluidTraceCompoundsConfigData tcfg(&ty[0], n, "tc"); PolyFluidConfigData cfg(&props(), &a[0], nf, &tcfg); std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(chem().getCompound(ty[i])->mMWeight);
    const int k = c.i(1, 4); std::vector<std::unique_ptr<PolyFluid> > f; std::vector<std::vector<double> > ys;
    for (int j = 0; j < k; ++j) { std::vector<double> mf = genFractions(c, nf), y(n); for (int i = 0; i < n; ++i) y[i] = genY(c); ys.push_back(y); GunnsFluidTraceCompoundsInputData ti(&ys[j][0]); PolyFluidInputData in(c.r(200., 600.), c.lr(1., 1e3), 0., c.lr(1e-3, 10.), &mf[0], &ti); f.emplace_back(new PolyFluid(cfg, in));
        GunnsFluidTraceCompounds& t = *f[j]->getTraceCompounds(); for (int i = 0; i < n; ++i) { c.checkNear(t.getMoleFractions()[i], y[i], 1e-12, 0., "bulk-initial-fraction", S() << i); c.checkNear(t.getMasses()[i], y[i] * f[j]->getMole() * w[i], 1e-12, 0., "bulk-initial-mass", S() << i); } }
    // composite of streams
    std::vector<double> z(nf, 0.); z[0] = 1.; PolyFluidInputData in0(300., 100., 0., 0., &z[0]); GunnsFluidTraceCompoundsInputData t0(&ys[0][0]); in0.mTraceCompounds = &t0; PolyFluid mix(cfg, in0); mix.resetState(); for (int i = 0; i < n; ++i) c.check(mix.getTraceCompounds()->getMasses()[i] == 0. && mix.getTraceCompounds()->getMoleFractions()[i] == 0., "bulk-reset", "reset");
    double mol = 0.; std::vector<double> sum(n, 0.); for (int j = 0; j < k; ++j) { double r = c.lr(1e-5, 10.); mix.addState(f[j].get(), r); const double m = r / f[j]->getMWeight(); mol += m; for (int i = 0; i < n; ++i) { sum[i] += m * ys[j][i]; const double y = sum[i] / mol; if (y > 3e-16) c.checkNear(mix.getTraceCompounds()->getMoleFractions()[i], y, 1e-9, 1e-15, "bulk-mix", S() << "trace fraction " << i << " after adding stream " << j); } }
    PolyFluid& x = *f[0]; GunnsFluidTraceCompounds& t = *x.getTraceCompounds(); std::vector<double> y = ys[0]; double mass = x.getMass();
    for (int s = c.i(1, 6); s > 0; --s) { switch (c.i(0, 4)) {
        case 0: mass = c.b(0.2) ? 0. : c.lr(1e-6, 100.); x.setMass(mass); break;
        case 1: { double mo = c.lr(1e-6, 10.); x.setMole(mo); mass = x.getMass(); x.getTraceCompounds()->updateMasses(); break; }
        case 2: x.setTemperature(c.r(200., 600.)); break;
        case 3: { int j = (int)c.raw(k); if (j == 0) continue; x.setState(f[j].get()); x.setMass(mass); y = std::vector<double>(f[j]->getTraceCompounds()->getMoleFractions(), f[j]->getTraceCompounds()->getMoleFractions() + n); break; }
        case 4: { PolyFluid copy(x, "copy"); for (int i = 0; i < n; ++i) { c.checkNear(copy.getTraceCompounds()->getMoleFractions()[i], y[i], 1e-12, 0., "bulk-copy", "copied fraction"); c.checkNear(copy.getTraceCompounds()->getMasses()[i], y[i] * w[i] * x.getMole(), 1e-12, 0., "bulk-copy", "copied mass"); } copy.setMass(mass * 2.); break; } }
        for (int i = 0; i < n; ++i) { c.checkNear(t.getMoleFractions()[i], y[i], 1e-12, 0., "bulk-fraction", S() << "fraction " << i); c.checkNear(t.getMasses()[i], y[i] * w[i] * x.getMole(), 1e-9, 0., "bulk-mass", S() << "mass " << i); } }
    if (k > 1 && ys[0] != ys[1]) c.nontrivial();
}
FACET(node, 60000, 1200000, "a node with random inflows, outflow and stand-alone trace flows; each trace compound balances; nontrivial = bulk inflow and trace flow in one step") {
    std::vector<FP::FluidType> a = idealGases(); c.shuffle(a); a.resize(c.i(1, 4)); std::vector<CC::Type> ty = genTypes(c, 1, 4); const int n = (int)ty.size(), nf = (int)a.size(); GunnsFluidTraceCompoundsConfigData tcfg(&ty[0], n, "tc"); PolyFluidConfigData cfg(&props(), &a[0], nf, &tcfg); std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(chem().getCompound(ty[i])->mMWeight);
    std::vector<double> mf = genFractions(c, nf), y(n); for (int i = 0; i < n; ++i) y[i] = genY(c); GunnsFluidTraceCompoundsInputData ti(&y[0]); const double vol = c.lr(1e-2, 100.); PolyFluidInputData in(c.r(200., 600.), c.lr(1., 1e3), 0., 0., &mf[0], &ti); GunnsFluidNode nd; nd.initialize("n", &cfg, &in); nd.initVolume(vol); nd.resetFlows();
    const int k = c.i(1, 3); std::vector<std::unique_ptr<PolyFluid> > f; for (int j = 0; j < k; ++j) { std::vector<double> mf2 = genFractions(c, nf), y2(n); for (int i = 0; i < n; ++i) y2[i] = genY(c); GunnsFluidTraceCompoundsInputData t2(&y2[0]); PolyFluidInputData i2(c.r(200., 600.), c.lr(1., 1e3), 0., 1., &mf2[0], &t2); f.emplace_back(new PolyFluid(cfg, i2)); }
    for (int s = c.i(1, 8), st = 0; st < s; ++st) {
        const double dt = c.lr(1e-2, 5.); nd.resetFlows(); GunnsFluidTraceCompounds& t = *nd.getContent()->getTraceCompounds(); std::vector<double> m0(t.getMasses(), t.getMasses() + n), y0(t.getMoleFractions(), t.getMoleFractions() + n), want = m0; const double mole0 = nd.getContent()->getMole(), mass0 = nd.getContent()->getMass(); bool inflow = false, tc = false; std::vector<double> sc(n, 0.);
        const double out = c.b(0.4) ? 0. : c.r(0., 0.9) * mole0; nd.scheduleOutflux(out / dt); 
        double inMass = 0.; const int ni = c.i(0, 2); for (int q = 0; q < ni; ++q) { PolyFluid& g = *f[c.raw(k)]; double r = c.lr(1e-3, 2.) * (mass0 + 1e-3) / dt; nd.collectInflux(r, &g); inMass += r * dt; inflow = true; for (int i = 0; i < n; ++i) { const double d = r * dt / g.getMWeight() * g.getTraceCompounds()->getMoleFractions()[i] * w[i]; want[i] += d; sc[i] += d; } }
        for (int i = 0; i < n; ++i) { want[i] -= out * y0[i] * w[i]; sc[i] += m0[i]; }
        if (c.b(0.6)) for (int i = 0; i < n; ++i) if (c.b()) { double r = c.sr(1e-9, 1e-4); nd.collectTc(i, r); want[i] += r * dt; sc[i] += std::fabs(r * dt); if (r != 0.) tc = true; }
        nd.integrateFlows(dt); const double moles = nd.getContent()->getMole();
        for (int i = 0; i < n; ++i) { const double lost = 8. * EPS * w[i] * (moles + mole0 + inMass / nd.getContent()->getMWeight()); c.check(std::fabs(t.getMasses()[i] - std::max(0., want[i])) <= 1e-10 * sc[i] + lost, "node-trace", S() << "step " << st << " compound " << i << " mass " << t.getMasses()[i] << " expected " << want[i] << " (was " << m0[i] << ")"); c.check(t.getMasses()[i] >= 0. && t.getMoleFractions()[i] >= 0., "node-negative", S() << i); c.checkNear(t.getMoleFractions()[i], t.getMasses()[i] / w[i] / moles, 1e-9, 1e-15, "node-consistent", S() << "step " << st << " fraction " << i); }
        nd.getContent()->setPressure(nd.getContent()->computePressure(nd.getContent()->getTemperature(), nd.getContent()->getMass() / vol)); if (inflow && tc) c.nontrivial();
    }
    c.check(throws<TsOutOfBoundsException>([&] { nd.collectTc(c.b() ? -1 - c.i(0, 5) : n + c.i(0, 5), 1.); }), "node-index", "index out of range accepted");
}
FACET(validation, 20000, 300000, "bad configurations and indexes are refused and leave the state alone; nontrivial = every case") {
    std::vector<CC::Type> ty = genTypes(c, 1, 5); const int n = (int)ty.size(); GunnsFluidTraceCompoundsConfigData cfg(&ty[0], n, "cfg"); double moles = c.lr(1e-3, 10.); std::vector<double> y(n); for (int i = 0; i < n; ++i) y[i] = genY(c); GunnsFluidTraceCompoundsInputData in(&y[0]); c.nontrivial();
    GunnsFluidTraceCompounds t(moles); 
    switch (c.i(0, 7)) {
    case 0: y[c.raw(n)] = -c.lr(1e-12, 1.); c.check(throws<TsInitializationException>([&] { t.initialize(&cfg, &in, "t"); }), "negative-fraction-accepted", "negative"); c.check(!t.isInitialized(), "init-flag", "flag"); break;
    case 1: { GunnsFluidTraceCompounds d; c.check(throws<TsInitializationException>([&] { d.initialize(&cfg, &in, "t"); }), "default-constructed-accepted", "default"); break; }
    case 2: { std::vector<CC::Type> t2 = ty; t2.push_back(ty[c.raw(n)]); GunnsFluidTraceCompoundsConfigData c2(&t2[0], n + 1, "cfg"); y.push_back(0.); GunnsFluidTraceCompoundsInputData i2(&y[0]); c.check(throws<TsInitializationException>([&] { t.initialize(&c2, &i2, "t"); }), "duplicate-accepted", "duplicate"); break; }
    case 3: cfg.addCompound(10., "same"); cfg.addCompound(12., "same"); y.resize(n + 2, 0.); { GunnsFluidTraceCompoundsInputData i2(&y[0]); c.check(throws<TsInitializationException>([&] { t.initialize(&cfg, &i2, "t"); }), "duplicate-name-accepted", "duplicate name"); } break;
    case 4: c.check(throws<TsInitializationException>([&] { cfg.addCompound(c.b() ? 0. : -c.lr(1e-9, 1.), "x"); }) && throws<TsInitializationException>([&] { cfg.addCompound(3., ""); }) && throws<TsInitializationException>([&] { cfg.addCompound(CC::NO_COMPOUND); }) && cfg.mNTypes == n, "bad-compound-accepted", "addCompound"); break;
    case 5: c.check(throws<TsInitializationException>([&] { t.initialize(0, &in, "t"); }), "no-config", "no config"); c.check(throws<TsInitializationException>([&] { t.initialize(&cfg, &in, ""); }), "no-name", "no name"); break;
    case 6: { t.initialize(&cfg, &in, "t"); std::vector<double> m(t.getMasses(), t.getMasses() + n); int bad = c.b() ? -1 - c.i(0, 4) : n + c.i(0, 4); CC::Type absent = CC::CH4; c.check(throws<TsOutOfBoundsException>([&] { t.setMass(bad, 5.); }) && throws<TsOutOfBoundsException>([&] { t.setMoleFraction(bad, 5.); }) && throws<TsOutOfBoundsException>([&] { t.getType(bad); }) && throws<TsOutOfBoundsException>([&] { t.find(absent); }) && throws<TsOutOfBoundsException>([&] { t.setMass(absent, 1.); }) && throws<TsOutOfBoundsException>([&] { t.getMoleFraction(absent); }), "bad-index-accepted", "index"); c.check(t.findCompound(absent) == -1, "find-absent", "absent"); for (int i = 0; i < n; ++i) c.check(t.getMasses()[i] == m[i] && t.findCompound(ty[i]) == i, "state-changed", "changed"); break; }
    case 7: { t.initialize(&cfg, &in, "t"); std::vector<double> y2(n); for (int i = 0; i < n; ++i) y2[i] = genY(c); GunnsFluidTraceCompoundsInputData i2(&y2[0]); t.initialize(&cfg, &i2, "again"); for (int i = 0; i < n; ++i) c.checkNear(t.getMoleFractions()[i], y2[i], 1e-12, 0., "reinitialize", "fraction"); break; }
    }
}
