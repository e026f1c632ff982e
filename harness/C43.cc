// C43: debug step logs and spotters observe without disturbing.
#define VPT_FRIEND_EXTRA
#include "fluidnet.hh"
#include "script.hh"
#include "core/GunnsFluidFlowIntegrator.hh"
#include "core/GunnsFluidVolumeMonitor.hh"
#include "core/GunnsSensorAnalogWrapper.hh"
#include "common/sensors/SensorAnalog.hh"
#include "elec.hh"
#include <deque>
#include <fstream>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
typedef GunnsMinorStepLogInputData LI;

struct Scratch {
    std::string dir; Scratch() { char t[] = "/tmp/vptlogXXXXXX"; const char* d = mkdtemp(t); if (!d) throw std::runtime_error("no scratch directory"); dir = std::string(d) + "/"; }
    ~Scratch() { clear(); rmdir(dir.c_str()); }
    std::vector<std::string> list() const { std::vector<std::string> v; DIR* d = opendir(dir.c_str()); if (!d) return v; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); return v; }
    void clear() { std::vector<std::string> v = list(); for (size_t k = 0; k < v.size(); ++k) unlink((dir + v[k]).c_str()); }
};
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> v; std::istringstream s(l); std::string f; while (std::getline(s, f, ',')) { const size_t a = f.find_first_not_of(" \r"); const size_t b = f.find_last_not_of(" \r"); v.push_back(a == std::string::npos ? "" : f.substr(a, b - a + 1)); } return v; }

struct Sim { // one network of scripted links
    GunnsBasicNode nodes[8]; GunnsNodeList nl; std::vector<GunnsBasicLink*> links; std::vector<Call> calls; std::vector<TestLink> tl; Gunns net; int n;
    Sim(int nn, const std::vector<LinkScript>& sc, double tol, int ml, int dl, bool worst, const std::string& path, int size, int mode) : tl(sc.size()), n(nn) {
        nl.mNumNodes = n + 1; nl.mNodes = nodes; for (int k = 0; k <= n; ++k) nodes[k].initialize("n" + std::to_string(k), 0.);
        net.initializeNodes(nl); for (size_t k = 0; k < sc.size(); ++k) tl[k].init(&nl, sc[k], (int)k, links, &calls);
        net.mStepLog.mInputData.mPath = path; net.mStepLog.mInputData.mLogSteps = size; net.mStepLog.mInputData.mModeCommand = static_cast<LI::LogCommands>(mode);
        GunnsConfigData cfg("net", tol, 1e-8, ml, dl); net.initialize(cfg, links); net.setWorstCaseTiming(worst); }
};

FACET(steplog, 60000, 1200000, "a log file was written whose rows hold at least two minor steps of which one was not a plain success") {
    const int n = c.i(1, 3); int nn = 0; std::vector<LinkScript> sc = genScript(c, n, nn); const double tol = c.pickOf({1e-3, 1., 1e-6, 5.}); const int ml = c.i(1, 8), dl = c.i(1, 8); const bool worst = c.b(0.1); const int steps = c.i(2, 14);
    enum { PAUSED, AUTO, SNAP, WRITING }; static const int CMD[] = {LI::PAUSE, LI::RECORD_AUTO, LI::RECORD_SNAP, LI::SNAP};
    int size = c.i(0, 12), cmd = size ? c.i(0, 2) : 0; if (cmd == 1 && (worst || !nn)) cmd = 2; bool kLin = false, kLim = false; Scratch dir;
    c.log() << "nodes " << n << " tol " << tol << " minor limit " << ml << " decomposition limit " << dl << " worst " << worst << " log steps " << size << " mode " << cmd << "\n";
    for (size_t k = 0; k < sc.size(); ++k) { c.log() << " link " << k << (sc[k].nonlin ? " nonlinear " : " linear ") << sc[k].p0 << "->" << sc[k].p1; for (const Act& a : sc[k].acts) c.log() << " (g=" << a.g << " s=" << a.s << " ans=" << a.ans << (a.resetOk ? "" : " noreset") << (a.ov ? " ov=" + std::to_string(a.ovV) : std::string()) << ")"; c.log() << "\n"; }
    Sim x(n, sc, tol, ml, dl, worst, dir.dir, size, CMD[cmd]), plain(n, sc, tol, ml, dl, worst, dir.dir, 0, LI::PAUSE); GunnsMinorStepLog& log = x.net.mStepLog;
    Model m(n, sc, tol, ml, dl, worst); std::deque<Row> ring; int cap = size, state = PAUSED; bool rec = size > 0, pend = false, interesting = false; std::string file; size_t written = 0;
    // documented: a log sized at initialization is ready to record
    for (int t = 0; t < steps; ++t) {
        if (c.b(0.35)) { cmd = c.i(0, 3); if (cmd == 1 && (worst || !nn)) cmd = 2; log.mInputData.mModeCommand = (LI::LogCommands)CMD[cmd]; c.log() << "command " << cmd << "\n"; }
        if (c.b(0.12)) { const int s2 = c.i(0, 12); log.mInputData.mLogSteps = s2; log.updateFreeze(); c.log() << "resize " << s2 << "\n"; if (s2 > 0 && s2 != cap && !pend) { cap = s2; ring.clear(); rec = true; } else if (pend) log.mInputData.mLogSteps = cap; }
        // the command at the start of the step
        if (cap == 0) { cmd = 0; state = PAUSED; }
        if (state != WRITING) {
            if (cmd == 0) { rec = false; state = PAUSED; }
            else if (cmd == 3) { cmd = state == PAUSED ? 0 : state == AUTO ? 1 : 2; rec = false; pend = true; state = WRITING; file = ring.empty() ? std::string() : std::string(S() << "net.mStepLog_" << ring.back().major << ".csv"); }
            else { if (state == PAUSED) { ring.clear(); rec = true; } state = cmd == 1 ? AUTO : SNAP; }
        }
        m.step(); x.net.step(0.1); plain.net.step(0.1); if (m.margin < 1e-9) c.discard();
        for (int q = 0; q < n; ++q) { const double a = x.nodes[q].getPotential(), b = plain.nodes[q].getPotential(); c.check(a == b, "disturbs", S() << "step " << t + 1 << ": node " << q << " is at " << a << " when logging and at " << b << " when not"); }
        c.check(x.net.getMinorStepCount() == plain.net.getMinorStepCount() && x.net.getConvergenceFailCount() == plain.net.getConvergenceFailCount() && x.net.getDecompositionCount() == plain.net.getDecompositionCount(), "disturbs", "the step counters differ when logging");
        if (rec) for (size_t k = 0; k < m.rows.size(); ++k) { ring.push_back(m.rows[k]); if ((int)ring.size() > cap) ring.pop_front(); }
        if (state == AUTO && m.rows.back().result != std::string("SUCCESS")) { rec = false; pend = true; state = WRITING; file = S() << "net.mStepLog_" << m.rows.back().major << ".csv"; }
        c.log() << "step " << t + 1 << " last result " << m.rows.back().result << " state " << state << " rows " << ring.size() << "\n";
        c.check((int)log.mInputData.mModeCommand == CMD[cmd], "command", S() << "step " << t + 1 << ": the mode command is now " << (int)log.mInputData.mModeCommand << " instead of " << CMD[cmd]);
        c.check(dir.list().empty(), "early", "a log file appeared before the asynchronous job ran");
        if (!c.b(0.6)) continue;
        const int times = c.i(1, 2); for (int q = 0; q < times; ++q) log.updateAsync();
        std::vector<std::string> fs = dir.list();
        if (!pend) { c.check(fs.empty(), "unasked", S() << "step " << t + 1 << ": log file " << (fs.empty() ? "" : fs[0]) << " written although nothing was to be dumped"); continue; }
        c.check(fs.size() == 1, "missing", S() << "step " << t + 1 << ": " << fs.size() << " log files written instead of one"); if (file.size()) c.check(fs[0] == file, "file-name", S() << "log file " << fs[0] << " instead of " << file);
        std::ifstream in((dir.dir + fs[0]).c_str()); std::string line; std::vector<std::string> rows; while (std::getline(in, line)) rows.push_back(line); in.close(); dir.clear(); pend = false; state = PAUSED; ++written;
        c.check(!rows.empty(), "empty", "the log file is empty"); const std::vector<std::string> h = split(rows[0]); std::vector<std::string> eh; const char* h0[] = {"Major Step", "Minor Step", "Decomposition", "Solution Result"}; eh.assign(h0, h0 + 4);
        for (int k = 0; k < n; ++k) eh.push_back(S() << "Potential Vector [" << k << "]"); for (int k = 0; k < n; ++k) eh.push_back(S() << "Node Convergence [" << k << "]");
        for (size_t k = 0; k < sc.size(); ++k) { eh.push_back(S() << "Link t" << k << ": Solution Result"); for (int q = 0; q < 4; ++q) eh.push_back(S() << "Admittance Matrix [" << q << "]"); for (int q = 0; q < 2; ++q) eh.push_back(S() << "Source Vector [" << q << "]"); }
        c.check(h == eh, "header", S() << "the header of the log is: " << rows[0]);
        c.check(rows.size() - 1 == ring.size(), "row-count", S() << "step " << t + 1 << ": the log holds " << rows.size() - 1 << " minor steps, not the " << ring.size() << " last ones recorded");
        for (size_t r = 0; r < ring.size(); ++r) { const Row& e = ring[r]; const std::vector<std::string> f = split(rows[r + 1]); const std::string w = S() << "logged major step " << e.major << " minor step " << e.minor << " (row " << r + 1 << " of " << ring.size() << ")";
            c.check(f.size() == eh.size(), "columns", S() << w << " has " << f.size() << " fields under " << eh.size() << " headings"); size_t k = 0;
            auto num = [&](double v, const char* tag) { const double got = atof(f[k].c_str()); c.check(c.near(got, v, 1e-5, 1e-7), tag, S() << w << ": " << eh[k] << " reads " << f[k] << " instead of " << v); ++k; };
            num(e.major, "major"); num(e.minor, "minor"); num(e.decomp, "decomposition"); if (f[k] != e.result && f[k] == e.answer) { if (e.result == std::string("SUCCESS")) kLin = true; else kLim = true; } else c.check(f[k] == e.result, "result", S() << w << ": result " << f[k] << " instead of " << e.result); ++k;
            for (int q = 0; q < n; ++q) num(e.p[q], "potential"); for (int q = 0; q < n; ++q) num(e.conv[q], "convergence");
            for (size_t q = 0; q < sc.size(); ++q) { const char* an[] = {"REJECT", "CONFIRM", "DELAY"}; c.check(f[k] == an[e.ans[q]], "link-result", S() << w << ": link " << q << " answered " << an[e.ans[q]] << ", logged " << f[k]); ++k;
                num(e.g[q], "admittance"); num(-e.g[q], "admittance"); num(-e.g[q], "admittance"); num(e.g[q], "admittance"); num(-e.s[q], "source"); num(e.s[q], "source"); }
            if (ring.size() > 1 && e.result != std::string("SUCCESS")) interesting = true; }
    }
    if (interesting) c.nontrivial(); if (written > 1) c.label("several log files"); if (written) c.label("log file written");
    if (kLin) c.known("linear-confirm"); if (kLim) c.known("minor-limit-label");
}

FACET(linear_auto, 2000, 20000, "the automatic mode was on for several steps, all of which converged") {
    const int n = c.i(1, 3); int nn = 0; std::vector<LinkScript> sc = genScript(c, n, nn); for (size_t k = 0; k < sc.size(); ++k) { sc[k].nonlin = false; c.log() << " link " << k << " " << sc[k].p0 << "->" << sc[k].p1 << "\n"; } Scratch dir; const int size = c.i(1, 10), steps = c.i(1, 6);
    Sim x(n, sc, 1e-3, 5, 5, false, dir.dir, size, LI::RECORD_AUTO); for (int t = 0; t < steps; ++t) x.net.step(0.1);
    x.net.mStepLog.updateAsync(); if (x.net.getConvergenceFailCount()) c.discard(); if (steps > 1) c.nontrivial();
    const std::vector<std::string> fs = dir.list(); if (!fs.empty()) { c.check(fs.size() == 1 && fs[0] == "net.mStepLog_1.csv", "unasked", S() << "log file " << fs[0] << " written"); c.known("linear-confirm"); }
}

FACET(spotters, 80000, 1500000, "an integrator saw flow in both directions, or two fluids with different fractions at its ends") {
    fn::FOpt o; o.maxN = 4; o.maxLinks = 6; fn::FSpec s = fn::genFluid(c, o); fn::logFluid(c.log(), s); fn::FluidNet f(s), plain(s);
    const int m = (int)s.links.size(), n = s.n(), nf = (int)s.types.size(); std::vector<GunnsFluidFlowIntegrator*> fi; std::vector<GunnsFluidVolumeMonitor*> vm; std::vector<int> vmL, vmP;
    struct Free { std::vector<GunnsFluidFlowIntegrator*>& a; std::vector<GunnsFluidVolumeMonitor*>& b; ~Free() { for (size_t k = 0; k < a.size(); ++k) delete a[k]; for (size_t k = 0; k < b.size(); ++k) delete b[k]; } } fr = {fi, vm}; (void)fr;
    GunnsFluidFlowIntegratorConfigData fc("fi"); GunnsFluidFlowIntegratorInputData fin; GunnsFluidVolumeMonitorConfigData vc("vm");
    auto mon = [&](int q, const char* when) { const int port = std::min(std::max(vmP[q], 0), 1), nd = f.user[vmL[q]]->getNodeMap()[port]; PolyFluid* fl = f.nodes[nd].getContent(); const std::string w = S() << when << ": monitor of link " << vmL[q] << " port " << port << " (node " << nd << ")";
        c.check(vm[q]->getMass() == f.nodes[nd].getMass(), "monitor-mass", S() << w << " mass " << vm[q]->getMass() << " not " << f.nodes[nd].getMass()); c.check(vm[q]->getVolume() == VptFriend::volume(f.nodes[nd]), "monitor-volume", S() << w << " volume " << vm[q]->getVolume());
        double tot = 0.; for (int k = 0; k < nf; ++k) tot += fl->getMole() > 0. ? fl->getMass() * fl->getMassFraction(k) / fn::prop(s.types[k])->getMWeight() : 0.;
        for (int k = 0; k < nf; ++k) { c.check(vm[q]->getMassFraction(k) == fl->getMassFraction(k), "monitor-fraction", S() << w << " mass fraction " << k << " " << vm[q]->getMassFraction(k) << " not " << fl->getMassFraction(k)); if (tot > 0.) c.checkNear(vm[q]->getMoleFraction(k), fl->getMass() * fl->getMassFraction(k) / fn::prop(s.types[k])->getMWeight() / tot, 1e-6, 1e-12, "monitor-mole-fraction", S() << w << " mole fraction " << k); } };
    for (int k = 0; k < m; ++k) { fi.push_back(new GunnsFluidFlowIntegrator(*f.user[k])); fi.back()->initialize(&fc, &fin); c.check(fi.back()->isInitialized(), "initialized", "integrator not initialized"); }
    for (int k = 0; k < 2; ++k) { vmL.push_back(c.i(0, m - 1)); vmP.push_back(c.i(-1, 3)); vm.push_back(new GunnsFluidVolumeMonitor(f.nl, *f.user[vmL[k]])); GunnsFluidVolumeMonitorInputData vi(vmP[k]); vm[k]->initialize(&vc, &vi); mon(k, "after initialization"); }
    std::vector<std::vector<double> > tot(m, std::vector<double>(nf, 0.)), mag = tot; const int steps = c.i(1, 8); const double dt = c.lr(0.01, 1.); bool fwd = false, back = false, diff = false;
    for (int t = 0; t < steps; ++t) {
        if (c.b(0.3)) { fn::FLink& l = s.links[c.i(0, m - 1)]; fn::params(c, l, s, o); f.apply(s); plain.apply(s); }
        std::vector<fn::State> pre; for (int k = 0; k <= n; ++k) pre.push_back(fn::snap(*f.nodes[k].getContent()));
        for (int k = 0; k < m; ++k) fi[k]->stepPreSolver(dt); for (size_t k = 0; k < vm.size(); ++k) vm[k]->stepPreSolver(dt);
        f.net.step(dt); plain.net.step(dt);
        for (int k = 0; k < m; ++k) fi[k]->stepPostSolver(dt); for (size_t k = 0; k < vm.size(); ++k) vm[k]->stepPostSolver(dt);
        for (int k = 0; k < n; ++k) { const fn::State a = fn::snap(*f.nodes[k].getContent()), b = fn::snap(*plain.nodes[k].getContent()); c.check(a.mass == b.mass && a.T == b.T && a.P == b.P && a.mf == b.mf && a.tcMass == b.tcMass, "disturbs", S() << "step " << t + 1 << ": node " << k << " differs from the network without spotters"); if (!(a.mass >= 0.) || a.mass > 1e9) c.discard(); }
        for (int k = 0; k < m; ++k) { const double w = VptFriend::flow(*f.user[k]); const int* map = f.user[k]->getNodeMap(); const fn::State& src = pre[w > 0. ? map[0] : map[1]]; fwd |= w > 0.; back |= w < 0.; diff |= w != 0. && pre[map[0]].mf != pre[map[1]].mf;
            for (int q = 0; q < nf; ++q) { tot[k][q] += w * dt * src.mf[q]; mag[k][q] += std::fabs(w * dt * src.mf[q]); c.checkNear(fi[k]->getIntegratedMass(q), tot[k][q], 0., 1e-12 * mag[k][q], "integrated", S() << "step " << t + 1 << ": link " << k << " total of fluid " << q << " (flow rate " << w << ")"); } }
        for (size_t k = 0; k < vm.size(); ++k) mon((int)k, "after a step");
    }
    if ((fwd && back) || diff) c.nontrivial();
}

FACET(sensor, 20000, 300000, "the sensor was updated before the solution in some step and after it in another") {
    el::Circuit k(1); GunnsBasicPotential* p = k.pot(c.r(-100., 100.), c.lr(.1, 10.), 0); (void)p; GunnsBasicSource* src = k.src(0., 0); k.start();
    SensorAnalogConfigData sc; sc.mMinRange = float(c.r(-60., -10.)); sc.mMaxRange = float(c.r(10., 60.)); sc.mOffValue = float(c.r(-5., 5.)); sc.mNominalBias = float(c.b(0.5) ? c.r(-2., 2.) : 0.); sc.mNominalScale = float(c.b(0.5) ? c.r(0.5, 2.) : 1.); sc.mNominalResolution = float(c.b(0.4) ? c.lr(0.01, 1.) : 0.);
    SensorAnalogInputData in; in.mPowerFlag = c.b(0.8); in.mTruthInput = c.r(-50., 50.); GunnsSensorAnalogWrapperConfigData wc("w", sc.mMinRange, sc.mMaxRange, sc.mOffValue, sc.mNominalBias, sc.mNominalScale, 0.F, sc.mNominalResolution); GunnsSensorAnalogWrapperInputData wi(in.mPowerFlag, in.mTruthInput); GunnsSensorAnalogWrapper w; w.initialize(&wc, &wi); SensorAnalog bare; bare.initialize(sc, in, "bare");
    c.check(w.isInitialized() && w.getName() == "w", "initialized", "wrapper not initialized"); bool pre = false, post = true, sawPre = false, sawPost = false; const int n = c.i(1, 10); const double dt = c.lr(0.01, 1.);
    for (int t = 0; t < n; ++t) {
        if (c.b(0.4)) { pre = c.b(); post = c.b(); w.setStepPreSolverFlag(pre); w.setStepPostSolverFlag(post); }
        if (c.b(0.3)) { const bool a = c.b(0.3), b = c.b(0.3); const float d = float(c.r(-.5, .5)); w.mSensor.mMalfFailStuckFlag = bare.mMalfFailStuckFlag = a; w.mSensor.mMalfDriftFlag = bare.mMalfDriftFlag = b; w.mSensor.mMalfDriftRate = bare.mMalfDriftRate = d; }
        const bool pw = c.b(0.85); w.mSensor.setPowerFlag(pw); bare.setPowerFlag(pw); src->setFluxDemand(c.r(-50., 50.));
        const double before = k.v(0); w.mSensor.setTruthInput(before); w.stepPreSolver(dt); if (pre && !post) { bare.setTruthInput(before); bare.update(dt); sawPre = true; }
        c.check(w.mSensor.getSensedOutput() == bare.getSensedOutput(), "pre", S() << "step " << t + 1 << " flags " << pre << post << ": before the solution the sensor reads " << w.mSensor.getSensedOutput() << ", a bare one " << bare.getSensedOutput());
        if (!k.step(dt)) c.discard(); w.mSensor.setTruthInput(k.v(0)); w.stepPostSolver(dt); if (post) { bare.setTruthInput(k.v(0)); bare.update(dt); sawPost = true; }
        c.check(w.mSensor.getSensedOutput() == bare.getSensedOutput(), "post", S() << "step " << t + 1 << " flags " << pre << post << ": after the solution the sensor reads " << w.mSensor.getSensedOutput() << ", a bare one " << bare.getSensedOutput());
    }
    if (sawPre && sawPost) c.nontrivial();
}
