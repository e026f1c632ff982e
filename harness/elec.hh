// A small electrical network of hand-picked links, for the electrical harnesses.
#ifndef ELEC_HH
#define ELEC_HH
#include "vpt.hh"
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicNode.hh"
using namespace vpt;
namespace el {
struct Circuit {
    int n; std::vector<GunnsBasicNode> nodes; GunnsNodeList nl; std::vector<GunnsBasicLink*> links; Gunns net; std::vector<GunnsBasicLink*> own;
    explicit Circuit(int n_) : n(n_), nodes(n_ + 1) { nl.mNumNodes = n + 1; nl.mNodes = &nodes[0]; for (int i = 0; i < n; ++i) nodes[i].initialize("node" + std::to_string(i), 0.); nodes[n].initialize("ground", 0.); net.initializeNodes(nl); }
    ~Circuit() { for (size_t i = 0; i < own.size(); ++i) delete own[i]; }
    int gnd() const { return n; }
    GunnsBasicConductor* cond(double g, int a, int b) { GunnsBasicConductor* k = new GunnsBasicConductor; own.push_back(k); GunnsBasicConductorConfigData c("cond" + std::to_string(own.size()), &nl, g); GunnsBasicConductorInputData i(false, 0.); k->initialize(c, i, links, a, b); return k; }
    // a source of v volts with the given conductance from ground to node b
    GunnsBasicPotential* pot(double v, double g, int b) { GunnsBasicPotential* k = new GunnsBasicPotential; own.push_back(k); GunnsBasicPotentialConfigData c("pot" + std::to_string(own.size()), &nl, g); GunnsBasicPotentialInputData i(false, 0., v); k->initialize(c, i, links, gnd(), b); return k; }
    GunnsBasicSource* src(double f, int b) { GunnsBasicSource* k = new GunnsBasicSource; own.push_back(k); GunnsBasicSourceConfigData c("src" + std::to_string(own.size()), &nl); GunnsBasicSourceInputData i(false, 0., f); k->initialize(c, i, links, gnd(), b); return k; }
    void start(int minor = 30, double tol = 1e-9) { GunnsConfigData cfg("net", tol, 1e-12, minor, minor); net.initialize(cfg, links); }
    // false when the network gave up iterating in this step
    bool step(double dt) { const int f = net.getConvergenceFailCount(); net.step(dt); return net.getConvergenceFailCount() == f; }
    double v(int i) { return i == n ? 0. : nodes[i].getPotential(); }
};
}
#endif
