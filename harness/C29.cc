// C29: a thermal network file builds exactly the network it describes.
// vpt: san extra=ms-utils/parsing/tinyxml/tinyxmlparser.cpp,ms-utils/parsing/tinyxml/tinyxmlerror.cpp
#include "vpt.hh"
#include "aspects/thermal/network/ThermalNetwork.hh"
#include "software/exceptions/TsParseException.hh"
#include "math/UnitConversion.hh"
#include <dirent.h>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

static void lg(vpt::Case& c, const std::string& s) { c.log() << s << "\n"; }
typedef std::vector<double> V;
typedef std::vector<int> I;
typedef std::vector<std::string> N;

class VptFriend {
  public:
    typedef ThermFileParser P;
    static ThermFileParser& parser(ThermalNetwork& n) { return n.parser; }
    static void files(P& p, const N& f) { p.mName = "p"; p.mNodeFile = f[0]; p.mCondFile = f[1]; p.mRadFile = f[2]; p.mHtrFile = f[3]; p.mPanFile = f[4]; p.mEtcFile = f[5]; p.mThermInputFile = f[6]; p.mThermInputFileRad = f[7]; }
    static void init(P& p) { p.initialize("p"); }
    static int count(P& p) { p.preCountNodes(); return p.numNodes; }
    static GunnsNodeList& nodes(ThermalNetwork& n) { return n.netNodeList; }
    static std::vector<GunnsBasicLink*>& links(ThermalNetwork& n) { return n.netLinks; }
    static double* power(ThermalNetwork& n) { return n.mHtrPowerElectrical; }
    static double* scale(ThermalNetwork& n) { return n.mCapEditScaleFactor; }
    static double* prev(ThermalNetwork& n) { return n.mCapEditScalePrev; }
    static bool ready(ThermalNetwork& n) { return n.netSolver.mInitFlag; }
    static double& incident(GunnsThermalPanel& p) { return p.mIncidentHeatFluxPerArea; }
    static double& demand(GunnsThermalSource& s) { return s.mDemandedFlux; }
    static double& view(GunnsThermalRadiation& r) { return r.mViewScalar; }

    // every parsed value as (name, numbers)
#define ROW(n) r.push_back(std::make_pair(std::string(n), V()))
    typedef std::vector<std::pair<std::string, V> > Rows;
    static Rows rows(P& p) {
        Rows r;
        ROW("nodes"); r.back().second = {double(p.numNodes), double(p.numLinksCap), double(p.numLinksCond), double(p.numLinksRad), double(p.numLinksHtr), double(p.numLinksPan), double(p.numLinksPot), double(p.numLinksSrc)};
        for (size_t i = 0; i < p.vCapEditGroupList.size(); ++i) ROW("group " + p.vCapEditGroupList[i]);
        for (size_t i = 0; i < p.vNodeNames.size(); ++i) { ROW("node " + p.vNodeNames[i]); r.back().second = {double(p.mNodeMap.count(p.vNodeNames[i]) ? p.mNodeMap[p.vNodeNames[i]] : -1)}; }
        for (int i = 0; i < p.numLinksCap; ++i) { ROW(p.vCapNames.at(i)); r.back().second = {double(p.vCapPorts.at(i)), p.vCapTemperatures.at(i), p.vCapCapacitances.at(i), double(p.vCapEditGroupIdentifiers.at(i))}; }
        for (int i = 0; i < p.numLinksCond; ++i) { ROW(p.vCondNames.at(i)); r.back().second = {double(p.vCondPorts0.at(i)), double(p.vCondPorts1.at(i)), p.vCondConductivities.at(i)}; }
        for (int i = 0; i < p.numLinksRad; ++i) { ROW(p.vRadNames.at(i)); r.back().second = {double(p.vRadPorts0.at(i)), double(p.vRadPorts1.at(i)), p.vRadCoefficients.at(i), p.vRadViewScalars.empty() ? 1. : p.vRadViewScalars.at(i)}; }
        for (int i = 0; i < p.numLinksHtr; ++i) { ROW(p.vHtrNames.at(i)); r.back().second = multi(p.vHtrPorts.at(i), p.vHtrFracs.at(i)); r.back().second.push_back(p.vHtrScalars.at(i)); }
        for (int i = 0; i < p.numLinksSrc; ++i) { ROW(p.vSrcNames.at(i)); r.back().second = multi(p.vSrcPorts.at(i), p.vSrcFracs.at(i)); r.back().second.push_back(p.vSrcScalars.at(i)); r.back().second.push_back(p.vSrcInits.at(i)); }
        for (int i = 0; i < p.numLinksPan; ++i) { ROW(p.vPanNames.at(i)); r.back().second = multi(p.vPanPorts.at(i), p.vPanFracs.at(i)); r.back().second.push_back(p.vPanAreas.at(i)); r.back().second.push_back(p.vPanAbsorptivities.at(i)); }
        for (int i = 0; i < p.numLinksPot; ++i) { ROW(p.vPotNames.at(i)); r.back().second = {double(p.vPotPorts.at(i)), p.vPotTemperatures.at(i), p.vPotConductivities.at(i)}; }
        return r;
    }
    static V multi(const I& a, const V& b) { V v(1, double(a.size())); for (size_t i = 0; i < a.size(); ++i) v.push_back(a[i]); v.push_back(b.size()); for (size_t i = 0; i < b.size(); ++i) v.push_back(b[i]); return v; }
    // do all per-link vectors hold exactly the counted entries?
    static std::string sizes(P& p) {
        const size_t cap = p.numLinksCap, co = p.numLinksCond, ra = p.numLinksRad, h = p.numLinksHtr, pa = p.numLinksPan, po = p.numLinksPot, s = p.numLinksSrc;
        if (p.vNodeNames.size() != size_t(p.numNodes) || p.mNodeMap.size() != size_t(p.numNodes)) return "nodes";
        if (p.vCapNames.size() != cap || p.vCapTemperatures.size() != cap || p.vCapCapacitances.size() != cap) return "capacitance";
        if (p.vCondNames.size() != co || p.vCondPorts0.size() != co || p.vCondPorts1.size() != co || p.vCondConductivities.size() != co) return "conduction";
        if (p.vRadNames.size() != ra || p.vRadPorts0.size() != ra || p.vRadPorts1.size() != ra || p.vRadCoefficients.size() != ra || (!p.vRadViewScalars.empty() && p.vRadViewScalars.size() != ra)) return "radiation";
        if (p.vHtrNames.size() != h || p.vHtrPorts.size() != h || p.vHtrFracs.size() != h || p.vHtrScalars.size() != h) return "heater";
        if (p.vPanNames.size() != pa || p.vPanPorts.size() != pa || p.vPanFracs.size() != pa || p.vPanAreas.size() != pa || p.vPanAbsorptivities.size() != pa) return "panel";
        if (p.vPotNames.size() != po || p.vPotPorts.size() != po || p.vPotTemperatures.size() != po || p.vPotConductivities.size() != po) return "potential";
        if (p.vSrcNames.size() != s || p.vSrcPorts.size() != s || p.vSrcFracs.size() != s || p.vSrcInits.size() != s || p.vSrcScalars.size() != s) return "source";
        const int n = p.numNodes;
        auto in = [&](const I& v) { for (int i : v) if (i < 0 || i >= n) return false; return true; };
        bool ok = in(p.vCondPorts0) && in(p.vCondPorts1) && in(p.vRadPorts0) && in(p.vRadPorts1) && in(p.vPotPorts);
        for (auto& v : p.vHtrPorts) ok = ok && in(v);
        for (auto& v : p.vPanPorts) ok = ok && in(v);
        for (auto& v : p.vSrcPorts) ok = ok && in(v);
        for (size_t i = 0; i < h; ++i) ok = ok && p.vHtrPorts[i].size() == p.vHtrFracs[i].size() && !p.vHtrPorts[i].empty();
        for (size_t i = 0; i < pa; ++i) ok = ok && p.vPanPorts[i].size() == p.vPanFracs[i].size() && !p.vPanPorts[i].empty();
        for (size_t i = 0; i < s; ++i) ok = ok && p.vSrcPorts[i].size() == p.vSrcFracs[i].size() && !p.vSrcPorts[i].empty();
        return ok ? "" : "ports";
    }
};
typedef VptFriend::Rows Rows;

struct Scratch {
    std::string d;
    Scratch() : d(S() << "/tmp/vptC29." << getpid()) { mkdir(d.c_str(), 0700); }
    ~Scratch() { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(h); } rmdir(d.c_str()); }
    std::string put(const std::string& name, const std::string& text) { std::ofstream(d + "/" + name) << text; return d + "/" + name; }
};

// ------------------------------------------------------------------------- description and its model
struct Multi { std::string name; I nodes; V fracs; double a = 1., b = 0.; };     // a: scalar / area, b: initial flux / absorptivity
struct Pair { std::string name; int n0 = 0, n1 = 0; double g = 0., view = 1.; };
struct Desc {
    N groups, nodes; V temp, cap; I group;            // the last node is the ground
    std::vector<Pair> cond, rad, pot;                 // pot: n1 node, view temperature
    std::vector<Multi> htr, src, pan;
    std::string text[8];                              // node cond rad htr pan etc input radinput
    bool has[8] = {}; int found[8] = {}; bool groundCap = false; int written = 0;
    Rows model() const {
        Rows r; int caps = int(nodes.size()) - (groundCap ? 0 : 1);
        ROW("nodes"); r.back().second = {double(nodes.size()), double(caps), double(cond.size()), double(rad.size()), double(htr.size()), double(pan.size()), double(pot.size()), double(src.size())};
        for (auto& g : groups) ROW("group " + g);
        for (size_t i = 0; i < nodes.size(); ++i) { ROW("node " + nodes[i]); r.back().second = {double(i)}; }
        for (int i = 0; i < caps; ++i) { ROW("cap_" + nodes[i]); r.back().second = {double(i), temp[i], cap[i], double(group[i])}; }
        for (auto& p : cond) { ROW(p.name); r.back().second = {double(p.n0), double(p.n1), p.g}; }
        for (auto& p : rad) { ROW(p.name); r.back().second = {double(p.n0), double(p.n1), p.g, p.view}; }
        for (auto& m : htr) { ROW(m.name); r.back().second = VptFriend::multi(m.nodes, m.fracs); r.back().second.push_back(m.a); }
        for (auto& m : src) { ROW(m.name); r.back().second = VptFriend::multi(m.nodes, m.fracs); r.back().second.push_back(m.a); r.back().second.push_back(m.b); }
        for (auto& m : pan) { ROW(m.name); r.back().second = VptFriend::multi(m.nodes, m.fracs); r.back().second.push_back(m.a); r.back().second.push_back(m.b); }
        for (auto& p : pot) { ROW(p.name); r.back().second = {double(p.n1), p.view, p.g}; }
        return r;
    }
};

static std::string esc(const std::string& s) { std::string o; for (char ch : s) o += ch == '<' ? "&lt;" : ch == '&' ? "&amp;" : ch == '>' ? "&gt;" : ch == '\'' ? "&apos;" : std::string(1, ch); return o; }
struct Writer {                                        // lays the same content out in many ways
    Case& c; double fancy;
    Writer(Case& c, double f) : c(c), fancy(f) {}
    std::string ws() { return !c.b(fancy) ? "\n" : c.pickOf<std::string>({"", " ", "\r\n\t", "\n<!-- note <x> -->\n", "\n\n   "}); }
    std::string num(double v) { char b[64]; const int k = c.b(fancy) ? c.i(0, 3) : 0; snprintf(b, sizeof b, k == 1 ? "%.17e" : k == 2 ? "+%.17g" : "%.17g", v); if (v < 0. && k == 2) snprintf(b, sizeof b, "%.17g", v); return std::string(c.b(fancy * 0.5) ? " " : "") + b + (c.b(fancy * 0.5) ? "\n " : ""); }
    std::string attr() { return !c.b(fancy) ? "" : c.pickOf<std::string>({" units='K'", " units=\"W/K\"", " isReadyForIcd='true' note='a > b'"}); }
    std::string tag(const std::string& t, const std::string& text) { return ws() + "<" + t + attr() + ">" + text + "</" + t + ">"; }
    std::string el(const std::string& open, const N& kids, const std::string& close, bool mix) {
        N k = kids; if (mix) c.shuffle(k);
        std::string s = ws() + "<" + open + ">"; for (auto& x : k) s += x; if (c.b(fancy)) s += tag("comment", "irrelevant");
        return s + ws() + "</" + close + ">";
    }
};
static const char* wordSet = "abcXYZ019_- .<&>'";
static std::string word(Case& c, bool fancy) { std::string s = c.str(7, fancy ? wordSet : "abcXYZ019_"); while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); std::string t; for (char ch : s) if (!(ch == ' ' && !t.empty() && t.back() == ' ')) t += ch; return t.empty() ? "n" : t; }

// bad: probability that an entry is one the parser must leave out; physical: values a network can run with
static Desc gen(Case& c, double bad, bool physical) {
    Desc d; Writer w(c, c.b(0.4) ? 0.3 : 0.); const bool fancy = w.fancy > 0.;
    const int n = c.i(1, 6);
    const int ng = c.i(0, 3); for (int i = 0; i < ng; ++i) d.groups.push_back(word(c, false) + char('a' + i));
    std::string file[6]; int nbad = 0;
    auto val = [&](double lo, double hi) { return physical || c.b(0.8) ? c.lr(lo, hi) : c.pickOf<double>({0., -1.5, 1e-300, 1e300, 7.}); };
    // nodes
    if (ng && c.b(0.95)) { N k; for (auto& g : d.groups) k.push_back(w.tag("group", g)); file[0] += w.el("capEditing", k, "capEditing", false); } else d.groups.clear();
    for (int i = 0; i <= n; ++i) {
        std::string name = word(c, fancy) + char('A' + i);
        const bool ground = i == n;
        if (c.b(bad)) {                                // an entry to be left out
            ++nbad; ++d.written; const int k = c.i(0, 4);
            const std::string nm = k == 0 ? "" : k == 1 && i ? esc(d.nodes[c.i(0, i - 1)]) : k == 1 ? "" : "bad" + std::to_string(i);
            N kids = {w.tag("name", nm)}; if (k != 2) kids.push_back(w.tag("temperature", w.num(5.))); if (k == 2) kids.push_back(w.tag("temperature", ""));
            if (k != 3) kids.push_back(w.tag("capacitance", k == 4 ? "" : w.num(3.)));
            file[0] += w.el("node", kids, "node", false);
        }
        ++d.written;
        const double t = physical ? c.r(150., 450.) : val(1., 1000.), cp = ground ? (physical || c.b(0.8) ? 0. : c.lr(1., 100.)) : physical ? c.lr(200., 1e6) : val(1e-2, 1e6);
        int g = -99; N kids = {w.tag("name", esc(name)), w.tag("temperature", w.num(t)), w.tag("capacitance", w.num(cp))};
        if (!d.groups.empty() && c.b(0.6)) { g = c.i(0, int(d.groups.size()) - 1); kids.push_back(w.tag("editGroup", d.groups[g])); }
        else if (c.b(0.1)) kids.push_back(w.tag("editGroup", "nosuchgroup"));
        file[0] += w.el("node", kids, "node", true);
        d.nodes.push_back(name); d.temp.push_back(t); d.cap.push_back(cp); d.group.push_back(g);
        if (ground) d.groundCap = std::fabs(cp) >= FLT_EPSILON;
    }
    auto anyNode = [&](bool ground) { return c.i(0, ground ? n : n - 1); };
    auto oneBad = [&](N& kids, const char* must) {     // spoil one entry
        ++nbad; const int k = c.i(0, 2);
        size_t at = 0; for (size_t i = 0; i < kids.size(); ++i) if (kids[i].find(std::string("<") + must) != std::string::npos) at = i;
        if (k == 0) kids.erase(kids.begin() + at);
        else if (k == 1) kids[at] = w.tag(must, "");
        else { for (size_t i = 0; i < kids.size(); ++i) if (kids[i].find("<node") != std::string::npos) { at = i; break; } kids[at] = kids[at].find("<node0") != std::string::npos ? w.tag("node0", "unknown node") : w.tag("node", "unknown node"); }
    };
    // conduction, radiation
    for (int k = 0; k < 2; ++k) {
        std::vector<Pair>& out = k ? d.rad : d.cond; const char* el = k ? "radiation" : "conduction"; const char* vt = k ? "coefficient" : "conductivity";
        d.has[1 + k] = c.b(0.8); if (!d.has[1 + k]) continue;
        const int m = c.i(physical ? 0 : 1, 6); int made = 0;
        for (int i = 0; i < m; ++i) {
            Pair p; p.n0 = anyNode(true); p.n1 = anyNode(true); if (physical && p.n0 == p.n1) p.n1 = (p.n0 + 1) % (n + 1);
            p.g = val(1e-2, k ? 1. : 50.);
            N kids = {w.tag("node0", esc(d.nodes[p.n0])), w.tag("node1", esc(d.nodes[p.n1])), w.tag(vt, w.num(p.g))};
            if (c.b(0.5)) { p.name = word(c, fancy) + std::to_string(i); kids.push_back(w.tag("name", esc(p.name))); } else p.name = (k ? "rad " : "cond ") + d.nodes[p.n0] + " to " + d.nodes[p.n1];
            const bool b = c.b(bad); if (b) oneBad(kids, vt); else { out.push_back(p); ++made; }
            file[1 + k] += w.el(el, kids, el, true);
        }
        d.found[1 + k] = made; if (physical && !made) { d.has[1 + k] = false; }
    }
    // heaters, sources, panels
    d.has[3] = c.b(0.8); d.has[4] = c.b(0.7); d.has[5] = c.b(0.7);
    for (int k = 0; k < 3; ++k) {
        const int fi = k == 2 ? 4 : 3; if (!d.has[fi]) continue;
        std::vector<Multi>& out = k == 0 ? d.htr : k == 1 ? d.src : d.pan; const std::string el = k == 0 ? "heater" : k == 1 ? "source" : "panel";
        const int m = c.i(0, 3);
        for (int i = 0; i < m; ++i) {
            Multi q; q.name = word(c, fancy) + std::to_string(i); const int np = physical ? std::min(n, c.i(1, 3)) : c.i(1, 3);
            V raw; double sum = 0.; for (int j = 0; j < np; ++j) { raw.push_back(c.r(0.05, 1.)); sum += raw.back(); }
            I avail; for (int j = 0; j < n; ++j) avail.push_back(j); c.shuffle(avail);
            N kids;
            for (int j = 0; j < np; ++j) { q.nodes.push_back(physical ? avail[j] : anyNode(true)); q.fracs.push_back(np == 1 ? 1. : physical ? raw[j] / sum : val(0.01, 1.)); kids.push_back(w.ws() + "<node>" + esc(d.nodes[q.nodes[j]]) + (np == 1 && c.b(0.7) ? "" : "<frac>" + w.num(np == 1 ? 0.25 : q.fracs[j]) + "</frac>") + "</node>"); }
            std::string extra = "";
            if (k < 2 && c.b(0.6)) { q.a = val(0.1, 10.); kids.push_back(w.tag("scalar", w.num(q.a))); }
            if (k == 1 && c.b(0.6)) { q.b = val(0.1, 100.); kids.push_back(w.tag("initFlux", w.num(q.b))); }
            if (k == 2) { q.a = val(0.1, 10.); q.b = physical ? c.r(0.1, 1.) : val(0.1, 1.); kids.push_back(w.tag("area", w.num(q.a))); kids.push_back(w.tag("absorp", w.num(q.b))); }
            const bool b = c.b(bad);
            if (b) { ++nbad; const int how = c.i(0, 3); if (how == 0) { kids.erase(kids.begin(), kids.begin() + np); } else if (how == 1) kids[c.i(0, np - 1)] = "<node>unknown node<frac>1</frac></node>"; else if (how == 2) kids[c.i(0, np - 1)] = c.b(0.5) ? "<node/>" : "<node><frac>0.5</frac></node>"; else if (np > 1) kids[c.i(0, np - 1)] = "<node>" + esc(d.nodes[0]) + "</node>"; else kids.insert(kids.begin(), "<node></node>"); }
            else { out.push_back(q); ++d.found[fi]; }
            file[fi] += w.el(el + " name='" + esc(q.name) + "'", kids, el, false);
        }
    }
    if (d.has[5]) for (int i = 0, m = c.i(0, 3); i < m; ++i) {
        Pair p; p.name = word(c, fancy) + std::to_string(i); p.n1 = anyNode(!physical); p.view = physical ? c.r(100., 500.) : val(1., 500.); p.g = val(1e-2, 1e4);
        N kids = {w.tag("name", esc(p.name)), w.tag("node", esc(d.nodes[p.n1])), w.tag("temperature", w.num(p.view)), w.tag("conductivity", w.num(p.g))};
        if (c.b(bad)) oneBad(kids, c.b(0.5) ? "temperature" : "name"); else { d.pot.push_back(p); ++d.found[5]; }
        file[5] += w.el("potential", kids, "potential", true);
    }
    if (physical || c.b(0.85)) for (int k = 1; k < 6; ++k) if (d.has[k] && !d.found[k]) d.has[k] = false;
    // overrides of temperatures and view scalars
    d.has[6] = c.b(0.4); d.has[7] = c.b(0.4);
    std::string in, rin;
    if (d.has[6]) for (int i = 0, m = c.i(0, 4); i < m; ++i) {
        const int k = c.weighted({6, 1, 1, 1}), nd = k == 1 ? n : c.i(0, n - 1); const double t = physical ? c.r(150., 450.) : val(1., 1000.);
        if (k == 0) d.temp[nd] = t; else if (k == 1 && d.groundCap) d.temp[nd] = t;
        in += w.el("node name='" + (k == 2 ? "unknown" : esc(d.nodes[nd])) + "'", {k == 3 ? w.tag("other", "1") : w.tag("initTemp", w.num(t))}, "node", false);
    }
    if (d.has[7]) {
        I order; for (size_t i = 0; i < d.rad.size(); ++i) { bool unique = true; for (size_t j = 0; j < d.rad.size(); ++j) if (j != i && (d.rad[j].name == d.rad[i].name)) unique = false; if (unique && c.b(0.8)) order.push_back(int(i)); }
        if (c.b(0.4)) c.shuffle(order);
        for (int i : order) {
            Pair& p = d.rad[i]; const double v = physical ? c.r(0., 2.) : val(0.1, 2.);
            const int k = c.weighted({8, 1, 1});
            N kids = {w.tag("node0", k == 1 ? "unknown" : esc(d.nodes[p.n0])), w.tag("node1", esc(d.nodes[p.n1])), w.tag("viewScalar", k == 2 ? "" : w.num(v))};
            if (p.name != "rad " + d.nodes[p.n0] + " to " + d.nodes[p.n1]) kids.push_back(w.tag("name", esc(p.name)));
            if (k == 0) p.view = v; else ++nbad;
            rin += w.el("radiation", kids, "radiation", true);
        }
    }
    const std::string head = c.b(0.7) ? "<?xml version=\"1.0\" ?>\n" : c.b(0.5) ? "<!-- c -->" : "";
    for (int k = 0; k < 6; ++k) d.text[k] = head + "<list>" + file[k] + w.ws() + "</list>\n";
    d.text[6] = head + "<list>" + in + "</list>"; d.text[7] = head + "<list>" + rin + "</list>";
    d.has[0] = true; d.found[0] = 1;
    if (nbad) c.label("rejected-entries"); if (fancy) c.label("fancy-layout");
    return d;
}
static const char* fnames[8] = {"n.xml", "c.xml", "r.xml", "h.xml", "p.xml", "e.xml", "i.xml", "ri.xml"};
static N writeAll(Scratch& s, const Desc& d) { N f; for (int k = 0; k < 8; ++k) f.push_back(d.has[k] ? s.put(fnames[k], d.text[k]) : ""); return f; }
static bool mustThrow(const Desc& d) { for (int k = 0; k < 6; ++k) if (d.has[k] && !d.found[k]) return true; return false; }
static void compare(Case& c, const Rows& a, const Rows& b, const char* tag) {
    c.check(a.size() == b.size(), std::string(S() << tag << "-count").c_str(), S() << "parsed " << a.size() << " items, described " << b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        c.check(a[i].first == b[i].first, std::string(S() << tag << "-name").c_str(), S() << "item " << i << " is '" << a[i].first << "', described '" << b[i].first << "'");
        c.check(a[i].second.size() == b[i].second.size(), std::string(S() << tag << "-shape").c_str(), S() << a[i].first << ": " << a[i].second.size() << " values, described " << b[i].second.size());
        for (size_t j = 0; j < a[i].second.size(); ++j) c.check(a[i].second[j] == b[i].second[j], std::string(S() << tag << "-value").c_str(), S() << a[i].first << " value " << j << " is " << a[i].second[j] << ", described " << b[i].second[j]);
    }
}

FACET(parse, 2500, 200000, "at least one link or a rejected entry") {
    Scratch s; ThermFileParser p; const int rounds = c.b(0.25) ? 2 : 1; bool any = false;
    for (int r = 0; r < rounds; ++r) {                  // the same parser can read another description
        Desc d = gen(c, c.b(0.5) ? 0. : 0.25, false);
        if (c.b(0.15)) {                                // everything in one file
            std::string all; for (int k = 0; k < 6; ++k) if (d.has[k]) { std::string t = d.text[k]; const size_t a = t.find("<list>") + 6; all += t.substr(a, t.rfind("</list>") - a); }
            for (int k = 0; k < 6; ++k) if (d.has[k]) d.text[k] = "<list>" + all + "</list>";
        }
        N f = writeAll(s, d); VptFriend::files(p, f);
        lg(c, S() << "nodes file: " << d.text[0].substr(0, 1500)); for (int k = 1; k < 8; ++k) if (d.has[k]) lg(c, S() << fnames[k] << ": " << d.text[k].substr(0, 900));
        c.check(VptFriend::count(p) == d.written, "precount", S() << "counted " << VptFriend::count(p) << " node entries of " << d.written);
        bool threw = false;
        try { VptFriend::init(p); } catch (TsParseException&) { threw = true; }
        c.check(threw == mustThrow(d), "error", threw ? "good description rejected" : "a file without the data it should give was accepted");
        if (threw) { c.nontrivial(); return; }
        const std::string bad = VptFriend::sizes(p); c.check(bad.empty(), "consistent", S() << bad << " data out of step with the count");
        compare(c, VptFriend::rows(p), d.model(), r ? "reread" : "parsed");
        any = any || d.cond.size() + d.rad.size() + d.htr.size() + d.src.size() + d.pan.size() + d.pot.size() > 0;
        if (r) c.label("reread");
    }
    if (any) c.nontrivial();
}

static void corrupt(Case& c, std::string& t) {
    static const char* bits[] = {"<node>", "</node>", "<node/>", "<list>", "</list>", "<group/>", "<group></group>", "<capEditing></capEditing>", "<name/>", "<", ">", "&", "&#x41;", "<!--", "-->", "<![CDATA[", "]]>", "'", "\"", "<?xml?>", "<heater/>", "<heater name='h'><node/></heater>", "<source name=''><node> </node></source>", "<panel><node><frac/></node></panel>", "<radiation/>", "<conduction/>", "<potential/>", "<editGroup/>", "nan", "1e999", "-1", "\xff\xfe", "\xc3"};
    for (int k = c.i(1, 4); k > 0 && !t.empty(); --k) {
        const size_t at = c.i(0, int(t.size()) - 1); const size_t len = std::min(t.size() - at, size_t(c.i(1, 12)));
        switch (c.i(0, 6)) {
            case 0: t.erase(at, len); break;
            case 1: t.insert(at, t.substr(c.i(0, int(t.size()) - 1), c.i(1, 60))); break;
            case 2: t.insert(at, bits[c.i(0, int(sizeof bits / sizeof *bits) - 1)]); break;
            case 3: t.resize(at); break;
            case 4: t[at] = char(c.i(1, 255)); break;
            case 5: { const size_t g = t.find('>', at); if (g != std::string::npos) t.insert(g + 1, bits[c.i(0, int(sizeof bits / sizeof *bits) - 1)]); break; }
            default: { const size_t g = t.find('>', at), e = g == std::string::npos ? g : t.find('<', g); if (e != std::string::npos) t.erase(g + 1, e - g - 1); break; }   // empty a text
        }
    }
}
FACET(corrupt, 2500, 200000, "a corrupted description was read to an end") {
    Scratch s; Desc d = gen(c, 0.1, c.b(0.5)); bool hit = false;
    for (int k = 0; k < 8; ++k) if (d.has[k] && (c.b(0.35) || (k == 7 && !hit))) { corrupt(c, d.text[k]); lg(c, S() << fnames[k] << ": " << d.text[k].substr(0, 1500)); hit = true; }
    N f = writeAll(s, d); if (c.b(0.03)) { f[c.i(0, 7)] = s.d + "/missing.xml"; hit = true; }
    ThermFileParser p; VptFriend::files(p, f); bool threw = false;
    try { VptFriend::init(p); } catch (TsParseException&) { threw = true; }
    if (!threw) { const std::string bad = VptFriend::sizes(p); c.check(bad.empty(), "consistent", S() << bad << " data out of step with the count"); c.label("accepted"); } else c.label("refused");
    ThermalNetwork n("net");
    n.mConfig.cNodeFile = f[0]; n.mConfig.cCondFile = f[1]; n.mConfig.cRadFile = f[2]; n.mConfig.cHtrFile = f[3]; n.mConfig.cPanFile = f[4]; n.mConfig.cEtcFile = f[5]; n.mInput.iThermInputFile = f[6]; n.mInput.iInputRadFile = f[7];
    n.initialize("net");
    for (int k = 0; k < 2; ++k) n.update(0.1);
    if (VptFriend::ready(n)) { n.preloadCheckpoint(); n.restart(); n.update(0.1); c.label("ran"); }
    if (hit) c.nontrivial();
}

// ------------------------------------------------------------------------- the built network against one built by hand
struct Hand {
    GunnsNodeList list; std::vector<GunnsBasicNode> nodes; std::vector<GunnsBasicLink*> links; Gunns net; int n;
    std::vector<std::unique_ptr<GunnsBasicLink> > own; std::vector<GunnsThermalCapacitor*> cap; std::vector<GunnsThermalHeater*> htr; std::vector<GunnsThermalSource*> src; std::vector<GunnsThermalPanel*> pan; std::vector<GunnsThermalPotential*> pot; std::vector<GunnsThermalRadiation*> rad; std::vector<GunnsBasicConductor*> con;
    template <class L> L* mk(std::vector<L*>& v) { L* l = new L; own.emplace_back(l); v.push_back(l); return l; }
    Hand(const Desc& d) : nodes(d.nodes.size()), n(int(d.nodes.size()) - 1) {
        for (int i = 0; i <= n; ++i) nodes[i].initialize(S() << "n" << i, 0.);
        list.mNodes = &nodes[0]; list.mNumNodes = n + 1;
        for (int i = 0; i < n; ++i) { GunnsThermalCapacitorConfigData cf(S() << "cap" << i, &list, d.group[i]); GunnsThermalCapacitorInputData in(false, 0., d.cap[i], d.temp[i]); mk(cap)->initialize(cf, in, links, i, n); }
        for (auto& p : d.cond) { GunnsBasicConductorConfigData cf(S() << "con" << con.size(), &list, p.g); GunnsBasicConductorInputData in(false, 0.); mk(con)->initialize(cf, in, links, p.n0, p.n1); }
        for (auto& p : d.rad) { GunnsThermalRadiationConfigData cf(S() << "rad" << rad.size(), &list, p.g * UnitConversion::STEFAN_BOLTZMANN_CONST_SI); GunnsThermalRadiationInputData in(false, 0., p.view); mk(rad)->initialize(cf, in, links, p.n0, p.n1); }
        for (auto& m : d.htr) { V fr = m.fracs; I po = m.nodes; GunnsThermalHeaterConfigData cf(S() << "htr" << htr.size(), &list, m.a, &fr); GunnsThermalHeaterInputData in(false, 0., 0.); mk(htr)->initialize(cf, in, links, &po); }
        for (auto& m : d.pan) { V fr = m.fracs; I po = m.nodes; GunnsThermalPanelConfigData cf(S() << "pan" << pan.size(), &list, 1., &fr, m.b, m.a); GunnsThermalPanelInputData in(false, 0., 0., false, 0.); mk(pan)->initialize(cf, in, links, &po); }
        for (auto& p : d.pot) { GunnsThermalPotentialConfigData cf(S() << "pot" << pot.size(), &list, p.g); GunnsThermalPotentialInputData in(false, 0., p.view); mk(pot)->initialize(cf, in, links, n, p.n1); }
        for (auto& m : d.src) { V fr = m.fracs; I po = m.nodes; GunnsThermalSourceConfigData cf(S() << "src" << src.size(), &list, m.a, &fr); GunnsThermalSourceInputData in(false, 0., m.b); mk(src)->initialize(cf, in, links, &po); }
        net.initializeNodes(list); GunnsConfigData cfg("hand", 1., 1., 1, 1); net.initialize(cfg, links);
    }
};

FACET(network, 1500, 100000, "at least one link besides capacitors carried heat") {
    Scratch s; Desc d = gen(c, c.b(0.7) ? 0. : 0.15, true); const int n = int(d.nodes.size()) - 1;
    for (int k = 1; k < 6; ++k) if (!d.has[k]) { if (k == 1) d.cond.clear(); if (k == 2) d.rad.clear(); if (k == 3) { d.htr.clear(); d.src.clear(); } if (k == 4) d.pan.clear(); if (k == 5) d.pot.clear(); }
    N f = writeAll(s, d);
    for (int k = 0; k < 8; ++k) if (d.has[k]) lg(c, S() << fnames[k] << ": " << d.text[k].substr(0, 900));
    ThermalNetwork t("net");
    t.mConfig.cNodeFile = f[0]; t.mConfig.cCondFile = f[1]; t.mConfig.cRadFile = f[2]; t.mConfig.cHtrFile = f[3]; t.mConfig.cPanFile = f[4]; t.mConfig.cEtcFile = f[5]; t.mInput.iThermInputFile = f[6]; t.mInput.iInputRadFile = f[7];
    t.initialize(c.b(0.5) ? "net" : "");
    Hand h(d);
    c.check(VptFriend::nodes(t).mNumNodes == n + 1, "node-count", S() << "built " << VptFriend::nodes(t).mNumNodes << " nodes of " << n + 1);
    c.check(VptFriend::links(t).size() == h.links.size(), "link-count", S() << "built " << VptFriend::links(t).size() << " links of " << h.links.size());
    for (int i = 0; i <= n; ++i) c.check(std::string(VptFriend::nodes(t).mNodes[i].getName()) == d.nodes[i], "node-name", "node has another name");
    V power(d.htr.size(), 0.), scale(d.groups.size(), 1.), prev(d.groups.size(), 1.), base(n); I wire; for (size_t i = 0; i < d.htr.size(); ++i) wire.push_back(int(i));
    for (int i = 0; i < n; ++i) base[i] = d.cap[i];
    const double dt = c.lr(0.05, 2.); bool carried = false;
    for (int step = c.i(3, 15); step > 0; --step) {
        for (int op = c.i(0, 3); op > 0; --op) switch (c.i(0, 8)) {
            case 0: if (!d.htr.empty()) { const int i = c.i(0, int(d.htr.size()) - 1); power[i] = VptFriend::power(t)[i] = c.r(0., 200.); lg(c, S() << "heater " << i << " power " << power[i]); } break;
            case 1: if (!d.groups.empty()) { const int i = c.i(0, int(d.groups.size()) - 1); scale[i] = VptFriend::scale(t)[i] = c.pickOf<double>({1., 2., 0.5, c.lr(0.3, 10.)}); lg(c, S() << "group " << i << " scale " << scale[i]); } break;
            case 2: if (!d.htr.empty()) {
                const int m = int(d.htr.size()); const bool on = c.b(0.7);
                I idx; for (int i = 0; i < m; ++i) idx.push_back(c.b(0.9) ? c.i(0, m - 1) : c.pickOf<int>({-1, m, 99}));
                t.setMalfHtrMiswire(on, on ? &idx[0] : 0); lg(c, S() << "miswire " << on);
                for (int i = 0; i < m; ++i) wire[i] = on && idx[i] >= 0 && idx[i] < m ? idx[i] : i;
                c.label("miswire"); } break;
            case 3: { const int i = c.i(0, n - 1), q = c.i(0, 4); const double v = c.sr(1e-2, 100.); t.mCapacitanceLinks[i].setExternalHeatFlux(q, v); h.cap[i]->setExternalHeatFlux(q, v); break; }
            case 4: if (!d.src.empty()) { const int i = c.i(0, int(d.src.size()) - 1); VptFriend::demand(t.mSources[i]) = VptFriend::demand(*h.src[i]) = c.r(-50., 200.); } break;
            case 5: if (!d.pan.empty()) { const int i = c.i(0, int(d.pan.size()) - 1); VptFriend::incident(t.mPanels[i]) = VptFriend::incident(*h.pan[i]) = c.r(0., 200.); } break;
            case 6: if (!d.rad.empty()) { const int i = c.i(0, int(d.rad.size()) - 1); VptFriend::view(t.mRadiationLinks[i]) = VptFriend::view(*h.rad[i]) = c.r(0., 2.); } break;
            case 7: if (!d.pot.empty()) { const int i = c.i(0, int(d.pot.size()) - 1); const double v = c.r(100., 500.); t.mPotentialLinks[i].setSourcePotential(v); h.pot[i]->setSourcePotential(v); } break;
            case 8: if (c.b(0.4)) {                      // load of a checkpoint in which the groups had these scales
                lg(c, "checkpoint load"); c.label("restart");
                V sc, pr; for (size_t i = 0; i < scale.size(); ++i) { pr.push_back(c.b(0.4) ? prev[i] : c.lr(0.3, 10.)); sc.push_back(c.b(0.5) ? pr[i] : c.lr(0.3, 10.)); }
                t.preloadCheckpoint();
                for (size_t i = 0; i < scale.size(); ++i) { VptFriend::scale(t)[i] = scale[i] = sc[i]; VptFriend::prev(t)[i] = prev[i] = pr[i]; }
                t.restart(); h.net.restart(); } break;
        }
        prev = scale;
        for (int i = 0; i < n; ++i) h.cap[i]->setCapacitance(base[i] * (d.group[i] >= 0 ? scale[d.group[i]] : 1.));
        for (size_t i = 0; i < power.size(); ++i) h.htr[i]->setPowerElectrical(power[wire[i]]);
        h.net.step(dt); t.update(dt);
        for (int i = 0; i <= n; ++i) {
            const double a = VptFriend::nodes(t).mNodes[i].getPotential(), b = h.nodes[i].getPotential();
            if (!(std::fabs(b) < 1e6)) c.discard();
            c.check(c.near(a, b, 1e-8, 1e-7), "temperature", S() << "node " << d.nodes[i] << " at " << a << " K, by hand " << b << " K");
        }
        for (size_t i = 0; i < h.links.size(); ++i) { if (i >= h.cap.size() && std::fabs(h.links[i]->getFlux()) > 1e-6) carried = true; }
        for (int i = 0; i < n; ++i) c.check(c.near(t.mCapacitanceLinks[i].getCapacitance(), h.cap[i]->getCapacitance(), 1e-9, 0.), "capacitance", S() << "node " << d.nodes[i] << " has capacitance " << t.mCapacitanceLinks[i].getCapacitance() << ", " << h.cap[i]->getCapacitance() << " expected");
    }
    if (carried) c.nontrivial();
}
