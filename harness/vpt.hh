// vpt.hh - a small property-based testing engine (choice-sequence based, in the style of minithesis).
//
// Every random decision of a property goes through Case's draw functions, which record a sequence of
// bounded integers.  A failing case is shrunk by editing that sequence and replaying it, and the
// sequence is the replay file.  Cases run in forked workers: a crash, a sanitizer abort, an escaped
// exception or a runaway loop in the code under test becomes a recorded failure with a replay.
//
// Every run is a pure function of the code under test and VERIF_SEED.
#ifndef VPT_HH
#define VPT_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <memory>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iomanip>
#include <functional>
#include <exception>
#include <limits>
#include <algorithm>

namespace vpt {

struct Failure { std::string tag, msg; };
struct Discard {};

class Case {
  public:
    Case(uint64_t seed, std::vector<uint64_t>* store, uint64_t* shared, uint64_t sharedCap);
    Case(const std::vector<uint64_t>& fixed);
    // --- choices ---------------------------------------------------------------------------------
    uint64_t raw(uint64_t n);                          // [0,n), simplest is 0
    int      i(int lo, int hi);                        // [lo,hi], simplest is lo
    bool     b(double p = 0.5);                        // true with probability p, simplest false
    double   u();                                      // [0,1), simplest 0
    double   r(double lo, double hi);                  // uniform real with a bias to round values and ends
    double   lr(double lo, double hi);                 // log-uniform real in [lo,hi], 0<lo<hi
    double   sr(double lo, double hi);                 // signed log-uniform: 0, or +-lr(lo,hi)
    template<class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
    template<class T> T pickOf(std::initializer_list<T> v) { return *(v.begin() + raw(v.size())); }
    int      weighted(std::initializer_list<int> w);   // index by weight
    template<class T> void shuffle(std::vector<T>& v) {
        for (size_t k = v.size(); k > 1; --k) { size_t j = k - 1 - raw(k); std::swap(v[k-1], v[j]); }
    }
    std::string str(int maxlen, const char* alphabet);
    // --- outcome ---------------------------------------------------------------------------------
    [[noreturn]] void fail(const std::string& tag, const std::string& msg);
    void check(bool ok, const char* tag, const std::string& msg) { if (!ok) fail(tag, msg); }
    bool near(double a, double b, double rel, double abs) const;
    void checkNear(double a, double b, double rel, double abs, const char* tag, const std::string& what);
    void discard() { throw Discard(); }
    void nontrivial() { mNontrivial = true; }
    void label(const std::string& s) { mLabels.insert(s); }
    void known(const std::string& id);                 // the case hits a listed known finding: stop, count it
    bool isKnown(const std::string& id) const;         // listed in known_findings.jsonl for this property
    std::ostringstream& log() { return mLog; }         // human-readable description of the case
    // --- internal --------------------------------------------------------------------------------
    std::vector<uint64_t> mRec;
    const std::vector<uint64_t>* mFixed;
    uint64_t mState[2];
    uint64_t* mShared; uint64_t mSharedCap;
    bool mNontrivial;
    std::set<std::string> mLabels;
    std::ostringstream mLog;
    uint64_t rng();
};
struct Known { std::string id; };

struct Facet {
    std::string name, rule;
    long quick, thorough;
    double cpu;              // CPU seconds allowed per case before it counts as a hang
    std::function<void(Case&)> fn;
};
std::vector<Facet>& facets();
struct Reg { Reg(const char* n, long q, long t, const char* rule, void (*f)(Case&), double cpu = 20.) {
    Facet x; x.name = n; x.rule = rule; x.quick = q; x.thorough = t; x.cpu = cpu; x.fn = f; facets().push_back(x); } };
// One facet = one sub-property with its own generator, oracle and case count.
#define FACET(name, quick, thorough, rule) \
    static void facet_##name(vpt::Case& c); \
    static vpt::Reg reg_##name(#name, quick, thorough, rule, facet_##name); \
    static void facet_##name(vpt::Case& c)

struct S { std::ostringstream o; S() { o << std::setprecision(17); }
    template<class T> S& operator<<(const T& v) { o << v; return *this; }
    operator std::string() const { return o.str(); } };
inline bool finite(double x) { return std::isfinite(x); }

}
using vpt::Case; using vpt::S;
#endif
