// Engine and runner; see vpt.hh.
// usage: harness run OUT.json        (environment: VERIF_SEED, VERIF_TIER, VPT_KNOWN, VPT_REPLAYDIR,
//                                     VPT_PROPERTY, VPT_WALL seconds, VPT_SCALE, VPT_FACET)
//        harness replay FILE         (exit 0: passes, 1: fails, 3: known, 4: discarded)
#include "vpt.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace vpt {

static std::set<std::string>& knownIds() { static std::set<std::string> s; return s; }
std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31);
}
static uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ULL;
    for (size_t k = 0; k < s.size(); ++k) { h ^= (unsigned char)s[k]; h *= 1099511628211ULL; } return h; }

Case::Case(uint64_t seed, std::vector<uint64_t>*, uint64_t* shared, uint64_t cap)
    : mFixed(0), mShared(shared), mSharedCap(cap), mNontrivial(false) {
    uint64_t x = seed; mState[0] = splitmix(x); mState[1] = splitmix(x); mLog << std::setprecision(17); if (mShared) mShared[0] = 0; }
Case::Case(const std::vector<uint64_t>& fixed) : mFixed(&fixed), mShared(0), mSharedCap(0), mNontrivial(false) { mState[0] = mState[1] = 1; mLog << std::setprecision(17); }

uint64_t Case::rng() { // xoroshiro128+
    const uint64_t s0 = mState[0]; uint64_t s1 = mState[1]; const uint64_t r = s0 + s1; s1 ^= s0;
    mState[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16); mState[1] = (s1 << 37) | (s1 >> 27); return r; }

uint64_t Case::raw(uint64_t n) {
    uint64_t v;
    if (mFixed) { v = mRec.size() < mFixed->size() ? (*mFixed)[mRec.size()] : 0; if (n && v >= n) v = n - 1; }
    else { v = rng(); if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64); }
    mRec.push_back(v);
    if (mShared && mRec.size() < mSharedCap) { mShared[mRec.size()] = v; mShared[0] = mRec.size(); }
    if (mRec.size() > 2000000) throw Discard();
    return v;
}
int Case::i(int lo, int hi) { if (hi <= lo) return lo; return (int)(lo + (long long)raw((uint64_t)((long long)hi - lo + 1))); }
bool Case::b(double p) { return raw(1000000) >= (uint64_t)(1000000 * (1. - p)); }
double Case::u() { return (double)raw(1ULL << 40) / (double)(1ULL << 40); }
double Case::r(double lo, double hi) {
    switch (raw(8)) {
        case 0: return lo + (hi - lo) * (double)raw(11) / 10.;
        case 1: return raw(2) ? hi : lo;
        default: return lo + (hi - lo) * u();
    }
}
double Case::lr(double lo, double hi) {
    switch (raw(12)) {
        case 0: { double a = std::ceil(std::log10(lo)), z = std::floor(std::log10(hi)); if (z < a) return lo;
                  double v = std::pow(10., a + (double)raw((uint64_t)(z - a) + 1)); return std::min(hi, std::max(lo, v)); }
        case 1: return raw(2) ? hi : lo;
        default: return std::min(hi, std::max(lo, std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * u())));
    }
}
double Case::sr(double lo, double hi) { switch (raw(5)) { case 0: return 0.; case 1: case 2: return lr(lo, hi); default: return -lr(lo, hi); } }
int Case::weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x; int v = (int)raw(t), k = 0;
    for (int x : w) { if (v < x) return k; v -= x; ++k; } return 0; }
std::string Case::str(int maxlen, const char* al) { int n = i(0, maxlen); size_t L = std::strlen(al); std::string s;
    for (int k = 0; k < n; ++k) s += al[raw(L)]; return s; }
void Case::fail(const std::string& tag, const std::string& msg) { throw Failure{tag, msg}; }
bool Case::near(double a, double b, double rel, double abs) const {
    if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
void Case::checkNear(double a, double b, double rel, double abs, const char* tag, const std::string& what) {
    if (!near(a, b, rel, abs)) fail(tag, S() << what << ": got " << a << " expected " << b << " (diff " << a - b << ", rel tol " << rel << ", abs tol " << abs << ")"); }
bool Case::isKnown(const std::string& id) const { return knownIds().count(id) > 0; }
void Case::known(const std::string& id) { throw Known{id}; }

// ---------------------------------------------------------------------------------------------------
enum Kind { PASS = 0, FAIL = 1, KNOWN = 3, DISCARD = 4 };
struct Outcome { int kind; std::string tag, msg, log; std::vector<uint64_t> rec; std::set<std::string> labels; bool nontrivial = false; };

static Outcome runCase(const Facet& f, Case& c) {
    Outcome o; o.kind = PASS;
    try { f.fn(c); }
    catch (Failure& e) { o.kind = FAIL; o.tag = e.tag; o.msg = e.msg; }
    catch (Known& k) { o.kind = KNOWN; o.tag = k.id; }
    catch (Discard&) { o.kind = DISCARD; }
    catch (std::exception& e) { o.kind = FAIL; o.tag = "escaped-exception"; o.msg = e.what(); }
    catch (...) { o.kind = FAIL; o.tag = "escaped-exception"; o.msg = "unknown type"; }
    o.rec = c.mRec; o.labels = c.mLabels; o.nontrivial = c.mNontrivial; o.log = c.mLog.str();
    return o;
}

static void quietOutput(const char* errfile) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1);
    if (errfile) { int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); close(e); } else dup2(n, 2);
    close(n);
}
static void onHang(int) { _exit(77); }
static void armHang(double sec) {
    struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)sec; t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
    setitimer(ITIMER_PROF, &t, 0);
}
static void limitMemory() {
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit l; l.rlim_cur = l.rlim_max = 6ULL << 30; setrlimit(RLIMIT_DATA, &l);
#endif
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string slurp(const std::string& p, size_t cap) { std::ifstream f(p.c_str(), std::ios::binary); std::string s; char c; while (s.size() < cap && f.get(c)) s += c; return s; }

// Runs one fixed choice sequence in a child; outcome through a pipe.
static void wr(int fd, const std::string& s) { uint64_t n = s.size(); if (write(fd, &n, 8) != 8) _exit(9); size_t o = 0; while (o < n) { ssize_t k = write(fd, s.data() + o, n - o); if (k <= 0) _exit(9); o += k; } }
static bool rd(int fd, void* p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = read(fd, (char*)p + o, n - o); if (k <= 0) return false; o += k; } return true; }
static bool rds(int fd, std::string& s) { uint64_t n; if (!rd(fd, &n, 8) || n > (1ULL << 30)) return false; s.resize(n); return n == 0 || rd(fd, &s[0], n); }

static Outcome runForked(const Facet& f, const std::vector<uint64_t>& seq) {
    Outcome o; int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
    std::string errf = std::string("/tmp/vpt.err.") + std::to_string(getpid());
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); quietOutput(errf.c_str()); signal(SIGPROF, onHang); limitMemory(); armHang(f.cpu);
        Case c(seq); Outcome x = runCase(f, c);
        wr(p[1], std::string(1, (char)('0' + x.kind))); wr(p[1], x.tag); wr(p[1], x.msg); wr(p[1], x.log);
        wr(p[1], std::string((const char*)x.rec.data(), x.rec.size() * 8)); _exit(0);
    }
    close(p[1]);
    std::string k, r; bool ok = rds(p[0], k) && rds(p[0], o.tag) && rds(p[0], o.msg) && rds(p[0], o.log) && rds(p[0], r);
    close(p[0]); int st; waitpid(pid, &st, 0);
    if (ok) { o.kind = k[0] - '0'; o.rec.assign((const uint64_t*)r.data(), (const uint64_t*)(r.data() + r.size())); }
    else { o.kind = FAIL; o.rec = seq; o.log.clear();
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.tag = "hang"; o.msg = "the case used more than the allowed CPU time"; }
        else if (WIFSIGNALED(st)) { o.tag = "crash"; o.msg = std::string("terminated by signal ") + std::to_string(WTERMSIG(st)) + "\n" + slurp(errf, 6000); }
        else { o.tag = "crash"; o.msg = std::string("process ended with status ") + std::to_string(WEXITSTATUS(st)) + "\n" + slurp(errf, 6000); } }
    unlink(errf.c_str());
    return o;
}

static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size(); return a < b; }

static Outcome shrink(const Facet& f, Outcome best, double budget) {
    double t0 = now(); long tries = 0; const long cap = 4000;
    auto attempt = [&](const std::vector<uint64_t>& s) -> bool {
        if (tries >= cap || now() - t0 > budget) return false; ++tries;
        Outcome o = runForked(f, s);
        std::vector<uint64_t> eff = (o.tag == "crash" || o.tag == "hang") ? s : o.rec;
        if (o.kind == FAIL && o.tag == best.tag && smaller(eff, best.rec)) { best = o; best.rec = eff; return true; }
        return false; };
    if (best.tag == "hang") return best;
    bool progress = true;
    while (progress && tries < cap && now() - t0 < budget) {
        progress = false;
        for (size_t k = best.rec.size() / 2; k >= 1; k /= 2) {             // delete blocks
            size_t pos = best.rec.size();
            while (pos > 0 && tries < cap && now() - t0 < budget) {
                size_t st = pos >= k ? pos - k : 0; std::vector<uint64_t> s = best.rec;
                if (st >= s.size()) { pos = st; continue; }
                s.erase(s.begin() + st, s.begin() + std::min(s.size(), st + k));
                if (attempt(s)) { progress = true; pos = std::min(pos, best.rec.size()); } else pos = st; }
        }
        for (size_t k = 8; k >= 1; k /= 2)                                   // zero blocks
            for (size_t st = 0; st + k <= best.rec.size() && tries < cap; st += k) {
                bool any = false; std::vector<uint64_t> s = best.rec;
                for (size_t j = st; j < st + k; ++j) { any |= s[j] != 0; s[j] = 0; }
                if (any && attempt(s)) progress = true; }
        for (size_t p = 0; p < best.rec.size() && tries < cap; ++p) {         // lower single values
            uint64_t lo = 0; 
            for (int it = 0; it < 14 && p < best.rec.size() && lo < best.rec[p]; ++it) {
                std::vector<uint64_t> s = best.rec; uint64_t mid = lo + (s[p] - lo) / 2; s[p] = mid;
                if (attempt(s)) progress = true; else lo = mid + 1; }
        }
    }
    return best;
}

static std::string esc(const std::string& s) { std::string o; char buf[8];
    for (size_t k = 0; k < s.size(); ++k) { unsigned char c = s[k];
        if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(buf, 8, "\\u%04x", c); o += buf; } else o += c; }
    return o; }

struct Shared { volatile int stop; };

static void writeReplay(const std::string& path, const std::string& prop, const Facet& f, const Outcome& o) {
    std::ofstream r(path.c_str());
    r << "property " << prop << "\nfacet " << f.name << "\ntag " << o.tag << "\nchoices " << o.rec.size();
    for (size_t k = 0; k < o.rec.size(); ++k) r << (k % 16 ? " " : "\n") << o.rec[k];
    r << "\n# message: "; for (char ch : o.msg) { r << ch; if (ch == '\n') r << "# "; }
    r << "\n# case:\n# "; for (char ch : o.log) { r << ch; if (ch == '\n') r << "# "; } r << "\n";
}

static int doReplay(const char* file) {
    std::ifstream r(file); std::string w, facet; std::vector<uint64_t> seq; size_t n = 0;
    while (r >> w) { if (w == "facet") r >> facet; else if (w == "choices") { r >> n; for (size_t k = 0; k < n; ++k) { uint64_t v; r >> v; seq.push_back(v); } break; } }
    for (Facet& f : facets()) if (f.name == facet) {
        Outcome o = runForked(f, seq);
        printf("%s\n", o.log.c_str()); printf("outcome %d tag %s: %s\n", o.kind, o.tag.c_str(), o.msg.c_str());
        return o.kind == DISCARD ? 4 : o.kind; }
    printf("no facet %s\n", facet.c_str()); return 2;
}

static const char* env(const char* n, const char* d) { const char* v = getenv(n); return v && *v ? v : d; }

int runAll(const char* out) {
    const uint64_t seed = strtoull(env("VERIF_SEED", "1"), 0, 10); const bool thorough = std::string(env("VERIF_TIER", "quick")) == "thorough";
    const std::string prop = env("VPT_PROPERTY", "X00"), rdir = env("VPT_REPLAYDIR", "/tmp"); const double wall = atof(env("VPT_WALL", thorough ? "3000" : "400"));
    const double scale = atof(env("VPT_SCALE", "1")); const std::string only = env("VPT_FACET", "");
    const int W = 8; const double t0 = now();
    std::ostringstream js; js << "{\"facets\":["; bool first = true; int violations = 0; std::map<std::string, long> knownHits; std::vector<std::string> vlines;
    for (Facet& f : facets()) {
        if (!only.empty() && f.name != only) continue;
        long N = (long)std::ceil((thorough ? f.thorough : f.quick) * scale); if (N < 1) N = 1;
        const double tf = now();
        uint64_t* slots = (uint64_t*)mmap(0, N * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);   // per-case: 0 not run, else tagged hash
        const uint64_t CAP = 200000; uint64_t* recs = (uint64_t*)mmap(0, W * (CAP + 2) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        volatile long* cur = (volatile long*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::vector<pid_t> pids(W, 0); std::vector<std::string> files(W);
        const uint64_t fseed = hashStr(f.name) ^ (seed * 0x9E3779B97F4A7C15ULL);
        for (int w = 0; w < W; ++w) {
            files[w] = rdir + "/.w" + std::to_string(getpid()) + "." + std::to_string(w);
            fflush(stdout); pid_t p = fork();
            if (p == 0) {
                quietOutput((files[w] + ".err").c_str()); signal(SIGPROF, onHang); limitMemory();
                std::map<std::string, long> labels; long known = 0, disc = 0; std::map<std::string, long> kh; std::vector<std::string> samples; Outcome bad; long badIdx = -1;
                uint64_t* sharedRec = recs + w * (CAP + 2);
                for (long k = w; k < N; k += W) {
                    if (sh->stop || now() - t0 > wall) break;
                    cur[w] = k + 1; armHang(f.cpu);
                    uint64_t x = fseed + (uint64_t)k * 0xD1B54A32D192ED03ULL; uint64_t s = splitmix(x);
                    Case c(s, 0, sharedRec, CAP); Outcome o = runCase(f, c);
                    armHang(0);
                    uint64_t h = 1469598103934665603ULL; for (uint64_t v : o.rec) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; }
                    h |= 4; h &= ~3ULL; if (o.kind == DISCARD) { ++disc; h |= 2; } else if (o.nontrivial) h |= 1;
                    slots[k] = h;
                    if (o.kind == KNOWN) { ++known; ++kh[o.tag]; }
                    for (const std::string& l : o.labels) ++labels[l];
                    if (o.nontrivial && samples.size() < 1 && o.kind == PASS) samples.push_back(o.log.substr(0, 1500));
                    if (o.kind == FAIL) { bad = o; badIdx = k; sh->stop = 1; break; }
                }
                cur[w] = 0;
                int fd = open(files[w].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                std::ostringstream os; os << disc << "\n" << labels.size() << "\n"; for (auto& l : labels) os << l.second << " " << l.first << "\n";
                os << kh.size() << "\n"; for (auto& l : kh) os << l.second << " " << l.first << "\n";
                wr(fd, os.str()); wr(fd, samples.empty() ? "" : samples[0]);
                wr(fd, std::to_string(badIdx)); wr(fd, bad.tag); wr(fd, bad.msg); wr(fd, bad.log); wr(fd, std::string((const char*)bad.rec.data(), bad.rec.size() * 8));
                close(fd); _exit(0);
            }
            pids[w] = p;
        }
        std::map<std::string, long> labels; long disc = 0; std::vector<std::string> samples; std::vector<std::pair<long, Outcome> > bads;
        for (int w = 0; w < W; ++w) {
            int st; waitpid(pids[w], &st, 0);
            if (cur[w] != 0) {        // died inside a case
                sh->stop = 1; Outcome o; o.kind = FAIL; uint64_t* sr = recs + w * (CAP + 2); o.rec.assign(sr + 1, sr + 1 + sr[0]);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77) o.tag = "hang"; else o.tag = "crash";
                o.msg = slurp(files[w] + ".err", 6000); bads.push_back(std::make_pair(cur[w] - 1, o));
            } else {
                int fd = open(files[w].c_str(), O_RDONLY); std::string a, sm, bi, bt, bm, bl, br;
                if (fd >= 0 && rds(fd, a) && rds(fd, sm) && rds(fd, bi) && rds(fd, bt) && rds(fd, bm) && rds(fd, bl) && rds(fd, br)) {
                    std::istringstream is(a); size_t n; long d; is >> d >> n; disc += d;
                    for (size_t q = 0; q < n; ++q) { long c; std::string l; is >> c; std::getline(is, l); labels[l.substr(1)] += c; }
                    is >> n; for (size_t q = 0; q < n; ++q) { long c; std::string l; is >> c; std::getline(is, l); knownHits[l.substr(1)] += c; }
                    if (!sm.empty() && samples.size() < 2) samples.push_back(sm);
                    if (bi != "-1") { Outcome o; o.kind = FAIL; o.tag = bt; o.msg = bm; o.log = bl; o.rec.assign((const uint64_t*)br.data(), (const uint64_t*)(br.data() + br.size())); bads.push_back(std::make_pair(atol(bi.c_str()), o)); }
                } else { fprintf(stderr, "worker %d of facet %s ended oddly (status %d)\n", w, f.name.c_str(), st); return 2; }
                if (fd >= 0) close(fd);
            }
            unlink(files[w].c_str()); unlink((files[w] + ".err").c_str());
        }
        long evals = 0, nontriv = 0; std::unordered_set<uint64_t> distinct;
        for (long k = 0; k < N; ++k) if (slots[k]) { ++evals; if (slots[k] & 1) { ++nontriv; distinct.insert(slots[k]); } }
        std::string vio;
        if (!bads.empty()) {
            std::sort(bads.begin(), bads.end(), [](const std::pair<long, Outcome>& a, const std::pair<long, Outcome>& b) { return a.first < b.first; });
            for (size_t q = 0; q < bads.size(); ++q) {
                Outcome o = bads[q].second; int rep = 0;
                Outcome first1 = runForked(f, o.rec); if (first1.kind == FAIL) { ++rep; o.tag = first1.tag; o.msg = first1.msg; o.log = first1.log; }
                for (int z = 0; z < 2; ++z) if (runForked(f, o.rec).kind == FAIL) ++rep;
                if (rep < 3) { fprintf(stderr, "facet %s case %ld: failure [%s] %s reproduced only %d/3 times\n", f.name.c_str(), bads[q].first, bads[q].second.tag.c_str(), bads[q].second.msg.c_str(), rep); vio = "flaky"; 
                    labels["UNREPRODUCED"]++; continue; }
                Outcome m = shrink(f, o, 40.); m = runForked(f, m.rec); if (m.kind != FAIL) m = o;
                std::string path = rdir + "/" + prop + "-" + f.name + "-" + m.tag + ".replay"; writeReplay(path, prop, f, m);
                ++violations; vlines.push_back("VIOLATION property=" + prop + " replay=" + path);
                fprintf(stderr, "facet %s case %ld FAILED [%s] %s\n---- minimal case (%zu choices)\n%s\n----\n", f.name.c_str(), bads[q].first, m.tag.c_str(), m.msg.c_str(), m.rec.size(), m.log.substr(0, 3000).c_str());
                vio = m.tag; break;
            }
        }
        if (!first) js << ","; first = false;
        js << "{\"name\":\"" << esc(f.name) << "\",\"rule\":\"" << esc(f.rule) << "\",\"planned\":" << N << ",\"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv
           << ",\"distinct_nontrivial\":" << distinct.size() << ",\"wall_s\":" << now() - tf << ",\"violation\":\"" << esc(vio) << "\",\"labels\":{";
        bool fl = true; for (auto& l : labels) { if (!fl) js << ","; fl = false; js << "\"" << esc(l.first) << "\":" << l.second; }
        js << "},\"samples\":["; for (size_t q = 0; q < samples.size(); ++q) js << (q ? "," : "") << "\"" << esc(samples[q]) << "\""; js << "]}";
        fprintf(stderr, "facet %-28s %8ld cases (%ld discarded, %zu distinct non-trivial) %6.1fs %s", f.name.c_str(), evals, disc, distinct.size(), now() - tf, vio.c_str());
        if (getenv("VPT_LABELS")) for (auto& l : labels) fprintf(stderr, " [%s %.1f%%]", l.first.c_str(), 100. * l.second / std::max(1L, evals)); fprintf(stderr, "\n");
        munmap(slots, N * 8); munmap(recs, W * (CAP + 2) * 8); munmap((void*)cur, 4096); munmap(sh, 4096);
        if (violations && !getenv("VPT_KEEPGOING")) break;
    }
    js << "],\"known\":{"; bool fk = true; for (auto& l : knownHits) { if (!fk) js << ","; fk = false; js << "\"" << esc(l.first) << "\":" << l.second; }
    js << "},\"violations\":["; for (size_t q = 0; q < vlines.size(); ++q) js << (q ? "," : "") << "\"" << esc(vlines[q]) << "\""; js << "],\"wall_s\":" << now() - t0 << "}\n";
    std::ofstream o(out); o << js.str();
    return violations ? 1 : 0;
}
}

int main(int argc, char** argv) {
    setvbuf(stdout, 0, _IONBF, 0);
    std::istringstream k(getenv("VPT_KNOWN") ? getenv("VPT_KNOWN") : ""); std::string id; while (k >> id) vpt::knownIds().insert(id);
    if (argc == 3 && std::string(argv[1]) == "replay") return vpt::doReplay(argv[2]);
    if (argc == 3 && std::string(argv[1]) == "run") return vpt::runAll(argv[2]);
    fprintf(stderr, "usage: %s run OUT.json | replay FILE\n", argv[0]); return 2;
}
