// C38: health and status messages come out of the queue, filter and log once, in order, bounded.
// vpt: extra=ms-utils/simulation/hs/TsHsMsgStdFilter.cpp,ms-utils/simulation/hs/TsHsStdMngr.cpp,ms-utils/simulation/hs/TsHsTextPlugin.cpp,ms-utils/simulation/hs/TsHsConsolePlugin.cpp,ms-utils/simulation/hs/TsHsOutputPlugin.cpp
#include "vpt.hh"
#include "simulation/hs/TsHsMsgQueue.hh"
#include "simulation/hs/TsHsMsgFilter.hh"
#include "simulation/hs/TsHsMsgStdFilter.hh"
#include "simulation/hs/TsHsPluginConfig.hh"
#include "simulation/hs/TsHsOutputPlugin.hh"
#include "simulation/hs/TsHsTextPlugin.hh"
#include "simulation/hs/TsHsConsolePlugin.hh"
#include "simulation/hs/TsHsConfig.hh"
#include "simulation/hs/TsHsTermination.hh"
#include "simulation/hs/TsHsMngr.hh"
#include "simulation/hs/TsHsStdMngr.hh"
#include "simulation/hs/TsHsMsg.hh"
#include "simulation/hs/TsHsMsgWrapper.hh"
#include "simulation/timer/TS_timer.c"
#include <atomic>
#include <cstdarg>
#include <cmath>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>
using namespace vpt;
static int gPublished = 0;
extern "C" int message_publish(int, const char*, ...) { ++gPublished; return 0; }
class VptFriend {};

struct M { std::string file, func, sub, text; int line; TS_HS_MSG_TYPE type; double t; };
static const char* SUBS[] = {TS_HS_ECLSS, TS_HS_EPS, TS_HS_GUNNS, "ABCDEFGHIJKL", "ABCDEFGHIJKLMNOP", ""};
static M genMsg(Case& c, int variety) {
    M m; m.file = std::string("f") + char('a' + c.i(0, std::min(variety, 2))); m.func = c.b(0.3) ? "" : std::string("g") + char('a' + c.i(0, 1)); m.sub = SUBS[c.i(0, 5)]; m.text = c.b(0.1) ? std::string(size_t(c.i(0, 300)), 'x') : S() << "text " << c.i(0, variety);
    m.line = c.i(1, 2); m.type = TS_HS_MSG_TYPE(c.i(0, 4)); m.t = 0.; return m;
}
static TS_TIMER_TYPE met(double t) { TS_TIMER_TYPE x = {0, 0, 0, 0, 0, t, 0}; TS_timer_update(&x, 0.); return x; }

FACET(queue, 3000, 60000, "messages were lost to overflow or the queue was resized while holding messages") {
    int cap = c.i(-1, 6); bool blocking = c.b(0.5); TsHsMsgQueue q(cap, blocking); std::deque<M> model; cap = std::max(cap, 1); int lost = 0, serial = 0; bool special = false; std::vector<std::string> log;
    c.check(q.isEmpty() && !q.isFull() && q.getSize() == 0 && q.getCapacity() == cap && q.getBlocking() == blocking, "fresh", "a new queue is not empty");
    const int n = c.i(1, 40);
    for (int i = 0; i < n; ++i) {
        const int op = c.weighted({6, 4, 1, 1});
        if (op == 0) { M m = genMsg(c, 3); m.t = ++serial; m.text += S() << " #" << serial; q.insertMsg(m.file, m.line, m.func, m.type, m.sub, m.text, met(m.t), 1000ul + serial); if (int(model.size()) == cap) { model.pop_front(); ++lost; special = true; } model.push_back(m); }
        else if (op == 1) { TsHsMsgQueueNode d; const bool got = q.removeMsg(d); c.check(got == !model.empty(), "remove", S() << "removal " << (got ? "gave a message from an empty queue" : "found nothing")); if (got) { const M m = model.front(); model.pop_front(); c.check(d.mText == m.text && d.mFile == m.file && d.mLine == m.line && d.mFunction == m.func && d.mType == m.type && d.mSubsys == m.sub && d.mMet.seconds == m.t && d.mTimestamp == 1000ul + (unsigned long)m.t, "order", S() << "got \"" << d.mText << "\" (" << d.mFile << ":" << d.mLine << ") instead of \"" << m.text << "\""); } }
        else if (op == 2) { const int k = c.i(-1, 8); blocking = c.b(0.5); q.initialize(k, blocking); special = special || !model.empty(); cap = std::max(k, 1); while (int(model.size()) > cap) { model.pop_front(); ++lost; } }
        else { blocking = c.b(0.5); q.setBlocking(blocking); }
        c.log() << (op == 0 ? "insert" : op == 1 ? "remove" : op == 2 ? "resize" : "blocking") << " -> " << model.size() << "/" << cap;
        c.check(q.getSize() == int(model.size()), "size", S() << "size " << q.getSize() << " with " << model.size() << " messages"); c.check(q.getCapacity() == cap, "capacity", S() << q.getCapacity() << " instead of " << cap);
        c.check(q.isEmpty() == model.empty() && q.isFull() == (int(model.size()) == cap), "full", "empty or full flag"); c.check(q.getOverflows() == lost, "overflows", S() << q.getOverflows() << " overflows counted, " << lost << " messages dropped"); c.check(q.getLockFailures() == 0, "lock", "lock failures in one thread"); c.check(q.getBlocking() == blocking, "blocking", "blocking flag");
    }
    if (special) c.nontrivial();
}

struct Model { // the documented filter: at most `count` showings of one message within `interval`, at most `history` messages remembered
    bool on = true; unsigned types = 0; int interval = 60, count = 2, history = 25, seen = 0, cut = 0; std::map<std::string, std::deque<double> > mem; bool bumped = false, tie = false;
    bool send(double t, const M& m) {
        if (!on) return true; ++seen; if (types >> m.type & 1u) { ++cut; return false; }
        const std::string key = S() << m.file << "|" << m.line << "|" << m.sub << "|" << m.text; std::map<std::string, std::deque<double> >::iterator it = mem.find(key);
        if (it == mem.end()) { while (int(mem.size()) >= history) { std::map<std::string, std::deque<double> >::iterator o = mem.begin(); int same = 0; for (std::map<std::string, std::deque<double> >::iterator j = mem.begin(); j != mem.end(); ++j) if (j->second.back() < o->second.back()) o = j; for (std::map<std::string, std::deque<double> >::iterator j = mem.begin(); j != mem.end(); ++j) same += j->second.back() == o->second.back(); tie = tie || same > 1; mem.erase(o); bumped = true; } mem[key].push_back(t); return true; }
        while (!it->second.empty() && it->second.front() < t - interval) it->second.pop_front(); if (int(it->second.size()) < count) { it->second.push_back(t); return true; } ++cut; return false;
    }
};

FACET(filter, 4000, 80000, "at least one repeat was suppressed") {
    TsHsMsgStdFilter f; Model m; std::vector<M> sent; double t = c.r(-100., 100.); const bool blocking = c.b(0.5); f.setBlocking(blocking); const int n = c.i(1, 60), variety = c.i(0, 6); const bool shift = c.b(0.3); bool cutRepeat = false; int sets = 0;
    for (int i = 0; i < n; ++i) {
        const int op = c.weighted({30, 1, 1, 2, 1, 1, 1, 1});
        if (op == 0) { t += c.b(0.3) ? c.i(0, 3) : c.r(0.001, 3.); if (c.b(0.2)) for (std::map<std::string, std::deque<double> >::const_iterator j = m.mem.begin(); j != m.mem.end(); ++j) { const double e = j->second.front() + m.interval + (c.b() ? 1. : -1.) * c.lr(1e-5, 1e-2); if (e > t && c.b(0.7)) { t = e; break; } }
            M x = genMsg(c, variety); if (shift) { static const char* F[] = {"f", "f1"}; static const int L[] = {2, 12, 23}; static const char* B[] = {"EPS", "3EPS", "EPSx"}; static const char* T[] = {"xhot", "hot"}; x.file = F[c.i(0, 1)]; x.line = L[c.i(0, 2)]; x.sub = B[c.i(0, 2)]; x.text = T[c.i(0, 1)]; } const int cut = m.cut; const bool want = m.send(t, x), got = f.shouldSendMessage(t, x.file, x.line, x.type, x.sub, x.text); if (m.tie) { c.label("tie for the oldest"); break; }
            c.log() << "t " << t << " type " << x.type << " " << x.file << ":" << x.line << " " << x.sub << " \"" << x.text.substr(0, 12) << "\" -> " << (want ? "send" : "suppress"); if (m.cut > cut && !(m.types >> x.type & 1u)) cutRepeat = true;
            c.check(got == want, "decision", S() << "message at " << t << " s is " << (got ? "sent" : "suppressed") << " (interval " << m.interval << ", count " << m.count << ", history " << m.history << ")"); }
        else if (op == 1) { const int k = c.i(-1, 20); f.setInterval(k); if (k > 0) m.interval = k; ++sets; c.log() << "interval " << k; }
        else if (op == 2) { const int k = c.i(-1, 4); f.setCount(k); if (k > 0) m.count = k; c.log() << "count " << k; }
        else if (op == 3) { const int k = c.i(-1, 6); f.setHistory(k); if (k > 0) m.history = k; c.log() << "history " << k; }
        else if (op == 4) { m.on = c.b(0.7); f.setEnabled(m.on); c.log() << "enabled " << m.on; }
        else if (op == 5) { const TS_HS_MSG_TYPE ty = TS_HS_MSG_TYPE(c.i(0, 4)); const bool on = c.b(0.5); f.setTypeFilter(ty, on); if (on) m.types |= 1u << ty; else m.types &= ~(1u << ty); c.log() << "type " << ty << " filtered " << on; }
        else if (op == 6) { f.restart(); m.mem.clear(); c.log() << "restart"; }
        else { f.init(); m.seen = m.cut = 0; c.log() << "init"; }
        c.check(f.getMessagesProcessed() == m.seen && f.getMessagesSuppressed() == m.cut, "counts", S() << f.getMessagesProcessed() << " processed, " << f.getMessagesSuppressed() << " suppressed; expected " << m.seen << " and " << m.cut);
        c.check(f.getInterval() == m.interval && f.getCount() == m.count && f.getHistory() == m.history && f.isEnabled() == m.on, "settings", "settings"); for (int ty = 0; ty < 5; ++ty) c.check(f.isTypeFiltered(TS_HS_MSG_TYPE(ty)) == bool(m.types >> ty & 1u), "types", S() << "type " << ty); c.check(f.getLockFailures() == 0, "lock", "lock failures in one thread");
    }
    if (m.bumped) c.label("history full"); if (cutRepeat) c.nontrivial();
}

static std::string scratch() { static std::string d; if (d.empty()) { d = S() << "/tmp/vptC38." << getpid(); }
    mkdir(d.c_str(), 0700); return d; }
static std::vector<std::string> lines(const std::string& f) { std::vector<std::string> v; std::ifstream in(f.c_str()); std::string s; while (std::getline(in, s)) v.push_back(s); return v; }
static std::string padr(std::string s, size_t n, char p = ' ') { while (s.size() < n) s += p; return s; }
static std::string padl(std::string s, size_t n) { while (s.size() < n) s = "0" + s; return s; }
// a log line, the wall clock time replaced by stars
static std::string expectLine(const M& m, const TS_TIMER_TYPE& t) {
    static const char* SEV[] = {"DBG ", "INFO", "WARN", "ERR ", "FAT "}; std::string loc = S() << m.file << ":" << m.line << " "; if (!m.func.empty()) loc += m.func + "() ";
    return std::string(SEV[m.type]) + " | " + padr(m.sub.substr(0, 12), 12) + " | " + (t.pre < 0 ? "-" : "+") + padl(S() << t.day, 3) + " " + padl(S() << t.hour, 2) + ":" + padl(S() << t.min, 2) + ":" + padl(S() << t.sec, 2) + " | * | " + padr(loc, 45) + " | " + m.text;
}
static std::string starTime(const std::string& s) { size_t p = 0; for (int i = 0; i < 3 && p != std::string::npos; ++i) p = s.find(" | ", p == 0 ? 0 : p + 1); if (p == std::string::npos) return s; const size_t e = s.find(" | ", p + 1); if (e == std::string::npos) return s; const std::string z = s.substr(p + 3, e - p - 3); bool ok = z.size() == 20 && z[4] == '-' && z[10] == 'T' && z[13] == ':' && z[19] == 'Z'; return ok ? s.substr(0, p + 3) + "*" + s.substr(e) : s; }

FACET(manager, 500, 8000, "messages were queued and at least one was suppressed") {
    const std::string log = scratch() + "/log"; TsHsConfig g; g.mTextPluginPath = log; g.mTextPluginBlockingEnabled = c.b(0.5); g.mTextPluginEnabled = c.b(0.9); g.mQueueBlockingEnabled = c.b(0.5); g.mQueueCapacity = c.i(1, 30); g.mFilterEnabled = c.b(0.8); g.mFilterBlockingEnabled = c.b(0.5); g.mRedundancyFilterInterval = c.i(1, 10); g.mRedundancyFilterCount = c.i(1, 3); g.mRedundancyFilterHistory = c.i(8, 40);
    int* cat[] = {&g.mCategoryFilterDebugEnabled, &g.mCategoryFilterInfoEnabled, &g.mCategoryFilterWarningsEnabled, &g.mCategoryFilterErrorsEnabled, &g.mCategoryFilterFatalsEnabled}; Model f; f.on = g.mFilterEnabled; f.interval = g.mRedundancyFilterInterval; f.count = g.mRedundancyFilterCount; f.history = g.mRedundancyFilterHistory; for (int i = 0; i < 5; ++i) { *cat[i] = c.b(0.2); if (*cat[i]) f.types |= 1u << i; }
    g.mTerminationSubsystems = "EPS:GUNNS"; const bool term = c.b(0.5); g.mTerminationEnabled = term; gPublished = 0;
    TS_TIMER_TYPE clk = met(c.r(-2e5, 2e5)); TS_timer_init(&clk); double now = clk.seconds; TsHsStdMngr h(g); c.check(tsGlobalHsMngr == &h, "global", "the manager did not register itself"); h.init();
    std::deque<std::pair<M, TS_TIMER_TYPE> > queue; std::vector<std::string> want; int lost = 0, requests = 0; bool immediate = true, queued = false; const int n = c.i(1, 50), variety = c.i(0, 4);
    auto out = [&](const M& x, const TS_TIMER_TYPE& t) { if (f.send(t.seconds, x) && g.mTextPluginEnabled) want.push_back(expectLine(x, t)); };
    bool helper = true;
    for (int i = 0; i < n && !f.tie; ++i) {
        const int op = immediate ? c.weighted({10, 1, 1}) : c.weighted({10, 1, 4, 1, 1});
        if (op == 0) { M x = genMsg(c, variety); const double dt = c.r(0.1, 4.); TS_timer_update(&clk, dt); now += dt; c.check(std::fabs(clk.seconds - now) < 1e-6, "clock", "clock"); ++requests; const int via = c.i(0, 4); TsHsMsg::enable();
            if (via == 0) h.msg(x.file, x.line, x.func, x.type, x.sub, x.text); else if (via == 1) tsHsSendMsgFileLine(x.file, x.line, x.func, x.type, x.sub, x.text); else if (via == 2) { TsHsMsg s(TS_HS_DEBUG, "none"); s << "old"; s.setSeverity(x.type); s.setSubsys(x.sub); s.setMessageText(x.text); s.send(x.file, x.line, x.func); } else if (via == 3) { x.text = x.text.substr(0, 200); tsHsSendMsgFileLineC(x.file.c_str(), x.line, x.func.c_str(), x.type, x.sub.c_str(), x.text.c_str()); } else { x.func = ""; const int k = c.i(-5, 99999); const std::string t = x.text; x.text = S() << t << " " << k << "%"; tsHsSendMsgFileLineFormattedC(x.file.c_str(), x.line, "zz", x.type, x.sub.c_str(), "%s %d%%", t.c_str(), k); }
            x.sub = x.sub.substr(0, 12); if (immediate) out(x, clk); else { queue.push_back(std::make_pair(x, clk)); if (int(queue.size()) > g.mQueueCapacity) { queue.pop_front(); ++lost; } queued = true; } }
        else if (op == 1) { TsHsMsg::disable(); TsHsMsg s(TS_HS_FATAL, "EPS", "no"); s.send("a", 1, "b"); s.send("a", 1, "b", "c"); tsHsSendMsgFileLine("a", 1, "b", s); tsHsSendMsgFileLine("a", 1, "b", TS_HS_FATAL, "EPS", "c"); TsHsMsg::enable(); }
        else if (immediate) { h.post_init(); immediate = false; }
        else if (op == 2) { h.inputOutputThread(); if (helper) for (; !queue.empty(); queue.pop_front()) out(queue.front().first, queue.front().second); }
        else if (op == 3) { h.freeze_init(); h.freeze(); for (; !queue.empty(); queue.pop_front()) out(queue.front().first, queue.front().second); helper = false; }
        else { h.unfreeze(); helper = true; }
        h.update(); if (f.tie) { c.label("tie for the oldest"); return; }
        const std::vector<std::string> got = lines(log); const size_t k = g.mTextPluginEnabled ? got.size() : 0; for (size_t j = 0; j < std::min(k, want.size()); ++j) c.check(starTime(got[j]) == want[j], "line", S() << "log line " << j << " is\n" << got[j] << "\ninstead of\n" << want[j]); c.check(k == want.size(), "lines", S() << k << " log lines instead of " << want.size());
        c.check(h.mRequestCount == requests, "requests", S() << h.mRequestCount << " requests counted of " << requests); c.check(h.mMsgQueue.getOverflows() == lost && h.mMsgQueue.getSize() == int(queue.size()), "queue", "queue contents");
    }
    h.shutdown(); for (; !queue.empty(); queue.pop_front()) out(queue.front().first, queue.front().second); if (f.tie) return; if (g.mTextPluginEnabled) c.check(lines(log).size() == want.size(), "shutdown", S() << "after shutdown the log has " << lines(log).size() << " lines instead of " << want.size()); c.check((gPublished > 0) == (lost > 0), "overflow-report", S() << gPublished << " reports at shutdown after " << lost << " dropped messages");
    unlink(log.c_str()); rmdir(scratch().c_str()); tsGlobalHsMngr = 0; ts_global_met_ptr = 0; if (queued && f.cut > 0) c.nontrivial();
}

FACET(threads, 60, 600, "messages arrived from at least two threads while others were removed") {
    const int producers = c.i(1, 4), per = c.i(50, 800), cap = c.b(0.5) ? c.i(1, 50) : producers * per; const bool blocking = c.b(0.6); TsHsMsgQueue q(cap, blocking); std::atomic<int> running(producers); std::vector<std::thread> t;
    for (int p = 0; p < producers; ++p) t.push_back(std::thread([&, p]() { const std::string f = S() << "p" << p; for (int i = 0; i < per; ++i) { q.insertMsg(f, i, f, TS_HS_INFO, f, S() << f << " " << i, TS_TIMER_TYPE(), i); } --running; }));
    std::vector<std::vector<int> > got(producers); std::string bad; TsHsMsgQueueNode d; auto take = [&]() { if (!q.removeMsg(d)) return false; const int p = d.mFile.size() == 2 ? d.mFile[1] - '0' : -1; if (p < 0 || p >= producers || d.mFunction != d.mFile || d.mSubsys != d.mFile || d.mText != std::string(S() << d.mFile << " " << d.mLine) || d.mTimestamp != (unsigned long)d.mLine) bad = d.mText; else got[p].push_back(d.mLine); return true; };
    int during = 0; while (running > 0) during += take(); for (size_t i = 0; i < t.size(); ++i) t[i].join(); while (take()) {}
    int n = 0; for (int p = 0; p < producers; ++p) { n += int(got[p].size()); for (size_t i = 1; i < got[p].size(); ++i) c.check(got[p][i] > got[p][i - 1], "order", S() << "message " << got[p][i] << " of one thread came out after " << got[p][i - 1]); }
    c.check(bad.empty(), "torn", S() << "fields of different messages are mixed: " << bad); const int total = producers * per;
    if (blocking) { c.check(q.getLockFailures() == 0, "lock", "lock failures while blocking"); c.check(n + q.getOverflows() == total, "lost", S() << n << " messages delivered and " << q.getOverflows() << " overwritten of " << total); }
    else c.check(n + q.getOverflows() + q.getLockFailures() <= total && n + q.getOverflows() > 0, "duplicated", S() << n << " delivered, " << q.getOverflows() << " overwritten, " << q.getLockFailures() << " refused of " << total);
    if (cap == total) c.check(q.getOverflows() == 0, "overflow", "overflow below the capacity"); c.check(q.isEmpty(), "drained", "not drained"); if (producers > 1 && during > 0) c.nontrivial();
}

FACET(termination, 1000, 10000, "a listed subsystem was asked about") {
    static const char* N[] = {"EPS", "ECLSS", "GUNNS", "EP", "CTNS"}; static const char* D[] = {":", ",", ";", " ", ", ", " : "}; TsHsTermination t; std::set<std::string> m; const bool on = c.b(0.8); t.setEnabled(on); const int n = c.i(1, 15); bool hit = false;
    for (int i = 0; i < n; ++i) { const int op = c.i(0, 3); if (op <= 1) { std::string s; std::vector<std::string> names; const int k = c.i(0, 4); if (c.b(0.3)) s += D[c.i(0, 5)]; for (int j = 0; j < k; ++j) { names.push_back(N[c.i(0, 4)]); s += names.back(); if (j + 1 < k || c.b(0.3)) s += D[c.i(0, 5)]; } if (op == 0) { t.setFatalToMultipleSubsystems(s); m.clear(); } else t.appendFatalToMultipleSubsystems(s); m.insert(names.begin(), names.end()); } else if (op == 2) { const std::string s = N[c.i(0, 4)]; const bool f = c.b(0.5); t.setFatalToSubsystem(s, f); if (f) m.insert(s); else m.erase(s); }
        const std::string s = N[c.i(0, 4)]; const TS_HS_MSG_TYPE ty = c.b(0.5) ? TS_HS_FATAL : TS_HS_MSG_TYPE(c.i(0, 4)); const bool fatal = on && ty == TS_HS_FATAL && m.count(s); c.check(t.msg("f", 1, "g", ty, s, "m") == !fatal, "termination", S() << s << " type " << ty << (fatal ? " does not terminate" : " terminates")); hit = hit || fatal; }
    if (hit) c.nontrivial();
}

FACET(config, 300, 3000, "always (every field of the file is generated)") {
    TsHsConfig a; int* I[] = {&a.mOverallBlocking, &a.mTerminationEnabled, &a.mQueueBlockingEnabled, &a.mQueueCapacity, &a.mTextPluginEnabled, &a.mTextPluginBlockingEnabled, &a.mTextPluginOverwriteEnabled, &a.mSqlitePluginEnabled, &a.mSqlitePluginBlockingEnabled, &a.mSqlitePluginOverwriteEnabled, &a.mConsolePluginEnabled, &a.mConsolePluginBlockingEnabled, &a.mFilterEnabled, &a.mFilterBlockingEnabled, &a.mRedundancyFilterInterval, &a.mRedundancyFilterCount, &a.mRedundancyFilterHistory, &a.mCategoryFilterDebugEnabled, &a.mCategoryFilterInfoEnabled, &a.mCategoryFilterWarningsEnabled, &a.mCategoryFilterErrorsEnabled, &a.mCategoryFilterFatalsEnabled};
    int v[22]; for (int i = 0; i < 22; ++i) v[i] = c.i(-3, 5000); const int timer = c.i(-100, 100); const std::string p = S() << "/p/t" << c.i(0, 9), q = S() << "/q/s" << c.i(0, 9), sub = "EPS:CTNS", f = scratch() + "/hsconfig.txt";
    std::string txt = S() << v[0] << " " << timer << ".5 " << v[1] << " " << sub << " " << v[2] << " " << v[3] << "\n" << v[4] << " " << v[5] << " " << v[6] << " " << p << "\n" << v[7] << " " << v[8] << " " << v[9] << " " << q << "\n" << v[10] << " " << v[11] << "\n" << v[12] << " " << v[13] << "\n" << v[14] << " " << v[15] << " " << v[16] << "\n" << v[17] << " " << v[18] << " " << v[19] << " " << v[20] << " " << v[21] << "\n";
    const bool cut = c.b(0.3); if (cut) { size_t at = size_t(c.i(0, 6)), pos = 0; for (size_t i = 0; i < at; ++i) pos = txt.find('\n', pos) + 1; txt = txt.substr(0, pos); }
    { std::ofstream o(f.c_str()); o << txt; } std::ifstream in(f.c_str()); std::streambuf* old = std::cout.rdbuf(0); const bool ok = a.loadConfigFile(in); std::cout.rdbuf(old); unlink(f.c_str()); rmdir(scratch().c_str()); c.check(ok == !cut, "load", S() << "loading a " << (cut ? "cut" : "complete") << " file gives " << ok); c.nontrivial(); if (cut) return;
    const TsHsConfig b(a); for (int i = 0; i < 22; ++i) c.check(*I[i] == v[i], "field", S() << "field " << i << " is " << *I[i] << " instead of " << v[i]); c.check(a.mTimerSeconds == (timer < 0 ? timer - 0.5 : timer + 0.5) && a.mTextPluginPath == p && a.mSqlitePluginPath == q && a.mTerminationSubsystems == sub, "field", "timer or paths");
    const int* J[] = {&b.mOverallBlocking, &b.mTerminationEnabled, &b.mQueueBlockingEnabled, &b.mQueueCapacity, &b.mTextPluginEnabled, &b.mTextPluginBlockingEnabled, &b.mTextPluginOverwriteEnabled, &b.mSqlitePluginEnabled, &b.mSqlitePluginBlockingEnabled, &b.mSqlitePluginOverwriteEnabled, &b.mConsolePluginEnabled, &b.mConsolePluginBlockingEnabled, &b.mFilterEnabled, &b.mFilterBlockingEnabled, &b.mRedundancyFilterInterval, &b.mRedundancyFilterCount, &b.mRedundancyFilterHistory, &b.mCategoryFilterDebugEnabled, &b.mCategoryFilterInfoEnabled, &b.mCategoryFilterWarningsEnabled, &b.mCategoryFilterErrorsEnabled, &b.mCategoryFilterFatalsEnabled}; for (int i = 0; i < 22; ++i) c.check(*J[i] == v[i], "copy", S() << "copied field " << i);
}

FACET(clock, 3000, 30000, "the time before launch is over an hour") {
    const double t0 = c.sr(1., 3e6); TS_TIMER_TYPE k = {0, 0, 0, 0, 0, t0, 0}; TS_timer_init(&k); double t = t0; const int n = c.i(0, 8);
    for (int i = 0; i <= n; ++i) { if (i) { const double dt = c.lr(0.01, 1e5); k.hold = c.b(0.2); TS_timer_update(&k, dt); if (!k.hold) t += dt; } c.checkNear(k.seconds, t, 0., 1e-9 * std::fabs(t), "elapsed", "mission time"); const long s = long(std::fabs(k.seconds)); c.check(k.pre == (k.seconds < 0. ? -1 : 1), "sign", "pre-launch flag");
        c.check(k.day == s / 86400 && k.hour == s / 3600 % 24 && k.min == s / 60 % 60 && k.sec == s % 60, "fields", S() << k.seconds << " s is shown as " << (k.pre < 0 ? "-" : "+") << k.day << " " << k.hour << ":" << k.min << ":" << k.sec); if (k.seconds < -3600.) c.nontrivial(); }
    c.check(ts_global_met_ptr == &k, "global", "clock not registered"); ts_global_met_ptr = 0;
}
