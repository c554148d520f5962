// mc: hflags=-fno-access-control extra=ms-utils/simulation/hs/TsHsStdMngr.cpp,ms-utils/simulation/hs/TsHsMsgStdFilter.cpp,ms-utils/simulation/hs/TsHsTextPlugin.cpp,ms-utils/simulation/hs/TsHsConsolePlugin.cpp,ms-utils/simulation/timer/TS_timer.c ld=-Wl,--wrap=pthread_mutex_init,--wrap=pthread_mutex_destroy,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock
// C71: health-and-status messages: every message sent is delivered once to every output that works, or held back for
// exactly the reasons its filters state, under every sequence and every thread interleaving.
#include "mc.hh"
#include "conc.hh"
#include "conc.cc"
#include "simulation/hs/TsHsStdMngr.hh"
#include "simulation/hs/TsHsMsg.hh"
#include "simulation/hs/TsHsMsgWrapper.hh"
#include "simulation/hs/TsHsTextPlugin.hh"
#include "simulation/hs/TsHsConsolePlugin.hh"
#include "simulation/timer/TS_timer.h"
#include <cstdarg>
#include <cfloat>
#include <cmath>
#include <deque>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
typedef std::string Str;
static std::vector<Str> published;
extern "C" int message_publish(int, const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); published.push_back(b); return 0; }
static void scratch() {
    static Str d; if (d.empty()) { d = "/dev/shm/mc71." + std::to_string(getpid()); }
    std::filesystem::remove_all(d); std::filesystem::create_directories(d); if (chdir(d.c_str())) fail("scratch directory");
}
static void scratchEnd() { if (chdir("/")) return; std::filesystem::remove_all("/dev/shm/mc71." + std::to_string(getpid())); }

// ---------- the filter ----------
struct Sent { const char* file; int line; const char* sub; const char* text; };
static const Sent MSGS[] = {{"f", 1, "s", "a"}, {"f", 1, "s", "b"}, {"f", 2, "s", "a"}, {"f", 1, "t", "a"}, {"g", 1, "s", "a"}};
struct Ref {   // what the filter may remember: texts and the times they were passed on
    std::map<int, std::deque<double>> m;
    bool operator<(const Ref& o) const { return m < o.m; }
};
// all the filters that may result from a message, with what they decide
static void step1(const Ref& r, int k, double t, int interval, int count, int history, std::set<Ref>& pass, std::set<Ref>& hold) {
    Ref n = r; auto i = n.m.find(k);
    if (i != n.m.end()) {
        while (!i->second.empty() && i->second.front() < t - interval) i->second.pop_front();
        if ((int)i->second.size() < count) { i->second.push_back(t); pass.insert(n); } else hold.insert(n);
        return;
    }
    std::set<Ref> cur; cur.insert(n);
    for (;;) {   // the one whose last time is the oldest makes room
        std::set<Ref> next; bool more = false;
        for (const Ref& c : cur) { if ((int)c.m.size() < history) { next.insert(c); continue; } more = true; double old = DBL_MAX; for (auto& e : c.m) old = std::min(old, e.second.back()); for (auto& e : c.m) if (e.second.back() == old) { Ref d = c; d.m.erase(e.first); next.insert(d); } }
        cur = next; if (!more) break;
    }
    for (Ref c : cur) { c.m[k].push_back(t); pass.insert(c); }
}
static void filterWith(bool all) {
    static const int IV[] = {1, 3}, CO[] = {1, 2}, HI[] = {1, 2, 3};
    TsHsMsgStdFilter f; int interval = pick(IV, "interval"), count = pick(CO, "count"), history = pick(HI, "history"); bool enabled = true, blockingMode = all && flip("blocking"); int types = 0, processed = 0, suppressed = 0;
    f.setInterval(interval); f.setCount(count); f.setHistory(history); f.setBlocking(blockingMode); f.init();
    std::set<Ref> may; may.insert(Ref()); double t = -2.0; const int D = all ? tierPick(4, 5) : tierPick(5, 7);
    for (int d = 0; d < D; d++) {
        int e = choose(all ? 10 : 5, "event"); mc::step();
        if (e < 5) {
            static const double DT[] = {0.43, 0, 0.71, 6}; t += d == 0 ? 0.43 : DT[choose(e == 0 ? 4 : e == 1 ? 2 : 1, "time")]; const Sent& s = MSGS[e]; auto type = e == 1 ? TS_HS_INFO : TS_HS_ERROR;
            bool got = f.shouldSendMessage(t, s.file, s.line, type, s.sub, s.text);
            if (!enabled) MC_CHECK(got, "a disabled filter holds a message back");
            else {
                processed++;
                if (types >> type & 1) { suppressed++; MC_CHECK(!got, "a message of a filtered type passes"); }
                else {
                    std::set<Ref> pass, hold; for (const Ref& r : may) step1(r, e, t, interval, count, history, pass, hold);
                    may = got ? pass : hold; suppressed += !got;
                    MC_CHECK(!may.empty(), "message %d at %g is %s (interval %d, count %d, history %d)", e, t, got ? "passed on" : "held back", interval, count, history);
                }
            }
        }
        else if (e == 5) { TS_HS_MSG_TYPE y = flip("info") ? TS_HS_INFO : TS_HS_FATAL; bool on = !(types >> y & 1); f.setTypeFilter(y, on); types ^= 1 << y; }
        else if (e == 6) { enabled = !enabled; f.setEnabled(enabled); }
        else if (e == 7) { f.restart(); may.clear(); may.insert(Ref()); }
        else if (e == 8) { static const int BAD[] = {0, -1}; int b = pick(BAD, "bad"); f.setInterval(b); f.setCount(b); f.setHistory(b); }
        else { history = history == 1 ? 2 : 1; f.setHistory(history); }
        MC_CHECK(f.getMessagesProcessed() == processed && f.getMessagesSuppressed() == suppressed, "%d messages processed and %d suppressed, expected %d and %d", f.getMessagesProcessed(), f.getMessagesSuppressed(), processed, suppressed);
        MC_CHECK(f.getInterval() == interval && f.getCount() == count && f.getHistory() == history && f.getLockFailures() == 0, "the filter's settings change by themselves");
        for (int y = 0; y < 5; y++) MC_CHECK(f.isTypeFiltered((TS_HS_MSG_TYPE)y) == (types >> y & 1), "type %d is %sfiltered", y, types >> y & 1 ? "not " : "");
    }
    validated();
}

// ---------- the manager ----------
struct Got { Str file; int line; Str func; TS_HS_MSG_TYPE type; Str sub; double met; Str text; };
struct Recorder : TsHsOutputPlugin {
    std::vector<Got> got; int failAt, updateOk, inits, shut, restarts; Recorder(int id) : TsHsOutputPlugin(id), failAt(-1), updateOk(true), inits(0), shut(0), restarts(0) {}
    bool init() override { inits++; return true; } bool update() override { return updateOk; } void shutdown() override { shut++; } bool restart() override { restarts++; return true; }
    bool msg(const Str& f, const int l, const Str& g, TS_HS_MSG_TYPE y, const Str& s, const TS_TIMER_TYPE& m, unsigned long, const Str& x) override { got.push_back({f, l, g, y, s, m.seconds, x}); return (int)got.size() != failAt; }
};
static TsHsConfig config(int capacity, bool queueBlocks, bool filterBlocks, bool redundancy) {
    TsHsConfig c; c.mTextPluginEnabled = c.mConsolePluginEnabled = c.mSqlitePluginEnabled = 0; c.mQueueCapacity = capacity; c.mQueueBlockingEnabled = queueBlocks; c.mFilterBlockingEnabled = filterBlocks; c.mFilterEnabled = 1; c.mRedundancyFilterInterval = 2; c.mRedundancyFilterCount = redundancy ? 1 : 1000; c.mRedundancyFilterHistory = 20;
    c.mCategoryFilterDebugEnabled = 1; c.mCategoryFilterInfoEnabled = c.mCategoryFilterWarningsEnabled = c.mCategoryFilterErrorsEnabled = c.mCategoryFilterFatalsEnabled = 0; c.mTerminationEnabled = 0; return c;
}
static Str lineOf(const Got& g) { std::ostringstream o; o << g.file << "|" << g.line << "|" << g.func << "|" << g.type << "|" << g.sub << "|" << g.met << "|" << g.text; return o.str(); }
static void manager() {
    static const int CAPS[] = {1, 2, 50}; int cap = pick(CAPS, "capacity"); bool redundancy = flip("redundancy filter");
    TsHsConfig c = config(cap, true, true, redundancy); c.mQueueCapacity = cap; TsHsStdMngr m(c); Recorder* p[2]; for (int i = 0; i < 2; i++) m.mPluginMngr.add(p[i] = new Recorder(10 + i));
    MC_CHECK(tsGlobalHsMngr == &m && m.mPluginMngr.getPlugin(11) == p[1] && m.mPluginMngr.getPlugin(77) == 0, "the manager isn't known"); m.init();
    TS_TIMER_TYPE met; memset(&met, 0, sizeof met); met.pre = 1; met.seconds = 100; ts_global_met_ptr = flip("mission time") ? &met : 0;
    bool immediate = true, helper = true, shut = false; std::deque<Got> queue; std::vector<Got> want[2]; bool on[2] = {true, true}; std::map<Str, double> last; int over = 0, requests = 0;
    auto deliver = [&](const Got& g) {
        if (g.type == TS_HS_DEBUG) return;
        Str k = g.file + "|" + std::to_string(g.line) + "|" + g.sub + "|" + g.text; if (redundancy && last.count(k) && last[k] >= g.met - 2) return; last[k] = g.met;
        for (int i = 0; i < 2; i++) if (on[i]) { want[i].push_back(g); if ((int)want[i].size() == p[i]->failAt) on[i] = false; }
    };
    auto drain = [&]() { while (!queue.empty()) { deliver(queue.front()); queue.pop_front(); } };
    const int D = tierPick(4, 5); int line = 0; if (flip("started")) { m.post_init(); immediate = false; }
    for (int d = 0; d < D && !shut; d++) {
        int e = choose(11, "event"); mc::step();
        if (e < 4) {
            const Str longSub = "ABCDEFGHIJKLMNOP"; Got g; g.file = "file.cpp"; g.line = e == 3 ? ++line : 7; g.func = "fn"; g.type = e == 2 ? TS_HS_DEBUG : TS_HS_ERROR; g.sub = e == 1 ? longSub.substr(0, 12) : "ECLSS"; g.text = e == 1 ? "two" : "one"; g.met = ts_global_met_ptr ? met.seconds : -9999.0; Str sub = e == 1 ? longSub : g.sub;
            switch (e == 0 && d == 0 ? choose(4, "way") : 0) {   // every way to send
                case 0: m.msg(g.file, g.line, g.func, g.type, sub, g.text); break;
                case 1: tsHsSendMsgFileLine(g.file, g.line, g.func, g.type, sub, g.text); break;
                case 2: { TsHsMsg x(g.type, sub); x << "o" << "ne"; x.send(g.file, g.line, g.func); break; }
                default: tsHsSendMsgFileLineC(g.file.c_str(), g.line, g.func.c_str(), g.type, sub.c_str(), g.text.c_str()); }
            requests++; if (immediate) deliver(g); else { queue.push_back(g); if ((int)queue.size() > cap) { queue.pop_front(); over++; } }
        }
        else if (e == 4) { m.post_init(); immediate = false; }
        else if (e == 5) { m.inputOutputThread(); if (helper) drain(); }
        else if (e == 6) { if (helper) { m.freeze_init(); helper = false; } else { m.unfreeze(); helper = true; } }
        else if (e == 7) { m.freeze(); drain(); }
        else if (e == 8) { p[0]->failAt = (int)p[0]->got.size() + 1; }
        else if (e == 9) { met.seconds += 1.5; if (flip("update")) { p[1]->updateOk = false; m.update(); on[1] = false; } }
        else { m.shutdown(); drain(); shut = true; }
        MC_CHECK(m.mRequestCount == requests && m.mMsgQueue.getSize() == (int)queue.size() && m.mMsgQueue.getOverflows() == over, "%d requests, %d queued, %d lost; expected %d, %zu and %d", m.mRequestCount, m.mMsgQueue.getSize(), m.mMsgQueue.getOverflows(), requests, queue.size(), over);
        for (int i = 0; i < 2; i++) {
            MC_CHECK(p[i]->isEnabled() == on[i], "output %d is %s", i, on[i] ? "off" : "on"); MC_CHECK(p[i]->shut == (shut && on[i]), "output %d is shut down %d times", i, p[i]->shut);
            MC_CHECK(p[i]->got.size() == want[i].size(), "output %d got %zu messages, expected %zu", i, p[i]->got.size(), want[i].size());
            for (size_t k = 0; k < want[i].size(); k++) MC_CHECK(lineOf(p[i]->got[k]) == lineOf(want[i][k]), "output %d's message %zu is %s, expected %s", i, k, lineOf(p[i]->got[k]).c_str(), lineOf(want[i][k]).c_str());
        }
    }
    ts_global_met_ptr = 0; tsGlobalHsMngr = 0; validated();
}

// ---------- threads ----------
static void threads(bool queueBlocks, bool filterBlocks, int cap, const std::vector<Str>& prog, int preempt) {
    TsHsStdMngr m(config(cap, queueBlocks, filterBlocks, false)); Recorder* p = new Recorder(10); m.mPluginMngr.add(p); ts_global_met_ptr = 0;
    if (prog[0][0] != 'M') m.post_init();
    std::vector<std::function<void()>> bodies; int sent = 0;
    for (size_t t = 0; t < prog.size(); t++) { for (char c : prog[t]) sent += c == 'm';
        bodies.push_back([&, t]() { int n = 0; for (char c : prog[t]) switch (c) {
            case 'm': m.msg("f" + std::to_string(t), n, "g", TS_HS_ERROR, "s" + std::to_string(t), "x" + std::to_string(10 * t + n)); n++; break;
            case 'h': m.inputOutputThread(); break; case 'f': m.freeze_init(); m.freeze(); m.unfreeze(); break; case 's': m.shutdown(); break; default: break; } }); }
    conc::run(bodies, preempt, false);
    bool consumers = false; int nc = 0; for (const Str& s : prog) nc += s.find_first_of("hfs") != Str::npos; consumers = nc > 1;
    m.shutdown(); std::map<Str, int> seen; std::map<int, int> next; Str sum;
    for (const Got& g : p->got) {
        int t = g.file.at(1) - '0'; MC_CHECK(g.sub == "s" + std::to_string(t) && g.text == "x" + std::to_string(10 * t + g.line) && g.func == "g", "a delivered message mixes two: %s", lineOf(g).c_str());
        MC_CHECK(!seen[g.text]++, "message %s is delivered twice", g.text.c_str()); sum += g.text + " ";
        if (!consumers && prog[0][0] != 'M') { MC_CHECK(!next.count(t) || g.line > next[t], "thread %d's messages are delivered out of order", t); next[t] = g.line; }
    }
    int lost = m.mMsgQueue.getOverflows() + m.mMsgQueue.getLockFailures() + m.mMsgFilter.getLockFailures(); outcome(sum + std::to_string(lost)); state(Hash().s(sum).i(lost).h);
    MC_CHECK((int)p->got.size() + lost == sent && m.mMsgQueue.isEmpty(), "%d messages sent, %zu delivered and %d counted as lost", sent, p->got.size(), lost);
    if (queueBlocks && filterBlocks && cap >= sent) MC_CHECK(lost == 0, "%d messages lost with blocking queue and filter", lost);
    MC_CHECK(m.mMsgFilter.getMessagesProcessed() == (int)p->got.size(), "the filter processed %d messages, %zu were delivered", m.mMsgFilter.getMessagesProcessed(), p->got.size());
    tsGlobalHsMngr = 0; validated();
}

// ---------- log lines ----------
static void logs() {
    scratch(); bool console = flip("console"); std::unique_ptr<TsHsOutputPlugin> p; TsHsPluginConfig c; c.mEnabled = true; c.mOverwrite = true; c.mBlocking = flip("blocking"); c.mPath = "hs.out"; const bool bad = !console && flip("no such directory"); if (bad) c.mPath = "nowhere/hs.out";
    if (console) p.reset(new TsHsConsolePlugin(2)); else p.reset(new TsHsTextPlugin(0));
    { std::ofstream old("hs.out"); old << "old\n"; } p->configure(c);
    std::ostringstream cap; auto* was = std::cout.rdbuf(); if (console) std::cout.rdbuf(cap.rdbuf());
    bool ok = p->init(); if (ok == bad) { std::cout.rdbuf(was); fail("the output %s without its file", bad ? "starts" : "doesn't start"); } if (bad) { scratchEnd(); validated(); return; }
    Str want; static const char* TAG[] = {"DBG ", "INFO", "WARN", "ERR ", "FAT "}; const int D = 2; bool on = true;
    for (int d = 0; d < D; d++) {
        int ty = choose(5, "type"); bool fn = flip("function"), lng = flip("long"); static const double SEC[] = {0, 59, 3661, 200000, -3661, -90061}; TS_TIMER_TYPE met; memset(&met, 0, sizeof met); met.seconds = pick(SEC, "time"); TS_timer_update(&met, 0); unsigned long when = d ? 86400ul * 365 + 3723 : 951782399ul;   // 1971-01-01 01:02:03, 2000-02-28 23:59:59
        if (d && choose(3, "switch") == 0) { on = !on; p->setEnabled(on); }
        bool r = p->msg(lng ? "a/very/long/path/to/some/source/file/of/the/model.cpp" : "f.cpp", 12 + d, fn ? "fun" : "", (TS_HS_MSG_TYPE)ty, "ECLSS", met, when, "text of message"); mc::step();
        long s = std::lround(std::fabs(met.seconds)); char b[400]; Str loc = (lng ? Str("a/very/long/path/to/some/source/file/of/the/model.cpp") : Str("f.cpp")) + ":" + std::to_string(12 + d) + " " + (fn ? "fun() " : "");
        snprintf(b, sizeof b, "%s | %-12s | %c%03ld %02ld:%02ld:%02ld | %s | %-45s | %s\n", TAG[ty], "ECLSS", met.seconds < 0 ? '-' : '+', s / 86400, s / 3600 % 24, s / 60 % 60, s % 60, d ? "1971-01-01T01:02:03Z" : "2000-02-28T23:59:59Z", loc.c_str(), "text of message");
        if (on) want += b; if (!r) { std::cout.rdbuf(was); fail("the output refuses a message"); }
    }
    p->shutdown(); std::cout.rdbuf(was); Str got; if (console) got = cap.str(); else { std::ifstream f("hs.out"); std::ostringstream o; o << f.rdbuf(); got = o.str(); }
    MC_CHECK(got == want, "the log reads\n%s expected\n%s", got.c_str(), want.c_str()); scratchEnd(); validated();
}

// ---------- mission timer ----------
static void timer() {
    static const double START[] = {0, -1, -59, -60, -3600, -3661, -86400, -90061, -172799.5, 59.5, 3599, 86399, 359999}, DT[] = {0.5, 1, 61, 3600, 86400.5};
    TS_TIMER_TYPE t; memset(&t, 0, sizeof t); t.seconds = START[choose(13, "start")]; double s = t.seconds; t.hold = flip("hold"); TS_timer_init(&t); MC_CHECK(ts_global_met_ptr == &t, "the mission time isn't shared");
    const int D = tierPick(3, 5);
    for (int d = 0; d <= D; d++) {
        long a = (long)std::fabs(s); mc::step();
        MC_CHECK(t.seconds == s, "timer is at %.9g s, expected %.9g", t.seconds, s); MC_CHECK(t.pre == (s < 0 ? -1 : 1), "launch flag %d at %g s", t.pre, s);
        MC_CHECK(t.day == a / 86400 && t.hour == a / 3600 % 24 && t.min == a / 60 % 60 && t.sec == a % 60, "%.9g s shows as %d %d:%d:%d", s, t.day, t.hour, t.min, t.sec);
        if (d == D) break; int e = choose(6, "step"); if (e == 5) { t.hold = !t.hold; continue; } TS_timer_update(&t, DT[e]); if (!t.hold) s += DT[e];
    }
    ts_global_met_ptr = 0; validated(); state(Hash().d(s).h);
}

// ---------- termination ----------
static void termination() {
    static const char* NAMES[] = {"A", "BB", "A2"}; static const char* SEP[] = {",", " ", "; ", "::,"}; TsHsTermination t; std::set<Str> on; bool enabled = true; const int D = tierPick(2, 3);
    for (int d = 0; d < D; d++) {
        int e = choose(4, "event"); mc::step();
        if (e == 0 || e == 3) { int mask = choose(8, "names"); Str s = flip("lead") ? " ," : ""; const char* sep = pick(SEP, "separator"); if (e == 0) on.clear(); for (int i = 0; i < 3; i++) if (mask >> i & 1) { s += Str(NAMES[i]) + sep; on.insert(NAMES[i]); } if (e == 0) t.setFatalToMultipleSubsystems(s); else t.appendFatalToMultipleSubsystems(s); }
        else if (e == 1) { int i = choose(3, "name"); bool f = !on.count(NAMES[i]); t.setFatalToSubsystem(NAMES[i], f); if (f) on.insert(NAMES[i]); else on.erase(NAMES[i]); }
        else { enabled = !enabled; t.setEnabled(enabled); }
        for (int i = 0; i < 3; i++) for (int y = 0; y < 5; y++) { bool goes = t.msg("f", 1, "g", (TS_HS_MSG_TYPE)y, NAMES[i], "x"); MC_CHECK(goes == !(enabled && y == TS_HS_FATAL && on.count(NAMES[i])), "a message of type %d of %s %s the simulation", y, NAMES[i], goes ? "doesn't end" : "ends"); }
        MC_CHECK(t.msg("f", 1, "g", TS_HS_FATAL, "", "x") && t.msg("f", 1, "g", TS_HS_FATAL, "AB", "x"), "an unlisted subsystem ends the simulation");
    }
    validated();
}

// ---------- configuration ----------
static void configFile() {
    scratch(); int where = choose(3, "file"); int cut = choose(8, "line cut"); bool env = flip("path override"); TsHsConfig def;   // no file, here, in a configured directory
    static const char* LINES[] = {"0 2.5 0 A,B 0 77", "0 0 0 my.out", "0 0 0 my.sqlite", "1 1", "0 0", "9 8 7", "0 0 1 0 0"};
    unsetenv("HS_CONFIG_PATH"); unsetenv("USS_HS_TEXT_PATH"); unsetenv("USS_HS_SQLITE_PATH"); if (env) setenv("USS_HS_TEXT_PATH", "/over/ride", 1);
    if (where) { Str dir = where == 2 ? "sub/" : ""; if (where == 2) { mkdir("sub", 0700); setenv("HS_CONFIG_PATH", "sub", 1); } std::ofstream f(dir + "hsconfig.txt"); for (int i = 0; i < 7; i++) { Str l = LINES[i]; if (i == cut - 1) { f << l.substr(0, l.rfind(' ')); break; } f << l << "\n"; } }
    TsHsConfig c; std::streambuf* was = std::cout.rdbuf(); std::ostringstream quiet; std::cout.rdbuf(quiet.rdbuf()); bool ok = c.getConfigInfo(); std::cout.rdbuf(was); mc::step(); bool want = !where || cut == 0; int n = !where ? 0 : cut ? cut - 1 : 7;
    unsetenv("HS_CONFIG_PATH"); unsetenv("USS_HS_TEXT_PATH"); scratchEnd();
    MC_CHECK(ok == want, "a %s configuration is %s", want ? "good" : "cut", ok ? "accepted" : "refused");
    if (n > 0) MC_CHECK(c.mOverallBlocking == 0 && c.mTimerSeconds == 2.5 && c.mTerminationEnabled == 0 && c.mTerminationSubsystems == "A,B" && c.mQueueBlockingEnabled == 0 && c.mQueueCapacity == 77, "line 1 is read wrong"); else if (!where) MC_CHECK(c.mQueueCapacity == def.mQueueCapacity && c.mTerminationEnabled == def.mTerminationEnabled, "defaults change");
    if (n > 1) MC_CHECK(c.mTextPluginEnabled == 0 && c.mTextPluginBlockingEnabled == 0 && c.mTextPluginOverwriteEnabled == 0, "line 2 is read wrong");
    Str text = n > 1 ? "my.out" : def.mTextPluginPath; if (env) text = "/over/ride"; if (where == 0 || n != 1) MC_CHECK(c.mTextPluginPath == text, "text log in %s instead of %s", c.mTextPluginPath.c_str(), text.c_str());
    if (n > 2) MC_CHECK(c.mSqlitePluginEnabled == 0 && c.mSqlitePluginPath == "my.sqlite", "line 3 is read wrong");
    if (n > 3) MC_CHECK(c.mConsolePluginEnabled == 1 && c.mConsolePluginBlockingEnabled == 1, "line 4 is read wrong");
    if (n > 4) MC_CHECK(c.mFilterEnabled == 0 && c.mFilterBlockingEnabled == 0, "line 5 is read wrong");
    if (n > 5) MC_CHECK(c.mRedundancyFilterInterval == 9 && c.mRedundancyFilterCount == 8 && c.mRedundancyFilterHistory == 7, "line 6 is read wrong");
    if (n > 6) { MC_CHECK(c.mCategoryFilterDebugEnabled == 0 && c.mCategoryFilterInfoEnabled == 0 && c.mCategoryFilterWarningsEnabled == 1 && c.mCategoryFilterErrorsEnabled == 0 && c.mCategoryFilterFatalsEnabled == 0, "line 7 is read wrong");
        // and the manager is set up by it
        TsHsConfig g(c); g.mTextPluginEnabled = g.mConsolePluginEnabled = 0; TsHsStdMngr m(g); MC_CHECK(m.mMsgQueue.getCapacity() == 77 && m.mMsgFilter.getInterval() == 9 && m.mMsgFilter.getCount() == 8 && m.mMsgFilter.getHistory() == 7 && m.mMsgFilter.isTypeFiltered(TS_HS_WARNING) && !m.mMsgFilter.isTypeFiltered(TS_HS_ERROR) && !m.mMsgFilter.isTypeFiltered(TS_HS_DEBUG) && m.mTermination.isFatalToSubsystem("B"), "the manager isn't set up as configured");
        m.msg("f", 1, "g", TS_HS_FATAL, "B", "x"); tsGlobalHsMngr = 0; }
    validated();
}

int main(int argc, char** argv) {
    add("filter", [] { filterWith(true); }); add("filter memory", [] { filterWith(false); }); add("manager", manager); add("logs", logs); add("timer", timer); add("termination", termination); add("configuration", configFile);
    struct P { const char* name; bool q, f; int cap; std::vector<Str> prog; int pre, tier; };
    static const P PS[] = {
        {"queued, one reader", true, true, 10, {"mm", "mm", "hhh"}, 3, 0}, {"queued, small queue", true, true, 1, {"mm", "mm", "hhh"}, 3, 0}, {"immediate", true, true, 10, {"Mmm", "mm"}, 3, 0}, {"immediate, no waiting", false, false, 10, {"Mmm", "mm"}, 3, 0},
        {"freeze against reader", true, false, 10, {"mm", "hh", "f"}, 3, 0}, {"shutdown against reader", false, false, 2, {"mm", "hh", "s"}, 3, 0}, {"three readers", true, true, 10, {"mmm", "hh", "ff", "hh"}, 3, 1}, {"deep", true, false, 2, {"mm", "mm", "hhh", "f"}, 4, 1} };
    for (const P& x : PS) mc::add(Str("threads: ") + x.name, [x]() { threads(x.q, x.f, x.cap, x.prog, x.pre); }, x.tier);
    mc::bounds("filter histories of 4-7 events on 5 messages, interval 1 or 3, count 1-2, history 1-3; manager histories of 4-6 events, queue capacity 1, 2, 50; up to 4 threads with up to 6 messages, 3-4 preemptions at mutex operations; 2 log lines; timers from 2 days before to 4 days after launch");
    mc::assume("the times of messages don't decrease, as the filter documents; Trick's message publisher is a stand-in, and a termination is judged by the return value the manager's caller acts on");
    return mc::run(argc, argv, "C71");
}
