#include "mc.hh"
#include <cstdarg>
#include <algorithm>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

namespace mc {
namespace {
struct Scenario { std::string name; std::function<void()> body; int minTier; };
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
std::vector<std::string>& assumptions() { static std::vector<std::string> s; return s; }
std::vector<std::string>& boundsText() { static std::vector<std::string> s; return s; }

const int MAXCH = 100000;
struct Shm {                                  // one per worker, visible to the parent
    volatile long execs; volatile int scenario; volatile int nch; volatile int done; volatile long beat;
    int ch[MAXCH];
};
Shm* shm = 0;
volatile int* stopFlag = 0;
bool isThorough = false;

// state of the current execution
std::vector<int> seq, width; size_t pos = 0, fixedLen = 0;
bool splitting = false, splitDone = true; long splitProd = 1; uint64_t splitHash = 0; int workerId = 0, nWorkers = 1;
bool replaying = false, traceOn = false; std::string traceBuf;
// totals of this worker
long nExec = 0, nTrans = 0, nPruned = 0, nCut = 0, nValid = 0, maxDepth = 0; bool capped = false;
std::unordered_set<uint64_t> states; std::unordered_map<uint64_t, int> cutTab; std::set<std::string> outcomes;
std::vector<std::string> samples; std::set<std::string> knownHits; std::map<std::string, std::string> knownList;
std::string propId;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
std::string vfmt(const char* f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); return b; }
std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (size_t k = 0; k < s.size(); k++) { unsigned char c = s[k];
        if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
}

bool tracing() { return traceOn; }
void trace(const char* f, ...) { if (!traceOn || traceBuf.size() > 200000) return; va_list ap; va_start(ap, f); traceBuf += vfmt(f, ap); traceBuf += '\n'; va_end(ap); }
static int sticky = 0; static std::string stickyMsg;   // the outcome stands even if the code under test swallows the exception
void fail(const char* f, ...) { va_list ap; va_start(ap, f); Violation v; v.what = vfmt(f, ap); va_end(ap); if (sticky != 1) { sticky = 1; stickyMsg = v.what; } throw v; }
void prune() { if (!sticky) sticky = 3; throw Prune(); }
void step(long n) { nTrans += n; if (shm) shm->beat = shm->beat + 1; }
void validated(long n) { nValid += n; }
void state(uint64_t h) { if (states.size() < 20000000) states.insert(h); }
void outcome(const std::string& o) { if (outcomes.size() < 100000) outcomes.insert(o); }
bool thorough() { return isThorough; }
int tierPick(int q, int t) { return isThorough ? t : q; }
bool near(double a, double b, double rel, double abs) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
void known(const std::string& key, const std::string& what) {
    std::map<std::string, std::string>::iterator it = knownList.find(key);
    if (it == knownList.end()) fail("%s [%s]", what.c_str(), key.c_str());
    knownHits.insert(key);
}
bool cut(uint64_t h, int remaining) {
    state(h);
    if (replaying || pos < fixedLen) return false;   // a prefix that was explored before
    if (splitting && !splitDone) return false;
    std::unordered_map<uint64_t, int>::iterator it = cutTab.find(h);
    if (it != cutTab.end() && it->second >= remaining) { nCut++; return true; }
    cutTab[h] = remaining; return false;
}
int choose(int n, const char* label) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
    int c;
    if (n == 1) { c = 0; return c; }
    if (pos < seq.size()) {
        c = seq[pos];
        if (c >= n || (pos < width.size() && width[pos] != n && !replaying)) { fprintf(stderr, "mc: replay diverged at choice %zu (%d of %d, was %d)\n", pos, c, n, pos < width.size() ? width[pos] : -1); _exit(77); }
        if (pos >= width.size()) width.push_back(n);
    } else { c = 0; seq.push_back(0); width.push_back(n); }
    if (shm && pos < (size_t)MAXCH) { shm->ch[pos] = c; shm->nch = (int)pos + 1; }
    pos++;
    if ((long)pos > maxDepth) maxDepth = pos;
    if (label && traceOn) trace("  choose %s: %d of %d", label, c, n);
    if (splitting && !splitDone) {
        splitProd *= n; splitHash = Hash().raw(splitHash).i(c).h;
        if (splitProd >= 64 * nWorkers) { splitDone = true; if ((int)(splitHash % nWorkers) != workerId) { sticky = 2; throw Skip(); } }
    }
    return c;
}
void add(const std::string& name, std::function<void()> body, int minTier) { Scenario s; s.name = name; s.body = body; s.minTier = minTier; scenarios().push_back(s); }
void assume(const std::string& t) { assumptions().push_back(t); }
void bounds(const std::string& t) { boundsText().push_back(t); }

namespace {
// 0 ok, 1 violation, 2 skip, 3 pruned
int oneExec(Scenario& s, std::string& msg) {
    pos = 0; splitProd = 1; splitHash = 0; splitDone = !splitting; traceBuf.clear(); sticky = 0;
    if (shm) { shm->nch = 0; shm->execs = shm->execs + 1; }
    int r = 0;
    try { s.body(); }
    catch (Violation& v) { msg = v.what; r = 1; }
    catch (Skip&) { r = 2; }
    catch (Prune&) { r = 3; }
    catch (std::exception& e) { int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); msg = std::string("exception escaped: ") + (d ? d : "?") + ": " + e.what(); free(d); r = 1; }
    catch (...) { msg = "unknown exception escaped"; r = 1; }
    if (sticky && r == 0) { r = sticky; msg = stickyMsg; }
    // an execution that ended before the split point belongs to one worker only
    if (r != 2 && splitting && !splitDone && (int)(splitHash % nWorkers) != workerId) r = 2;
    return r;
}
struct Result { long e, t, p, c, v, d; bool capped; };

void worker(int id, int n, const std::vector<int>& list, const std::string& out, double deadline) {
    workerId = id; nWorkers = n; splitting = true;
    int viol = -1; std::string vmsg; std::vector<int> vseq;
    for (size_t k = 0; k < list.size() && viol < 0; k++) {
        Scenario& s = scenarios()[list[k]]; shm->scenario = list[k];
        cutTab.clear(); seq.clear(); width.clear(); fixedLen = 0; long mine = 0;
        for (;;) {
            if (*stopFlag) break;
            traceOn = (mine == 0 || mine == 17 || mine == 1001) && samples.size() < 6;
            seq.resize(fixedLen);
            if (width.size() > fixedLen) width.resize(fixedLen);
            std::string msg; int r = oneExec(s, msg);
            if (pos < seq.size()) { fprintf(stderr, "mc: nondeterministic scenario %s: execution ended after %zu of %zu prefix choices\n", s.name.c_str(), pos, seq.size()); _exit(77); }
            if (r == 0) { nExec++; mine++; if (traceOn) { std::string t = s.name + ": choices"; for (size_t q = 0; q < seq.size() && q < 60; q++) t += " " + std::to_string(seq[q]); if (!traceBuf.empty()) t += "\n" + traceBuf.substr(0, 1500); samples.push_back(t); } }
            else if (r == 3) nPruned++;
            else if (r == 1) { viol = list[k]; vmsg = msg; vseq = seq; *stopFlag = 1; break; }
            if (now() > deadline) { capped = true; break; }
            while (!seq.empty() && seq.back() + 1 >= width.back()) { seq.pop_back(); width.pop_back(); }
            if (seq.empty()) break;
            seq.back()++; fixedLen = seq.size();
        }
    }
    std::ofstream o(out.c_str(), std::ios::binary);
    o << nExec << ' ' << nTrans << ' ' << nPruned << ' ' << nCut << ' ' << nValid << ' ' << maxDepth << ' ' << capped << ' ' << viol << '\n';
    o << samples.size() << '\n'; for (size_t k = 0; k < samples.size(); k++) { o << samples[k].size() << '\n' << samples[k] << '\n'; }
    o << outcomes.size() << '\n'; for (std::set<std::string>::iterator i = outcomes.begin(); i != outcomes.end(); ++i) o << i->size() << '\n' << *i << '\n';
    o << knownHits.size() << '\n'; for (std::set<std::string>::iterator i = knownHits.begin(); i != knownHits.end(); ++i) o << i->size() << '\n' << *i << '\n';
    o << vmsg.size() << '\n' << vmsg << '\n' << vseq.size() << '\n'; for (size_t k = 0; k < vseq.size(); k++) o << vseq[k] << ' ';
    o << '\n' << states.size() << '\n'; for (std::unordered_set<uint64_t>::iterator i = states.begin(); i != states.end(); ++i) { uint64_t v = *i; o.write((char*)&v, 8); }
    o.close(); shm->done = 1;
    fflush(0); _exit(0);
}
std::string rdStr(std::istream& i) { size_t n = 0; i >> n; i.get(); std::string s(n, 0); if (n) i.read(&s[0], n); return s; }

// Runs one choice sequence in a child; returns true if it fails, with what happened.
bool replayChild(int scen, const std::vector<int>& ch, std::string& what, std::string& tr, int limit) {
    int p[2]; if (pipe(p)) return false;
    fflush(0); pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("MC_SHOW")) dup2(dn, 2);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(limit);
        shm = 0; splitting = false; replaying = true; traceOn = true; seq = ch; width.clear(); fixedLen = seq.size();
        std::string msg; int r = oneExec(scenarios()[scen], msg);
        std::string o = std::string(r == 1 ? "F" + msg : std::string("O")) + std::string(1, (char)0) + traceBuf;
        size_t w = 0; while (w < o.size()) { ssize_t k = write(p[1], o.data() + w, o.size() - w); if (k <= 0) break; w += k; }
        _exit(0);
    }
    close(p[1]); std::string b; char buf[4096]; ssize_t k;
    while ((k = read(p[0], buf, sizeof buf)) > 0) b.append(buf, k);
    close(p[0]); int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { what = WTERMSIG(st) == SIGALRM ? "the code under test does not terminate" : std::string("crash: signal ") + strsignal(WTERMSIG(st)); return true; }
    if (WEXITSTATUS(st) == 77) { what = "replay diverged"; return false; }
    if (WEXITSTATUS(st) != 0) { what = "crash: exit status " + std::to_string(WEXITSTATUS(st)); return true; }
    size_t z = b.find('\0'); if (z == std::string::npos) { what = "no answer"; return false; }
    tr = b.substr(z + 1); what = b.substr(1, z - 1);
    return b[0] == 'F';
}
}

int run(int argc, char** argv, const char* property) {
    propId = property; double t0 = now();
    std::string replay, only; const char* tier = getenv("VERIF_TIER"); isThorough = tier && !strcmp(tier, "thorough");
    std::string root = getenv("MC_ROOT") ? getenv("MC_ROOT") : "/verif"; bool list = false;
    int jobs = getenv("MC_JOBS") ? atoi(getenv("MC_JOBS")) : 8;
    for (int k = 1; k < argc; k++) { std::string a = argv[k];
        if (a == "--replay" && k + 1 < argc) replay = argv[++k]; else if (a == "--tier" && k + 1 < argc) isThorough = !strcmp(argv[++k], "thorough");
        else if (a == "--only" && k + 1 < argc) only = argv[++k]; else if (a == "--list") list = true; }
    { std::ifstream kf((root + "/known_findings.txt").c_str()); std::string l;
      while (std::getline(kf, l)) { std::string pre = std::string("finding: property=") + property + " key="; if (l.compare(0, pre.size(), pre) == 0) { size_t e = l.find(' ', pre.size()); knownList[l.substr(pre.size(), e - pre.size())] = e == std::string::npos ? "" : l.substr(e + 1); } } }
    std::vector<int> todo;
    for (size_t k = 0; k < scenarios().size(); k++) if (scenarios()[k].minTier <= (isThorough ? 1 : 0) && (only.empty() || scenarios()[k].name == only)) todo.push_back(k);
    if (list) { for (size_t k = 0; k < scenarios().size(); k++) printf("%s\n", scenarios()[k].name.c_str()); return 0; }
    if (!replay.empty()) {
        std::ifstream f(replay.c_str()); std::string l, sc; std::vector<int> ch;
        while (std::getline(f, l)) { if (l.compare(0, 10, "scenario: ") == 0) sc = l.substr(10);
            if (l.compare(0, 6, "tier: ") == 0) isThorough = l.substr(6) == "thorough";
            if (l.compare(0, 8, "choices:") == 0) { std::istringstream is(l.substr(8)); int c; while (is >> c) ch.push_back(c); } }
        for (size_t k = 0; k < scenarios().size(); k++) if (scenarios()[k].name == sc) {
            std::string w, tr; bool bad = replayChild(k, ch, w, tr, 120);
            printf("%s", tr.c_str()); printf(bad ? "FAILED: %s\n" : "passed %s\n", w.c_str());
            if (bad) printf("VIOLATION property=%s replay=%s\n", property, replay.c_str());
            return bad ? 1 : 0; }
        fprintf(stderr, "no scenario '%s'\n", sc.c_str()); return 2;
    }
    unlink((root + "/replays/" + property + ".txt").c_str());
    double limit = getenv("MC_LIMIT") ? atof(getenv("MC_LIMIT")) : (isThorough ? 3000 : 600);
    char tmpl[] = "/tmp/mc.XXXXXX"; std::string dir = mkdtemp(tmpl);
    Shm* all = (Shm*)mmap(0, sizeof(Shm) * jobs + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    stopFlag = (volatile int*)((char*)all + sizeof(Shm) * jobs);
    std::vector<pid_t> pids(jobs); std::vector<int> status(jobs, -1); fflush(0);
    for (int w = 0; w < jobs; w++) { pid_t p = fork(); if (p == 0) {
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("MC_SHOW")) { std::string e = dir + "/err" + std::to_string(w); int ef = open(e.c_str(), O_WRONLY | O_CREAT, 0600); dup2(ef, 2); }
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); struct rlimit fs = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &fs);
            shm = all + w; worker(w, jobs, todo, dir + "/r" + std::to_string(w), t0 + limit); }
        pids[w] = p; }
    int hangLimit = getenv("MC_HANG") ? atoi(getenv("MC_HANG")) : 40;
    std::vector<double> seenT(jobs, now()); std::vector<long> seenE(jobs, -1); int left = jobs; int bad = -1; bool hung = false; std::vector<char> killed(jobs, 0);
    while (left) {
        for (int w = 0; w < jobs; w++) if (status[w] < 0) { int st; if (waitpid(pids[w], &st, WNOHANG) == pids[w]) { status[w] = st; left--;
                if ((WIFSIGNALED(st) || WEXITSTATUS(st)) && !killed[w]) { if (bad < 0) { bad = w; } *stopFlag = 1; } }
            else { long b = all[w].beat + all[w].execs; if (b != seenE[w]) { seenE[w] = b; seenT[w] = now(); }
                else if (now() - seenT[w] > hangLimit && !all[w].done) { kill(pids[w], SIGKILL); killed[w] = 1; if (bad < 0) { bad = w; hung = true; } *stopFlag = 1; seenT[w] = now() + 1e9; } } }
        if (left) usleep(2000);
    }
    Result T = {0, 0, 0, 0, 0, 0, false}; std::vector<std::string> smp; std::set<std::string> outs, kn; std::unordered_set<uint64_t> st;
    int vs = -1; std::string vm; std::vector<int> vq;
    for (int w = 0; w < jobs; w++) { std::ifstream i((dir + "/r" + std::to_string(w)).c_str(), std::ios::binary); if (!i) continue;
        Result r; int v; i >> r.e >> r.t >> r.p >> r.c >> r.v >> r.d >> r.capped >> v;
        T.e += r.e; T.t += r.t; T.p += r.p; T.c += r.c; T.v += r.v; T.d = std::max(T.d, r.d); T.capped |= r.capped;
        int n; i >> n; while (n-- > 0) { std::string s = rdStr(i); if (smp.size() < 8) smp.push_back(s); }
        i >> n; while (n-- > 0) outs.insert(rdStr(i));
        i >> n; while (n-- > 0) kn.insert(rdStr(i));
        std::string m = rdStr(i); size_t q; i >> q; std::vector<int> sq(q); for (size_t k = 0; k < q; k++) i >> sq[k];
        if (v >= 0 && (vs < 0 || sq.size() < vq.size())) { vs = v; vm = m; vq = sq; }
        i >> q; i.get(); for (size_t k = 0; k < q; k++) { uint64_t h; i.read((char*)&h, 8); if (!i) break; st.insert(h); } }
    std::string err; int rc = 0;
    if (vs < 0 && bad >= 0) {
        if (!hung && WIFEXITED(status[bad]) && WEXITSTATUS(status[bad]) == 77) { vs = all[bad].scenario; vq.assign(all[bad].ch, all[bad].ch + std::min((int)all[bad].nch, MAXCH)); vm = "the same choices gave different behaviour in two executions: the code depends on memory contents or on state that outlives its objects"; std::ifstream e((dir + "/err" + std::to_string(bad)).c_str()); std::string l; while (std::getline(e, l)) vm += "\n" + l; }
        else { vs = all[bad].scenario; vq.assign(all[bad].ch, all[bad].ch + std::min((int)all[bad].nch, MAXCH)); vm = hung ? "the code under test does not terminate" : "crash";
            std::ifstream e((dir + "/err" + std::to_string(bad)).c_str()); std::string l; int n = 0; while (std::getline(e, l) && n++ < 40) vm += "\n" + l; }
    }
    std::string rp;
    if (vs >= 0) {
        std::string w1, t1, w2, t2; bool b1 = replayChild(vs, vq, w1, t1, 100), b2 = replayChild(vs, vq, w2, t2, 100);
        if (!b1 && !b2 && (hung || vm.empty())) { err = "a failure did not replay: " + vm + " / " + w1 + " / " + w2 + " scenario " + scenarios()[vs].name; for (size_t k = 0; k < vq.size(); k++) err += " " + std::to_string(vq[k]); vs = -1; }
        else { if (!b1) { w1 = b2 ? w2 : vm + " (not reproduced when replayed alone: depends on memory contents)"; } mkdir((root + "/replays").c_str(), 0777); rp = root + "/replays/" + property + ".txt"; std::ofstream o(rp.c_str());
            o << "property: " << property << "\ntier: " << (isThorough ? "thorough" : "quick") << "\nscenario: " << scenarios()[vs].name << "\nchoices:"; for (size_t k = 0; k < vq.size(); k++) o << ' ' << vq[k];
            o << "\nmessage: " << w1 << "\nfirst seen as: " << vm << "\n\n" << t1; }
    }
    { std::string cmd = dir; for (int w = 0; w < jobs; w++) { unlink((dir + "/r" + std::to_string(w)).c_str()); unlink((dir + "/err" + std::to_string(w)).c_str()); } rmdir(dir.c_str()); }
    double wall = now() - t0;
    mkdir((root + "/evidence").c_str(), 0777);
    std::ofstream ev((root + "/evidence/" + property + ".json").c_str());
    ev << "{\n \"property\": " << jstr(property) << ",\n \"tier\": \"" << (isThorough ? "thorough" : "quick") << "\",\n \"seed\": " << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0)
       << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << st.size() << ",\n  \"transitions\": " << T.t << ",\n  \"traces_validated_against_impl\": " << T.e + T.v
       << ",\n  \"pruned_out_of_domain\": " << T.p << ",\n  \"cut_at_known_state\": " << T.c << ",\n  \"distinct_outcomes\": " << outs.size() << ",\n  \"longest_choice_sequence\": " << T.d
       << ",\n  \"exhaustive\": " << (T.capped || bad >= 0 || vs >= 0 ? "false" : "true") << ",\n  \"time_cap_hit\": " << (T.capped ? "true" : "false") << ",\n  \"bounds\": [";
    for (size_t k = 0; k < boundsText().size(); k++) ev << (k ? ", " : "") << jstr(boundsText()[k]);
    ev << "],\n  \"scenarios\": ["; for (size_t k = 0; k < todo.size(); k++) ev << (k ? ", " : "") << jstr(scenarios()[todo[k]].name);
    ev << "],\n  \"samples\": ["; for (size_t k = 0; k < smp.size(); k++) ev << (k ? ", " : "") << jstr(smp[k]);
    ev << "]\n },\n \"assumptions\": ["; for (size_t k = 0; k < assumptions().size(); k++) ev << (k ? ", " : "") << jstr(assumptions()[k]);
    ev << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (vs >= 0 ? 1 : 0) << "\n}\n"; ev.close();
    printf("%s: %ld executions, %ld transitions, %zu states, %ld pruned, %ld cut, %zu outcomes, depth %ld, %.1f s%s\n", property, T.e, T.t, st.size(), T.p, T.c, outs.size(), T.d, wall, T.capped ? " (time cap hit)" : "");
    for (std::set<std::string>::iterator i = kn.begin(); i != kn.end(); ++i) printf("KNOWN-FINDING: property=%s %s %s\n", property, i->c_str(), knownList[*i].c_str());
    if (!err.empty()) { printf("ERROR: %s\n", err.c_str()); return 2; }
    if (vs >= 0) { printf("scenario %s: %s\nVIOLATION property=%s replay=%s\n", scenarios()[vs].name.c_str(), vm.c_str(), property, rp.c_str()); rc = 1; }
    else if (T.e == 0) { printf("ERROR: nothing was explored\n"); rc = 2; }
    return rc;
}
}
