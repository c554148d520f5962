// mc: rflags=-fsanitize=thread flags=-O2 ld=-Wl,--wrap=pthread_mutex_init,--wrap=pthread_mutex_destroy,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock
// C70: the health-and-status message queue is a linearizable bounded FIFO under every interleaving, and agrees
// with a bounded deque on every operation sequence.
#include "mc.hh"
#include "conc.hh"
#include "conc.cc"
#include "simulation/hs/TsHsMsgQueue.hh"
#include <deque>
#include <memory>
#include <set>
using namespace mc;

static std::string L(int id) { return "m" + std::to_string(id); }
static void insertId(TsHsMsgQueue& q, int id) {
    TS_TIMER_TYPE met; memset(&met, 0, sizeof met); met.seconds = id * 2.5; met.day = id;
    q.insertMsg("f" + std::to_string(id), id, "g" + std::to_string(id), (TS_HS_MSG_TYPE)(id % 5), "s" + std::to_string(id), L(id), met, 1000ul + id);
}
// the id of a removed message, or a violation if its fields do not all come from one inserted message
static int idOf(const TsHsMsgQueueNode& n) {
    int id = n.mLine;
    MC_CHECK(n.mText == L(id) && n.mFile == "f" + std::to_string(id) && n.mFunction == "g" + std::to_string(id) && n.mSubsys == "s" + std::to_string(id)
             && n.mType == (TS_HS_MSG_TYPE)(id % 5) && n.mTimestamp == 1000ul + id && n.mMet.seconds == id * 2.5 && n.mMet.day == id,
             "a removed message mixes fields of different messages: line %d text '%s' file '%s' subsys '%s' time %lu", id, n.mText.c_str(), n.mFile.c_str(), n.mSubsys.c_str(), n.mTimestamp);
    return id;
}
enum { INS, REM, SKIPD };
struct Op { int kind, id; bool ok; long t0, t1; int thread; };
struct Model { std::deque<int> q; int over, skip; };

// Is there an order of the operations, consistent with their intervals, in which a bounded FIFO gives these
// results, final contents and counters?  A non-blocking insert may be skipped only when another operation overlaps it.
static bool lin(std::vector<Op>& ops, std::vector<char>& used, size_t n, Model m, int cap, bool blocking, const std::vector<int>& finalQ, int over, int skip) {
    if (n == ops.size()) return std::vector<int>(m.q.begin(), m.q.end()) == finalQ && m.over == over && m.skip == skip;
    long firstEnd = 1L << 60;
    for (size_t k = 0; k < ops.size(); k++) if (!used[k] && ops[k].t1 < firstEnd) firstEnd = ops[k].t1;
    for (size_t k = 0; k < ops.size(); k++) {
        if (used[k] || ops[k].t0 > firstEnd) continue;
        Op& o = ops[k]; used[k] = 1;
        if (o.kind == INS) {
            Model x = m; x.q.push_back(o.id); if ((int)x.q.size() > cap) { x.q.pop_front(); x.over++; }
            if (lin(ops, used, n + 1, x, cap, blocking, finalQ, over, skip)) return true;
            bool overlap = false;
            for (size_t j = 0; j < ops.size(); j++) if (j != k && ops[j].thread != o.thread && ops[j].t0 <= o.t1 && o.t0 <= ops[j].t1) overlap = true;
            if (!blocking && overlap) { Model y = m; y.skip++; if (lin(ops, used, n + 1, y, cap, blocking, finalQ, over, skip)) return true; }
        } else if (o.ok) {
            if (!m.q.empty() && m.q.front() == o.id) { Model x = m; x.q.pop_front(); if (lin(ops, used, n + 1, x, cap, blocking, finalQ, over, skip)) return true; }
        } else if (m.q.empty()) { if (lin(ops, used, n + 1, m, cap, blocking, finalQ, over, skip)) return true; }
        used[k] = 0;
    }
    return false;
}
static void concurrent(int cap, int pre, bool blocking, const std::vector<std::string>& prog, int preempt, bool fine) {
    conc::watchNew(true);
    std::unique_ptr<TsHsMsgQueue> q(new TsHsMsgQueue(cap, blocking));
    conc::watchNew(false);
    std::vector<Op> ops; int next = 1;
    for (int k = 0; k < pre; k++) { insertId(*q, next); Op o = {INS, next, true, -100 + 2 * k, -99 + 2 * k, -1}; ops.push_back(o); next++; }
    std::vector<std::vector<Op> > log(prog.size());
    std::vector<std::function<void()> > bodies;
    for (size_t t = 0; t < prog.size(); t++) {
        int base = 10 * (t + 1);
        bodies.push_back([&, t, base]() {
            int k = 0;
            for (char c : prog[t]) {
                Op o; o.thread = t; o.t0 = conc::clock(); o.ok = true; o.id = 0;
                if (c == 'i') { o.kind = INS; o.id = base + k++; insertId(*q, o.id); }
                else if (c == 'L') {           // the helper thread's / freeze job's loop: drain while not empty
                    for (int n = 0; n < 6; n++) { conc::yieldPoint(); if (q->isEmpty()) break; TsHsMsgQueueNode nd; Op r; r.thread = t; r.kind = REM; r.t0 = conc::clock(); r.ok = q->removeMsg(nd); r.t1 = conc::clock(); r.id = r.ok ? idOf(nd) : 0; log[t].push_back(r); }
                    continue;
                } else { TsHsMsgQueueNode nd; o.kind = REM; o.ok = q->removeMsg(nd); if (o.ok) o.id = idOf(nd); }
                o.t1 = conc::clock(); log[t].push_back(o);
            }
        });
    }
    conc::run(bodies, preempt, fine);
    std::string sum;
    for (size_t t = 0; t < log.size(); t++) for (size_t k = 0; k < log[t].size(); k++) {
        ops.push_back(log[t][k]); Op& o = ops.back();
        trace("  thread %zu [%ld,%ld] %s %d %s", t, o.t0, o.t1, o.kind == INS ? "insert" : "remove", o.id, o.ok ? "" : "empty");
        sum += (o.kind == INS ? "i" : o.ok ? "r" : "e") + std::to_string(o.id) + " ";
    }
    MC_CHECK(q->getSize() >= 0 && q->getSize() <= q->getCapacity(), "size %d outside 0..%d after the threads ended", q->getSize(), q->getCapacity());
    std::vector<int> fin; int sz = q->getSize(); std::string fs; int over = q->getOverflows(), skip = q->getLockFailures();
    for (int k = 0; k < sz; k++) { TsHsMsgQueueNode nd; MC_CHECK(q->removeMsg(nd), "the queue says it holds %d messages but removal %d failed", sz, k); fin.push_back(idOf(nd)); fs += std::to_string(fin.back()) + " "; }
    TsHsMsgQueueNode nd; MC_CHECK(!q->removeMsg(nd), "the queue returned more messages than its size (extra id %d)", nd.mLine);
    outcome(sum + "| " + fs + "| " + std::to_string(over) + " " + std::to_string(skip));
    state(Hash().s(sum).s(fs).i(over).i(skip).h);
    std::vector<char> used(ops.size(), 0); Model m; m.over = m.skip = 0;
    int c = cap < 1 ? 1 : cap;
    MC_CHECK(lin(ops, used, 0, m, c, blocking, fin, over, skip), "history is not a bounded FIFO's: %s left %s overflows %d skipped %d (capacity %d)", sum.c_str(), fs.c_str(), over, skip, c);
}
// every operation sequence against a deque
static void sequential(int depth) {
    static const int caps[] = {1, 2, 3, 0, -1, 4};
    int cap = pick(caps, "capacity"); bool blocking = flip("blocking");
    std::unique_ptr<TsHsMsgQueue> q; int ccap = cap < 1 ? 1 : cap;
    if (flip("default constructor + initialize")) { q.reset(new TsHsMsgQueue()); MC_CHECK(q->getCapacity() == 0 && q->getSize() == 0, "default queue not empty"); q->initialize(cap, blocking); }
    else q.reset(new TsHsMsgQueue(cap, blocking));
    std::deque<int> ref; int over = 0, next = 1; uint64_t lay = 0;
    for (int d = 0; d < depth; d++) {
        int op = choose(7, "op"); step();
        if (op == 0) { insertId(*q, next); ref.push_back(next++); if ((int)ref.size() > ccap) { ref.pop_front(); over++; } }
        else if (op == 1) { TsHsMsgQueueNode n; bool ok = q->removeMsg(n); MC_CHECK(ok == !ref.empty(), "remove returned %d with %zu messages queued", ok, ref.size());
            if (ok) { int id = idOf(n); MC_CHECK(id == ref.front(), "removed message %d, oldest is %d", id, ref.front()); ref.pop_front(); } }
        else if (op == 2) { blocking = !blocking; q->setBlocking(blocking); }
        else { static const int nc[] = {1, 3, 0, 2}; int c2 = nc[op - 3]; q->initialize(c2, blocking); ccap = c2 < 1 ? 1 : c2; while ((int)ref.size() > ccap) { ref.pop_front(); over++; } }
        trace("  op %d: size %d capacity %d", op, q->getSize(), q->getCapacity());
        MC_CHECK(q->getSize() == (int)ref.size(), "size %d, expected %zu", q->getSize(), ref.size());
        MC_CHECK(q->isEmpty() == ref.empty(), "isEmpty %d with %zu messages", q->isEmpty(), ref.size());
        MC_CHECK(q->isFull() == ((int)ref.size() == ccap), "isFull %d with %zu of %d messages", q->isFull(), ref.size(), ccap);
        MC_CHECK(q->getCapacity() == ccap, "capacity %d, expected %d", q->getCapacity(), ccap);
        MC_CHECK(q->getOverflows() == over, "overflow count %d, expected %d", q->getOverflows(), over);
        MC_CHECK(q->getLockFailures() == 0, "lock failures %d with one thread", q->getLockFailures());
        MC_CHECK(q->getBlocking() == blocking, "blocking flag lost");
        state(Hash().i(ref.size()).i(ccap).i(blocking).i(over).i(next).h);
    }
    while (!ref.empty()) { TsHsMsgQueueNode n; MC_CHECK(q->removeMsg(n) && idOf(n) == ref.front(), "drain: message %d missing or out of order (got %d)", ref.front(), n.mLine); ref.pop_front(); }
    TsHsMsgQueueNode n; MC_CHECK(!q->removeMsg(n), "drain: extra message %d", n.mLine);
}
int main(int c, char** v) {
    bounds("2-3 threads, 1-3 queue operations each, capacity 1-2, blocking and non-blocking, 0-2 messages preloaded; a scheduling point at every access to the queue object and its nodes and at every mutex operation; preemption bound 2 (quick) / 3 (thorough); every complete history checked by brute-force linearizability against a bounded FIFO");
    bounds("sequential: every sequence of insert, remove, blocking toggle, resize to 0/1/2/3 up to depth 6 (quick) / 7 (thorough) from 6 capacities");
    assume("sequentially consistent memory; std::string internals are atomic with respect to the scheduler; message text short enough for in-place strings");
    static const char* progs[][3] = {
        {"r", "r", ""}, {"i", "r", ""}, {"i", "i", ""}, {"ir", "r", ""}, {"ii", "rr", ""}, {"i", "L", "L"}, {"ii", "L", ""}, {"L", "L", ""}, {"i", "i", "r"}, {"i", "r", "r"}, {"ir", "ir", ""}, {"iii", "r", ""}, {"iii", "rrr", ""}};
    for (size_t p = 0; p < sizeof progs / sizeof progs[0]; p++) {
        std::vector<std::string> pr; std::string nm;
        for (int k = 0; k < 3; k++) if (progs[p][k][0]) { pr.push_back(progs[p][k]); nm += std::string(nm.empty() ? "" : "|") + progs[p][k]; }
        add("threads " + nm, [pr]() { int cap = 1 + choose(2, "capacity"); int pre = choose(3, "preloaded"); bool b = flip("blocking");
            concurrent(cap, pre, b, pr, tierPick(3, pr.size() > 2 ? 4 : 5), true); });
        add("locks " + nm, [pr]() { int cap = 1 + choose(2, "capacity"); int pre = choose(3, "preloaded"); bool b = flip("blocking");
            concurrent(cap, pre, b, pr, tierPick(6, 12), false); });
    }
    add("sequences", []() { sequential(tierPick(6, 7)); });
    return run(c, v, "C70");
}
