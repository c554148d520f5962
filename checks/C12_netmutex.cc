// mc: hflags=-fno-access-control rflags=-fsanitize=thread flags=-O2 ld=-Wl,--wrap=pthread_mutex_init,--wrap=pthread_mutex_destroy,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock
// C12: network updates and holders of the network mutex exclude each other under every schedule, and the mutex is always given back.
#include "net.hh"
#include "conc.hh"
#include "conc.cc"
#include "core/network/GunnsBasicSuperNetwork.hh"
#include "core/network/GunnsNetworkBase.hh"
#include "core/network/GunnsMutexLock.hh"

static int inside, updates, mode;   // who is in the critical section; mode: what the spotters do
struct Watch { int who; explicit Watch(int w) : who(w) { MC_CHECK(inside == 0, "thread %d is in the network together with thread %d", w, inside); inside = w; conc::yieldPoint(); } ~Watch() noexcept(false) { conc::yieldPoint(); if (!std::uncaught_exception()) MC_CHECK(inside == who, "thread %d was joined in the network by thread %d", who, inside); inside = 0; } };
struct Net : GunnsNetworkBase {
    GunnsBasicNode own[3]; GunnsBasicPotential pot; GunnsBasicConductor c; int cur;
    Net() : GunnsNetworkBase("net", 3, own), cur(0) {}
    void initNodes(const std::string& n) override { int o = netSuperNodesOffset; netNodeList.mNodes[o].initialize(n + ".a", 0.0); netNodeList.mNodes[o + 1].initialize(n + ".b", 0.0); if (!netIsSubNetwork) own[2].initialize(n + ".g", 0.0); }
    void initNetwork() override { int o = netSuperNodesOffset, g = netNodeList.mNumNodes - 1; if (!netIsSubNetwork) netSolver.initializeNodes(netNodeList);
        pot.initialize(GunnsBasicPotentialConfigData("p", &netNodeList, 1.0), GunnsBasicPotentialInputData(false, 0, 10.0), netLinks, g, o); c.initialize(GunnsBasicConductorConfigData("c", &netNodeList, 1.0), GunnsBasicConductorInputData(), netLinks, o, o + 1);
        if (!netIsSubNetwork) netSolver.initialize(GunnsConfigData("net", 1e-6, 1.0, 5, 5), netLinks); }
    void stepSpottersPre(const double) override { int me = conc::self() + 1; MC_CHECK(inside == 0, "thread %d started an update while thread %d is in the network", me, inside); inside = me; conc::yieldPoint(); if (mode == 1) { inside = 0; throw std::runtime_error("x"); } if (mode == 2) { inside = 0; throw 5; } }
    void stepSpottersPost(const double) override { int me = conc::self() + 1; conc::yieldPoint(); MC_CHECK(inside == me, "thread %d was in the network during the update of thread %d", inside, me); inside = 0; updates++; }
};
struct Super : GunnsBasicSuperNetwork { Super() : GunnsBasicSuperNetwork("S") {} };
// w: worker program.  u = update, h = hold the mutex by a lock object, H = construct locked, d = lock twice, x = unlock twice, c = const reference, e = exception while holding
static void schedules(bool super, const std::vector<std::string>& prog, int preempt, bool fine) {
    inside = updates = 0; mode = mc::choose(3, "spotters throw");
    conc::watchNew(true); std::unique_ptr<Net> n(new Net); std::unique_ptr<Super> s(super ? new Super : 0); conc::watchNew(false);
    if (super) { s->addSubNetwork(n.get()); s->registerSuperNodes(); s->initialize(); s->setMutexEnabled(true); } else { n->initialize(); n->setMutexEnabled(true); }
    pthread_mutex_t* m = super ? s->getMutex() : n->getMutex();
    std::vector<std::function<void()>> bodies; int want = 0;
    for (size_t t = 0; t < prog.size(); t++) { for (char c : prog[t]) want += c == 'u';
        bodies.push_back([&, t]() { int me = t + 1;
            for (char c : prog[t]) {
                if (c == 'u') { if (super) s->update(0.1); else n->update(0.1); if (super) n->update(0.1); }
                if (c == 'h') { GunnsMutexLock l(*m); l.lock(); { Watch w(me); } l.unlock(); }
                if (c == 'H') { GunnsMutexLock l(*m, true); Watch w(me); }
                if (c == 'd') { GunnsMutexLock l(*m, true); l.lock(); Watch w(me); }
                if (c == 'x') { GunnsMutexLock l(*m); l.unlock(); l.lock(); { Watch w(me); } l.unlock(); l.unlock(); l.lock(); { Watch w(me); } }
                if (c == 'c') { const pthread_mutex_t& k = *m; GunnsMutexLock l(k, true); Watch w(me); }
                if (c == 'e') { try { GunnsMutexLock l(*m, true); { Watch w(me); } throw 1; } catch (int) {} }
            } MC_CHECK(conc::heldBySelf() == 0, "thread %d finished still holding a mutex", me); }); }
    conc::run(bodies, preempt, fine);
    MC_CHECK(!conc::mutexHeld(m), "the mutex was left locked");
    if (mode == 0) { MC_CHECK(updates == want, "%d updates done of %d", updates, want); const GunnsBasicNode* nd = super ? s->netNodes : n->own; MC_CHECK(mc::near(nd[0].getPotential(), 10.0) && mc::near(nd[1].getPotential(), 10.0), "solution is wrong after concurrent updates"); }
    mc::step(want + 1);
}
// locking is optional: when it is not enabled an update never touches the mutex
static void disabled(bool super) {
    inside = updates = 0; mode = 0; std::unique_ptr<Net> n(new Net); std::unique_ptr<Super> s(super ? new Super : 0);
    if (super) { s->addSubNetwork(n.get()); s->registerSuperNodes(); s->initialize(); } else n->initialize();
    pthread_mutex_t* m = super ? s->getMutex() : n->getMutex(); bool en = mc::flip("switch off"); if (en) { if (super) { s->setMutexEnabled(true); s->setMutexEnabled(false); } else { n->setMutexEnabled(true); n->setMutexEnabled(false); } }
    conc::run({[&]() { GunnsMutexLock l(*m, true); if (super) s->update(0.1); else n->update(0.1); }}, 0, false);
    MC_CHECK(updates == 1, "update without locking was not done"); mc::step();
}
int main(int argc, char** argv) {
    mc::bounds("2-3 threads of updates and lock-object programs, every schedule at mutex operations and harness yield points; two-thread programs also at every memory access up to 2 preemptions (3 thorough); spotters that return or throw");
    for (int sup = 0; sup < 2; sup++) {
        std::string p = sup ? "super " : "net ";
        for (const char* a : {"u", "uu"}) for (const char* b : {"u", "h", "H", "d", "x", "c", "e", "hu"}) mc::add(p + a + "|" + b, [=] { schedules(sup, {a, b}, 4, false); });
        mc::add(p + "u|H|e", [=] { schedules(sup, {"u", "H", "e"}, 3, false); });
        mc::add(p + "u|u|x", [=] { schedules(sup, {"u", "u", "x"}, mc::tierPick(2, 3), false); });
        mc::add(p + "u|H fine", [=] { schedules(sup, {"u", "H"}, mc::tierPick(1, 2), true); });
        mc::add(p + "u|u fine", [=] { schedules(sup, {"u", "u"}, mc::tierPick(1, 2), true); });
        mc::add(p + "disabled", [=] { disabled(sup); });
    }
    return mc::run(argc, argv, "C12");
}
