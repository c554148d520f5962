BASIC = '''#include "core/Gunns.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicPotential.hh"
#include <cmath>
#include <cstdio>
#include <vector>
#define NEED(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
template <int N> struct Net { GunnsBasicNode n[N + 1]; GunnsNodeList list; std::vector<GunnsBasicLink*> links; Gunns g;
  Net() { list.mNodes = n; list.mNumNodes = N + 1; for (int i = 0; i <= N; i++) n[i].initialize(i == N ? "Ground" : "n", 0.0); g.initializeNodes(list); }
  void cond(GunnsBasicConductor& c, double v, int a, int b) { c.initialize(GunnsBasicConductorConfigData("c", &list, v), GunnsBasicConductorInputData(), links, a, b); }
  void cap(GunnsBasicCapacitor& c, double v, double p, int a, int b) { c.initialize(GunnsBasicCapacitorConfigData("cap", &list), GunnsBasicCapacitorInputData(false, 0, v, p), links, a, b); }
  void src(GunnsBasicSource& c, double v, int a, int b) { c.initialize(GunnsBasicSourceConfigData("s", &list), GunnsBasicSourceInputData(false, 0, v), links, a, b); }
  void pot(GunnsBasicPotential& c, double v, double p, int a, int b) { c.initialize(GunnsBasicPotentialConfigData("p", &list, v), GunnsBasicPotentialInputData(false, 0, p), links, a, b); }
  void start(int minor = 10) { g.initialize(GunnsConfigData("net", 1e-6, 1.0, minor, minor), links); }
};
'''
S('cap_deadband', 'C01', 'core/GunnsBasicCapacitor.cpp', ('std::fabs(mAdmittanceMatrix[0] -  admittance) > 0.0)', 'std::fabs(mAdmittanceMatrix[0] -  admittance) > 0.005 * admittance)'),
 'a capacitance or time step that changes by less than half a percent between steps', 'the capacitor keeps its old admittance, so it does not integrate its flux over the actual step',
 BASIC + '''int main() { Net<1> t; GunnsBasicCapacitor c; GunnsBasicSource s; t.cap(c, 2.0, 5.0, 0, 1); t.src(s, 1.0, 1, 0); t.start(); double p = 5.0, dt = 0.1;
 for (int k = 0; k < 5; k++) { dt *= 1.004; t.g.step(dt); p += dt * 1.0 / 2.0; NEED(std::fabs(t.n[0].getPotential() - p) < 1e-9); } return 0; }
''')
S('island_merge', 'C02', 'core/Gunns.cpp', ('''        for (int node = 0; node < mNetworkSize; ++node) {
            if (from == mNodeIslandNumbers[node]) mNodeIslandNumbers[node] = to;''', '''        for (int node = 0; node <= from; ++node) {
            if (from == mNodeIslandNumbers[node]) mNodeIslandNumbers[node] = to;'''),
 'islands that are joined through a node after both have grown', 'nodes numbered above the lowest node of a merged island keep the old island number',
 BASIC + '''int main() { for (int m = 0; m < 1024; m++) { Net<5> t; GunnsBasicConductor c[10]; GunnsBasicPotential p; int k = 0, comp[5] = {0, 1, 2, 3, 4}; for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++, k++) if (m >> k & 1) { t.cond(c[k], 1, i, j); int x = comp[i], y = comp[j]; for (int& z : comp) if (z == x) z = y; }
 t.pot(p, 1, 10, 5, 0); t.start(); t.g.setIslandMode(Gunns::FIND); t.g.step(0.1);
 for (int i = 0; i < 5; i++) { size_t n = 0; for (int z : comp) n += z == comp[i]; NEED(t.n[i].getIslandVector()->size() == n); } } return 0; }
''')
S('delay_over_reject', 'C04', 'core/Gunns.cpp', ('else if (GunnsBasicLink::DELAY == linkResult && GunnsBasicLink::REJECT != result) {', 'else if (GunnsBasicLink::DELAY == linkResult) {'),
 'one link rejecting and a later link delaying the same converged solution', 'a delay hides the rejection of another link, so a rejected solution is kept',
 BASIC + '''struct L : GunnsBasicConductor { int mode, calls; L() : mode(0), calls(0) {} bool isNonLinear() override { return true; } void minorStep(const double dt, const int) override { GunnsBasicConductor::step(dt); }
 SolutionResult confirmSolutionAcceptable(const int cs, const int) override { if (cs < 1) return CONFIRM; calls++; if (mode == 1 && calls == 1) { setDefaultConductivity(2.0); return REJECT; } if (mode == 2 && calls == 1) return DELAY; return CONFIRM; } };
int main() { Net<1> t; L a, b; GunnsBasicPotential p; t.pot(p, 1.0, 10.0, 1, 0); t.cond(a, 1.0, 0, 1); t.cond(b, 1.0, 0, 1); a.mode = 1; b.mode = 2; t.start(20); t.g.step(0.1);
 NEED(std::fabs(t.n[0].getPotential() - 10.0 / 4.0) < 1e-6); return 0; }
''')
S('netcap_two', 'C07', 'core/Gunns.cpp', [("""            mSourceVector[node] = savedSourceVector;
""", ""), ("""            const double savedSourceVector = mSourceVector[node];
""", ""), ("""            mNodes[node]->setNetworkCapacitance(0.0);
        }
    }
}

////////////////////////////////////////////////////////////////////////////////////////////////////
/// @param[in]  timeStep""", """            mNodes[node]->setNetworkCapacitance(0.0);
        }
    }
    for (int node = 0; node < mNetworkSize; ++node) {
        const double fluxPerturbation = mNodes[node]->getNetworkCapacitanceRequest();
        if (fluxPerturbation > DBL_EPSILON) {
            mSourceVector[node] -= fluxPerturbation;
        }
    }
}

////////////////////////////////////////////////////////////////////////////////////////////////////
/// @param[in]  timeStep""")],
 'two nodes of one network that request their capacitance in the same step', 'the test flux of the first node is still applied while the second is measured',
 BASIC + '''int main() { double c[3][2]; for (int r = 1; r < 4; r++) { Net<2> t; GunnsBasicCapacitor a, b; GunnsBasicConductor k; t.cap(a, 2.0, 5.0, 0, 2); t.cap(b, 3.0, 1.0, 1, 2); t.cond(k, 4.0, 0, 1); t.start(); if (r & 1) t.n[0].setNetworkCapacitanceRequest(1.0); if (r & 2) t.n[1].setNetworkCapacitanceRequest(1.0); t.g.step(0.1); for (int i = 0; i < 2; i++) c[r - 1][i] = t.n[i].getNetworkCapacitance(); }
 NEED(c[0][0] > 1 && c[1][1] > 1); NEED(std::fabs(c[0][0] - c[2][0]) < 1e-6); NEED(std::fabs(c[1][1] - c[2][1]) < 1e-6); return 0; }
''')
S('port_move_rebuild', 'C01', 'core/GunnsBasicLink.cpp', ('''        //        mNodes[port] = &mNodeList->mNodes[node];
        mAdmittanceUpdate = true;''', '''        //        mNodes[port] = &mNodeList->mNodes[node];
        mAdmittanceUpdate = mAdmittanceUpdate or (getGroundNodeIndex() == node);'''),
 'a port that moves from one node to another node that is not ground while no conductance changes', 'the system matrix is not rebuilt for the new connection',
 BASIC + '''int main() { Net<2> t; GunnsBasicConductor a, b, c; GunnsBasicPotential p; t.pot(p, 1.0, 10.0, 2, 0); t.cond(a, 1.0, 0, 2); t.cond(b, 1.0, 1, 2); t.cond(c, 1.0, 0, 2); t.start(); t.g.step(0.1); t.g.step(0.1);
 c.mUserPortSelect = 0; c.mUserPortSelectNode = 1; c.mUserPortSetControl = GunnsBasicLink::EXECUTE; t.g.step(0.1); t.g.step(0.1); NEED(std::fabs(t.n[0].getPotential() - 5.0) < 1e-9); return 0; }
''')
S('user_port_default', 'C06', 'core/GunnsBasicLink.cpp', ('''        if (setPort(mUserPortSelect, mUserPortSelectNode, "user", true)) {''', '''        if (checkValidPortNumber(mUserPortSelect) and mNodeMap[mUserPortSelect] == mUserPortSelectNode) {
            mUserPortSetControl = READY;
        } else if (setPort(mUserPortSelect, mUserPortSelectNode, "user", true)) {'''),
 'a user port command on a locked link that names the node the port is already on', 'the command reports success on a link whose ports are locked instead of being refused',
 BASIC + '''struct L : GunnsBasicConductor { using GunnsBasicLink::mNodeMapLocked; };
int main() { Net<2> t; L c; GunnsBasicConductor d; GunnsBasicPotential p; t.pot(p, 1, 10, 2, 0); t.cond(c, 1.0, 0, 1); t.cond(d, 1.0, 1, 2); t.start(); t.g.step(0.1); c.mNodeMapLocked = true; c.mUserPortSelect = 0; c.mUserPortSelectNode = 0; c.mUserPortSetControl = GunnsBasicLink::EXECUTE; t.g.step(0.1); NEED(c.mUserPortSetControl == GunnsBasicLink::FAILED); return 0; }
''')
S('queue_early_unlock', 'C70', 'ms-utils/simulation/hs/TsHsMsgQueue.cpp', ('''    // Update the head pointer
    mHead = mHead->mNext;

    pthread_mutex_unlock(&mMutex);

    return true;''', '''    TsHsMsgQueueNode* last = mHead;
    mHead = mHead->mNext;

    pthread_mutex_unlock(&mMutex);

    node.mText      = last->mText;
    node.mMet       = last->mMet;

    return true;'''),
 'another thread inserting into a nearly full queue right after a message was removed', 'the removed message gets the text of a later message',
 '''#include "simulation/hs/TsHsMsgQueue.hh"
#include <dlfcn.h>
#include <pthread.h>
#include <cstdio>
static TsHsMsgQueue* Q; static bool armed;
static void put(const char* s) { Q->insertMsg("f", 1, "g", TS_HS_INFO, "s", s, TS_TIMER_TYPE(), 0); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { typedef int (*F)(pthread_mutex_t*); static F f = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); if (armed) { armed = false; put("c"); put("d"); } return r; }   // the other thread runs here
int main() { TsHsMsgQueue q(2, true); Q = &q; put("a"); put("b"); TsHsMsgQueueNode n; armed = true; q.removeMsg(n); armed = false; if (n.mText != "a") { printf("got %s\\n", n.mText.c_str()); return 1; } return 0; }
''', '-D_GNU_SOURCE')
S('spotter_unlocked', 'C12', 'core/network/GunnsNetworkBase.cpp', ('''        netSolver.step(timeStep);
        stepSpottersPost(timeStep);''', '''        netSolver.step(timeStep);
        lockHelper.unlock();
        stepSpottersPost(timeStep);'''),
 'another thread in the network while the spotters run after the solution', 'the spotters run after the mutex was given back',
 '''#include "core/network/GunnsNetworkBase.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicPotential.hh"
#include <pthread.h>
#include <cerrno>
struct N : GunnsNetworkBase { GunnsBasicNode n[2]; GunnsBasicPotential p; GunnsBasicConductor c; int pre, post; N() : GunnsNetworkBase("n", 2, n), pre(-1), post(-1) {}
 void initNodes(const std::string& s) override { n[0].initialize(s + "0", 0.0); n[1].initialize(s + "g", 0.0); }
 void initNetwork() override { netSolver.initializeNodes(netNodeList); p.initialize(GunnsBasicPotentialConfigData("p", &netNodeList, 1.0), GunnsBasicPotentialInputData(false, 0, 1.0), netLinks, 1, 0); c.initialize(GunnsBasicConductorConfigData("c", &netNodeList, 1.0), GunnsBasicConductorInputData(), netLinks, 0, 1); netSolver.initialize(GunnsConfigData("n", 1e-6, 1.0, 5, 5), netLinks); }
 int held() { int r = pthread_mutex_trylock(getMutex()); if (!r) pthread_mutex_unlock(getMutex()); return r; }
 void stepSpottersPre(const double) override { pre = held(); } void stepSpottersPost(const double) override { post = held(); } };
int main() { N n; n.initialize(); n.setMutexEnabled(true); n.update(0.1); return n.pre == EBUSY && n.post == EBUSY ? 0 : 1; }
''')
