// mc: hflags=-fno-access-control
// C05: no history of solver modes, run modes, overrides, SOR use or restarts corrupts later solutions.
#include "net.hh"

struct Modes {
    NetRig r; Gunns::SolverMode mode; bool paused, sor, fresh; std::vector<double> slave, last; int steps;
    explicit Modes(int n) : r(n), mode(Gunns::NORMAL), paused(false), sor(false), fresh(true), slave(n, 0.0), steps(0) {}
    void step(double dt) {
        if (paused) {
            std::vector<double> before; for (int i = 0; i <= r.N; i++) { before.push_back(r.nodes[i].getPotential()); before.push_back(r.nodes[i].getInflux()); before.push_back(r.nodes[i].getNetFlux()); }
            for (auto* l : r.links) { before.push_back(l->getFlux()); before.push_back(l->getPotentialVector()[0]); before.push_back(l->getAdmittanceMatrix()[0]); }
            r.gunns->step(dt); mc::step(); size_t k = 0;
            for (int i = 0; i <= r.N; i++) { MC_CHECK(before[k] == r.nodes[i].getPotential() && before[k+1] == r.nodes[i].getInflux() && before[k+2] == r.nodes[i].getNetFlux(), "a paused network changed node %d", i); k += 3; }
            for (auto* l : r.links) { MC_CHECK(before[k] == l->getFlux() && before[k+1] == l->getPotentialVector()[0] && before[k+2] == l->getAdmittanceMatrix()[0], "a paused network changed a link"); k += 3; }
            MC_CHECK(r.gunns->getMajorStepCount() == steps, "a paused network counted a step");
            return;
        }
        r.forced.clear();
        if (mode == Gunns::SLAVE) r.forced = slave;
        if (mode == Gunns::DUMMY) r.forced = last;
        r.gunns->step(dt); steps++;
        r.compare(dt, sor ? 1e-4 : 1e-9);
        MC_CHECK(r.gunns->getMajorStepCount() == steps, "%d steps counted, %d done", r.gunns->getMajorStepCount(), steps);
        last.assign(r.gunns->getPotentialVector(), r.gunns->getPotentialVector() + r.N);
    }
    void setMode(Gunns::SolverMode m) { mode = m; if (m == Gunns::NORMAL) r.gunns->setNormalMode(); else if (m == Gunns::DUMMY) r.gunns->setDummyMode(); else r.gunns->setSlaveMode(); }
};
static void build(Modes& m, int shape) {
    NetRig& r = m.r; int N = r.N;
    if (N == 2) { r.addLink(COND, 0, 1, 2.0); r.addLink(POT, 2, 0, 1.0, 5.0); r.addLink(COND, 1, 2, 0.5); if (shape) r.addLink(CAP, 1, 2, 0.8, 2.5); else r.addLink(SRC, 1, 2, -0.7); }
    else { r.addLink(COND, 0, 1, 2.0); r.addLink(POT, 3, 0, 1.0, 5.0); r.addLink(COND, 1, 2, 0.5); r.addLink(CAP, 2, 3, 0.8, 2.5); r.addLink(SRC, 3, 1, 0.7); if (shape) r.addLink(COND, 0, 2, 0.3); }
    r.start(); m.last.assign(r.gunns->getPotentialVector(), r.gunns->getPotentialVector() + N);
}
static void history(int N, int depth) {
    Modes m(N); build(m, mc::choose(2, "shape")); NetRig& r = m.r;
    static const Gunns::IslandMode im[] = {Gunns::OFF, Gunns::SOLVE};
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(15, "op"); double dt = 0.1;
        switch (o) {
            case 0: break;
            case 1: m.setMode(Gunns::NORMAL); break;
            case 2: m.setMode(Gunns::DUMMY); break;
            case 3: { if (!r.over.empty()) mc::prune(); m.setMode(Gunns::SLAVE); for (int i = 0; i < N; i++) m.slave[i] = 7.0 - 2 * i + d; r.gunns->setSlavePotentialVector(m.slave.data()); break; }
            case 4: if (m.paused) { m.paused = false; r.gunns->setRunMode(); } else { m.paused = true; r.gunns->setPauseMode(); } break;
            case 5: r.setValue(0, r.ref[0].v == 2.0 ? 4.0 : 2.0); break;
            case 6: r.setValue(2, r.ref[2].v > 0.0 ? 0.0 : 0.5); break;
            case 7: if (m.paused || m.mode != Gunns::NORMAL) mc::prune(); r.links[2]->setPortOverride(0, 9.0 + d); r.over[r.ref[2].p[0]] = 9.0 + d; break;
            case 8: r.links[2]->resetPortOverride(mc::flip("all") ? -1 : 0); r.over.clear(); break;
            case 9: r.gunns->setIslandMode(mc::pick(im, "island mode")); break;
            case 10: if (m.sor) mc::prune(); m.sor = true; r.gunns->mSorActive = true; r.gunns->mSorMaxIter = 2000; r.gunns->mSorTolerance = 1e-9; break;
            case 11: if (!m.sor) mc::prune(); m.sor = false; r.gunns->mSorActive = false; break;
            case 12: r.gunns->restart(); m.steps = r.gunns->getMajorStepCount(); break;
            case 13: r.gunns->setWorstCaseTiming(mc::flip("worst case")); break;
            case 14: { double junk[6] = {-3, -4, -5, -6, -7, -8}; if (m.mode == Gunns::SLAVE) mc::prune(); r.gunns->setSlavePotentialVector(junk); r.links[2]->setPortOverride(2, 1e9); r.links[2]->setPortOverride(-1, 1e9); r.links[2]->resetPortOverride(7); break; }  // ignored
        }
        mc::trace("op %d", o);
        m.step(dt);
        mc::Hash h; h.i(m.mode).i(m.paused).i(m.sor); for (double x : m.last) h.d(x); mc::state(h.h);
    }
    if (m.paused) { m.paused = false; r.gunns->setRunMode(); }
    m.setMode(Gunns::NORMAL); m.step(0.1); m.step(0.2);
}
int main(int argc, char** argv) {
    mc::bounds("2- and 3-node networks of every basic link kind; every sequence of 5 (thorough 6) operations, each followed by a step, from: solver mode NORMAL/DUMMY/SLAVE, pause/run, conductance change, port override and reset, island mode, SOR on/off, restart, worst-case timing, ignored inputs; then two NORMAL steps");
    mc::assume("port overrides and SLAVE or DUMMY mode are not combined: the solver documents overrides in NORMAL mode only");
    mc::assume("while SOR is active the solution is compared with a tolerance of 1e-4");
    mc::add("modes-2-nodes", [] { history(2, mc::tierPick(5, 6)); });
    mc::add("modes-3-nodes", [] { history(3, mc::tierPick(5, 6)); });
    return mc::run(argc, argv, "C05");
}
