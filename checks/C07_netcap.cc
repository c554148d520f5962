// mc: hflags=-fno-access-control
// C07: network capacitance requests return the true response of the network and never disturb the solution.
#include "net.hh"

static void requests(int N, int depth) {
    NetRig r(N);
    for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) { int c = mc::choose(2, "edge"); if (c) r.addLink(COND, a, b, 1.0 + 0.5 * a + 0.25 * b); }
    int ties = mc::choose(3, "ties");
    if (ties == 0) r.addLink(POT, N, 0, 0.5, 4.0); else if (ties == 1) { r.addLink(POT, 0, N, 0.5, -4.0); r.addLink(CAP, N - 1, N, 0.3, 2.0); } else { r.addLink(COND, N, N - 1, 0.8); r.addLink(SRC, N, 0, 0.6); }
    r.addLink(COND, 0, N, 0.0);
    static const Gunns::IslandMode im[] = {Gunns::OFF, Gunns::SOLVE, Gunns::FIND};
    r.gunns->setIslandMode(mc::pick(im, "island mode")); r.start();
    static const double dts[] = {0.1, 1.0};
    for (int d = 0; d < depth; d++) {
        double dt = mc::pick(dts, "dt"); std::vector<double> q(N, 0.0); int which = mc::choose(1 << N, "requests"), size = mc::choose(2, "size");
        for (int i = 0; i < N; i++) if (which >> i & 1) { q[i] = size ? 0.001 : 1.0 + i; r.nodes[i].setNetworkCapacitanceRequest(q[i]); }
        if (size == 0 && which == 0) { r.setValue((int)r.ref.size() - 1, r.ref.back().v > 0 ? 0.0 : 0.4); }
        std::vector<RefLink> before = r.ref;
        r.step(dt);
        RefSolve base; base.solve(before, N, dt);
        for (int i = 0; i < N; i++) {
            MC_CHECK(r.nodes[i].getNetworkCapacitanceRequest() == 0.0, "request of node %d not reset", i);
            if (q[i] == 0) { MC_CHECK(r.nodes[i].getNetworkCapacitance() == 0.0, "node %d did not ask for its capacitance and has %g", i, r.nodes[i].getNetworkCapacitance()); continue; }
            if (!base.grounded[i]) continue;
            std::vector<RefLink> more = before; RefLink s; s.kind = SRC; s.p[0] = N; s.p[1] = i; s.v = q[i]; s.e = s.dv = s.flux = s.blkV = 0; s.blk = false; more.push_back(s);
            RefSolve up; up.solve(more, N, dt);
            double dp = (double)(up.v[i] - base.v[i]), want = dt * q[i] / std::fabs(dp), rel = 1e-8 + 1e-10 * (1 + std::fabs((double)base.v[i])) / std::fabs(dp);
            MC_CHECK(mc::near(r.nodes[i].getNetworkCapacitance(), want, rel), "capacitance of node %d is %.10g, the network's response to flux %g gives %.10g: %s", i, r.nodes[i].getNetworkCapacitance(), q[i], want, r.show(dt).c_str());
            for (int j = 0; j < N; j++) if (base.grounded[j]) { double e = (double)(up.v[j] - base.v[j]); MC_CHECK(mc::near(r.nodes[i].getNetCapDeltaPotential()[j], e, rel, 1e-10), "response of node %d to flux at node %d is %.10g, should be %.10g: %s", j, i, r.nodes[i].getNetCapDeltaPotential()[j], e, r.show(dt).c_str()); }
        }
        mc::Hash h; for (int i = 0; i < N; i++) h.d(r.nodes[i].getPotential()).d(r.nodes[i].getNetworkCapacitance()); mc::state(h.h);
    }
}
int main(int argc, char** argv) {
    mc::bounds("1-4 nodes, every conductance graph, 3 ways to tie it to ground (incl. through a capacitor), 3 island modes; every sequence of 2-4 steps, each with every subset of nodes requesting, 2 flux sizes, 2 time steps, conductance switched between steps; compared with independent perturbed and unperturbed eliminations");
    for (int n = 1; n <= 3; n++) mc::add("requests-" + std::to_string(n), [n] { requests(n, n < 3 ? 4 : 3); });
    mc::add("requests-4", [] { requests(4, 2); });
    mc::add("requests-3-deep", [] { requests(3, 4); }, 1);
    return mc::run(argc, argv, "C07");
}
