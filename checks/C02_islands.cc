// mc: hflags=-fno-access-control
// C02: islands are the connected components, and solving by islands changes nothing.
#include "net.hh"
#include "core/GunnsBasicIslandAnalyzer.hh"
#include <set>

static void islandsAre(NetRig& r, const char* what) {
    std::set<int> ids; int biggest = 0;
    for (int i = 0; i < r.N; i++) {
        std::vector<int> want; for (int j = 0; j < r.N; j++) if (r.sol.comp[j] == r.sol.comp[i]) want.push_back(j);
        ids.insert(r.sol.comp[i]); biggest = std::max(biggest, (int)want.size());
        const std::vector<int>* got = r.nodes[i].getIslandVector(); std::string g;
        if (got) for (int x : *got) g += " " + std::to_string(x);
        MC_CHECK(got && *got == want, "%s: node %d is told its island is {%s }, the connected component has %zu nodes: %s", what, i, g.c_str(), want.size(), r.show(0.1).c_str());
    }
    MC_CHECK(r.gunns->mIslandCount == (int)ids.size(), "%d islands counted, there are %zu", r.gunns->mIslandCount, ids.size());
    MC_CHECK(r.gunns->mIslandMaxSize == biggest, "largest island counted %d, is %d", r.gunns->mIslandMaxSize, biggest);
}
static const Gunns::IslandMode modes[] = {Gunns::OFF, Gunns::FIND, Gunns::SOLVE};
struct Analyzer {
    GunnsBasicIslandAnalyzerConfigData c; GunnsBasicIslandAnalyzerInputData in; GunnsBasicIslandAnalyzer a; NetRig& r;
    explicit Analyzer(NetRig& rig) : c("an"), a(rig.list), r(rig) { a.initialize(&c, &in); }
    void check() {
        for (int n = -1; n <= r.N + 1; n++) {
            a.mAttachedNode = n; a.stepPostSolver(0.1);
            int size = 0, hi = -1, lo = -1; double net = 0;
            if (n >= 0 && n < r.N) for (int j = 0; j < r.N; j++) if (r.sol.comp[j] == r.sol.comp[n]) { size++; double p = r.nodes[j].getPotential(); if (hi < 0 || p >= r.nodes[hi].getPotential()) hi = j; if (lo < 0 || p <= r.nodes[lo].getPotential()) lo = j; net += r.nodes[j].getNetFlux(); }
            MC_CHECK(a.mIslandSize == size, "analyzer at node %d: size %d, island has %d", n, a.mIslandSize, size);
            if (size) { MC_CHECK(a.mHiPotential == r.nodes[hi].getPotential() && a.mLoPotential == r.nodes[lo].getPotential(), "analyzer at node %d: potentials %g..%g, island has %g..%g", n, a.mLoPotential, a.mHiPotential, r.nodes[lo].getPotential(), r.nodes[hi].getPotential());
                MC_CHECK(mc::near(a.mIslandNetFlux, net, 1e-9, 1e-12), "analyzer at node %d: net flux %g, island has %g", n, a.mIslandNetFlux, net);
                MC_CHECK(r.sol.comp[a.mHiPotentialNode] == r.sol.comp[n] && r.nodes[a.mHiPotentialNode].getPotential() == a.mHiPotential && r.sol.comp[a.mLoPotentialNode] == r.sol.comp[n] && r.nodes[a.mLoPotentialNode].getPotential() == a.mLoPotential, "analyzer names wrong extreme nodes"); }
            for (int j = 0; j < r.N; j++) MC_CHECK(a.mIslandNodes[j] == (size && r.sol.comp[j] == r.sol.comp[n]), "analyzer at node %d: membership of node %d is %d", n, j, a.mIslandNodes[j]);
        }
    }
};
// every graph on N nodes; sources feed every node so that each island has its own solution
static void graphs(int N) {
    NetRig r(N);
    for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) if (mc::flip("edge")) { bool rev = (a + b) & 1; r.addLink(COND, rev ? b : a, rev ? a : b, 1.0 + 0.25 * a + 0.125 * b); }
    int g = N > 4 ? mc::choose(3, "leaks") : mc::choose(1 << N, "leaks");
    for (int a = 0; a < N; a++) { bool leak = N > 4 ? (g == 0 || (g == 1 ? a % 2 == 0 : a >= N / 2)) : g >> a & 1; if (leak) r.addLink(POT, N, a, 0.5 + 0.1 * a, 10.0 - a); }
    r.addLink(COND, 0, N, 0.0);
    Gunns::IslandMode m = mc::flip("mode") ? Gunns::SOLVE : Gunns::FIND;
    r.gunns->setIslandMode(m); r.start(); r.step(0.1); islandsAre(r, m == Gunns::SOLVE ? "solve" : "find"); Analyzer(r).check();
    r.step(0.1); islandsAre(r, "second step");
}
// histories: any edge switches on or off, any mode change, in any order
static void history(int N, int depth) {
    NetRig r(N); int e = 0;
    for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++, e++) r.addLink(COND, a, b, 0.0);
    r.addLink(POT, N, 0, 1.0, 5.0); r.addLink(COND, N - 1, N, 0.5); r.addLink(CAP, 1, N, 2.0, 3.0); r.addLink(SRC, 1, N, -0.5);
    Gunns::IslandMode m = mc::pick(modes, "initial mode"); r.gunns->setIslandMode(m); r.start(); r.step(0.1); if (m != Gunns::OFF) islandsAre(r, "first step");
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(e + 5, "op");
        if (o < e) { r.setValue(o, r.ref[o].v > 0 ? 0.0 : 1.0 + o); mc::trace("edge %d = %g", o, r.ref[o].v); }
        else if (o == e) { mc::trace("nothing"); }
        else if (o == e + 1) { int l = e + 1; r.setPort(l, 0, r.ref[l].p[0] == 0 ? N - 1 : 0); }
        else { m = modes[o - e - 2]; r.gunns->setIslandMode(m); mc::trace("island mode %d", o - e - 2); }
        r.step(0.1);
        if (m != Gunns::OFF) islandsAre(r, "history");
    }
    r.step(0.1); if (m != Gunns::OFF) { islandsAre(r, "last step"); Analyzer(r).check(); }
    mc::Hash h; h.i(m); for (auto& l : r.ref) h.i(l.p[0]).i(l.p[1]).d(l.v); for (int i = 0; i < N; i++) h.d(r.nodes[i].getPotential()); mc::state(h.h);
}
int main(int argc, char** argv) {
    mc::bounds("graphs: all 2^(N(N-1)/2) conductance graphs on N = 1..5 (thorough 6) nodes, with every (N<=4) or 3 (N>4) sets of nodes tied to ground, in both island modes; islands, island metrics, island analyzer and solution compared with a union-find and an independent elimination");
    mc::bounds("histories: 2-4 nodes, every sequence of 4-6 (thorough 5-7) operations: switch any edge, move a port, change island mode, step");
    for (int n = 1; n <= 5; n++) mc::add("graphs-" + std::to_string(n), [n] { graphs(n); });
    mc::add("graphs-6", [] { graphs(6); }, 1);
    mc::add("history-2", [] { history(2, mc::tierPick(6, 7)); });
    mc::add("history-3", [] { history(3, mc::tierPick(5, 6)); });
    mc::add("history-4", [] { history(4, mc::tierPick(4, 5)); });
    return mc::run(argc, argv, "C02");
}
