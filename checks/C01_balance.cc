// mc: hflags=-fno-access-control
// C01: every converged solution satisfies the balance equations, whatever the network and the history of changes.
#include "net.hh"

static const double DTS[] = {0.1, 1.0, 0.0};
// one history operation, chosen exhaustively; returns the time step to use
static void op(NetRig& r, double& dt) {
    int nl = (int)r.ref.size(), k = mc::choose(nl + 1, "target");
    if (k == nl) { int d = mc::choose(3, "dt"); dt = d == 2 ? dt * 1.0005 : DTS[1 + d]; if (dt == 1.0) dt = 0.37; mc::trace("dt=%g", dt); return; }
    RefLink& l = r.ref[k];
    switch (mc::choose(3, "op")) {
        case 0: { static const double vc[] = {0.0, 5.0}, vs[] = {0.0, -2.0};
            int w = mc::choose(3, "value"); double v = w == 2 ? l.v * 1.0005 : l.kind == SRC ? vs[w] : vc[w];   /* a large or a slight change */ r.setValue(k, v); mc::trace("link %d value %g", k, v); break; }
        case 1: if (l.kind == CAP) mc::prune();
            if (l.kind == POT && mc::flip("source potential")) { l.e = -3.0; static_cast<GunnsBasicPotential*>(r.links[k])->setSourcePotential(-3.0); }
            else { double b = mc::flip("full") ? 1.0 : 0.25; r.setBlockage(k, true, b); mc::trace("link %d blocked %g", k, b); }
            break;
        default: { int port = mc::choose(2, "port"), node = mc::choose(r.N + 1, "node"); if (node == l.p[port]) mc::prune(); mc::trace("link %d port %d -> %d", k, port, node); r.setPort(k, port, node); }
    }
}
struct PP { int a, b; };
static PP portPair(int N) {   // ordered pairs of distinct nodes of {0..N-1, ground}, then ground-ground
    int n = N + 1, c = mc::choose(n * (n - 1) + 1, "ports"); PP p;
    if (c == n * (n - 1)) { p.a = p.b = N; return p; }
    p.a = c / (n - 1); p.b = c % (n - 1); if (p.b >= p.a) p.b++; return p;
}
static void history(int N, int nLinks, int nOps, bool allPorts) {
    NetRig r(N); int last = 0; bool cap = false;
    static const double val[] = {2.0, 3.0, 0.7, 1.1};
    for (int i = 0; i < nLinks; i++) {
        int k = mc::choose(4, "kind"); PP p = portPair(N);
        int id = k * 100 + p.a * 10 + p.b; if (id < last) mc::prune(); last = id;      // link order does not matter
        if (!allPorts && p.a == N && p.b == N) mc::prune();
        if (k == CAP) { if (cap && N > 1) mc::prune(); cap = true; }
        r.addLink((Kind)k, p.a, p.b, val[i] * (k == SRC && i == 1 ? -1 : 1), k == POT ? 4.0 : k == CAP ? 1.5 : 0.0, i == 2 && k != CAP, 0.5);
    }
    r.start();
    double dt = 0.1; r.step(dt); r.step(dt);
    for (int o = 0; o < nOps; o++) { op(r, dt); mc::trace("%s", r.show(dt).c_str()); r.step(dt); mc::Hash h; for (int i = 0; i < N; i++) h.d(r.gunns->getPotentialVector()[i]); for (auto& l : r.ref) h.i(l.kind).i(l.p[0]).i(l.p[1]).d(l.v).d(l.dv); mc::state(h.h); }
    r.step(dt);
}
// graphs: every conductance graph on N nodes, each edge one of three values, node 0 fed by a potential source
static void graphs(int N) {
    NetRig r(N); static const double g[] = {0.0, 1.0, 1e-3, 1e3};
    int vals = N > 3 ? 2 : 4;
    for (int a = 0; a < N; a++) for (int b = a + 1; b <= N; b++) { int c = mc::choose(vals, "edge"); bool rev = (a + b) & 1; if (c) r.addLink(COND, rev ? b : a, rev ? a : b, g[c]); }
    int s = mc::choose(N, "source"); r.addLink(POT, N, s, 0.5, 10.0); r.addLink(SRC, s, (s + 1) % (N + 1), 0.25);
    r.start(); r.step(0.1, 1e-7); r.step(0.1, 1e-7);
}
int main(int argc, char** argv) {
    mc::bounds("histories: 2 nodes, every unordered set of 2 links (quick: 3 operations) and of 3 links (2 operations) over {conductor, source, potential source, capacitor} x every port pair; 3 nodes, 2 links, 2 operations (thorough); operations: value change (to 0, large or slight), blockage, source potential, every legal or illegal port move, time step change (large, slight, freeze)");
    mc::bounds("graphs: every conductance graph on 1..5 nodes with edge values {0, 1} (and {1e-3, 1e3} up to 3 nodes) and every source position");
    mc::assume("components without a path to ground and with a non-zero net source have no balanced solution (the solver documents a phantom leak to ground there) and only their links' laws are checked");
    mc::assume("with a zero time step (freeze) and a capacitor between two floating nodes, the solution is not decidable in floating point and only the link laws are checked");
    mc::add("history-2-links", [] { history(2, 2, mc::tierPick(3, 3), true); });
    mc::add("history-3-links", [] { history(2, 3, mc::tierPick(2, 2), false); });
    mc::add("history-1-node", [] { history(1, 3, mc::tierPick(2,3), true); });
    mc::add("history-3-nodes", [] { history(3, 2, mc::tierPick(2, 3), false); });
    mc::add("history-3-nodes-3-links", [] { history(3, 3, 1, false); }, 1);
    for (int n = 1; n <= 4; n++) mc::add("graphs-" + std::to_string(n), [n] { graphs(n); });
    mc::add("graphs-5", [] { graphs(5); });
    return mc::run(argc, argv, "C01");
}
