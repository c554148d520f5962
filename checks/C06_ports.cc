// mc: hflags=-fno-access-control san=address
// C06: port maps stay legal under every sequence of assignments, user commands, locks and restarts.
#include "net.hh"
#include "fluid.hh"
#include "core/GunnsBasicExternalDemand.hh"
#include "core/GunnsBasicExternalSupply.hh"
#include "core/GunnsFluidExternalDemand.hh"

struct BasicN : GunnsBasicLink {   // a link with any number of ports
    explicit BasicN(int n) : GunnsBasicLink(n) {}
    void go(GunnsNodeList* l, std::vector<GunnsBasicLink*>& v, const int* p) { GunnsBasicLinkConfigData c("l", l); GunnsBasicLinkInputData i(false, 0); initialize(c, i, v, p); }
    void step(const double) override { processUserPortCommand(); }
    void computeFlows(const double) override {}
};
struct FluidN : GunnsFluidLink {
    explicit FluidN(int n) : GunnsFluidLink(n) {}
    void go(GunnsNodeList* l, std::vector<GunnsBasicLink*>& v, const int* p) { GunnsFluidLinkConfigData c("l", l); GunnsFluidLinkInputData i(false, 0); initialize(c, i, v, p); }
    void step(const double) override { processUserPortCommand(); }
    void computeFlows(const double) override {}
    void restartModel() override { GunnsFluidLink::restartModel(); }
};
enum Type { BASIC, FLUID, DEMAND, SUPPLY, FDEMAND };
struct Ref { Type t; int N, P; std::vector<int> map, def; bool locked; int cmd, selPort, selNode;
    bool rules(int port, int node) const {
        if (port < 0 || port >= P || node < 0 || node > N) return false;
        for (int q = 0; q < P; q++) if (q != port && map[q] == node && node < N) return false;
        if (t == DEMAND || t == FDEMAND) return port == 0 ? node == N : node != N;
        if (t == SUPPLY) return port == 1 ? node == N : node != N;
        return true; }
    bool set(int port, int node) { bool ok = !locked && rules(port, node); if (ok) map[port] = node; return ok; }
};
static void history(Type t, int N, int P, int depth, bool restarts) {
    bool fl = t == FLUID || t == FDEMAND;
    std::unique_ptr<NetRig> br; std::unique_ptr<FluidNodes> fr; GunnsNodeList* list; std::vector<GunnsBasicLink*> v;
    if (fl) { fr.reset(new FluidNodes(N, {FluidProperties::GUNNS_N2})); for (int i = 0; i < N; i++) fr->fill(i, 290, 100, {1.0}); list = &fr->list; } else { br.reset(new NetRig(N)); list = &br->list; }
    Ref r; r.t = t; r.N = N; r.P = P; r.locked = false; r.cmd = 0; r.selPort = r.selNode = -1;
    for (int q = 0; q < P; q++) r.map.push_back(t == DEMAND || t == FDEMAND ? (q ? 0 : N) : t == SUPPLY ? (q ? N : 0) : q < N ? q : N);
    r.def = r.map; std::unique_ptr<GunnsBasicLink> l;
    if (t == BASIC) { BasicN* b = new BasicN(P); l.reset(b); b->go(list, v, r.map.data()); }
    if (t == FLUID) { FluidN* b = new FluidN(P); l.reset(b); b->go(list, v, r.map.data()); }
    if (t == DEMAND) { auto* b = new GunnsBasicExternalDemand; l.reset(b); b->initialize(GunnsBasicExternalDemandConfigData("l", list, 1.0, 0.1, 0.1, 0.1), GunnsBasicExternalDemandInputData(), v, r.map[0], r.map[1]); }
    if (t == SUPPLY) { auto* b = new GunnsBasicExternalSupply; l.reset(b); b->initialize(GunnsBasicExternalSupplyConfigData("l", list), GunnsBasicExternalSupplyInputData(), v, r.map[0], r.map[1]); }
    if (t == FDEMAND) { auto* b = new GunnsFluidExternalDemand; l.reset(b); PolyFluidConfigData ic(&fluidProps(), fr->types.data(), 1); double f[1] = {1.0}; GunnsFluidExternalDemandConfigData c("l", list, 1.0, 0.0, 1.0, 1.0e-8, 0.05, &ic); GunnsFluidExternalDemandInputData i(false, 0, 100.0, 0.0, 290.0, f); b->initialize(c, i, v, r.map[0], r.map[1]); }
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(restarts ? 7 : 6, "op");
        if (o == 0) { int port = mc::choose(P + 2, "port") - 1, node = mc::choose(N + 4, "node") - 2; bool want = r.set(port, node); mc::trace("setPort(%d,%d)", port, node); bool got = l->setPort(port, node, "mc", mc::flip("verbose")); MC_CHECK(got == want, "setPort(%d,%d) returned %d, rules say %d", port, node, got, want); }
        else if (o <= 3) {
            int port = mc::choose(P + 2, "port") - 1, node = o == 1 ? mc::choose(N + 4, "node") - 2 : -1;
            l->mUserPortSelect = port; l->mUserPortSelectNode = node; l->mUserPortSetControl = o == 1 ? GunnsBasicLink::EXECUTE : o == 2 ? GunnsBasicLink::GROUND : GunnsBasicLink::DEFAULT;
            bool want = o == 3 ? (port >= 0 && port < P && r.set(port, r.def[port])) : r.set(port, o == 2 ? N : node);
            mc::trace("user command %d port %d node %d", o, port, node);
            l->step(0.1);
            r.cmd = want ? 0 : -1;
        }
        else if (o == 4) { r.locked = !r.locked; if (r.locked) l->lockNodeMap(); else l->unlockNodeMap(); }
        else if (o == 5) { l->step(0.1); }
        else { mc::trace("restart"); l->restart(); r.cmd = 0; if (!r.locked) r.map = r.def; }
        mc::step();
        MC_CHECK(l->mUserPortSetControl == r.cmd, "user port command is %d, expected %d", l->mUserPortSetControl, r.cmd);
        MC_CHECK(l->mUserPortSelect == -1 && l->mUserPortSelectNode == -1, "user port selection not cleared");
        mc::Hash h; h.i(r.locked).i(r.cmd); bool need = l->needAdmittanceUpdate(); (void)need;
        for (int q = 0; q < P; q++) {
            h.i(r.map[q]);
            MC_CHECK(l->getNodeMap()[q] == r.map[q], "port %d maps to node %d, expected %d", q, l->getNodeMap()[q], r.map[q]);
            GunnsBasicNode* want = fl ? static_cast<GunnsBasicNode*>(&fr->nodes[r.map[q]]) : &br->nodes[r.map[q]];
            MC_CHECK(l->mNodes[q] == want, "port %d reads a node other than %d", q, r.map[q]);
            if (t == FLUID || t == BASIC) for (int w = 0; w < P; w++) { int a = r.map[q], b = r.map[w], e = a == N || b == N ? -1 : a * N + b; MC_CHECK(l->getAdmittanceMap()->mMap[q * P + w] == e, "admittance of ports %d,%d goes to %d, nodes are %d,%d", q, w, l->getAdmittanceMap()->mMap[q * P + w], a, b); }
        }
        mc::state(h.h);
        if (mc::cut(h.h, depth - d)) return;
    }
}
// constructor arguments: every port map is either accepted and legal or refused with an initialization exception
static void initial(bool fl, int N, int P) {
    std::unique_ptr<NetRig> br; std::unique_ptr<FluidNodes> fr; GunnsNodeList* list; std::vector<GunnsBasicLink*> v;
    if (fl) { fr.reset(new FluidNodes(N, {FluidProperties::GUNNS_N2})); for (int i = 0; i < N; i++) fr->fill(i, 290, 100, {1.0}); list = &fr->list; } else { br.reset(new NetRig(N)); list = &br->list; }
    std::vector<int> m; for (int q = 0; q < P; q++) m.push_back(mc::choose(N + 4, "node") - 2);
    bool legal = true; for (int q = 0; q < P; q++) { if (m[q] < 0 || m[q] > N) legal = false; for (int w = 0; w < q; w++) if (m[q] == m[w] && m[q] < N) legal = false; }
    std::unique_ptr<GunnsBasicLink> l; bool ok = true;
    try { if (fl) { FluidN* b = new FluidN(P); l.reset(b); b->go(list, v, m.data()); } else { BasicN* b = new BasicN(P); l.reset(b); b->go(list, v, m.data()); } } catch (TsInitializationException&) { ok = false; }
    mc::step();
    MC_CHECK(ok == legal && l->isInitialized() == legal, "port map with %d ports on %d nodes: accepted %d, legal %d", P, N, ok, legal);
    if (ok) for (int q = 0; q < P; q++) MC_CHECK(l->getNodeMap()[q] == m[q], "initial map differs");
}
int main(int argc, char** argv) {
    mc::bounds("basic and fluid links with 1-4 ports on 1-3 nodes, external demand and supply links; every sequence of 3-5 operations from: setPort and user EXECUTE with ports -1..P and nodes -2..N+1, GROUND, DEFAULT, lock/unlock, idle step, restart; every initial map with nodes -2..N+1; address sanitizer on");
    static const struct { Type t; const char* n; } T[] = {{BASIC, "basic"}, {FLUID, "fluid"}};
    for (auto& k : T) {
        Type t = k.t; std::string n = k.n;
        for (int P = 1; P <= 4; P++) { mc::add(n + "-" + std::to_string(P) + "-ports-2-nodes", [t, P] { history(t, 2, P, mc::tierPick(P > 2 ? 3 : 4, 5), true); }); mc::add(n + "-initial-" + std::to_string(P), [t, P] { initial(t == FLUID, 2, P); }); }
        mc::add(n + "-2-ports-3-nodes", [t] { history(t, 3, 2, mc::tierPick(4, 6), true); });
        mc::add(n + "-3-ports-3-nodes", [t] { history(t, 3, 3, mc::tierPick(3, 5), true); });
    }
    mc::add("external-demand", [] { history(DEMAND, 2, 2, mc::tierPick(4, 6), true); });
    mc::add("external-supply", [] { history(SUPPLY, 2, 2, mc::tierPick(4, 6), true); });
    mc::add("fluid-external-demand", [] { history(FDEMAND, 2, 2, 3, true); });
    return mc::run(argc, argv, "C06");
}
