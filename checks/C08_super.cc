// mc: hflags=-fno-access-control
// C08: a super-network solves exactly as one network with all the links, however its sub-networks were gathered and joined.
#include "net.hh"
#include "core/network/GunnsBasicSuperNetwork.hh"
#include "core/network/GunnsNetworkBase.hh"
#include "core/network/GunnsMultiLinkConnector.hh"
#include "core/GunnsNetworkSpotter.hh"

struct Spec { Kind k; int a, b; double v, e; };   // local node -1 is ground
struct Sub : GunnsNetworkBase {
    int n; std::vector<Spec> specs; std::unique_ptr<GunnsBasicNode[]> own; std::vector<std::unique_ptr<GunnsBasicLink>> links; int pre, post, inits; double lastDt; struct Hook { GunnsMultiLinkConnector* c; int link, port; }; std::vector<Hook> hooks;
    Sub(const std::string& nm, int nNodes, const std::vector<Spec>& s) : GunnsNetworkBase(nm, nNodes + 1, 0), n(nNodes), specs(s), own(new GunnsBasicNode[nNodes + 1]), pre(0), post(0), inits(0), lastDt(0) { netNodeList.mNodes = own.get(); }
    ~Sub() override {}
    int global(int l) const { return l < 0 ? netNodeList.mNumNodes - 1 : l + netSuperNodesOffset; }
    void initNodes(const std::string& name) override { for (int i = 0; i < n; i++) netNodeList.mNodes[i + netSuperNodesOffset].initialize(name + createNodeName(i + netSuperNodesOffset), 0.0); if (!netIsSubNetwork) netNodeList.mNodes[n].initialize(name + ".GROUND", 0.0); }
    void initNetwork() override {
        inits++; if (!netIsSubNetwork) netSolver.initializeNodes(netNodeList);
        for (auto& s : specs) { int a = global(s.a), b = global(s.b); GunnsNodeList* L = &netNodeList;
            if (s.k == COND) { auto* l = new GunnsBasicConductor; links.emplace_back(l); l->initialize(GunnsBasicConductorConfigData("l", L, s.v), GunnsBasicConductorInputData(), netLinks, a, b); }
            if (s.k == SRC) { auto* l = new GunnsBasicSource; links.emplace_back(l); l->initialize(GunnsBasicSourceConfigData("l", L), GunnsBasicSourceInputData(false, 0, s.v), netLinks, a, b); }
            if (s.k == POT) { auto* l = new GunnsBasicPotential; links.emplace_back(l); l->initialize(GunnsBasicPotentialConfigData("l", L, s.v), GunnsBasicPotentialInputData(false, 0, s.e), netLinks, a, b); }
            if (s.k == CAP) { auto* l = new GunnsBasicCapacitor; links.emplace_back(l); l->initialize(GunnsBasicCapacitorConfigData("l", L), GunnsBasicCapacitorInputData(false, 0, s.v, s.e), netLinks, a, b); } }
        for (auto& h : hooks) h.c->addConnection(links[h.link].get(), h.port, 0);
        if (!netIsSubNetwork) netSolver.initialize(GunnsConfigData(mName, 1e-6, 1.0, 10, 10), netLinks);
    }
    void stepSpottersPre(const double dt) override { pre++; lastDt = dt; MC_CHECK(pre == post + 1, "spotters of %s stepped twice before the solution", mName.c_str()); }
    void stepSpottersPost(const double dt) override { post++; MC_CHECK(pre == post && dt == lastDt, "spotters of %s stepped after the solution out of turn", mName.c_str()); }
};
struct Super : GunnsBasicSuperNetwork {
    explicit Super(const char* n) : GunnsBasicSuperNetwork(n) { netSolverConfig.mMinorStepLimit = 10; netSolverConfig.mDecompositionLimit = 10; }
    std::vector<Sub*> joints; std::vector<int> types;
    GunnsNetworkBase* createJointNetwork(const int type) override { types.push_back(type); char b[20]; snprintf(b, sizeof b, "J%zu", joints.size()); joints.push_back(new Sub(b, 1, {{CAP, 0, -1, 1.0 + joints.size(), 2.0}, {COND, 0, -1, 0.25, 0}})); return joints.back(); }
};
static const std::vector<Spec> specs[4] = {
    {{POT, -1, 0, 1.0, 10.0}, {COND, 0, 1, 2.0, 0}, {COND, 1, -1, 0.5, 0}},
    {{CAP, 0, -1, 3.0, 4.0}, {SRC, -1, 0, 0.75, 0}},
    {{COND, 0, 2, 1.5, 0}, {COND, 2, 1, 0.25, 0}, {POT, -1, 2, 0.1, -3.0}, {CAP, 1, -1, 0.5, -6.0}, {COND, 1, -1, 0.1, 0}},
    {{SRC, 0, -1, -1.25, 0}, {COND, 0, -1, 0.75, 0}}};
static const int sizes[4] = {2, 1, 3, 1};
// The monolithic reference for the sub-networks in this order.
static void mono(NetRig& r, const std::vector<Sub*>& order, Super& m, bool fresh) {
    int off = 0; std::vector<int> offs; for (auto* s : order) { offs.push_back(off); off += s->n; }
    MC_CHECK(m.netNodeList.mNumNodes == off + 1, "super-network has %d nodes, its sub-networks and ground make %d", m.netNodeList.mNumNodes, off + 1);
    r.G = &m.netSolver; r.ND = m.netNodes; if (!fresh) return;
    for (size_t k = 0; k < order.size(); k++) { Sub* s = order[k];
        MC_CHECK(s->getNodeOffset() == offs[k] && s->getSuperNetwork() == &m && m.isSubNetworkAdded(s), "sub-network %s has node offset %d, expected %d", s->getName().c_str(), s->getNodeOffset(), offs[k]);
        MC_CHECK(s->inits == 1, "sub-network %s initialized %d times", s->getName().c_str(), s->inits);
        for (size_t q = 0; q < s->specs.size(); q++) { const Spec& sp = s->specs[q]; RefLink l; l.kind = sp.k; l.p[0] = sp.a < 0 ? off : sp.a + offs[k]; l.p[1] = sp.b < 0 ? off : sp.b + offs[k]; l.v = sp.v; l.e = sp.e; l.blk = false; l.blkV = 0; l.init = sp.e; l.dv = sp.k == CAP ? sp.e : 0; l.flux = 0; r.ref.push_back(l); r.links.push_back(s->links[q].get()); } }
    MC_CHECK(m.mLinks == r.links, "super-network has %zu links, sub-networks %zu", m.mLinks.size(), r.links.size());
    for (int i = 0; i <= off; i++) { std::string want = i == off ? "M.GROUND" : "M.Node_" + std::to_string(i); MC_CHECK(want == m.netNodes[i].getName(), "node %d is named %s", i, m.netNodes[i].getName()); }
}
static void steps(NetRig& r, const std::vector<Sub*>& order, Super& m, int n) {
    for (int k = 0; k < n; k++) {
        std::vector<double> before; for (int i = 0; i <= r.N; i++) before.push_back(m.netNodes[i].getPotential());
        for (auto* s : order) { s->update(0.1); s->restart(); s->initialize("x"); MC_CHECK(s->inits == 1, "initializing sub-network %s by itself did something", s->getName().c_str()); }
        for (int i = 0; i <= r.N; i++) MC_CHECK(before[i] == m.netNodes[i].getPotential(), "updating sub-networks moved node %d", i);
        double dt = k == 1 ? 0.5 : 0.1;
        m.update(dt);
        for (auto* s : order) MC_CHECK(s->pre == k + 1 && s->post == k + 1 && s->lastDt == dt, "spotters of %s stepped %d and %d times in %d steps", s->getName().c_str(), s->pre, s->post, k + 1);
        r.compare(dt);
    }
}
static void merge(int depth) {
    const int NS = 3; std::vector<std::unique_ptr<Sub>> subs; for (int i = 0; i < NS; i++) { char b[9]; snprintf(b, sizeof b, "S%d", i); subs.emplace_back(new Sub(b, sizes[i], specs[i])); }
    Super S[3] = {Super("M"), Super("A"), Super("B")};
    struct R { std::vector<int> subs; bool reg; } R[3]; for (auto& x : R) x.reg = false; std::vector<int> owner(NS, -1);
    std::function<void(int, int)> addNet, addSuper;
    addNet = [&](int s, int i) { if (R[s].reg || owner[i] == s) return; if (owner[i] >= 0) addSuper(s, owner[i]); else { R[s].subs.push_back(i); owner[i] = s; } };
    addSuper = [&](int s, int t) { if (R[s].reg) return; std::vector<int> c = R[t].subs; R[t].subs.clear(); R[t].reg = false; for (int i : c) { owner[i] = -1; } for (int i : c) addNet(s, i); };
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(9 + 6 + 2 + 1, "op");
        if (o < 9) { mc::trace("add net %d to %d", o % 3, o / 3); addNet(o / 3, o % 3); S[o / 3].addSubNetwork(subs[o % 3].get()); }
        else if (o < 15) { static const int st[6][2] = {{0,1},{0,2},{1,0},{1,2},{2,0},{2,1}}; int s = st[o - 9][0], t = st[o - 9][1]; mc::trace("add super %d to %d", t, s); addSuper(s, t); S[s].addSubNetwork(&S[t]); }
        else if (o < 17) { int s = o - 14; mc::trace("register %d", s); R[s].reg = true; S[s].registerSuperNodes(); }
        else S[mc::choose(3, "super")].addSubNetwork((GunnsNetworkBase*)0);
        for (int s = 0; s < 3; s++) { MC_CHECK(S[s].mSubnets.size() == R[s].subs.size(), "super %d has %zu sub-networks, expected %zu", s, S[s].mSubnets.size(), R[s].subs.size()); for (size_t k = 0; k < R[s].subs.size(); k++) MC_CHECK(S[s].mSubnets[k] == subs[R[s].subs[k]].get(), "super %d sub-network %zu is the wrong one", s, k); }
        mc::step();
    }
    for (int i = 0; i < NS; i++) { addNet(0, i); S[0].addSubNetwork(subs[i].get()); }
    std::vector<Sub*> order; for (int i : R[0].subs) order.push_back(subs[i].get()); MC_CHECK((int)order.size() == NS, "reference lost a sub-network");
    S[0].initialize(); for (auto* s : order) MC_CHECK(s->inits == 0, "initialized before nodes are registered");
    S[0].registerSuperNodes(); if (mc::flip("again")) { S[0].registerSuperNodes(); Sub extra("X", 1, {}); S[0].addSubNetwork(&extra); S[0].addSubNetwork(&S[1]); }
    S[0].initialize();
    int N = 0; for (auto* s : order) N += s->n; NetRig r(N); mono(r, order, S[0], true);
    mc::Hash h; for (int i : R[0].subs) h.i(i); mc::state(h.h);
    for (int s = 1; s < 3; s++) { S[s].update(0.1); S[s].restart(); }
    steps(r, order, S[0], 2);
    r.links.clear();
}
// joints: locations in sub-networks are joined pairwise, also several at one joint
static void joints(int calls) {
    const int NL = 4;
    std::vector<std::unique_ptr<Sub>> subs; for (int i = 0; i < 3; i++) { char b[9]; snprintf(b, sizeof b, "S%d", i); subs.emplace_back(new Sub(b, sizes[i], specs[i])); }
    std::unique_ptr<Super> mp(new Super("M")); Super& m = *mp; Super A("A"); std::vector<Sub*> order;
    auto reach = [&](Sub* s) { if (std::find(order.begin(), order.end(), s) == order.end()) order.push_back(s); };
    int pre = mc::choose(3, "already"); if (pre == 1) { m.addSubNetwork(subs[2].get()); reach(subs[2].get()); } if (pre == 2) { A.addSubNetwork(subs[2].get()); A.addSubNetwork(subs[1].get()); }
    struct Loc { int sub, link, port; int type; int joint; } loc[NL] = {{0, 2, 1, 1, -1}, {1, 1, 0, 1, -1}, {2, 4, 1, 1, -1}, {2, 3, 1, mc::choose(2, "type"), -1}};
    std::vector<std::unique_ptr<GunnsMultiLinkConnector>> con; static const char* nm[] = {"L0", "L1", "L2", "L3"};
    for (int i = 0; i < NL; i++) { con.emplace_back(new GunnsMultiLinkConnector(subs[loc[i].sub].get(), loc[i].type)); con[i]->mName = nm[i]; }
    int entries = 0; std::vector<int> index; auto joinSub = [&](int i) { if (pre == 2 && (i == 1 || i == 2)) { reach(subs[2].get()); reach(subs[1].get()); } else reach(subs[i].get()); };
    for (int c = 0; c < calls; c++) {
        int a = mc::choose(NL, "a"), b = mc::choose(NL, "b"); if (a == b) mc::prune();
        mc::trace("join %d %d", a, b);
        bool bad = loc[a].type != loc[b].type || (loc[a].joint >= 0 && loc[b].joint >= 0), threw = false;
        try { m.joinLocations(con[a].get(), con[b].get()); } catch (TsInitializationException&) { threw = true; }
        MC_CHECK(threw == bad, "joining locations %d and %d was %s", a, b, threw ? "refused" : "accepted");
        if (bad) continue;
        int j = loc[a].joint >= 0 ? loc[a].joint : loc[b].joint; if (j < 0) { j = (int)index.size(); index.push_back(entries); MC_CHECK(m.types.back() == loc[a].type, "joint created with another type"); }
        loc[a].joint = loc[b].joint = j; entries++;
        MC_CHECK((int)m.joints.size() == (int)index.size(), "%zu joint networks, expected %zu", m.joints.size(), index.size());
        reach(m.joints[j]); joinSub(loc[a].sub); joinSub(loc[b].sub);
    }
    for (int i = 0; i < 3; i++) { m.addSubNetwork(subs[i].get()); joinSub(i); }
    m.registerSuperNodes();
    for (int i = 0; i < NL; i++) {
        MC_CHECK(m.getLocationJoint(con[i].get()) == (loc[i].joint < 0 ? (GunnsNetworkBase*)0 : m.joints[loc[i].joint]), "location %d is given the wrong joint network", i);
        for (int again = 0; again < 2; again++) { int got = -1; try { got = (int)m.getJointIndex(nm[i]); } catch (TsOutOfBoundsException&) {} MC_CHECK(got == (loc[i].joint < 0 ? -1 : m.joints[loc[i].joint]->getJointIndex()), "location %d is given joint index %d", i, got); if (got >= 0) MC_CHECK(got < entries, "joint index %d beyond %d joints", got, entries); }
        for (int k = 0; k < i; k++) if (loc[i].joint >= 0 && loc[k].joint >= 0 && loc[i].joint != loc[k].joint) MC_CHECK(m.getJointIndex(nm[i]) != m.getJointIndex(nm[k]), "two joints share an index");
    }
    for (int i = 0; i < NL; i++) subs[loc[i].sub]->hooks.push_back({con[i].get(), loc[i].link, loc[i].port});
    m.initialize();
    int N = 0; for (auto* s : order) N += s->n; NetRig r(N); mono(r, order, m, true);
    auto jointNode = [&](int j) { int off = 0; for (auto* s : order) { if (s == m.joints[j]) return off; off += s->n; } return -1; };
    size_t base = 0; for (auto* s : order) { for (int i = 0; i < NL; i++) if (loc[i].joint >= 0 && s == subs[loc[i].sub].get()) r.ref[base + loc[i].link].p[loc[i].port] = jointNode(loc[i].joint); base += s->specs.size(); }
    std::vector<double> p(N + 1, 0.0); for (auto& l : r.ref) if (l.kind == CAP) p[l.p[0]] = l.init; p[N] = 0; for (auto& l : r.ref) if (l.kind == CAP) l.dv = p[l.p[0]] - p[l.p[1]];   // initial potentials are those of the nodes
    mc::Hash h; for (auto& l : loc) h.i(l.joint); for (auto* s : order) h.s(s->getName()); mc::state(h.h);
    steps(r, order, m, 2);
    if (mc::flip("restart")) { m.restart(); for (auto* s : order) s->pre = s->post = 0; for (size_t k = 0; k < r.ref.size(); k++) for (int q = 0; q < 2; q++) MC_CHECK(r.links[k]->getNodeMap()[q] == r.ref[k].p[q], "after restart port %d of link %zu is on node %d instead of %d", q, k, r.links[k]->getNodeMap()[q], r.ref[k].p[q]); }
    r.links.clear();
}
int main(int argc, char** argv) {
    mc::add("merge", [] { merge(mc::tierPick(4, 5)); });
    mc::add("joints", [] { joints(3); });
    return mc::run(argc, argv, "C08");
}
