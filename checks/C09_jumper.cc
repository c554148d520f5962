// mc: hflags=-fno-access-control
// C09: every socket holds at most one plug, plugs and sockets agree, and jumper ports and conductances follow the connections.
#include "net.hh"
#include "fluid.hh"
#include "core/GunnsBasicSocket.hh"
#include "core/GunnsBasicJumper.hh"
#include "core/GunnsBasicJumperPlug.hh"
#include "core/GunnsFluidSocket.hh"
#include "core/GunnsFluidJumper.hh"
#include "core/GunnsFluidJumperPlug.hh"
#include "core/GunnsFluidUtils.hh"

template <class Base> struct Plug : Base { int no, a, l, c, d; Plug(const char* n, int size) : Base(n, size), no(size), a(size), l(size), c(size), d(size) {}
    void setActiveConnection(const int i) override { a = i; } void setLastDisconnection(const int i) override { l = i; } void setConnectionRequest(const int i) override { c = i; } void setDisconnectionRequest(const int i) override { d = i; }
    int getActiveConnection() override { return a; } int getLastDisconnection() override { return l; } int getConnectionRequest() override { return c; } int getDisconnectionRequest() override { return d; } int getNoConnection() override { return no; } };
struct Basic { typedef GunnsBasicSocket S; typedef GunnsBasicJumper J; typedef Plug<GunnsBasicJumperPlug> P; enum { fluid = 0 }; };
struct Fluid { typedef GunnsFluidSocket S; typedef GunnsFluidJumper J; typedef Plug<GunnsFluidJumperPlug> P; enum { fluid = 1 }; };

struct RPlug { int jumper, port, act, last, c, d, direct; bool disable; };
struct RJumper { int map[2], def[2], plug[2]; bool seal[2]; bool leak; double leakRate, prev, leakG; };
struct World {
    int NS, N; std::vector<int> node, amb, owner; std::vector<RPlug> p; std::vector<RJumper> j;
    void update(int pi, int& node0) {
        RPlug& q = p[pi]; int NO = NS;
        if (q.disable) q.direct = -99;
        if (q.direct >= 0 && q.direct <= NO && q.direct != q.act) { q.d = q.act; if (q.direct != NO && owner[q.direct] < 0) q.c = q.direct; }
        if (q.d != NO && (q.act == q.d || q.act == NO)) { if (owner[q.d] == pi) { owner[q.d] = -1; q.act = NO; } node0 = amb[q.d]; q.last = q.d; }
        q.d = NO;
        if (q.c != NO && q.act == NO && owner[q.c] < 0) { owner[q.c] = pi; q.act = q.c; node0 = node[q.c]; q.last = NO; }
        q.c = NO;
    }
    void setPort(RJumper& r, int port, int n) { r.map[port] = n; }
    void plugs(RJumper& r) { for (int k = 0; k < 2; k++) if (r.plug[k] >= 0) { int n = r.map[k]; update(r.plug[k], n); if (n != r.map[k]) setPort(r, k, n); } }
    void restart(RJumper& r) {
        r.map[0] = r.def[0]; r.map[1] = r.def[1];
        for (int k = 0; k < 2; k++) if (r.plug[k] >= 0) { RPlug& q = p[r.plug[k]]; if (q.act != NS) { q.d = q.c = q.act; } else { q.d = q.last; q.c = NS; } }
        plugs(r);
    }
    bool sealed(const RJumper& r) const { for (int k = 0; k < 2; k++) if (r.plug[k] >= 0 && r.seal[k] && p[r.plug[k]].act == NS) return true; return false; }
};
template <class T> struct Rig {
    typedef typename T::S S; typedef typename T::J J; typedef typename T::P P;
    World w; std::unique_ptr<NetRig> br; std::unique_ptr<FluidNodes> fr; GunnsNodeList* list; std::vector<GunnsBasicLink*> links;
    std::vector<std::unique_ptr<S>> s; std::vector<std::unique_ptr<J>> j; std::vector<std::unique_ptr<P>> p; bool selfSeal;
    Rig(int N, const std::vector<int>& node, const std::vector<int>& amb, bool ss) : selfSeal(ss) {
        w.NS = node.size(); w.N = N; w.node = node; w.amb = amb; w.owner.assign(w.NS, -1);
        if (T::fluid) { fr.reset(new FluidNodes(N, {FluidProperties::GUNNS_N2})); for (int i = 0; i < N; i++) fr->fill(i, 290, 100 + 10 * i, {1.0}); list = &fr->list; for (int i = 0; i <= N; i++) { if (i == N) fr->fill(i, 290, 1e-6, {1.0}); fr->nodes[i].mOutflow.initialize(fr->config, PolyFluidInputData(290, i == N ? 1e-6 : 100 + 10 * i, 0, 0, std::vector<double>{1.0}.data())); } } else { br.reset(new NetRig(N)); list = &br->list; }
        for (int i = 0; i < w.NS; i++) { s.emplace_back(new S); char b[9]; snprintf(b, sizeof b, "s%d", i); sock(*s[i], b, node[i], amb[i]); }
    }
    void sock(GunnsBasicSocket& x, const char* n, int a, int b) { x.initialize(GunnsBasicSocketConfigData(n, list, 0.5, selfSeal), GunnsBasicSocketInputData(false, 0), links, a, b); }
    void sock(GunnsFluidSocket& x, const char* n, int a, int b) { x.initialize(GunnsFluidSocketConfigData(n, list, 0.5, 0.0, selfSeal), GunnsFluidSocketInputData(false, 0), links, a, b); }
    void jump(GunnsBasicJumper& x, P* a, P* b, bool s0, bool s1, int c0, int c1, int n0, int n1) { x.initialize(GunnsBasicJumperConfigData("j", list, 2.0, a, b, s0, s1), GunnsBasicJumperInputData(false, 0, c0, c1), links, n0, n1); }
    void jump(GunnsFluidJumper& x, P* a, P* b, bool s0, bool s1, int c0, int c1, int n0, int n1) { x.initialize(GunnsFluidJumperConfigData("j", list, 2.0, 0.0, a, b, s0, s1), GunnsFluidJumperInputData(false, 0, false, 0, c0, c1), links, n0, n1); }
    void jumper(bool two, bool s0, bool s1, int c0, int c1, int n0, int n1) {
        RJumper r; r.map[0] = r.def[0] = n0; r.map[1] = r.def[1] = n1; r.seal[0] = s0; r.seal[1] = s1; r.leak = false; r.leakRate = r.prev = r.leakG = 0; r.plug[1] = -1;
        P* q[2] = {0, 0};
        for (int k = 0; k < (two ? 2 : 1); k++) { char b[9]; snprintf(b, sizeof b, "p%zu", p.size()); p.emplace_back(new P(b, w.NS)); q[k] = p.back().get(); for (auto& x : s) q[k]->addSocket(*x); RPlug rp; rp.jumper = j.size(); rp.port = k; rp.act = w.NS; rp.last = w.NS; rp.c = rp.d = w.NS; rp.direct = -99; rp.disable = false; r.plug[k] = w.p.size(); w.p.push_back(rp); }
        bool bad = false; int ci[2] = {c0, c1}; if (c0 == c1 && c0 != w.NS && two) bad = true; if (c0 < 0 || c0 > w.NS || (two && (c1 < 0 || c1 > w.NS))) bad = true; if (c0 >= 0 && c0 < w.NS && w.owner[c0] >= 0) bad = true; if (two && c1 >= 0 && c1 < w.NS && w.owner[c1] >= 0) bad = true;
        j.emplace_back(new J); bool threw = false; try { jump(*j.back(), q[0], q[1], s0, s1, c0, c1, n0, n1); } catch (TsInitializationException&) { threw = true; }
        MC_CHECK(threw == bad, "jumper with initial connections %d,%d was %s", c0, c1, threw ? "refused" : "accepted");
        if (bad) mc::prune();
        for (int k = 0; k < (two ? 2 : 1); k++) if (ci[k] != w.NS) { w.owner[ci[k]] = r.plug[k]; w.p[r.plug[k]].act = ci[k]; w.setPort(r, k, w.node[ci[k]]); }
        w.j.push_back(r);
    }
    void leak(GunnsBasicJumper&, bool, double) {} void leak(GunnsFluidJumper& x, bool f, double v) { x.setMalfLeakRate(f, v); }
    void step() {
        for (int i = 0; i < w.NS; i++) s[i]->step(0.1);
        for (int i = 0; i < w.NS; i++) { double g = selfSeal || w.owner[i] >= 0 ? 0.0 : 0.5; MC_CHECK(s[i]->mEffectiveConductivity == g, "socket %d %s conducts %g", i, w.owner[i] >= 0 ? "with a plug" : "without plug", s[i]->mEffectiveConductivity); }
        for (size_t k = 0; k < j.size(); k++) { RJumper& r = w.j[k]; w.plugs(r); predict(k); j[k]->step(0.1); conduct(k); }
        mc::step(); check();
    }
    void predict(size_t k) { RJumper& r = w.j[k]; if (!T::fluid || !w.sealed(r) || r.map[0] == r.map[1] || r.prev == r.leakRate) return; r.prev = r.leakRate; r.leakG = GunnsFluidUtils::predictConductivity(r.leakRate, j[k]->mMinLinearizationPotential, fr->nodes[r.map[0]].getContent(), fr->nodes[r.map[1]].getContent()); }
    void conduct(size_t k) { RJumper& r = w.j[k]; double want = r.map[0] == r.map[1] ? 0.0 : !w.sealed(r) ? 2.0 : r.leak ? std::min(2.0, r.leakG) : 0.0; MC_CHECK(mc::near(j[k]->mEffectiveConductivity, want), "[real %d %d] jumper %zu on nodes %d,%d (%s) conducts %g, expected %g", j[k]->getNodeMap()[0], j[k]->getNodeMap()[1], k, r.map[0], r.map[1], w.sealed(r) ? "sealed" : "open", j[k]->mEffectiveConductivity, want); }
    void check() {
        for (int i = 0; i < w.NS; i++) { int n = 0, who = -1; for (size_t q = 0; q < p.size(); q++) if (s[i]->isConnected(p[q].get())) { n++; who = q; }
            MC_CHECK(n <= 1, "socket %d holds %d plugs", i, n); MC_CHECK(who == w.owner[i], "socket %d holds plug %d, expected %d", i, who, w.owner[i]); MC_CHECK(s[i]->isConnected() == (who >= 0), "socket %d reports the wrong connection", i); }
        for (size_t q = 0; q < p.size(); q++) { RPlug& r = w.p[q];
            MC_CHECK(p[q]->a == r.act, "plug %zu says it is in socket %d, expected %d", q, p[q]->a, r.act); MC_CHECK(p[q]->c == w.NS && p[q]->d == w.NS, "plug %zu requests not cleared", q);
            MC_CHECK(p[q]->l == r.last, "plug %zu last disconnected from %d, expected %d", q, p[q]->l, r.last); MC_CHECK(p[q]->getDirectConnectionRequest() == r.direct, "plug %zu direct request is %d, expected %d", q, p[q]->getDirectConnectionRequest(), r.direct); }
        for (size_t k = 0; k < j.size(); k++) for (int q = 0; q < 2; q++) { RJumper& r = w.j[k]; MC_CHECK(j[k]->getNodeMap()[q] == r.map[q], "jumper %zu port %d is on node %d, expected %d", k, q, j[k]->getNodeMap()[q], r.map[q]);
            int pl = r.plug[q], at = pl < 0 || w.p[pl].act == w.NS ? -1 : w.node[w.p[pl].act];
            if (at >= 0) MC_CHECK(r.map[q] == at, "jumper %zu port %d is on node %d although plugged in at node %d", k, q, r.map[q], at); }
    }
    uint64_t hash() { mc::Hash h; for (int o : w.owner) h.i(o); for (auto& q : w.p) h.i(q.act).i(q.last).i(q.direct).i(q.c).i(q.d).i(q.disable); for (auto& r : w.j) h.i(r.map[0]).i(r.map[1]).i(r.leak).d(r.leakRate).d(r.prev).d(r.leakG); h; return h.h; }
};
template <class T> static void history(int depth, int world, bool restarts) {
    // world 0: sockets on three nodes, ambient ground; 1: ambient is a cabin node; 2: two sockets on one node
    int N = 4; std::vector<int> node = {0, 1, 2}, amb = {N, N, N}; if (world == 1) amb = {3, 3, 3}; if (world == 2) { node = {0, 1, 1}; amb = {N, 3, N}; }
    Rig<T> r(N, node, amb, mc::flip("self-sealing sockets"));
    int seal = mc::choose(3, "jumper seals"); bool few = T::fluid && depth > 2 && !mc::thorough(); int c0 = few ? (mc::flip("c0") ? 0 : 3) : mc::choose(5, "c0") - 1, c1 = few ? (mc::flip("c1") ? 1 : 3) : mc::choose(4, "c1");
    bool ground = mc::flip("default ports at ground");
    r.jumper(true, seal > 0, seal == 1, c0, c1, ground ? N : 3, ground ? N : 2);
    r.jumper(false, seal == 2, false, 3, 3, N, 3);
    r.check();
    for (int d = 0; d < depth; d++) {
        int q = mc::choose(3, "plug"); RPlug& rp = r.w.p[q]; auto& p = *r.p[q];
        int o = mc::choose(3 + 3 + 4 + 2 + (T::fluid ? 2 : 0) + (restarts ? 1 : 0), "op"); bool stepNow = mc::flip("step");
        mc::trace("plug %d op %d%s", q, o, stepNow ? ", step" : "");
        if (o < 3) { p.setConnectionRequest(o); rp.c = o; }
        else if (o < 6) { p.setDisconnectionRequest(o - 3); rp.d = o - 3; }
        else if (o < 10) { p.setDirectConnectionRequest(o - 6); rp.direct = o - 6; }
        else if (o == 10) { p.mDirectConnectionDisable = rp.disable = !rp.disable; }
        else if (o == 11) { p.setDirectConnectionRequest(-99); rp.direct = -99; }
        else if (o == 12 && T::fluid) { RJumper& x = r.w.j[rp.jumper]; x.leak = !x.leak; r.leak(*r.j[rp.jumper], x.leak, x.leakRate); }
        else if (o == 13 && T::fluid) { RJumper& x = r.w.j[rp.jumper]; x.leakRate = x.leakRate > 0 ? 0 : 1e-6; r.leak(*r.j[rp.jumper], x.leak, x.leakRate); }
        else { for (auto& x : r.s) x->restart(); for (size_t k = 0; k < r.j.size(); k++) { r.w.restart(r.w.j[k]); r.j[k]->restart(); } r.check(); stepNow = true; }
        if (stepNow) r.step();
        uint64_t h = r.hash(); mc::state(h); if (mc::cut(h, depth - d)) return;
    }
    r.step(); r.step();
}
int main(int argc, char** argv) {
    mc::bounds("3 sockets, a two-plug and a one-plug jumper competing for them, basic and fluid: every sequence of connection, disconnection and direct requests, disables, leaks, restarts and steps to depth 3 for basic and 2 for fluid jumpers (one more when thorough), for every initial connection, sealing and default port choice");
    for (int w = 0; w < 3; w++) { char b[40];
        snprintf(b, sizeof b, "basic world %d", w); mc::add(b, [=] { history<Basic>(mc::tierPick(3, 4), w, true); });
        snprintf(b, sizeof b, "fluid world %d", w); mc::add(b, [=] { history<Fluid>(mc::tierPick(2, 3), w, true); }); }
    return mc::run(argc, argv, "C09");
}
