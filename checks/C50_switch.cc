// mc: hflags=-fno-access-control
// C50: circuit protection trips exactly on its conditions, latches, resets only as commanded or by its reset
// limits, and no converged network step leaves a protected switch closed outside its limits.
#include "net.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
using namespace mc;

// ---------- the switch object by itself, against a reference written from its documentation ----------
enum { UV, OV, POC, NOC };
struct Ref {
    bool pos, cmd, resetCmd, closed, open, waiting, just; double lim[4], rst[2]; unsigned prio; bool trip[4], inhibit[4], force[4], rInhibit[2], rForce[2];
    bool tripped() const { return trip[0] || trip[1] || trip[2] || trip[3]; }
    static bool over(int k, double x, double lim) { return k == OV || k == POC ? x > lim : x < lim; }
    void state() {
        if (tripped() && !cmd) reset(); if (resetCmd) { reset(); resetCmd = false; }
        if (closed) pos = true; else if (open) pos = false; else if (tripped()) pos = false; else if (!waiting) pos = cmd; }
    void reset() { for (int k = 0; k < 4; k++) trip[k] = false; waiting = just = false; }
    void step(double i, double v, int cs) {
        waiting = just = false; if (cs < 1) return;
        bool reject = false, delay = false; double x[4] = {v, v, i, i};
        if (trip[UV] || trip[OV]) { if (open || trip[POC] || trip[NOC]) return;
            for (int k = 0; k < 2; k++) if (trip[k]) { if (rInhibit[k] || rst[k] == 0 || prio < 1) continue;
                if (rForce[k] || over(1 - k, v, rst[k])) { if (rForce[k] || cs == (int)prio) { trip[k] = false; reject = true; } else delay = true; } }
            if (reject) { just = true; if (cmd && !tripped()) pos = true; } else waiting = delay; return; }
        if (!cmd || tripped() || closed) return;
        for (int k = 0; k < 4; k++) { if (inhibit[k] || lim[k] == 0 || prio < 1) continue;
            if (force[k] || over(k, x[k], lim[k])) { if (force[k] || cs == (int)prio) { trip[k] = true; reject = true; } else delay = true; } }
        if (reject) { just = true; pos = false; } else waiting = delay;
    }
};
static void object(int depth, bool malf) {
    static const float UVL[] = {0, 95}, OVL[] = {0, 130}, OC[] = {0, 10};
    Ref r; r.prio = mc::choose(4, "priority"); int lv = mc::choose(4, "limits set");
    if (malf) { if (lv != 3) mc::prune(); }
    r.lim[UV] = UVL[lv & 1]; r.lim[OV] = OVL[lv & 1]; r.rst[UV] = r.lim[UV] ? 105 : 0; r.rst[OV] = r.lim[OV] ? 125 : 0; r.lim[POC] = OC[lv >> 1]; r.lim[NOC] = -OC[lv >> 1];
    r.cmd = r.pos = mc::flip("initially closed"); r.resetCmd = r.closed = r.open = r.waiting = r.just = false; for (int k = 0; k < 4; k++) r.trip[k] = r.inhibit[k] = r.force[k] = false; for (int k = 0; k < 2; k++) r.rInhibit[k] = r.rForce[k] = false;
    GunnsElectSwitchUtil2 s; s.initialize(GunnsElectSwitchUtil2ConfigData(0.01f, r.prio), GunnsElectSwitchUtil2InputData(r.cmd, r.cmd, false, r.lim[UV], r.rst[UV], r.lim[OV], r.rst[OV], r.lim[POC], r.lim[NOC]), "s");
    GunnsTripLogic* T[4] = {s.getInputUnderVoltageTrip(), s.getInputOverVoltageTrip(), s.getPosOverCurrentTrip(), s.getNegOverCurrentTrip()}; GunnsTripLogic* R[2] = {s.getInputUnderVoltageReset(), s.getInputOverVoltageReset()};
    auto same = [&](const char* when) { mc::validated();
        for (int k = 0; k < 4; k++) MC_CHECK(T[k]->isTripped() == r.trip[k], "%s: trip %d is %d, expected %d", when, k, T[k]->isTripped(), r.trip[k]);
        MC_CHECK(s.getPosition() == r.pos, "%s: switch is %s, expected %s (command %d, tripped %d)", when, s.getPosition() ? "closed" : "open", r.pos ? "closed" : "open", r.cmd, r.tripped());
        MC_CHECK(s.isWaitingToTrip() == r.waiting && s.hasJustTripped() == r.just && s.isTripped() == r.tripped(), "%s: waiting %d/%d just tripped %d/%d", when, s.isWaitingToTrip(), r.waiting, s.hasJustTripped(), r.just);
        MC_CHECK(r.pos ? s.getResistance() > 0 && s.getResistance() < 1 : s.getResistance() > 1e15, "%s: resistance %g while %s", when, s.getResistance(), r.pos ? "closed" : "open"); };
    for (int d = 0; d < depth; d++) {
        Hash h; h.i(r.prio).i(lv).i(r.cmd).i(r.pos).i(r.closed).i(r.open).i(r.waiting).i(s.getPosition()); for (int k = 0; k < 4; k++) h.i(r.trip[k]).i(r.inhibit[k]).i(r.force[k]).i(T[k]->isTripped()); for (int k = 0; k < 2; k++) h.i(r.rInhibit[k]).i(r.rForce[k]);
        if (mc::cut(h.h, depth - d)) return;
        int o = mc::choose(malf ? 18 : 3, "command");
        if (o == 1) { r.cmd = !r.cmd; s.setPositionCommand(r.cmd); }
        if (o == 2) { r.resetCmd = true; s.mResetTripsCommand = true; }
        if (o == 3) { r.closed = !r.closed; s.setMalfFailClosed(r.closed); }
        if (o == 4) { r.open = !r.open; s.setMalfFailOpen(r.open); }
        if (o >= 5 && o < 9) { int k = o - 5; r.force[k] = !r.force[k]; T[k]->mMalfForceTrip = r.force[k]; }
        if (o >= 9 && o < 13) { int k = o - 9; r.inhibit[k] = !r.inhibit[k]; T[k]->mMalfInhibitTrip = r.inhibit[k]; }
        if (o == 13 || o == 14) { int k = o - 13; r.rInhibit[k] = !r.rInhibit[k]; R[k]->mMalfInhibitTrip = r.rInhibit[k]; }
        if (o == 15 || o == 16) { int k = o - 15; r.rForce[k] = !r.rForce[k]; R[k]->mMalfForceTrip = r.rForce[k]; }
        if (o == 17) { r.reset(); s.resetTrips(); }
        static const double V[] = {120, 90, 100, 127, 140}, I[] = {5, 20, -20}; double v = pick(V, "voltage"), load = pick(I, "load current");
        mc::trace("command %d, voltage %g, current when closed %g", o, v, load);
        s.updateState(); r.state(); same("after updateState"); mc::step();
        bool settled = false; s.updateTrips(load, v, 0); r.step(load, v, 0); same("while not converged");
        for (int cs = 1, n = 0; n < 9; n++, cs++) { if (n) { s.updateState(); r.state(); same("after updateState in a minor step"); }
            double i = r.pos ? load : 0; s.updateTrips(i, v, cs); r.step(i, v, cs); mc::step(); same("after updateTrips");
            if (r.just) { cs = 0; continue; } if (r.waiting) continue; settled = true; break; }
        // what protection promises, whatever way it is reached
        bool anyMalf = r.closed || r.open; for (int k = 0; k < 4; k++) anyMalf = anyMalf || r.inhibit[k] || r.force[k]; for (int k = 0; k < 2; k++) anyMalf = anyMalf || r.rInhibit[k] || r.rForce[k];
        if (!settled) return;   // chattering: the network step would fail to converge
        if (!r.closed) MC_CHECK(!s.getPosition() || (r.cmd && !s.isTripped()), "settled with the switch closed though commanded %d and tripped %d", r.cmd, s.isTripped());
        if (!anyMalf) { MC_CHECK(s.getPosition() == (r.cmd && !s.isTripped()), "settled with the switch in the wrong position");
            if (s.getPosition() && r.prio) { MC_CHECK((!r.lim[UV] || v >= r.lim[UV]) && (!r.lim[OV] || v <= r.lim[OV]), "settled closed at %g V", v); MC_CHECK(!r.lim[POC] || (load <= r.lim[POC] && load >= r.lim[NOC]), "settled closed at %g A", load); } }
    }
}
static void limits() {   // limit changes at run time are constrained
    static const float L[] = {0, 90, 110, 130}; GunnsElectSwitchUtil2 s; float uv = pick(L, "uv"), uvr = pick(L, "uv reset"), ov = pick(L, "ov"), ovr = pick(L, "ov reset"), res = mc::flip("zero resistance") ? 0.0f : 0.1f; bool ok = true;
    try { s.initialize(GunnsElectSwitchUtil2ConfigData(res, 1), GunnsElectSwitchUtil2InputData(true, true, false, uv, uvr, ov, ovr, 0, 0), "s"); } catch (TsInitializationException&) { ok = false; }
    MC_CHECK(ok == (res > 0 && uvr >= uv && ovr <= ov), "initialisation %s", ok ? "accepted" : "refused"); MC_CHECK(s.isInitialized() == ok, "initialised flag"); mc::step();
    if (!ok) return;
    s.getInputUnderVoltageTrip()->setLimit(pick(L, "new uv")); s.getInputOverVoltageTrip()->setLimit(pick(L, "new ov")); s.mResistance = mc::flip("zero") ? 0.0f : 1.0f; s.updateState();
    MC_CHECK(s.getInputUnderVoltageReset()->getLimit() >= s.getInputUnderVoltageTrip()->getLimit() && s.getInputOverVoltageReset()->getLimit() <= s.getInputOverVoltageTrip()->getLimit() && s.getResistance() > 0, "reset limits inside the trip limits");
}
// ---------- cascades of protected switches in a real network ----------
struct Sw { int a, b; unsigned prio; double lim; bool cmd, trip, pos; GunnsElectUserLoadSwitch2* l; };
static void cascade(int depth, int ns, bool volt) {
    // bus 0 - switch 0 - node 1 - switch 1 - node 2 (load); node 1 - switch 2 - node 3 (load)
    static const int A[] = {0, 1, 1}, B[] = {1, 2, 3}; int N = ns + 1;
    NetRig rig(N, 60, 60); std::vector<Sw> sw; std::vector<double> load(N, 0.05); double src = 120;
    rig.addLink(POT, N, 0, 1000.0, src);
    for (int n = 2; n < N; n++) rig.addLink(COND, n, N, load[n]);
    if (N == 2) rig.addLink(COND, 1, N, load[1]);
    static const unsigned PR[][3] = {{3, 1, 2}, {2, 1, 1}, {1, 2, 3}, {1, 1, 1}}; int pr = mc::choose(4, "priorities");
    static const double LM[][3] = {{25, 10, 10}, {10, 10, 10}}; int lm = mc::choose(2, "limits");
    for (int k = 0; k < ns; k++) { Sw s; s.a = A[k]; s.b = B[k]; s.prio = PR[pr][k]; s.lim = LM[lm][k]; s.cmd = s.pos = true; s.trip = false; s.l = new GunnsElectUserLoadSwitch2; rig.own.emplace_back(s.l);
        GunnsElectUserLoadSwitch2ConfigData c("sw", &rig.list, 0.01f, s.prio, -1e4f, 1e4f, -1e4f, 1e4f, -1e4f, 1e4f); c.mCurrentSensor.mNoiseFunction = c.mInputVoltageSensor.mNoiseFunction = c.mOutputVoltageSensor.mNoiseFunction = 0;
        c.mCurrentSensor.mNoiseFunction = [] { return 0.0; }; c.mInputVoltageSensor.mNoiseFunction = c.mOutputVoltageSensor.mNoiseFunction = c.mCurrentSensor.mNoiseFunction;
        GunnsElectUserLoadSwitch2InputData i(false, 0, true, volt ? 95.f : 0.f, volt ? 105.f : 0.f, volt ? 130.f : 0.f, volt ? 125.f : 0.f, s.lim, -s.lim);
        s.l->initialize(c, i, rig.links, s.a, s.b); sw.push_back(s); }
    rig.gunns->initialize(GunnsConfigData("n", 1e-6, 1e-12, 60, 60), rig.links);
    auto flows = [&](std::vector<long double>& v) {   // independent solution for given switch positions
        std::vector<RefLink> L; auto add = [&](Kind k, int a, int b, double g, double e) { RefLink r; r.kind = k; r.p[0] = a; r.p[1] = b; r.v = g; r.e = e; r.blk = false; r.blkV = 0; r.dv = 0; L.push_back(r); };
        add(POT, N, 0, 1000.0, src); for (int n = N == 2 ? 1 : 2; n < N; n++) add(COND, n, N, load[n], 0);
        for (auto& s : sw) add(COND, s.a, s.b, s.pos ? 1.0 / (double)0.01f : 0.0, 0); RefSolve R; R.solve(L, N, 0.1); v = R.v; v.push_back(0); };
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(volt ? 4 : 3, "event");
        if (o == 1) { int n = N == 2 ? 1 : 2 + mc::choose(N - 2, "load"); static const double G[] = {0.02, 0.15, 0.07, 2.0}; double g = pick(G, "load conductance"); if (g == load[n]) mc::prune(); load[n] = g; int li = N == 2 ? 1 : n - 1; ((GunnsBasicConductor*)rig.links[li])->setDefaultConductivity(g); mc::trace("load %d conducts %g", n, g); }
        if (o == 2) { int k = mc::choose(ns, "switch"); sw[k].cmd = !sw[k].cmd; sw[k].l->mSwitch.setPositionCommand(sw[k].cmd); mc::trace("switch %d commanded %d", k, sw[k].cmd); }
        if (o == 3) { static const double S[] = {120, 100, 80, 128, 150}; double s = pick(S, "source"); if (s == src) mc::prune(); src = s; ((GunnsBasicPotential*)rig.links[0])->setSourcePotential(s); mc::trace("source %g V", s); }
        rig.gunns->step(0.1); mc::step();
        MC_CHECK(rig.gunns->mConvergenceFailCount == 0, "network did not converge");
        for (int k = 0; k < ns; k++) { auto& S = sw[k].l->mSwitch; double i = sw[k].l->getFlux(), v = rig.nodes[sw[k].a].getPotential();
            mc::trace("  switch %d %s%s %g A at %g V", k, S.getPosition() ? "closed" : "open", S.isTripped() ? " tripped" : "", i, v);
            MC_CHECK(S.getPosition() == (sw[k].cmd && !S.isTripped()), "switch %d is %s though commanded %d, tripped %d", k, S.getPosition() ? "closed" : "open", sw[k].cmd, S.isTripped());
            if (!S.getPosition()) MC_CHECK(fabs(i) < 1e-6, "open switch %d carries %g A", k, i);
            else { MC_CHECK(i <= sw[k].lim * 1.000001 && i >= -sw[k].lim * 1.000001, "a converged step leaves switch %d closed with %g A, limit %g", k, i, sw[k].lim);
                if (volt) MC_CHECK(v >= 95 * 0.999999 && v <= 130 * 1.000001, "a converged step leaves switch %d closed at %g V", k, v); }
        }
        if (volt) continue;
        // selectivity: the trip with the lowest priority number goes first and the rest are decided on the new solution
        for (auto& s : sw) { if (!s.cmd) s.trip = false; s.pos = s.cmd && !s.trip; }
        std::vector<long double> v;
        for (int n = 0; n < 10; n++) { flows(v); unsigned best = 99; for (auto& s : sw) { double i = (v[s.a] - v[s.b]) / (double)0.01f; if (s.pos && i > s.lim) best = std::min(best, s.prio); if (s.pos && fabs(i - s.lim) < 1e-6) mc::prune(); } if (best == 99) break;
            for (auto& s : sw) if (s.pos && s.prio == best && (v[s.a] - v[s.b]) / (double)0.01f > s.lim) { s.trip = true; s.pos = false; } }
        for (int k = 0; k < ns; k++) { MC_CHECK(sw[k].l->mSwitch.isTripped() == sw[k].trip, "switch %d (priority %d) is %s, selective protection expects it %s", k, sw[k].prio, sw[k].l->mSwitch.isTripped() ? "tripped" : "not tripped", sw[k].trip ? "tripped" : "not tripped"); }
        for (int n = 0; n < N; n++) MC_CHECK(near(rig.nodes[n].getPotential(), (double)v[n], 1e-6, 1e-5), "node %d at %g V, expected %g", n, rig.nodes[n].getPotential(), (double)v[n]);
        mc::validated(); mc::outcome("trips " + std::to_string(sw[0].trip) + std::to_string(ns > 1 && sw[1].trip) + std::to_string(ns > 2 && sw[2].trip));
    }
}
int main(int argc, char** argv) {
    mc::add("switch object: commands", [] { object(tierPick(5, 7), false); });
    mc::add("switch object: commands and malfunctions", [] { object(tierPick(4, 5), true); });
    mc::add("limit constraints", limits);
    mc::add("one switch in a network", [] { cascade(tierPick(4, 6), 1, false); });
    mc::add("two switches in series", [] { cascade(tierPick(4, 5), 2, false); });
    mc::add("two branches behind a main switch", [] { cascade(tierPick(4, 5), 3, false); });
    mc::add("voltage protection in series", [] { cascade(tierPick(4, 5), 2, true); });
    return mc::run(argc, argv, "C50");
}
