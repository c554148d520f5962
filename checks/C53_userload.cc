// mc: hflags=-fno-access-control
// C53: user loads behind a protected switch draw what their mode, malfunctions and supply imply; fuses and trips act exactly at their limits and in order.
#include "net.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch.hh"
#include "aspects/electrical/Switch/GunnsElectUserLoadSwitch2.hh"
#include "aspects/electrical/Switch/Switch.hh"
#include "aspects/electrical/UserLoad/GunnsElectResistiveUserLoad.hh"
#include "aspects/electrical/UserLoad/GunnsElectConstantPowerUserLoad.hh"
using namespace mc;
static const double RSW = 0.05, GS = 20, BIG = 1e8;
struct Load { bool res; double uv, a, b, fuse, frac, period; int mode = 1; bool blown = false, malfBlow = false, cur = false, pow = false; double curV = 0, powV = 0; bool magic = false; double magicV = 0, timer = 0; GunnsElectUserLoad* l = 0; UserLoadBase* u = 0;
    void at(double supply, double& v, double& i, double& p, double& r) const { v = magic ? magicV : blown ? 0 : supply; i = p = 0; r = BIG; if (!(v > uv)) return;
        if (res) { if (cur) r = curV == 0 ? BIG : v / curV; else if (pow) r = powV == 0 ? BIG : v * v / powV; else if (mode == 0) return; else { double x = mode == 1 ? a : b; r = x > 0 ? std::min(BIG, std::max(0.1, x)) : BIG; } i = v / r; p = v * v / r; }
        else { if (cur) p = v * curV; else if (pow) p = powV; else if (mode == 0) return; else p = mode == 1 ? a : b; i = p / v; if (p > 0) { double x = std::max(v, 0.99 * uv); r = x * x / p; } } } };
static bool eqr(double a, double e, double r) { return std::fabs(a - e) <= 1e-9 + r * std::max(std::fabs(a), std::fabs(e)); }
struct Rig {
    NetRig rig; int ver; GunnsElectUserLoadSwitch* s1 = 0; GunnsElectUserLoadSwitch2* s2 = 0; std::vector<Load> L; double E = 120, lim = 10; bool cmd = true, trip = false, fc = false, fo = false, reset = false, ovr = false, ign = false; double ovrV = 0, startOvr = 0, sR = 0, fR = 1; 
    Rig(int v, int prio) : rig(1, 60, 60, 1e-9), ver(v) { rig.addLink(POT, 1, 0, GS, E); (void)prio; }
    void load(bool res, double uv, double a, double b, double fuse, double frac = 0, double period = 0) { Load x; x.res = res; x.uv = uv; x.a = a; x.b = b; x.fuse = fuse; x.frac = frac; x.period = period; L.push_back(x); }
    std::vector<std::unique_ptr<GunnsElectUserLoad>> keep; std::vector<std::unique_ptr<GunnsElectResistiveUserLoadConfigData>> rc; std::vector<std::unique_ptr<GunnsElectResistiveUserLoadInputData>> ri; std::vector<std::unique_ptr<GunnsElectConstantPowerUserLoadConfigData>> pc; std::vector<std::unique_ptr<GunnsElectConstantPowerUserLoadInputData>> pi;
    void start(int prio) {
        GunnsBasicLink* link; if (ver == 1) link = s1 = new GunnsElectUserLoadSwitch; else link = s2 = new GunnsElectUserLoadSwitch2; rig.own.emplace_back(link);
        for (auto& x : L) { if (x.res) { rc.emplace_back(new GunnsElectResistiveUserLoadConfigData("a_b_c_d_e_f", x.uv, x.a, x.b, x.fuse, x.frac, x.period)); ri.emplace_back(new GunnsElectResistiveUserLoadInputData(1, 0, 0)); auto* l = new GunnsElectResistiveUserLoad(rc.back().get(), ri.back().get()); x.l = l; }
            else { pc.emplace_back(new GunnsElectConstantPowerUserLoadConfigData("load", x.uv, x.a, x.b, x.fuse, x.frac, x.period)); pi.emplace_back(new GunnsElectConstantPowerUserLoadInputData(1, 0, 0)); x.l = new GunnsElectConstantPowerUserLoad(pc.back().get(), pi.back().get()); }
            keep.emplace_back(x.l); if (s1) s1->addUserLoad(x.l); else s2->addUserLoad(x.l); }
        if (s1) { GunnsElectUserLoadSwitchConfigData c("s", &rig.list, RSW, prio); GunnsElectUserLoadSwitchInputData i(false, 0, true, lim, -0.1, startOvr > 0, startOvr); s1->initialize(c, i, rig.links, 0, 1); }
        else { GunnsElectUserLoadSwitch2ConfigData c("s", &rig.list, (float)RSW, prio, -1e4f, 1e4f, -1e4f, 1e4f, -1e4f, 1e4f); c.mCurrentSensor.mNoiseFunction = [] { return 0.0; }; c.mInputVoltageSensor.mNoiseFunction = c.mOutputVoltageSensor.mNoiseFunction = c.mCurrentSensor.mNoiseFunction;
            GunnsElectUserLoadSwitch2InputData i(false, 0, true, 0, 0, 0, 0, (float)lim, -0.1f, startOvr > 0, startOvr); s2->initialize(c, i, rig.links, 0, 1); }
        for (auto& x : L) x.u = x.l->getLoad(); bool threw = false; try { if (s1) s1->addUserLoad(L[0].l); else s2->addUserLoad(L[0].l); } catch (TsInitializationException&) { threw = true; } MC_CHECK(threw, "a load was added to an initialised switch");
        rig.gunns->initialize(GunnsConfigData("n", 1e-9, 1e-12, 60, 60), rig.links); }
    // operating point: the loads see the source less its own and the switch's drop
    double rsw() const { double r = ver == 1 ? RSW : (double)(float)RSW; return ver == 1 ? r * fR : r; }
    bool solve(bool closed, double& V0, double& VL, double& I) {
        if (!closed) { V0 = E; VL = 0; I = 0; return true; }
        double r = rsw() + 1 / GS, x = E; bool ok = false;
        for (int n = 0; n < 400 && !ok; n++) { double g = 0; for (auto& l : L) { double a, b, c, d; l.at(x, a, b, c, d); g += 1 / d; } if (sR) g += 1 / sR; double y = E / (1 + r * g); ok = std::fabs(x - y) <= 1e-12 * E; x = y; }
        VL = x; I = (E - x) / r; V0 = E - I / GS; return ok; }
    double tol = 1e-6; bool eq(double a, double e) const { return std::fabs(a - e) <= 1e-7 + tol * std::max(std::fabs(a), std::fabs(e)); }   // the loads see the switch drop of the last pass, so the first step after a change is compared loosely
    void step(double dt, bool strict) { tol = strict ? 1e-6 : 0.05; double last = rig.links.back()->getFlux();
        for (auto& x : L) { if (x.period > 0) { x.timer += dt; if (x.timer > x.period) x.timer = 0; x.mode = x.timer / x.period > x.frac ? 0 : 1; } if (x.malfBlow) x.blown = true; }
        if (ovr) cmd = false; bool was = trip; if ((trip && !cmd) || reset) trip = false; bool closed = fc ? true : fo ? false : trip ? false : cmd; if (ver == 1 && was && !fc) closed = false; reset = false;
            double V0, VL, I;
        for (int n = 0; n < 10; n++) {
            if (ovr) { closed = closed && false; V0 = E; I = 0; VL = ovrV; } else if (!solve(closed, V0, VL, I)) { mc::outcome("no operating point"); throw 1; }
            double err = 0.04 + 3 * std::fabs(I - last) * rsw() / std::max(VL, 1.0); if (!strict) tol = std::max(tol, err); if (!strict && closed) for (auto& x : L) if (!x.magic && !x.blown && std::fabs(VL - x.uv) < 0.5 * err * VL) mc::prune();
            bool again = false; if (!ovr) for (auto& x : L) if (!x.blown && x.fuse > 0) { double v, i, p, r; x.at(closed ? VL : 0, v, i, p, r); double c = V0 / r; if (std::fabs(c - x.fuse) < err * x.fuse) mc::prune(); if (c > x.fuse) { x.blown = true; again = true; break; } }
            if (again) continue;
            if (closed && !fc && !ign && !ovr) { if (std::fabs(I - lim) < err * lim) mc::prune(); if (I > lim) { trip = true; closed = false; continue; } } break; }
        rig.gunns->step(dt); mc::step(); mc::validated();
        bool pos = s1 ? s1->mSwitch.isClosed() : s2->mSwitch.getPosition(), tr = s1 ? s1->mSwitch.isTripped() : s2->mSwitch.isTripped(); double F = rig.links.back()->getFlux(), P = rig.links.back()->getPower(), LP = s1 ? s1->getLoadsPower() : s2->getLoadsPower(), gV = s1 ? s1->mLoadsVoltage : s2->mLoadsVoltage;
        mc::trace("  node %.6g loads %.6g (%.6g) I %.6g (%.6g) %s%s", rig.nodes[0].getPotential(), gV, VL, F, I, pos ? "closed" : "open", tr ? " tripped" : "");
        MC_CHECK(rig.gunns->mConvergenceFailCount == 0, "network did not converge");
        for (unsigned k = 0; k < L.size(); k++) MC_CHECK(L[k].u->isFuseBlown() == L[k].blown, "load %u fuse is %s, expected %s", k, L[k].u->isFuseBlown() ? "blown" : "whole", L[k].blown ? "blown" : "whole");
        MC_CHECK(tr == trip, "switch is %s, expected %s", tr ? "tripped" : "not tripped", trip ? "tripped" : "not tripped"); if (!ovr) MC_CHECK(pos == closed, "switch is %s, expected %s", pos ? "closed" : "open", closed ? "closed" : "open");
        MC_CHECK(eq(rig.nodes[0].getPotential(), V0), "supply %.9g V, expected %.9g", rig.nodes[0].getPotential(), V0); MC_CHECK(eq(gV, VL), "loads at %.9g V, expected %.9g", gV, VL);
        double sum = 0, cur = 0; for (unsigned k = 0; k < L.size(); k++) { auto& x = L[k]; double v, i, p, r; x.at(VL, v, i, p, r); sum += p; cur += VL / r; MC_CHECK(eq(x.u->mVoltage, v) && x.u->mPowerValid == (v > x.uv), "load %u at %g V valid %d, expected %g V valid %d", k, x.u->mVoltage, x.u->mPowerValid, v, v > x.uv);
            MC_CHECK(eq(x.u->getPower(), p) && eq(x.u->mCurrent, i) && eq(x.u->getResistance(), r), "load %u draws %g A %g W at %g ohm, expected %g A %g W %g ohm (mode %d)", k, x.u->mCurrent, x.u->getPower(), x.u->getResistance(), i, p, r, x.mode); }
        if (ovr) { MC_CHECK(eq(P, sum) && eq(LP, sum) && eq(F, sum / ovrV), "with the loads overridden power %g (%g), flow %g, expected %g W", P, LP, F, sum); }
        else { MC_CHECK(eq(F, I) , "flow %.9g, expected %.9g", F, I); MC_CHECK(eq(P, -F * rig.nodes[0].getPotential()), "link power %g, expected %g", P, -F * V0); MC_CHECK(std::fabs(LP - (closed ? I * VL : 0)) < 1e-3 + 10 * tol * std::fabs(LP), "loads power %g, expected %g", LP, closed ? I * VL : 0); (void)cur; }
        bool any = false; for (auto& x : L) any = any || x.blown; mc::outcome(ovr ? "override" : trip ? any ? "trip and fuse" : "trip" : any ? "fuse" : closed ? "on" : "open");
    }
};
static void history(int ver, int mix, int depth) {
    int prio = ver == 1 ? 1 : 1 + mc::flip("priority 2"); Rig r(ver, prio); if (ver == 1) {} 
    static const double FU[] = {0, 4}; double f0 = pick(FU, "fuse 0"), f1 = mix == 2 ? 0 : pick(FU, "fuse 1");
    if (mix == 0) { r.load(true, 98, 40, 400, f0); r.load(false, 90, 300, 20, f1); } if (mix == 1) { r.load(false, 98, 240, 0, f0); r.load(true, 20, 60, 0, f1); } if (mix == 2) { r.load(true, 50, 40, 100, f0, 0.5, 1.0); }
    r.start(prio);
    for (int d = 0; d < depth; d++) {
        int e = mc::choose(14, "event"), k = 0; double x = 0; auto ld = [&]() -> Load& { k = r.L.size() == 1 ? 0 : mc::choose(r.L.size(), "load"); return r.L[k]; };
        if (e == 0) { r.cmd = !r.cmd; if (r.s1) r.s1->mSwitch.setSwitchCommandedClosed(r.cmd); else r.s2->mSwitch.setPositionCommand(r.cmd); x = r.cmd; }
        if (e == 1) { static const double S[] = {120, 110, 95, 60, 0}; x = pick(S, "source"); if (x == r.E) mc::prune(); r.E = x; ((GunnsBasicPotential*)r.rig.links[0])->setSourcePotential(x); }
        if (e == 2) { auto& l = ld(); if (l.period) mc::prune(); l.mode = (l.mode + 1 + mc::choose(2, "mode")) % 3; l.u->setLoadOperMode(l.mode == 0 ? LoadOFF : l.mode == 1 ? LoadON : LoadSTANDBY); x = l.mode; }
        if (e == 3) { static const double C[] = {3.7, 4.3, 15, 0}; auto& l = ld(); l.cur = !l.cur; l.curV = l.cur ? pick(C, "current") : 0; l.u->setMalfOverrideCurrent(l.cur, l.curV); x = l.curV; }
        if (e == 4) { static const double C[] = {350, 700, 0}; auto& l = ld(); l.pow = !l.pow; l.powV = l.pow ? pick(C, "power") : 0; l.u->setMalfOverridePower(l.pow, l.powV); x = l.powV; }
        if (e == 5) { auto& l = ld(); l.malfBlow = !l.malfBlow; l.u->setMalfBlowFuse(l.malfBlow); }
        if (e == 6) { auto& l = ld(); l.blown = false; l.u->resetFuse(); }
        if (e == 7) { static const double V[] = {100, 28, 130}; r.ovr = !r.ovr; r.ovrV = r.ovr ? pick(V, "override") : 0; if (r.s1) { r.s1->mLoadsOverrideActive = r.ovr; r.s1->mLoadsOverrideVoltage = r.ovrV; } else { r.s2->mLoadsOverrideActive = r.ovr; r.s2->mLoadsOverrideVoltage = r.ovrV; } x = r.ovrV; }
        if (e == 8) { static const double R[] = {60, 8}; r.sR = r.sR ? 0 : pick(R, "short"); (r.s1 ? r.s1->mShort : r.s2->mShort).setMalfResistance(r.sR > 0, r.sR); x = r.sR; }
        if (e == 9) { r.fc = !r.fc; if (r.s1) r.s1->mSwitch.setMalfFailClosed(r.fc); else r.s2->mSwitch.setMalfFailClosed(r.fc); }
        if (e == 10) { r.fo = !r.fo; if (r.s1) r.s1->mSwitch.setMalfFailOpen(r.fo); else r.s2->mSwitch.setMalfFailOpen(r.fo); }
        if (e == 11) { if (ver == 1) { r.ign = !r.ign; r.s1->mSwitch.mMalfIgnoreCurrentTrip = r.ign; } else { r.ign = !r.ign; r.s2->mSwitch.getPosOverCurrentTrip()->mMalfInhibitTrip = r.ign; } if (!r.ign) x = 1; }
        if (e == 12) { r.reset = true; if (r.s1) r.s1->mSwitch.setTripReset(); else r.s2->mSwitch.mResetTripsCommand = true; }
        if (e == 13) { static const double V[] = {120, 30}; auto& l = ld(); l.magic = !l.magic; l.magicV = l.magic ? pick(V, "magic") : 0; l.u->mMagicPowerFlag = l.magic; l.u->mMagicPowerValue = l.magicV; x = l.magicV; }
        mc::trace("event %d load %d value %g", e, k, x); try { r.step(0.3, false); for (int n = 0; n < 4; n++) r.step(0.3, mix != 2 && n == 3); } catch (int) { return; }
    }
}
static void shorts() {   // the short utility by itself
    GunnsShortUtil s; GunnsShortUtilInputData in; s.initialize(in); int mode = -1; double val = 0, g = 0; bool fresh = false; static const double V[] = {120, 60, 1}; double v = 120;
    for (int d = 0; d < tierPick(4, 6); d++) {
        int e = mc::choose(3, "event"); if (e == 1) { if (mode >= 0) { switch (mode) { case 0: s.setMalfConstantPower(); break; case 1: s.setMalfConstantCurrent(); break; case 2: s.setMalfInitialPower(); break; case 3: s.setMalfInitialCurrent(); break; default: s.setMalfResistance(); } mode = -1; } else { mode = mc::choose(5, "mode"); fresh = true; e = 2; } }
        if (e == 2) { if (mode < 0) mc::prune(); static const double X[] = {10, 200, -50}; double nv = pick(X, "value"); if (mode == 4) nv = std::fabs(nv); if (nv != val) fresh = true; val = nv; switch (mode) { case 0: s.setMalfConstantPower(true, val); break; case 1: s.setMalfConstantCurrent(true, val); break; case 2: s.setMalfInitialPower(true, val); break; case 3: s.setMalfInitialCurrent(true, val); break; default: s.setMalfResistance(true, val); } }
        v = pick(V, "voltage"); double a = std::fabs(val); if (mode < 0) g = 0; if (mode == 0) g = a / v / v; if (mode == 1) g = a / v; if (mode == 2 && fresh) g = a / v / v; if (mode == 3 && fresh) g = a / v; if (mode == 4) g = 1 / val; if (mode < 0) fresh = true; else fresh = false;
        double got = s.computeShort(v); mc::trace("mode %d value %g at %g V: %g, expected %g", mode, val, v, got, g); mc::step(); mc::validated(); MC_CHECK(eqr(got, g, 1e-12), "short in mode %d with value %g at %g V conducts %g, expected %g", mode, val, v, got, g); MC_CHECK(s.isConstantLoad() == ((mode == 0 || mode == 1) && g > 0), "constant load flag");
    }
}
static void startOverridden() {   // a switch that starts with its loads overridden still protects once the override ends
    int v = 1 + mc::choose(2, "switch"); Rig r(v, 1); r.load(true, 20, 40, 400, 0); r.startOvr = 100; r.start(1); r.ovr = true; r.ovrV = 100; r.step(0.3, false); r.ovr = false; if (r.s1) r.s1->mLoadsOverrideActive = false; else r.s2->mLoadsOverrideActive = false; r.step(0.3, false);
    r.cmd = true; if (r.s1) r.s1->mSwitch.setSwitchCommandedClosed(true); else r.s2->mSwitch.setPositionCommand(true); static const double C[] = {3, 15}; r.L[0].cur = true; r.L[0].curV = pick(C, "current"); r.L[0].u->setMalfOverrideCurrent(true, r.L[0].curV);
    if (r.L[0].curV > r.lim) { for (int n = 0; n < 3; n++) r.rig.gunns->step(0.3); mc::step(); bool tr = r.s1 ? r.s1->mSwitch.isTripped() : r.s2->mSwitch.isTripped(); if (!tr) mc::known("no-trip-after-initial-override-" + std::to_string(v), "a switch whose network was initialised with only it, its loads overridden, never trips afterwards because the network was taken for linear"); }
    else r.step(0.3, false);
}
// ---------- the first generation switch objects by themselves ----------
template<class S, class C, class I> static void object(int depth, bool malf) {
    int prio = 1 + mc::choose(2, "priority"); bool two = prio > 1, prot = mc::choose(3, "unprotected") < 2; bool closed = mc::flip("initially closed"), cmd = closed, pos = false, neg = false, ext = false, wait = false, just = false, rst = false, fc = false, fo = false, ign = false, prot0 = prot, wasIgn = false; double pl = 10, nl = -5, mp = 0, mn = 0, mr = 0; bool pf = false, nf = false, rf = false;
    S s; s.initialize(C(0.05, prot, true, 110, two, two ? 1 : 0, prio), I(false, 0, closed, pl, nl), "card", 1); auto tripped = [&] { return pos || neg || ext; };
    for (int d = 0; d < depth; d++) {
        Hash h; h.i(prio).i(prot).i(prot0).i(closed).i(cmd).i(pos).i(neg).i(ext).i(wait).i(just).i(fc).i(fo).i(ign).i(pf).i(nf).i(rf).d(mp).d(mn).d(mr).i(s.isClosed()).i(s.isTripped()).i(s.isWaitingToTrip()); if (mc::cut(h.h, depth - d)) return;
        int e = mc::choose(malf ? 11 : 4, "event"); bool power = true, liveExt = false;
        if (e == 1) { cmd = !cmd; s.setSwitchCommandedClosed(cmd); } if (e == 2) { rst = true; s.setTripReset(); } if (e == 3) { power = false; }
        if (e == 4) { fc = !fc; s.setMalfFailClosed(fc); } if (e == 5) { fo = !fo; s.setMalfFailOpen(fo); } if (e == 6) { ign = !ign; s.mMalfIgnoreCurrentTrip = ign; }
        if (e == 7) { pf = !pf; mp = pf ? 2 : 0; s.setMalfPosTripSetpoint(pf, mp); } if (e == 8) { nf = !nf; mn = nf ? -30 : 0; s.setMalfNegTripSetpoint(nf, mn); } if (e == 9) { static const double R[] = {0.5, 50, 0}; rf = !rf; mr = rf ? pick(R, "resistance") : 0; s.setMalfFailResistance(rf, mr); } if (e == 10) liveExt = true;
        static const double IL[] = {1, 5, 20, -20}; double load = pick(IL, "current"); mc::trace("event %d, current when closed %g", e, load);
        bool settled = false; int cs = 1;
        for (int n = 0; n < 8; n++) {
            s.updateSwitchState(power);
            if (ign) prot = false; else if (wasIgn) prot = prot0; wasIgn = ign;
            if (!tripped() && !wait && power) closed = cmd; else if (pos || neg) closed = false;
            if (!power) { closed = cmd = false; rst = true; } else if (fc) closed = true; else if (fo) closed = false;
            if (tripped() && !cmd) rst = true; if (rst) { pos = neg = ext = wait = rst = false; }
            double g = closed ? 1 / (0.05 * (rf ? mr > 1 ? mr / 100 : mr : 1)) : 0; MC_CHECK(s.isClosed() == closed && s.isTripped() == tripped() && s.isWaitingToTrip() == wait, "after the state update the switch is %s%s, expected %s%s", s.isClosed() ? "closed" : "open", s.isTripped() ? " tripped" : "", closed ? "closed" : "open", tripped() ? " tripped" : ""); MC_CHECK(std::isinf(g) ? s.getConductance() >= 1e14 : eqr(s.getConductance(), g, 1e-12), "conductance %g, expected %g", s.getConductance(), g);
            if (liveExt) { s.setExternalTrip(true); ext = true; liveExt = false; }
            double i = closed ? load : 0, P = pf ? mp : pl, N = nf ? mn : nl; bool before = tripped(); wait = false; double flow = i;
            if (!fc) { if (prot && (i > P || i < N)) { if (cs >= prio) { (i > P ? pos : neg) = true; closed = false; flow = 0; } else wait = true; } if (ext && closed) { closed = false; flow = 0; wait = false; } } just = tripped() && !before;
            s.updateSwitchFlow(load, load, 120, cs, false); mc::step(); mc::validated(); mc::trace("  minor %d: %s%s%s", cs, s.isClosed() ? "closed" : "open", s.isTripped() ? " tripped" : "", s.isWaitingToTrip() ? " waiting" : "");
            MC_CHECK(s.isClosed() == closed && s.isPosTrip() == pos && s.isNegTrip() == neg && s.isTripped() == tripped() && s.isWaitingToTrip() == wait && s.isJustTripped() == just, "switch %s pos %d neg %d tripped %d waiting %d just %d, expected %s %d %d %d %d %d", s.isClosed() ? "closed" : "open", s.isPosTrip(), s.isNegTrip(), s.isTripped(), s.isWaitingToTrip(), s.isJustTripped(), closed ? "closed" : "open", pos, neg, tripped(), wait, just);
            MC_CHECK(eqr(s.getCurrent(), flow, 1e-12) && s.getInputVolts() == 120 && s.getOutputVolts() == (closed ? 120 : 0), "current %g, expected %g", s.getCurrent(), flow); MC_CHECK(std::isinf(g) || eqr(s.getPowerDissipation(), closed ? flow * flow / g : 0, 1e-9), "dissipates %g W", s.getPowerDissipation());
            if (just) { cs = 1; continue; } if (wait) { cs++; continue; } settled = true; break; }
        MC_CHECK(settled, "the switch never settles");
        if (!fc) { MC_CHECK(!s.isClosed() || !s.isTripped(), "settled closed though tripped"); bool lim = !ign && prot0; if (s.isClosed() && lim) MC_CHECK(load <= (pf ? mp : pl) && load >= (nf ? mn : nl), "settled closed with %g A", load); }
        mc::outcome(s.isTripped() ? "tripped" : s.isClosed() ? "closed" : "open");
    }
}
int main(int argc, char** argv) {
    mc::bounds("two mixes of a resistive and a constant power load and one cycled load, both switch types, fuses on or off; events: command, source, modes, current and power overrides, fuse, loads override, short, switch failures, trip inhibits and resets");
    for (int v = 1; v <= 2; v++) for (int m = 0; m < 3; m++) mc::add("switch " + std::to_string(v) + " loads " + std::to_string(m), [=] { history(v, m, tierPick(3, 4)); });
    mc::add("short utility", shorts); mc::add("switch util commands", [] { object<GunnsElectSwitchUtil, GunnsElectSwitchUtilConfigData, GunnsElectSwitchUtilInputData>(tierPick(5, 8), false); }); mc::add("switch util malfunctions", [] { object<GunnsElectSwitchUtil, GunnsElectSwitchUtilConfigData, GunnsElectSwitchUtilInputData>(tierPick(4, 6), true); });
    mc::add("deprecated switch commands", [] { object<Switch, SwitchConfigData, SwitchInputData>(tierPick(5, 8), false); }); mc::add("deprecated switch malfunctions", [] { object<Switch, SwitchConfigData, SwitchInputData>(tierPick(4, 6), true); });
    mc::add("starting overridden", startOverridden);
    return mc::run(argc, argv, "C53");
}
