// mc: hflags=-fno-access-control
// C54: selector, real diode, switch, resistors, shorts and constant power load obey their laws in a solved circuit.
#include "net.hh"
#include "aspects/electrical/Switch/GunnsElectSelector.hh"
#include "aspects/electrical/Switch/SwitchElect.hh"
#include "aspects/electrical/Diode/GunnsElectRealDiode.hh"
#include "aspects/electrical/resistive/GunnsElectricalResistor.hh"
#include "aspects/electrical/resistive/GunnsResistiveLoad.hh"
#include "aspects/electrical/resistive/GunnsResistorPowerFunction.hh"
#include "aspects/electrical/resistive/GunnsElectShort.hh"
#include "aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.hh"
#include <functional>
using namespace mc;
struct Dev { GunnsBasicLink* l; int p0, p1; std::function<double(double)> law; double sign = -1; };   // sign of the reported power; current from p0 to p1 by the potential drop
// Circuit: basic links of the rig (reference laws) plus devices whose currents the harness knows as a function of the drop.
struct Ckt : NetRig {
    std::vector<Dev> dev; double tolK = 1e-6; int fails = 0;
    explicit Ckt(int n, int minor = 60) : NetRig(n, minor, minor, 1e-10) {}
    void add(GunnsBasicLink* l, int p0, int p1, std::function<double(double)> f) { dev.push_back({l, p0, p1, f}); }
    double V(int i) const { return i == N ? 0 : G->getPotentialVector()[i]; }
    bool solve(double dt) { int f = gunns->mConvergenceFailCount; gunns->step(dt); mc::step(); return gunns->mConvergenceFailCount == f; }
    bool balanced(double dt, Dev& x, std::function<double(double)> f) {   // would the node balances hold if device x had law f
        std::vector<double> sum(N + 1, 0), mag(N + 1, 1e-3); auto flow = [&](int a, int b, double i) { sum[a] -= i; sum[b] += i; mag[a] += std::fabs(i); mag[b] += std::fabs(i); };
        for (RefLink& r : ref) flow(r.p[0], r.p[1], r.g(dt) * (V(r.p[0]) - V(r.p[1])) + r.s(dt));
        for (auto& d : dev) flow(d.p0, d.p1, &d == &x ? f(V(d.p0) - V(d.p1)) : d.law(V(d.p0) - V(d.p1)));
        for (int i = 0; i < N; i++) if (std::fabs(sum[i]) > 2 * tolK * mag[i]) return false; return true;
    }
    // Kirchhoff's laws at every node, with every current from the law of its device.
    void kirchhoff(double dt, const char* what) {
        std::vector<double> sum(N + 1, 0), mag(N + 1, 1e-3);
        auto flow = [&](int a, int b, double i) { sum[a] -= i; sum[b] += i; mag[a] += std::fabs(i); mag[b] += std::fabs(i); };
        for (size_t k = 0; k < ref.size(); k++) { RefLink& r = ref[k]; flow(r.p[0], r.p[1], r.g(dt) * (V(r.p[0]) - V(r.p[1])) + r.s(dt)); }
        for (auto& d : dev) { double dv = V(d.p0) - V(d.p1), i = d.law(dv); flow(d.p0, d.p1, i);
            MC_CHECK(mc::near(d.l->getFlux(), i, tolK, tolK * 1e-2), "%s: current %.9g at %.9g V, law gives %.9g", what, d.l->getFlux(), dv, i);
            MC_CHECK(mc::near(d.l->mPotentialDrop, dv, 1e-9, 1e-9), "%s: potential drop %.9g, nodes differ by %.9g", what, d.l->mPotentialDrop, dv);
            MC_CHECK(mc::near(d.l->getPower(), d.sign * i * dv, 2 * tolK, tolK), "%s: power %.9g, expected %.9g", what, d.l->getPower(), d.sign * i * dv); }
        for (int i = 0; i < N; i++) MC_CHECK(std::fabs(sum[i]) <= 2 * tolK * mag[i], "%s: currents at node %d (%.9g V) do not balance, residual %.9g of %.6g", what, i, V(i), sum[i], mag[i]);
        std::vector<double> in(N + 1, 0), out(N + 1, 0); auto col = [&](int a, int b, double f) { if (f < 0) std::swap(a, b), f = -f; out[a] += f; in[b] += f; };
        for (size_t k = 0; k < ref.size(); k++) col(ref[k].p[0], ref[k].p[1], links[k]->getFlux()); for (auto& d : dev) col(d.p0, d.p1, d.l->getFlux());
        for (int i = 0; i <= N; i++) MC_CHECK(mc::near(ND[i].getInflux(), in[i], 1e-9, 1e-9) && mc::near(ND[i].getOutflux(), out[i], 1e-9, 1e-9), "%s: node %d collected %.9g in and %.9g out, links carry %.9g and %.9g", what, i, ND[i].getInflux(), ND[i].getOutflux(), in[i], out[i]);
        validated();
    }
};
static double blk(bool f, double v) { return f ? std::max(0.0, std::min(1.0, 1 - v)) : 1; }
static void selector() {
    int np = 3 + choose(2, "ports"); Ckt c(np, 5); bool nl = flip("diode elsewhere"), feedSel = flip("fed through the selector");
    for (int i = 0; i < np; i++) c.addLink(COND, i, np, 0.1 * (i + 1));
    if (feedSel) for (int i = 1; i < np; i++) c.addLink(POT, np, i, 2.0 * i, 10.0 * i); else c.addLink(POT, np, 0, 5, 28);
    auto* s = new GunnsElectSelector; c.addOther(s); std::vector<int> ports; for (int i = 0; i < np; i++) ports.push_back(i);
    bool toGround = flip("last port grounded"); if (toGround) ports.back() = np;
    int sel = pick((const int[]){0, 1, 2}, "initial"); double g = 3; bool bf = false; double bv = 0.5;
    GunnsElectSelectorConfigData cf("sel", &c.list, g); GunnsElectSelectorInputData in(bf, bv, sel); s->initialize(cf, in, c.links, &ports);
    int at = 0, was = 0; double gWas = 0; auto lk = [&] { at = sel < 1 || sel >= np ? 0 : sel; return at ? g * blk(bf, bv) : 0.0; };
    if (nl) { auto* d = new GunnsElectRealDiode; c.addOther(d); GunnsElectRealDiodeConfigData dc("d", &c.list, 1, 0, 0.5); GunnsElectRealDiodeInputData di(false, 0, false); d->initialize(dc, di, c.links, 0, np);
        c.add(d, 0, np, [](double v) { return v < 0.5 ? 0 : v - 0.5; }); }
    c.add(s, 0, 0, nullptr); size_t id = c.dev.size() - 1; c.start(); int D = tierPick(4, 6);
    for (int t = 0; t < D; t++) {
        switch (choose(6, "change")) { case 0: break; case 1: sel = choose(np + 2, "selector") - 1; break; case 2: bf = !bf; break; case 3: bv = bv == 0.5 ? 1 : 0.5; break; case 4: g = g == 3 ? 0 : 3; break; case 5: sel = 1, g = 7; break; }
        s->mSelector = sel; s->mDefaultConductance = g; s->setMalfBlockage(bf, bv);
        double G = lk(); c.dev[id] = {s, ports[0], ports[at], [G](double v) { return G * v; }};
        MC_CHECK(c.solve(0.1), "selector network did not converge");
        if (was && gWas > 0 && !at) { Dev old{s, ports[0], ports[was], c.dev[id].law}; std::swap(old, c.dev[id]); bool stale = c.balanced(0.1, c.dev[id], [gWas](double v) { return gWas * v; }); std::swap(old, c.dev[id]);
            if (stale && !c.balanced(0.1, c.dev[id], c.dev[id].law)) { known("selector-disconnect", "a selector that disconnects from its port leaves the connection in the solver until something else changes the admittance"); prune(); } }
        was = at; gWas = G; c.kirchhoff(0.1, at ? "selector" : "selector disconnected");
    }
}
struct DiodeLaw { double gf, gr, drop; double operator()(double v) const { return v < drop ? gr * v : gf * (v - drop); } };
static void diodes() {   // full bridge between an alternating supply and a load, with an optional smoothing capacitor
    Ckt c(4, 40); DiodeLaw L{50, pick((const double[]){0, 1e-6}, "reverse conductance"), pick((const double[]){0.7, 0}, "drop")};
    bool smooth = flip("smoothing"); double e = 20; c.addLink(POT, 1, 0, 10, e); c.addLink(COND, 2, 3, 0.1); c.addLink(COND, 1, 4, 1e-3); c.addLink(COND, 3, 4, 1e-3); if (smooth) c.addLink(CAP, 2, 3, 0.05, 0);
    std::vector<GunnsElectRealDiode*> d; int p[4][2] = {{0, 2}, {3, 0}, {1, 2}, {3, 1}}; bool bf[4] = {};
    for (int k = 0; k < 4; k++) { auto* x = new GunnsElectRealDiode; c.addOther(x); d.push_back(x); GunnsElectRealDiodeConfigData dc("d", &c.list, L.gf, L.gr, L.drop); GunnsElectRealDiodeInputData di(false, 0, (k & 1) && flip("reverse")); x->initialize(dc, di, c.links, p[k][0], p[k][1]);
        c.add(x, p[k][0], p[k][1], [&bf, &L, k](double v) { return (bf[k] ? 0.0 : 1.0) * L(v); }); }
    c.start(); c.tolK = 1e-5; int D = tierPick(4, 6); const double E[] = {20, -20, 0, 1.2, -0.5};
    for (int t = 0; t < D; t++) {
        int k = choose(7, "supply"); if (k < 5) e = E[k]; else if (k == 5) bf[0] = !bf[0]; else { L.drop = L.drop == 0.7 ? 2 : 0.7; for (auto* x : d) x->setVoltageDrop(L.drop); }
        c.ref[0].e = e; static_cast<GunnsBasicPotential*>(c.links[0])->setSourcePotential(e); d[0]->setMalfBlockage(bf[0], 1.0);
        if (!c.solve(0.1)) { bool edge = false; for (auto& x : c.dev) { double v = c.V(x.p0) - c.V(x.p1); edge |= std::fabs(v - L.drop) < 1e-3 * (1 + std::fabs(e)); } if (edge) { outcome("a diode at its junction drop flips without end"); prune(); } mc::fail("diode bridge did not converge at %g V", e); }
        if (smooth) { RefLink& r = c.ref[4]; c.kirchhoff(0.1, "diode bridge"); r.dv = c.V(2) - c.V(3); } else c.kirchhoff(0.1, "diode bridge");
        for (int i = 0; i < 4; i++) { double v = c.V(p[i][0]) - c.V(p[i][1]); if (std::fabs(v - L.drop) > 1e-6) MC_CHECK(d[i]->isReversedBias() == (v < L.drop), "diode %d with %g V across is %s bias", i, v, d[i]->isReversedBias() ? "reverse" : "forward"); }
        if (!smooth && std::fabs(e) > 4.5 + 2 * L.drop && !bf[0]) MC_CHECK(c.V(2) - c.V(3) > 0.5, "rectified voltage %g from %g", c.V(2) - c.V(3), e);
    }
}
struct Sw { SwitchElect* s; bool cmd, trip = false, neg = false, ext = false, fo = false, fc = false, rst = false, ign = false, lim = false, closed = false, fr = false; double r, pos, ng; int pri; double P() const { return lim ? 1.0 : pos; } bool any() const { return trip || neg || ext; } double g() const { return closed ? 1 / (r * (fr ? 0.5 : 1)) : 0; } };
static void switches() {   // a supply feeds two switches in series with a load behind each; the downstream one trips first
    Ckt c(3, 30); double e = 28, g1 = 0.05, g2 = 0.05; c.addLink(POT, 3, 0, 10, e); c.addLink(COND, 1, 3, g1); c.addLink(COND, 2, 3, g2); c.addLink(COND, 0, 3, 0.01);
    Sw w[2]; for (int k = 0; k < 2; k++) { Sw& x = w[k]; x.s = new SwitchElect; c.addOther(x.s); x.cmd = x.closed = flip("closed"); x.r = 0.05; x.pos = k ? 6 : 8; x.ng = -1; x.pri = k ? 1 : 3;
        GunnsElectSwitchUtilConfigData uc(x.r, true, false, 0, !k, k ? 0 : 1, x.pri, false); GunnsElectSwitchUtilInputData ui(false, 0, x.cmd, x.pos, x.ng);
        SwitchElectConfigData sc("sw", &c.list, uc); SwitchElectInputData si(false, 0, ui); x.s->initialize(sc, si, c.links, k, k + 1); c.add(x.s, k, k + 1, [&x](double v) { return x.g() * v; }); }
    c.start(); int D = tierPick(4, 5);
    for (int t = 0; t < D; t++) {
        bool newExt = false; int k = choose(2, "switch"); Sw& y = w[k]; auto& su = y.s->mSwitch;
        switch (choose(9, "change")) { case 0: break; case 1: y.cmd = !y.cmd; break; case 2: (k ? g2 : g1) = (k ? g2 : g1) == 0.05 ? 0.5 : 0.05; break; case 3: y.rst = true; break; case 4: if (!y.fc) y.fo = !y.fo; break; case 5: if (!y.fo) y.fc = !y.fc; break; case 6: y.ign = !y.ign; break; case 7: if (k) y.lim = !y.lim; else e = -e; break; case 8: if (k) { newExt = !y.any(); y.ext |= newExt; } else y.fr = !y.fr; break; }
        for (Sw& x : w) { auto& u = x.s->mSwitch; x.s->setSwitchCommandedClosed(x.cmd); if (x.rst) x.s->setSwitchTripReset(); u.setMalfFailOpen(x.fo); u.setMalfFailClosed(x.fc); u.mMalfIgnoreCurrentTrip = x.ign; u.setMalfPosTripSetpoint(x.lim, 1.0); u.setMalfFailResistance(x.fr, 0.5); if (x.ext && !u.isTripped()) u.setExternalTrip(true); }
        c.setValue(1, g1); c.setValue(2, g2); c.ref[0].e = e; static_cast<GunnsBasicPotential*>(c.links[0])->setSourcePotential(e);
        // expected states: commands at the start, then trips by priority until nothing trips
        auto upd = [&] { for (Sw& x : w) { if (!x.any()) x.closed = x.cmd; else if (x.trip || x.neg) x.closed = false; if (x.fc) x.closed = true; else if (x.fo) x.closed = false; if (x.any() && !x.cmd) x.rst = true; if (x.rst) x.trip = x.neg = x.ext = x.rst = false; } };
        double pv[3] = {c.V(0), c.V(1), c.V(2)}, v0, v1, v2, i0, i1;
        auto sol = [&] { double gb = w[1].g(), ga = w[0].g(), down = gb > 0 ? gb * g2 / (gb + g2) : 0, at1 = g1 + down, tot = 0.01 + (ga > 0 ? ga * at1 / (ga + at1) : 0); v0 = 10 * e / (10 + tot); v1 = ga > 0 ? v0 * ga / (ga + at1) : 0; v2 = gb > 0 ? v1 * gb / (gb + g2) : 0; i0 = ga * (v0 - v1); i1 = v1 * down; };
        // the states are updated at every minor step; a solution that does not move is accepted at the first
        upd(); sol(); if (!(mc::near(v0, pv[0], 1e-9, 1e-9) && mc::near(v1, pv[1], 1e-9, 1e-9) && mc::near(v2, pv[2], 1e-9, 1e-9))) upd();
        int cs = 1; bool pend = true; int tripsNow = 0;
        for (int it = 0; pend && it < 20; it++) {
            sol();
            pend = false; bool tripped = false;
            for (int q = 0; q < 2; q++) { Sw& x = w[q]; double I = q ? i1 : i0; if (!x.closed || x.fc) continue; bool hi = I > x.P(), lo = I < x.ng; if (mc::near(I, x.P(), 1e-6, 0) || mc::near(I, x.ng, 1e-6, 0)) { outcome("current at the trip limit"); prune(); }
                if (x.ext && (hi || lo)) { outcome("over-current of an externally tripped switch"); prune(); }
                if (!x.ign && (hi || lo)) { if (cs >= x.pri) { (hi ? x.trip : x.neg) = true; x.closed = false; tripped = true; tripsNow++; } else pend = true; } }
            if (tripped) { cs = 1; pend = true; upd(); } else cs++;
        }
        MC_CHECK(c.solve(0.1), "switch network did not converge");
        if (w[1].ext && w[1].closed && !w[1].fc) { w[1].closed = false; continue; }   // an external trip opens the switch after the solution: checked in the next step
        for (int q = 0; q < 2; q++) { Sw& x = w[q]; MC_CHECK(x.s->isSwitchClosed() == x.closed, "switch %d is %s, expected %s (command %d, trips %d%d%d)", q, x.s->isSwitchClosed() ? "closed" : "open", x.closed ? "closed" : "open", x.cmd, x.trip, x.neg, x.ext);
            MC_CHECK(x.s->isSwitchTripped() == x.any() && x.s->isSwitchPosTrip() == x.trip && x.s->isSwitchNegTrip() == x.neg, "switch %d trip state %d (%d %d), expected %d (%d %d)", q, x.s->isSwitchTripped(), x.s->isSwitchPosTrip(), x.s->isSwitchNegTrip(), x.any(), x.trip, x.neg);
            int en = x.s->mSwitch.mSwitchStateEnum, ex = x.neg ? 6 : x.trip ? 5 : x.ext ? 7 : x.fc ? 3 : x.fo ? 2 : x.closed; if (!tripsNow && !x.any()) MC_CHECK(en == ex, "switch %d shows state %d, expected %d", q, en, ex);
            double I = x.g() * (c.V(q) - c.V(q + 1)); MC_CHECK(mc::near(x.s->getSwitchCurrent(), I, 1e-6, 1e-9), "switch %d reports %g A of %g", q, x.s->getSwitchCurrent(), I);
            MC_CHECK(mc::near(x.s->mSwitch.getPowerDissipation(), x.closed ? I * I / x.g() : 0, 1e-6, 1e-9), "switch %d dissipates %g of %g", q, x.s->mSwitch.getPowerDissipation(), x.closed ? I * I / x.g() : 0); }
        (void)su; c.kirchhoff(0.1, "switches");
    }
}
static void resistors() {
    Ckt c(3, 10); double e = 28; c.addLink(POT, 3, 0, 10, e); c.addLink(COND, 2, 3, 2); double R = 4, eff = 0.7, RL = 20, bv = 0.25; bool bf = false, cmd = flip("closed");
    bool bias = flip("diode elsewhere"); if (bias) { auto* d = new GunnsElectRealDiode; c.addOther(d); GunnsElectRealDiodeConfigData dc("d", &c.list, 1, 0, 0.5); GunnsElectRealDiodeInputData di(false, 0, false); d->initialize(dc, di, c.links, 1, 3); c.add(d, 1, 3, [](double v) { return v < 0.5 ? 0 : v - 0.5; }); }
    auto* r = new GunnsElectricalResistor; c.addOther(r); GunnsElectricalResistorConfigData rc("r", &c.list, R, eff); GunnsElectricalResistorInputData ri(bf, bv); r->initialize(rc, ri, c.links, 0, 1);
    auto* l = new GunnsResistiveLoad; c.addOther(l); GunnsResistiveLoadConfigData lc("l", &c.list, RL, 0.6, 15.0, 0.1, 100, -100, 1); GunnsResistiveLoadInputData li(false, 0.0, cmd); l->initialize(lc, li, c.links, 1, 2);
    bool fo = false, fc = false; auto closed = [&] { return fc ? true : fo ? false : cmd; };
    double GR, GL; c.add(r, 0, 1, [&](double v) { return GR * v; }); c.add(l, 1, 2, [&](double v) { return GL * v; }); for (auto& d : c.dev) if (d.l == r || d.l == l) d.sign = 1; c.start();   // resistors report the power they dissipate
    int D = tierPick(4, 6);
    for (int t = 0; t < D; t++) {
        switch (choose(7, "change")) { case 0: break; case 1: e = e == 28 ? 12 : e == 12 ? -20 : 28; break; case 2: cmd = !cmd; break; case 3: fo = !fo; break; case 4: fc = !fc; break; case 5: R = R == 4 ? 0.5 : 4; break; case 6: bf = !bf; break; }
        c.ref[0].e = e; static_cast<GunnsBasicPotential*>(c.links[0])->setSourcePotential(e); r->mResistance = R; r->setMalfBlockage(bf, bv);
        l->mLoadSwitch.setSwitchCommandedClosed(cmd); l->mLoadSwitch.setMalfFailOpen(fo); l->mLoadSwitch.setMalfFailClosed(fc);
        GR = blk(bf, bv) / R; GL = closed() ? 1 / RL : 1e-12; MC_CHECK(c.solve(0.1), "resistors did not converge"); c.kirchhoff(0.1, closed() ? "resistor and load" : "resistor and open load");
        MC_CHECK(mc::near(r->mWasteHeat, r->getPower() * (1 - eff), 1e-9, 1e-12) && mc::near(l->mWasteHeat, l->getPower() * (1 - 0.6), 1e-9, 1e-12), "waste heat %g and %g of powers %g and %g", r->mWasteHeat, l->mWasteHeat, r->getPower(), l->getPower());
        MC_CHECK(mc::near(r->mVoltageIn, c.V(0), 1e-9, 1e-9) && mc::near(r->mVoltageOut, c.V(1), 1e-9, 1e-9) && mc::near(l->mCurrent, GL * (c.V(1) - c.V(2)), 1e-6, 1e-9), "resistor reports %g and %g V, load %g A", r->mVoltageIn, r->mVoltageOut, l->mCurrent);
        l->processOutputs(); MC_CHECK(l->mPowerValid == (closed() && c.V(1) > 15.0), "power is %svalid at %g V, load %s", l->mPowerValid ? "" : "not ", c.V(1), closed() ? "closed" : "open");
    }
}
static void powerFunction() {
    double n = pick((const double[]){2, 1, 0.5, 1.5}, "exponent"), R = 2, bv = 0.75; bool tangent = flip("tangent"), bf = false;
    Ckt c(2, 200); double e = 20; c.addLink(POT, 2, 0, 10, e); c.addLink(COND, 1, 2, 1);
    auto* r = new GunnsResistorPowerFunction; c.addOther(r); GunnsResistorPowerFunctionConfigData rc("r", &c.list, R, n, tangent); GunnsResistorPowerFunctionInputData ri(false, bv); r->initialize(rc, ri, c.links, 0, 1);
    c.tolK = 1e-4; c.add(r, 0, 1, [&](double v) { double x = std::pow(std::fabs(v) * blk(bf, bv) / R, 1 / n); return v < 0 ? -x : x; }); c.start(); int D = tierPick(4, 6); double old = 0;
    for (int t = 0; t < D; t++) {
        switch (choose(6, "change")) { case 0: break; case 1: e = e > 0 ? -e : 20; break; case 2: e = e < 100 ? 200 : 3; break; case 3: bf = !bf; break; case 4: bv = bv == 0.75 ? 1 : 0.75; break; case 5: R = R == 2 ? 40 : 2; break; }
        c.ref[0].e = e; static_cast<GunnsBasicPotential*>(c.links[0])->setSourcePotential(e); r->mResistance = R; r->setMalfBlockage(bf, bv);
        bool ok = c.solve(0.1); double dv = c.V(0) - c.V(1);
        if (tracing()) printf("    e %g R %g blk %d: %g %g drop %g ok %d steps %d\n", e, R, bf, c.V(0), c.V(1), dv, ok, c.gunns->mLastMinorStep);
        if (std::fabs(dv) < 1.5) { outcome("drop near the smallest linearized potential"); prune(); }
        if (!ok && !tangent && n < 0.7) { outcome("secant iteration with a small exponent need not converge"); prune(); }
        if (!ok && tangent && n != 1) { known("tangent-slope", "a power function resistor in tangent mode with a resistance other than 1 ohm fails to converge: its slope lacks the conductance factor"); prune(); }
        MC_CHECK(ok, "power function resistor did not converge at %g V (drop %g)", e, dv); if (tangent && n == 1 && !mc::near(r->getFlux(), c.dev[0].law(dv), 1e-4, 1e-6)) { known("tangent-slope", "a power function resistor in tangent mode with exponent 1 and a resistance other than 1 ohm does not follow its law"); prune(); }
        c.kirchhoff(0.1, tangent ? "power function, tangent" : "power function, secant"); old = dv;
    }
}
static void shorts() {
    Ckt c(2, 200); double e = 28; c.addLink(POT, 2, 0, 10, e); c.addLink(COND, 0, 2, 0.5); c.addLink(COND, 1, 2, 5);
    auto* d = new GunnsElectRealDiode; c.addOther(d); GunnsElectRealDiodeConfigData dc("d", &c.list, 1, 0, 0.5); GunnsElectRealDiodeInputData di(false, 0, false); d->initialize(dc, di, c.links, 1, 2); c.add(d, 1, 2, [](double v) { return v < 0.5 ? 0 : v - 0.5; });
    auto* s = new GunnsElectShort; c.addOther(s); GunnsElectShortConfigData sc("s", &c.list); GunnsElectShortInputData si; s->initialize(sc, si, c.links, 0, 1);
    int mode = 0; double val = 1, mag = 1, held = 0;   // demands below zero count by their magnitude
    bool bf = false; double prevDv = 0;
    c.add(s, 0, 1, [&](double v) { double b = blk(bf, 0.5), i = 0, a = std::max(std::fabs(v), 1e-12); switch (mode) { case 1: i = mag / a; break; case 2: i = mag; break; case 3: case 4: i = held * std::fabs(v); break; case 5: i = std::fabs(v) / mag; } return (v < 0 ? -1 : 1) * i * b; });
    c.tolK = 1e-4; c.start(); c.solve(0.1); prevDv = c.V(0) - c.V(1); int D = tierPick(4, 5); int lastMode = 0; double lastVal = 0;
    for (int t = 0; t < D; t++) {
        int k = choose(5, "change"); if (k == 1) { mode = choose(6, "short"); } else if (k == 2) mag = mag == 1 ? 5 : 1; else if (k == 3) bf = !bf; else if (k == 4) e = e == 28 ? 56 : e == 56 ? -28 : 28;
        val = mag == 5 && mode != 5 ? -5 : mag; c.ref[0].e = e; static_cast<GunnsBasicPotential*>(c.links[0])->setSourcePotential(e); s->setMalfBlockage(bf, 0.5); auto& S = s->mShort;
        S.setMalfConstantPower(mode == 1, val, 0); S.setMalfConstantCurrent(mode == 2, val, 0); S.setMalfInitialPower(mode == 3, val, 0); S.setMalfInitialCurrent(mode == 4, val, 0); S.setMalfResistance(mode == 5, val, 0);
        // the initial load malfunctions hold the resistance that draws their load at the voltage of their activation
        double a = std::fabs(prevDv); if (mode == 3 && (lastMode != 3 || lastVal != val)) held = mag / (a * a); if (mode == 4 && (lastMode != 4 || lastVal != val)) held = mag / a; lastMode = mode; lastVal = val;
        bool ok = c.solve(0.1); double dv = c.V(0) - c.V(1); if (mode == 1 && (!ok || std::fabs(dv) < 2)) { outcome("constant power short collapses the source"); prune(); }
        MC_CHECK(ok, "short did not converge, mode %d value %g source %g drop %g", mode, val, e, dv); static const char* nm[] = {"no short", "constant power short", "constant current short", "initial power short", "initial current short", "resistance short"}; c.kirchhoff(0.1, nm[mode]); prevDv = dv;
    }
}
static void constantPower() {
    double minV = pick((const double[]){18, 0}, "minimum voltage"), P = 50, bias = 0, e = 28; bool bf = false;
    Ckt c(2, 200); c.addLink(POT, 2, 0, 10, e); c.addLink(COND, 0, 1, 5); c.addLink(COND, 1, 2, 0.05);
    auto* p = new EpsConstantPowerLoad; c.addOther(p); EpsConstantPowerLoadConfigData pc("p", &c.list, 0.1, P, minV); EpsConstantPowerLoadInputData pi(false, 0.5); p->initialize(pc, pi, c.links, 1, 2);
    c.tolK = 1e-4; c.add(p, 1, 2, [&](double v) { double m = std::max(v, 0.99 * minV); return v <= 0 ? 0.0 : (P + bias) * blk(bf, 0.5) / (m * m) * v; }); c.start(); p->setPowerAndNominalPotential(P, 28); int D = tierPick(4, 6);
    for (int t = 0; t < D; t++) {
        int ch = choose(6, "change"); switch (ch) { case 0: break; case 1: P = P == 50 ? 0 : P == 0 ? 120 : 50; break; case 2: bias = bias == 0 ? 20 : 0; break; case 3: bf = !bf; break; case 4: e = e == 28 ? 60 : e == 60 ? 12 : e == 12 ? -10 : 28; break; case 5: e = 28; bias = -10; break; }
        c.ref[0].e = e; static_cast<GunnsBasicPotential*>(c.links[0])->setSourcePotential(e); p->mDesiredPower = P; p->mBiasPowerLoadValue = bias; p->setMalfBlockage(bf, 0.5);
        if (P + bias < 0) { outcome("negative load"); prune(); }
        bool ok = c.solve(0.1); double v = c.V(1); if (minV == 0 && v < 0.4 * e && e > 0) { outcome("constant power load without minimum voltage collapses its source"); prune(); }
        if (!ok && minV == 0) { outcome("constant power load without minimum voltage cannot be supplied"); prune(); }
        MC_CHECK(ok, "constant power load did not converge: %g W, source %g, %g V", P + bias, e, v); c.kirchhoff(0.1, "constant power load");
        if (ch == 0 && t > 0) MC_CHECK(mc::near(p->mPowerDraw, -p->getPower(), 1e-3, 1e-6), "load reports a draw of %g W, its power is %g", p->mPowerDraw, -p->getPower());
        if (v > minV) MC_CHECK(mc::near(-p->getPower(), (P + bias) * blk(bf, 0.5), 1e-4, 1e-6), "load of %g W draws %g", P + bias, -p->getPower());
    }
}
int main(int argc, char** argv) {
    add("selector", selector); add("diodes", diodes); add("switches", switches); add("resistors", resistors); add("powerfunction", powerFunction); add("shorts", shorts); add("constantpower", constantPower);
    assume("networks of at most 4 nodes; one device of interest per circuit (four diodes in the bridge)"); bounds("sequences of 4 (thorough 5-6) changes, one solved step after each");
    return run(argc, argv, "C54");
}
