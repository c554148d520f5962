// mc: hflags=-fno-access-control
// C21: fluid conductors and valves pass the flow their position, malfunctions and pressures allow, and conserve what they carry.
#include "fluid.hh"
#include "aspects/fluid/conductor/GunnsFluidValve.hh"
#include "aspects/fluid/conductor/GunnsFluidCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluidLeak.hh"
#include "aspects/fluid/conductor/GunnsFluidPipe.hh"
#include "aspects/fluid/conductor/GunnsFluidSimpleQd.hh"
#include "aspects/fluid/conductor/GunnsFluidReliefValve.hh"
#include "aspects/fluid/conductor/GunnsFluidRegulatorValve.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayValve.hh"
#include "aspects/fluid/conductor/GunnsFluid3WayCheckValve.hh"
#include "aspects/fluid/conductor/GunnsFluidBalancedPrv.hh"
#include "core/GunnsFluidUtils.hh"
#include <cmath>
using namespace mc; using FP = FluidProperties;
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static double lin(const FluidRig& r, const GunnsFluidLink* l) { (void)r; return l->mMinLinearizationPotential; }
// conductance of a flow path, from the fluid at its ends
static double law(double k, double ex, double minP, const PolyFluid* a, const PolyFluid* b) {
    double rho = 0.5 * (a->getDensity() + b->getDensity()), ma = a->getMWeight(), mb = b->getMWeight(), mw = ma < 1e-12 ? mb : mb < 1e-12 ? ma : 0.5 * (ma + mb), dp = std::max(minP, std::fabs(a->getPressure() - b->getPressure()));
    return k * std::pow(rho * dp * 1000.0, ex) / dp / mw; }
// conductivity that passes a given mass flow
static double inverse(double mdot, double ex, double minP, const PolyFluid* a, const PolyFluid* b) { double dp = std::fabs(a->getPressure() - b->getPressure()), rho = 0.5 * (a->getDensity() + b->getDensity()); if (dp < 1e-15) return 0; dp = std::max(dp, minP); return std::fabs(mdot) / std::pow(1000.0 * dp * rho, ex); }
static const double DRIVE[][3] = {{100, 100, 100}, {130, 100, 80}, {100, 112, 105}, {103, 100, 101.5}, {60, 120, 140}};
// Nodes whose pressures are driven by sources, and the flow law for the tested path.
struct Rig : FluidRig {
    std::vector<std::unique_ptr<GunnsFluidPotential>> drv; int pattern = 0; double dt = 0.1;
    Rig(int n) : FluidRig(n, {FP::GUNNS_N2, FP::GUNNS_O2}) { static const FluidState S[] = {{300, 110, {0.7, 0.3}, {}}, {280, 100, {1, 0}, {}}, {320, 90, {0.2, 0.8}, {}}}; for (int i = 0; i <= n; i++) init(i, i == n ? S[1] : S[i], i == n ? 0 : i == 1 ? 0.5 : 1.0);
        for (int i = 0; i < n; i++) { drv.emplace_back(new GunnsFluidPotential); drv[i]->initialize(GunnsFluidPotentialConfigData("d", &F.list, 0.02, 0.0), GunnsFluidPotentialInputData(false, 0, 100), links, n, i); edge(drv[i].get(), n, i); } }
    void drive(int p) { pattern = p; for (size_t i = 0; i < drv.size(); i++) drv[i]->mSourcePressure = DRIVE[p][i]; }
    double P(int i) { return i == N ? 0.0 : nd(i).getPotential(); }
    void checkPath(const GunnsFluidLink* l, int a, int b, double G, const double (*rho)[2], const char* what) {
        double hi = std::max(P(a), P(b)), d = P(a) - P(b), want = std::fabs(d) < hi * 1e-13 ? 0.0 : d * G, tol = 1e-9 * std::fabs(want) + 1e-11 * G * hi + 1e-18; mc::validated();
        MC_CHECK(std::fabs(l->getFlux() - want) <= tol || std::fabs(d) < hi * 1e-11, "%s: flux %.12g from %.9g to %.9g kPa, conductance %.9g makes %.12g", what, l->getFlux(), P(a), P(b), G, want);
        MC_CHECK(l->getFlux() * d >= 0, "%s: flux %g against the pressure drop %g", what, l->getFlux(), d); int src = l->getFlux() > 0 ? a : b; if (src == N) return;
        MC_CHECK(near(l->getVolFlowRate(), l->getFlowRate() / rho[0][src == b], 1e-9, 1e-15) || near(l->getVolFlowRate(), l->getFlowRate() / rho[1][src == b], 1e-9, 1e-15), "%s: volume flow %g", what, l->getVolFlowRate()); MC_CHECK(near(l->getPower(), -1000 * l->getVolFlowRate() * d, 1e-9, 1e-12), "%s: power %g", what, l->getPower()); mc::outcome(l->getFlux() > 0 ? "forward" : l->getFlux() < 0 ? "backward" : "no flow");
    }
};
struct Common { double maxK, ex; bool block = false; double blockV = 0.25; bool leak = false; double leakV = 0.01, leakPrev = 0, leakK = 0, pos = 1; int tune = 0; double tuneM = 0.02, tuneVol = -0.01, tuned = -1; };
// conductivity of a valve-like path at its position, before the step
static void prepare(Common& c, double minP, const PolyFluid* a, const PolyFluid* b) {
    if (c.leak) { if (c.leakV != c.leakPrev) { c.leakK = inverse(c.leakV, 0.5, minP, a, b); c.leakPrev = c.leakV; } } else c.leakK = c.leakPrev = 0; c.tuned = -1;
    if (c.tune) { double m = c.tune == 1 ? c.tuneM : c.tune == 2 ? c.tuneVol * (c.tuneVol >= 0 ? a : b)->getDensity() : c.tuneVol * UnitConversion::STD_DENSITY_AIR; c.tuned = inverse(m, c.ex, minP, a, b); c.block = false; c.tune = 0; } }
static double effective(Common& c) { double k = c.tuned >= 0 ? c.tuned : std::max(c.maxK * c.pos, c.leakK); if (c.tuned >= 0) c.maxK = c.tuned; return c.block ? k * (1 - c.blockV) : k; }
template<class L> static void tuneCmd(L& l, Common& c, int how) { c.tune = how; l.mTuneMode = how == 1 ? GunnsFluidUtils::MASS : how == 2 ? GunnsFluidUtils::TRUE_VOL : GunnsFluidUtils::STD_VOL; l.mTuneMassFlow = c.tuneM; l.mTuneVolFlow = c.tuneVol; }
template<class L> static void blockCmd(L& l, Common& c, bool toggle) { if (toggle) c.block = !c.block; else c.blockV = c.blockV == 0.25 ? 1.0 : 0.25; l.setMalfBlockage(c.block, c.blockV); }
template<class L> static void leakCmd(L& l, Common& c, bool toggle) { if (toggle) c.leak = !c.leak; else c.leakV = c.leakV == 0.01 ? 0.03 : 0.01; l.setMalfLeakThru(c.leak, c.leakV); }
enum { CONDUCTOR, VALVE, CHECK, LEAK, QD, PIPE, RELIEF, REGULATOR };
static void path(int kind, int depth) {
    Rig r(2); Common c; c.maxK = 1e-4; c.ex = 0.5; int a = 0, b = 1; if (kind != RELIEF && kind != REGULATOR && mc::flip("to ground")) b = 2; static const double EX[] = {0.5, 0.75, 1.0}; if (kind == CONDUCTOR) c.ex = pick(EX, "exponent"); if (c.ex > 0.5) c.maxK = 1e-6;
    GunnsNodeList* L = &r.F.list; GunnsFluidConductor co; GunnsFluidValve va; GunnsFluidCheckValve ch; GunnsFluidLeak le; GunnsFluidSimpleQd qd; GunnsFluidPipe pi; GunnsFluidReliefValve re; GunnsFluidRegulatorValve rg; GunnsFluidLink* l = 0; GunnsFluidConductor* cl = 0;
    double rate = 100; bool stuck = false, fail = false; double failV = 0.5; const double open = 10, close = 2; bool wall = false; double wallT = 400, area = 0;
    // relief: opens with rising control pressure, regulator: with falling
    double reseat = kind == REGULATOR ? 25 : 5, crack = kind == REGULATOR ? 20 : 12, full = kind == REGULATOR ? 8 : 28, pop = 0.3, scale = 2, bias = 0, malfBias = 3, c0 = 0.5, c1 = 0.01; bool mbias = false; int p2 = 0, p3 = 1; bool synced = true;
    switch (kind) {
        case CONDUCTOR: co.initialize(GunnsFluidConductorConfigData("l", L, c.maxK, 0, c.ex), GunnsFluidConductorInputData(), r.links, a, b); l = cl = &co; break;
        case VALVE: wall = mc::flip("thermal wall"); c.pos = 0.5; va.initialize(GunnsFluidValveConfigData("l", L, c.maxK, 0, wall ? 1 : 0, 0.1, 1e-5), GunnsFluidValveInputData(false, 0, c.pos, false, 0, wallT), r.links, a, b); l = cl = &va; break;
        case CHECK: rate = mc::flip("slow") ? 2 : 100; c.pos = 0; ch.initialize(GunnsFluidCheckValveConfigData("l", L, c.maxK, 0, 0, 0, 0, rate, close, open), GunnsFluidCheckValveInputData(false, 0, c.pos), r.links, a, b); l = cl = &ch; break;
        case LEAK: le.initialize(GunnsFluidLeakConfigData("l", L, 0, 0), GunnsFluidLeakInputData(), r.links, a, b); l = cl = &le; break;
        case QD: c.pos = 0; qd.initialize(GunnsFluidSimpleQdConfigData("l", L, c.maxK), GunnsFluidSimpleQdInputData(), r.links, a, b); l = cl = &qd; break;
        case PIPE: wall = true; pi.initialize(GunnsFluidPipeConfigData("l", L, c.maxK, 0, 1, 0.1, 1e-5), GunnsFluidPipeInputData(false, 0, wallT), r.links, a, b); l = cl = &pi; break;
        case RELIEF: case REGULATOR: { int o = mc::choose(2, "pressure ports"); if (o) { p2 = 1; p3 = 2; } rate = mc::flip("slow") ? 2 : 100; if (o) { reseat += 98; crack += 98; full += 98; } if (mc::flip("no inlet dependency")) c0 = c1 = 0; c.pos = mc::flip("initially open") ? 1 : 0;
            if (kind == RELIEF) { re.initialize(GunnsFluidReliefValveConfigData("l", L, c.maxK, 0, rate, 0, 0, 0, reseat, crack, full, pop, scale, c0, c1), GunnsFluidReliefValveInputData(false, 0, c.pos, false, 0, false, malfBias, bias, 0, false, false, 0), r.links, a, b, p2, p3); l = &re; }
            else { rg.initialize(GunnsFluidRegulatorValveConfigData("l", L, c.maxK, 0, rate, 0, 0, 0, reseat, crack, full, pop, scale, c0, c1), GunnsFluidRegulatorValveInputData(false, 0, c.pos, false, 0, false, malfBias, bias, 0, false, false, 0), r.links, a, b, p2, p3); l = &rg; } break; } }
    if (wall) { area = M_PI * 0.1; r.Tmax = 401; }
    r.edge(l, a, b); r.start(1); double hole = 2e-5, lrate = 0.005, tuned = 0, tuned2 = 0, tunedRate = 0; bool holeF = false, rateF = false, wasRate = false; GunnsFluidPressureSensitiveValve* ps = kind == RELIEF ? (GunnsFluidPressureSensitiveValve*)&re : (GunnsFluidPressureSensitiveValve*)&rg; bool press = kind == RELIEF || kind == REGULATOR;
    // heat taken from the wall warms what flows out
    r.extra = [&](double dt) { if (!wall) return; double w = l->getFlowRate(); int src = w > 0 ? a : b, dst = w > 0 ? b : a; double q = kind == VALVE ? va.getWallHeatFlux() : pi.getPipeHeatFlux(); if (w == 0 || src == r.N) { return; }
        PolyFluid f(*r.nd(src).getOutflow(), "f"); double U = area * GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(w, &f, 1e-4, 0.1), h0 = f.getSpecificEnthalpy(), cp = f.getSpecificHeat(), T0 = f.getTemperature(); f.setTemperature(wallT + std::exp(-std::min(U, 100 * std::fabs(w) * cp) / std::fabs(w) / cp) * (T0 - wallT)); double want = std::fabs(w) * (h0 - f.getSpecificEnthalpy());
        if (std::fabs(w) > 1e-12) MC_CHECK(near(q, want, 1e-9, 1e-12), "wall heat %g, expected %g", q, want); if (dst < r.N) r.xH[dst] -= q * dt; };
    for (int d = 0; d < depth; d++) {
        static const int NE[] = {11, 13, 14, 12, 9, 9, 18, 18}; int e = mc::choose(NE[kind], "event"); const PolyFluid *fa = r.nd(a).getContent(), *fb = r.nd(b).getContent(); double minP = lin(r, l);
        if (e < 5) r.drive(e); else if (e == 5) r.dt = r.dt == 0.1 ? 0.5 : 0.1;
        if (cl) { if (e == 6) blockCmd(*cl, c, true); if (e == 7) blockCmd(*cl, c, false); if (kind == CONDUCTOR && e > 7) tuneCmd(co, c, e - 7);
            if (kind == VALVE) { if (e == 8) { static const double X[] = {0, 1, 0.3}; c.pos = pick(X, "position"); va.setPosition(c.pos); } if (e == 9) leakCmd(va, c, true); if (e == 10) leakCmd(va, c, false); if (e == 11) tuneCmd(va, c, 1); if (e == 12 && wall) { wallT = wallT == 400 ? 250 : 400; va.setWallTemperature(wallT); r.Tmin = 250; } }
            if (kind == PIPE && e == 8) { wallT = wallT == 400 ? 250 : 400; pi.setWallTemperature(wallT); r.Tmin = 250; }
            if (kind == CHECK) { if (e == 8) { stuck = !stuck; ch.setMalfStuck(stuck); } if (e == 9) { fail = !fail; ch.setMalfFailTo(fail, failV); } if (e == 10) { failV = failV == 0.5 ? 1.5 : 0.5; ch.setMalfFailTo(fail, failV); } if (e == 11) leakCmd(ch, c, true); if (e == 12) leakCmd(ch, c, false); if (e == 13) tuneCmd(ch, c, 1); }
            if (kind == LEAK) { if (e == 8) { holeF = !holeF; le.setMalfLeakHole(holeF, hole); } if (e == 9) { rateF = !rateF; le.setMalfLeakRate(rateF, lrate); } if (e == 10) { hole = hole == 2e-5 ? 5e-5 : 2e-5; le.setMalfLeakHole(holeF, hole); } if (e == 11) { lrate = lrate == 0.005 ? 0.02 : 0.005; le.setMalfLeakRate(rateF, lrate); } }
            if (kind == QD && e == 8) { c.pos = c.pos ? 0 : 1; qd.setState(c.pos ? GunnsFluidSimpleQd::CONNECTED : GunnsFluidSimpleQd::DISCONNECTED); } }
        else { if (e == 6) blockCmd(*ps, c, true); if (e == 7) blockCmd(*ps, c, false); if (e == 8) leakCmd(*ps, c, true); if (e == 9) leakCmd(*ps, c, false); if (e == 10) tuneCmd(*ps, c, 1); if (e == 11) { stuck = !stuck; ps->setMalfStuck(stuck); } if (e == 12) { fail = !fail; ps->setMalfFailTo(fail, failV); } if (e == 13) { failV = failV == 0.5 ? -1 : 0.5; ps->setMalfFailTo(fail, failV); } if (e == 14) { mbias = !mbias; ps->setMalfPressureBias(mbias, malfBias); } if (e == 15) { malfBias = -malfBias; ps->setMalfPressureBias(mbias, malfBias); } if (e == 16) { bias = bias == 0 ? 2 : 0; ps->mSetPointPressureBias = bias; } if (e == 17) tuneCmd(*ps, c, 3); }
        double drop = d ? r.P(a) - r.P(b) : 0.0, k = 0, loLim = 0, hiLim = 0, rho[2][2] = {{fa->getDensity(), fb->getDensity()}}; bool closed = false, opened = false, loose = false;
        if (kind == CHECK) { if (!stuck) { if (fail) c.pos = clamp(0, failV, 1); else { double t = clamp(0, (drop - close) / (open - close), 1); c.pos = clamp(std::max(0.0, c.pos - rate * r.dt), t, std::min(1.0, c.pos + rate * r.dt)); } } }
        if (press) { double ctl = r.P(p2) - r.P(p3) + (mbias ? malfBias : 0) - bias - c0 - c1 * r.P(a);
            // curves of a valve on its way open and on its way closed: steep up to the pop position, then straight to fully open
            auto curve = [&](double start) { double m = scale / (full - start), pp = start + pop / m; double x = kind == RELIEF ? ctl : -ctl, pk = kind == RELIEF ? pp : -pp, f = kind == RELIEF ? full : -full; return clamp(0, x <= pk ? m * (ctl - start) : 1 - (1 - pop) / (full - pp) * (full - ctl), 1); (void)f; };
            double lo = curve(crack), hi = curve(reseat), was = c.pos; mc::trace("control pressure %g: position between %g and %g", ctl, lo, hi);
            double dp = rate * r.dt; auto rated = [&](double x) { return clamp(std::max(0.0, was - dp), x, std::min(1.0, was + dp)); };
            if (stuck) { if (d) synced = false; } else if (fail) { c.pos = clamp(0, failV, 1); synced = false; } else { loLim = rated(lo); hiLim = rated(hi); c.pos = rated(clamp(lo, was, hi)); closed = hi <= 0; opened = lo >= 1; loose = !synced; } }
        if (kind == LEAK) { if (holeF) { k = hole; wasRate = false; } else if (rateF) { double now = inverse(lrate, 0.5, minP, fa, fb); if (lrate != tunedRate) { tuned = tuned2 = now; tunedRate = lrate; } else if (!wasRate) tuned2 = now; wasRate = true; k = tuned2; } else { k = 0; wasRate = false; tunedRate = 0; } }
        double unit = law(1, c.ex, minP, fa, fb); prepare(c, minP, fa, fb);
        mc::trace("event %d pattern %d dt %g position %g", e, r.pattern, r.dt, c.pos);
        if (!r.step(r.dt)) { mc::outcome("exempt"); return; }
        if (kind == VALVE) MC_CHECK(va.getPosition() == c.pos, "position %g, expected %g", va.getPosition(), c.pos); if (kind == CHECK) MC_CHECK(near(ch.getPosition(), c.pos, 1e-6, 1e-8), "position %g, expected %g at a drop of %g", ch.getPosition(), c.pos, drop); if (kind == QD) MC_CHECK((qd.getState() == GunnsFluidSimpleQd::CONNECTED) == (c.pos > 0), "state"); 
        if (press && loose) { double x = ps->getPosition(); MC_CHECK(x >= loLim - 1e-6 && x <= hiLim + 1e-6, "position %g outside %g to %g", x, loLim, hiLim); if ((closed && x == 0) || (opened && x == 1)) synced = true; c.pos = x; }
        else if (press) MC_CHECK(near(ps->getPosition(), c.pos, 1e-6, 1e-7), "position %g, expected %g", ps->getPosition(), c.pos);
        rho[1][0] = r.nd(a).getOutflow()->getDensity(); rho[1][1] = r.nd(b).getOutflow()->getDensity(); double ke = kind == LEAK ? k * (c.block ? 1 - c.blockV : 1) : effective(c); r.checkPath(l, a, b, ke * unit, rho, "path"); if (kind == CHECK) c.pos = ch.getPosition(); if (press) c.pos = ps->getPosition();
    }
}

static double threeWayPos(double pos, bool pathB, double band, bool A) { double x = (A != pathB) ? pos : 1 - pos; if (band == 0) return x; double w = 0.5 - 0.5 * band; return clamp(0, (x - (1 - w)) / w, 1); }
static void threeWay(bool check, int depth) {
    Rig r(3); bool pathB = mc::flip("position of path B"); static const double BAND[] = {0, 0.2}; double band = check ? 0 : pick(BAND, "non-mixing band"); double pos = 0.5, rate = 100; const double openA = 10, openB = 20, minD = 2; if (check && mc::flip("slow")) rate = 1.5; std::unique_ptr<GunnsFluid3WayValve> v(check ? (GunnsFluid3WayValve*)new GunnsFluid3WayCheckValve : new GunnsFluid3WayValve);
    GunnsNodeList* L = &r.F.list; Common c[2]; for (auto& x : c) { x.ex = 0.5; x.pos = 0; } c[0].maxK = 1e-4; c[1].maxK = 5e-5;
    if (check) { GunnsFluid3WayCheckValveConfigData cd("l", L, pathB, 1e-4, 5e-5, 0, 0, 0, 0, 0, 0, 0, 0, rate, openA, openB, minD); ((GunnsFluid3WayCheckValve*)v.get())->initialize(GunnsFluid3WayCheckValveConfigData(cd), GunnsFluid3WayCheckValveInputData(GunnsFluid3WayCheckValveInputData(pos)), r.links, 0, 1, 2); }
    else { GunnsFluid3WayValveConfigData cd("l", L, pathB, 1e-4, 5e-5); cd.mNonMixingBand = band; v->initialize(GunnsFluid3WayValveConfigData(cd), GunnsFluid3WayValveInputData(pos), r.links, 0, 1, 2); }
    int port[3] = {0, 1, 2}; GunnsFluidValve* path[2] = {&v->mPathA, &v->mPathB}; size_t e0 = r.edges.size(); r.edge(path[0], 0, 2); r.edge(path[1], 1, 2); r.start(1); bool stuck = false, fail = false; double failV = 0; auto* cv = (GunnsFluid3WayCheckValve*)v.get(); double drop[2] = {0, 0};
    for (int d = 0; d < depth; d++) {
        int e = mc::choose(check ? 13 : 12, "event"); if (e < 5) r.drive(e); else if (e == 5) r.dt = r.dt == 0.1 ? 0.5 : 0.1; else if (e == 6) leakCmd(*path[0], c[0], true); else if (e == 7) leakCmd(*path[1], c[1], true); else if (e == 8) blockCmd(*path[1], c[1], true);
        else if (e == 9) { port[1] = port[1] == 1 ? 3 : 1; v->setPort(1, port[1]); } else if (e == 10) { if (check) { stuck = !stuck; cv->setMalfStuck(stuck); } else { static const double X[] = {0, 0.25, 0.45, 0.8, 1}; pos = pick(X, "position"); v->setPosition(pos); } }
        else if (e == 11) { if (check) { fail = !fail; cv->setMalfFailTo(fail, failV); } else blockCmd(*path[0], c[0], true); } else if (e == 12) { failV = failV == 0 ? 1.5 : 0; cv->setMalfFailTo(fail, failV); }
        if (check && !stuck) { if (fail) pos = clamp(0, failV, 1); else if (!(drop[0] < 0 && drop[1] < 0)) { double dd = drop[0] - drop[1]; mc::trace("drops %g %g", drop[0], drop[1]); if (std::fabs(std::fabs(dd) - minD) < 1e-9) { mc::outcome("tie"); return; }
                double x = std::fabs(dd) < minD ? 0.5 : dd > 0 ? clamp(0.5, 0.5 + 0.5 * (dd - minD) / (openA - minD), 1) : clamp(0, 0.5 - 0.5 * (-dd - minD) / (openB - minD), 0.5); if (pathB) x = 1 - x; pos = clamp(std::max(0.0, pos - rate * r.dt), x, std::min(1.0, pos + rate * r.dt)); } }
        double unit[2]; r.edges[e0 + 1].a = port[1]; for (int q = 0; q < 2; q++) { const PolyFluid *fa = r.nd(port[q]).getContent(), *fb = r.nd(port[2]).getContent(); unit[q] = law(1, 0.5, lin(r, path[q]), fa, fb); c[q].pos = threeWayPos(pos, pathB, band, !q); prepare(c[q], lin(r, path[q]), fa, fb); }
        double rho[2][2][2]; for (int q = 0; q < 2; q++) { rho[q][0][0] = r.nd(port[q]).getContent()->getDensity(); rho[q][0][1] = r.nd(2).getContent()->getDensity(); }
        mc::trace("event %d pattern %d dt %g position %g", e, r.pattern, r.dt, pos); if (!r.step(r.dt)) { mc::outcome("exempt"); return; }
        MC_CHECK(near(v->getPosition(), pos, 1e-9, 1e-9), "position %g, expected %g", v->getPosition(), pos); pos = v->getPosition();
        for (int q = 0; q < 2; q++) { rho[q][1][0] = r.nd(port[q]).getOutflow()->getDensity(); rho[q][1][1] = r.nd(2).getOutflow()->getDensity(); MC_CHECK(near(path[q]->getPosition(), c[q].pos, 1e-9, 1e-9), "path %d at position %g of %g, expected %g", q, path[q]->getPosition(), pos, c[q].pos); r.checkPath(path[q], port[q], 2, effective(c[q]) * unit[q], rho[q], q ? "path B" : "path A"); drop[q] = path[q]->getPotentialDrop(); MC_CHECK(near(drop[q], r.P(port[q]) - r.P(2), 1e-9, 1e-9), "potential drop %g", drop[q]); }
        MC_CHECK(v->getFlux() == 0 && v->getFlowRate() == 0, "flow through the parent link"); }
}
static void prv(int depth) {
    Rig r(3); bool gauge = mc::flip("reference pressure"); double set = gauge ? 20 : 110, bias = 5; bool mb = false; Common c; static const double DROOP[] = {100, 1000, 0.01}; double droop = pick(DROOP, "droop"); GunnsFluidBalancedPrv v; GunnsFluidBalancedPrvInputData in(false, 0, mb = mc::flip("initial bias"), bias, set); v.initialize(GunnsFluidBalancedPrvConfigData(GunnsFluidBalancedPrvConfigData("l", &r.F.list, droop)), GunnsFluidBalancedPrvInputData(in), r.links, 0, 1, gauge ? 2 : 3); r.start(1);
    double buf = 0; bool cut = false, reverse = false; int ref = gauge ? 2 : 3;
    r.extra = [&](double dt) { double win = v.mInletFlowRate * dt, w = v.getFlowRate() * dt; FluidRig::Snap o = r.take(r.nd(0).getOutflow()); r.xH[0] -= win * o.h; r.xH[1] += w * o.h; for (int k = 0; k < r.K; k++) { r.xS[0][k] -= win * o.f[k]; r.xS[1][k] += w * o.f[k]; } };
    for (int d = 0; d < depth; d++) {
        int e = mc::choose(11, "event"); if (e < 5) r.drive(e); else if (e == 5) r.dt = r.dt == 0.1 ? 0.5 : 0.1; else if (e == 6) blockCmd(v, c, true); else if (e == 7) blockCmd(v, c, false); else if (e == 8) { mb = !mb; v.setMalfPressureBias(mb, bias); } else if (e == 9) { bias = -bias; v.setMalfPressureBias(mb, bias); } else { set = set == 20 ? 5 : set == 5 ? 20 : set == 110 ? 95 : 110; v.setPressureSetpoint(set); }
        double p0 = r.P(0), p1 = r.P(1), goal = set + r.P(ref) + (mb ? bias : 0), mw = r.nd(0).getContent()->getMWeight(); if (p1 > p0) cut = true; else if (p1 < goal) cut = false; double reg = std::min(goal, p0), Ge = cut ? 0 : 1 / mw / droop * (c.block ? 1 - c.blockV : 1), Gi = 0.2 * buf / r.dt / mw / p0;
        if (std::fabs(p1 - goal) < 1e-7 || std::fabs(p1 - p0) < 1e-7) { if (d) { mc::outcome("tie"); return; } }
        mc::trace("event %d pattern %d goal %g cut %d owed %g", e, r.pattern, goal, cut, buf); if (!r.step(r.dt)) { mc::outcome("exempt"); return; } mc::validated();
        double q = (reg - r.P(1)) * Ge, tol = Ge * reg * 1e-9; if (q < -tol) reverse = true; MC_CHECK(near(v.getFlux(), std::max(0.0, q), 1e-9, tol), "flux %.12g at exit pressure %.9g regulated to %.9g, expected %.12g", v.getFlux(), r.P(1), reg, q); MC_CHECK(near(v.mInletFlux, Gi * r.P(0), 1e-9, 1e-13), "flux %g drawn from the inlet, expected %g", v.mInletFlux, Gi * r.P(0));
        double want = std::max(0.0, buf + (v.getFlowRate() - v.mInletFlowRate) * r.dt); MC_CHECK(near(v.mInletMassBuffer, want, 1e-9, 1e-12), "inlet owes %g kg, flows make %g", v.mInletMassBuffer, want); buf = v.mInletMassBuffer; mc::outcome(cut ? "cut off" : q > 0 ? "forward" : "none");
        if (q < -tol) { mc::outcome("backflow"); return; } MC_CHECK(near(v.getInletGaugePressure(), r.P(0) - r.P(ref), 1e-9, 1e-9) && near(v.getExitGaugePressure(), r.P(1) - r.P(ref), 1e-9, 1e-9), "gauge pressures"); }
    (void)reverse;
}
int main(int argc, char** argv) {
    static const char* N[] = {"conductor", "valve", "check valve", "leak", "quick disconnect", "pipe", "relief valve", "regulator valve"};
    for (int k = 0; k < 8; k++) mc::add(N[k], [=] { path(k, tierPick(3, 5)); });
    mc::add("three-way valve", [] { threeWay(false, tierPick(3, 5)); }); mc::add("three-way check valve", [] { threeWay(true, tierPick(3, 5)); }); mc::add("pressure reducing valve", [] { prv(tierPick(4, 5)); });
    mc::bounds("every sequence of 3 events (4 on pressure reducing valves; thorough 5) for each of 11 kinds of link between nodes of 0.5 to 1 m3 of nitrogen and oxygen or ground: five patterns of driving pressures, two time steps, positions, blockage, leak-through, flow tuning, wall temperatures, stuck and fail-to malfunctions, set point biases");
    mc::assume("the conductance of a path follows the fluids in the nodes at the start of the step; pressures within 1e-11 of each other carry no checked direction; steps that overdrain or overflow nodes in a cycle are out of scope as in C20; a reducing valve may lose balance in the one step its back pressure cut-off acts, as documented");
    return mc::run(argc, argv, "C21");
}
