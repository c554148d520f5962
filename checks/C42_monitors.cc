// mc: hflags=-fno-access-control
// C42: detailed orifices and valves, flow controllers, equivalent conductors of other networks, and the sensors and
// monitors that watch a fluid network, over every sequence of events.
#include "fluid.hh"
#include "aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.hh"
#include "aspects/fluid/hi-fi/GunnsFluidHiFiValve.hh"
#include "aspects/fluid/conductor/GunnsFluidEqConductor.hh"
#include "aspects/fluid/conductor/GunnsFluidSensor.hh"
#include "aspects/fluid/conductor/GunnsFluidLiquidWaterSensor.hh"
#include "core/GunnsFluidFlowController.hh"
#include "core/GunnsBasicFlowController.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsFluidFlowIntegrator.hh"
#include "core/GunnsFluidVolumeMonitor.hh"
#include "math/UnitConversion.hh"
#include <cmath>
using namespace mc; using FP = FluidProperties;
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }
struct Fl { double rho, mw, P, T, g, mu; };
static Fl fl(const PolyFluid* o) { return {o->getDensity(), o->getMWeight(), o->getPressure(), o->getTemperature(), o->getAdiabaticIndex(), o->getViscosity()}; }

// ---------- orifices and valves of a real throat ----------
// mass flux (kg/s/m2) through an ideal throat, and whether it is choked
static double ideal(bool gas, const Fl& in, double p0, double p1, double rho1, double* ratio) {   // Pa
    if (!gas) return std::sqrt(std::max(0.0, (in.rho + rho1) * (p0 - p1)));
    double g = in.g, crit = p0 * std::pow(2 / (g + 1), g / (g - 1)); if (ratio) *ratio = p1 / crit; bool choked = ratio ? *ratio < 1 : p1 < crit;
    return choked ? std::sqrt(g * p0 * in.rho * std::pow(2 / (g + 1), (g + 1) / (g - 1))) : std::sqrt(2 * p0 * in.rho * g / (g - 1) * (std::pow(p1 / p0, 2 / g) - std::pow(p1 / p0, (g + 1) / g))); }
static void orifice() {
    bool gas = !mc::flip("liquid"), valve = mc::flip("valve"), out = mc::flip("to ground"); int b = out ? 2 : 1; int kind = choose(3, "coefficient"), crit = choose(2, "critical Reynolds number"); double tune = mc::flip("tuned") ? 0.7 : 1, d = 0.01, area = M_PI / 4 * d * d, cd = 0.6, exp = gas && mc::flip("expansion") ? 0.5 : 0;
    FluidRig r(2, gas ? std::vector<FP::FluidType>{FP::GUNNS_N2, FP::GUNNS_O2} : std::vector<FP::FluidType>{FP::GUNNS_WATER, FP::GUNNS_AMMONIA}); static const FluidState S[] = {{300, 300, {0.7, 0.3}, {}}, {285, 100, {1, 0}, {}}, {295, 50, {0.2, 0.8}, {}}};
    r.init(0, S[0], 0.5); r.init(1, S[1], 0.4); r.init(2, S[2], 0); if (exp) r.energy = false; if (!gas) r.energy = false;
    static const double RE[] = {0, 3000}; double re = RE[crit]; auto type = static_cast<GunnsFluidHiFiOrificeConfigData::CoeffTypes>(kind);
    // Kv: m3/h of water at 1 bar; Cv: gallons per minute at 1 psi
    double coeff = kind == 0 ? cd : kind == 1 ? cd * area * 50911.7 : cd * area * 50911.7 / 0.865;
    GunnsFluidHiFiOrifice o; GunnsFluidHiFiValve v; GunnsFluidHiFiOrifice* l = valve ? &v : &o; double pos = 0.6, blockV = 0.25, leakV = 0.05, leakPrev = 0, leakArea = 0; bool block = false, leak = valve && mc::flip("leaking at first"), pulse = false;
    if (valve) v.initialize(GunnsFluidHiFiValveConfigData("l", &r.F.list, type, coeff, d, re, exp, tune), GunnsFluidHiFiValveInputData(false, 0, pos), r.links, 0, b); else o.initialize(GunnsFluidHiFiOrificeConfigData("l", &r.F.list, type, coeff, d, re, exp, tune), GunnsFluidHiFiOrificeInputData(), r.links, 0, b);
    MC_CHECK(near(l->mCdDefault, cd, kind == 2 ? 1e-2 : 1e-9), "coefficient of discharge %.9g, expected %.9g", l->mCdDefault, cd); cd = l->mCdDefault;
    std::vector<std::unique_ptr<GunnsFluidPotential>> drv; for (int i = 0; i < 2; i++) { drv.emplace_back(new GunnsFluidPotential); drv[i]->initialize(GunnsFluidPotentialConfigData("d", &r.F.list, gas ? 0.05 : 0.5, 0.0), GunnsFluidPotentialInputData(false, 0, S[i].P), r.links, 2, i); r.edge(drv[i].get(), 2, i); }
    r.edge(l, 0, b); r.start(); double flow = 0, ratio = 0; int D = tierPick(2, 3); static const double PS[][2] = {{300, 100}, {120, 100}, {80, 220}, {150, 150}};
    for (int s = 0; s < D; s++) {
        pulse = false; switch (choose(valve ? 8 : 3, "event")) { case 0: break; case 1: block = !block; break; case 2: blockV = blockV == 1 ? 0.25 : 1; block = true; break;
            case 3: v.mPosition = pos = pos == 0 ? 0.6 : 0; break; case 4: v.mPosition = pos = 1; break; case 5: leak = !leak; break; case 7: leak = false; pulse = true; break; case 6: leakV = leakV == 0.05 ? 0.01 : 0.05; break; }
        int p = choose(4, "pressures"); for (int i = 0; i < 2; i++) drv[i]->mSourcePressure = PS[p][i]; l->setMalfBlockage(block, blockV); 
        for (int q = 0; q < 2; q++) { if (pulse && q == 1) leak = true; if (valve) v.setMalfLeakThru(leak, leakV);
            Fl f[2] = {fl(r.nd(0).getContent()), fl(r.nd(b).getContent())}; double P[2] = {r.nd(0).getPotential(), b == 2 ? 0.0 : r.nd(b).getPotential()}; int in = P[1] > P[0] ? 1 : 0; const Fl &i = f[in], &e = f[1 - in]; double minP = l->mMinLinearizationPotential;
            double Re = std::fabs(flow) / area * d / i.mu, k = cd * std::sqrt(std::min(re, Re) / std::max(re, DBL_EPSILON)); if (k < DBL_EPSILON) k = cd;
            // the leak area is that which passes the leak rate in the conditions when it was set
            if (valve && leak) { if (leakPrev != leakV) { leakPrev = leakV; bool c = ratio < 1; double fx; double p0 = 1000 * P[in], p1 = 1000 * P[1 - in]; if (gas) { double g = i.g; fx = c ? std::sqrt(g * p0 * i.rho * std::pow(2 / (g + 1), (g + 1) / (g - 1))) : std::sqrt(2 * p0 * i.rho * g / (g - 1) * (std::pow(p1 / p0, 2 / g) - std::pow(p1 / p0, (g + 1) / g))); } else fx = std::sqrt((i.rho + e.rho) * (p0 - p1)); fx *= k * tune; if (fx > DBL_EPSILON) leakArea = clamp(0, leakV / fx, area); } } else leakPrev = leakArea = 0;
            double A = area * (block ? 1 - blockV : 1); if (valve) { A *= pos; if (leak) A = std::max(A, leakArea); }
            double p1 = std::max(0.0, e.P), p0 = gas ? std::max(i.P, p1 + minP) : std::max(i.P, e.P + minP) , m; if (!gas) p1 = e.P; if (gas) m = ideal(true, i, 1000 * p0, 1000 * p1, 0, &ratio); else m = std::sqrt((i.rho + e.rho) * 1000 * (p0 - p1));
            double G = std::min(tune * k * m * A / (p0 - p1) / (i.mw < 1e-12 ? e.mw : e.mw < 1e-12 ? i.mw : 0.5 * (i.mw + e.mw)), l->mConductanceLimit); if (!r.step(0.1)) return;
            double d2 = r.nd(0).getPotential() - (b == 2 ? 0.0 : r.nd(b).getPotential()), hi = std::max(r.nd(0).getPotential(), b == 2 ? 0.0 : r.nd(b).getPotential()); trace("  Re %g Cd %g area %g choked %d G %g flux %g", Re, k, A, ratio < 1, G, l->getFlux());
            MC_CHECK(std::fabs(l->getFlux() - G * d2) <= 1e-7 * std::fabs(G * d2) + 1e-11 * G * hi, "flux %.9g through the throat, its law gives %.9g", l->getFlux(), G * d2);
            MC_CHECK(l->getFlux() * d2 >= 0, "flux against the pressure"); if (A == 0) MC_CHECK(l->getFlux() == 0, "closed throat passes %g", l->getFlux());
            flow = l->getFlowRate(); validated();
        }
        state(Hash().d(r.nd(0).getPotential()).d(flow).i(valve).i(leak).h);
    }
}

// ---------- flow controllers ----------
static void controller() {
    bool rev = mc::flip("reverse control"), liquid = mc::flip("liquid"); static const double GN[] = {1.0, 0.5, 0.0}; double gain = pick(GN, "gain"), maxK = liquid ? 1e-4 : 1e-3, cmd = 0.01, malfV = 0.002, blockV = 0.5; bool malf = false, block = false;
    FluidRig r(2, liquid ? std::vector<FP::FluidType>{FP::GUNNS_WATER, FP::GUNNS_AMMONIA} : std::vector<FP::FluidType>{FP::GUNNS_N2, FP::GUNNS_O2}); static const FluidState S[] = {{300, 300, {1, 0}, {}}, {300, 100, {1, 0}, {}}, {300, 50, {1, 0}, {}}};
    for (int i = 0; i < 3; i++) r.init(i, S[i], 0); std::vector<std::unique_ptr<GunnsFluidPotential>> drv; for (int i = 0; i < 2; i++) { drv.emplace_back(new GunnsFluidPotential); drv[i]->initialize(GunnsFluidPotentialConfigData("d", &r.F.list, 1.0, 0.0), GunnsFluidPotentialInputData(false, 0, S[i].P), r.links, 2, i); r.edge(drv[i].get(), 2, i); }
    GunnsFluidFlowController c; double bad[] = {-0.1, 1.1}; for (double g : bad) { GunnsFluidFlowController x; std::vector<GunnsBasicLink*> ls; bool t = false; try { x.initialize(GunnsFluidFlowControllerConfigData("l", &r.F.list, maxK, 0, g, rev), GunnsFluidFlowControllerInputData(), ls, 0, 1); } catch (TsInitializationException&) { t = true; } MC_CHECK(t, "filter gain %g is accepted", g); }
    c.initialize(GunnsFluidFlowControllerConfigData("l", &r.F.list, maxK, 0, gain, rev), GunnsFluidFlowControllerInputData(false, 0, false, 0, cmd), r.links, 0, 1); r.edge(&c, 0, 1); r.start(); double last = maxK; int D = tierPick(3, 4), held = 0;
    static const double PS[][2] = {{300, 100}, {120, 100}, {80, 220}}; int p = 0;
    for (int s = 0; s < D; s++) {
        int was = held; held = 0;
        switch (choose(8, "event")) { case 0: held = was; break; case 1: cmd = cmd == 0.01 ? 0.03 : 0.01; break; case 2: cmd = cmd == 0 ? 0.01 : 0; break; case 3: malf = !malf; break; case 4: block = !block; break; case 5: p = (p + 1) % 3; break; case 6: p = (p + 2) % 3; break; case 7: cmd = 1e3; break; }
        for (int i = 0; i < 2; i++) drv[i]->mSourcePressure = PS[p][i]; c.mFlowRateCommand = cmd; c.setMalfFlowRate(malf, malfV); c.setMalfBlockage(block, blockV);
        for (int q = 0; q < 3; q++) { held++;
            Fl a = fl(r.nd(0).getContent()), b = fl(r.nd(1).getContent()); double dP = std::fabs(a.P - b.P), want = malf ? malfV : cmd, K = dP > DBL_EPSILON ? want / std::sqrt(500 * std::max(dP, c.mMinLinearizationPotential) * (a.rho + b.rho)) : 0; K = std::min(K, maxK);
            bool back = r.nd(1).getPotential() > r.nd(0).getPotential(); if (back && !rev) K = 0; K = last + gain * (K - last); if (K < DBL_EPSILON) K = 0; last = K; double open = block ? K * (1 - blockV) : K;
            if (!r.step(0.1)) return;
            double G = std::min(FluidRig::conductance(open, {a.rho, a.mw, a.P}, {b.rho, b.mw, b.P}, 0.5, c.mMinLinearizationPotential), c.mConductanceLimit), d = r.nd(0).getPotential() - r.nd(1).getPotential();
            MC_CHECK(near(c.getFlux(), G * d, 1e-7, 1e-11 * G * 300 + 1e-16), "controller passes %.9g, conductivity %.9g gives %.9g", c.getFlux(), open, G * d); validated();
            // with constant conditions and no filter the flow is the one commanded, if the pressures allow it
            if (gain == 1 && !block && held >= 3 && q == 2 && (rev || !back) && K < maxK) MC_CHECK(near(std::fabs(c.getFlowRate()), want, 2e-2, 1e-9), "controller passes %.9g kg/s, commanded %.9g", c.getFlowRate(), want);
            if (gain == 1 && !rev && d < -1e-6 && back) MC_CHECK(c.getFlowRate() == 0, "controller lets %.9g kg/s flow back", c.getFlowRate()); }
        state(Hash().d(last).d(c.getFlowRate()).i(p).i(rev).h);
    }
}
static void basicController() {
    bool rev = mc::flip("reverse control"), nl = mc::flip("non-linear"); double maxK = 2, cmd = 3, malfV = 1, Ps = 20; bool malf = false, block = false; GunnsBasicNode n[3]; GunnsNodeList L; L.mNodes = n; L.mNumNodes = 3; n[0].initialize("a", 0); n[1].initialize("b", 0); n[2].initialize("Ground", 0);
    Gunns g; g.initializeNodes(L); std::vector<GunnsBasicLink*> links; GunnsBasicPotential a, b; a.initialize(GunnsBasicPotentialConfigData("a", &L, 10), GunnsBasicPotentialInputData(false, 0, Ps), links, 2, 0); b.initialize(GunnsBasicPotentialConfigData("b", &L, 10), GunnsBasicPotentialInputData(false, 0, 10), links, 2, 1);
    GunnsBasicFlowController c; c.initialize(GunnsBasicFlowControllerConfigData("c", &L, maxK, nl, rev), GunnsBasicFlowControllerInputData(false, 0, false, 0, cmd), links, 0, 1); MC_CHECK(c.isNonLinear() == nl, "linearity of the controller"); g.initialize(GunnsConfigData("net", 1e-10, 1e-8, 100, 100), links); int D = tierPick(3, 4);
    for (int s = 0; s < D; s++) {
        switch (choose(7, "event")) { case 0: break; case 1: cmd = cmd == 3 ? 6 : 3; break; case 2: cmd = cmd == 0 ? 3 : 0; break; case 3: malf = !malf; break; case 4: block = !block; break; case 5: Ps = Ps == 20 ? 5 : 20; break; case 6: cmd = cmd == 1e3 ? -3 : 1e3; break; }
        a.mSourcePotential = Ps; c.mFluxCommand = cmd; c.setMalfFlux(malf, malfV); c.setMalfBlockage(block, 0.5);
        for (int q = 0; q < (nl ? 3 : 60); q++) { g.step(0.1); mc::step(); }
        double f = c.getFlux(), d = n[0].getPotential() - n[1].getPotential(), want = std::fabs(malf ? malfV : cmd), most = maxK * (block ? 0.5 : 1) * std::fabs(d);
        MC_CHECK(f * d >= -1e-12, "controller drives flow against the potential");
        if (d < -1e-6 && !rev) MC_CHECK(f == 0, "controller lets %.9g flow back", f);
        else if (block) MC_CHECK(std::fabs(f) <= std::max(want, most) * (1 + 1e-6), "blocked controller passes %.9g", f);
        else MC_CHECK(near(std::fabs(f), std::min(want, most), 1e-4, 1e-6), "controller passes %.9g, commanded %.9g of at most %.9g", f, want, most);
        validated(); state(Hash().d(f).d(d).i(rev).i(nl).h);
    }
}

// ---------- the conductor that stands for another network ----------
static void equivalent() {
    bool cap = mc::flip("network capacitance"); FluidRig r(2, {FP::GUNNS_N2, FP::GUNNS_O2}); static const FluidState S[] = {{300, 120, {0.7, 0.3}, {}}, {300, 100, {1, 0}, {}}, {300, 100, {1, 0}, {}}}; bool back = mc::flip("reversed"); r.init(0, S[0], 1.0); r.init(1, back ? FluidState{310, 140, {0.1, 0.9}, {}} : S[1], 0.6); r.init(2, S[2], 0);
    GunnsFluidEqConductor e; e.initialize(GunnsFluidEqConductorConfigData("e", &r.F.list, cap), GunnsFluidEqConductorInputData(), r.links, 0, 1); GunnsFluidConductor k; double kc = 1e-5; k.initialize(GunnsFluidConductorConfigData("k", &r.F.list, kc), GunnsFluidConductorInputData(), r.links, 0, 1); r.edge(&k, 0, 1, &kc);
    GunnsFluidSource feed; feed.initialize(GunnsFluidSourceConfigData("s", &r.F.list), GunnsFluidSourceInputData(false, 0, 0), r.links, 2, 0); r.edge(&feed, 2, 0); r.start(); r.energy = false; int D = tierPick(3, 4);
    static const double DM[][2] = {{0, 0}, {1e-4, -1e-4}, {1e-4, -0.8e-4}, {1e-4, 0}, {0, 1e-4}, {1e-4, 0.5e-4}, {-1e-4, 1e-4}, {-0.6e-4, 1e-4}, {0, 0.5e-4}}; int m = 0; double T1 = 310; double drop[2] = {0, 0}; r.xH.assign(2, 0); r.xS.assign(2, std::vector<double>(2, 0)); r.xT.assign(2, std::vector<double>());
    for (int s = 0; s < D; s++) {
        m = choose(9, "demands"); if (mc::flip("other temperature and feed")) { T1 = T1 == 310 ? 290 : 310; feed.mFlowDemand = feed.mFlowDemand ? 0 : 0.02; }
        for (int q = 0; q < 2; q++) {
            e.mPort0DemandFlux = DM[m][0]; e.mPort1DemandFlux = DM[m][1]; e.mPort0DemandTemperature = T1 + 5; e.mPort1DemandTemperature = T1; double P[2] = {r.nd(0).getPotential(), r.nd(1).getPotential()}, f0 = DM[m][0], f1 = DM[m][1], through = 0, l0 = 0, l1 = 0;
            if (f0 * f1 < 0) { through = 0.5 * (std::fabs(f0) + std::fabs(f1)); (f1 < 0 ? l1 : l0) = f0 + f1; } else if (f0 > 0 || f1 > 0) { l0 = f0; l1 = f1; }   // the rest leaks out on the downstream side
            double K = drop[0] != 0 ? clamp(0, through / std::fabs(drop[0]), e.mConductanceLimit) : 0, G0 = s + q == 0 ? 0 : l0 / P[0], G1 = s + q == 0 ? 0 : l1 / P[1]; if (s + q == 0) { K = 0; }
            bool first = s + q == 0; double w[2] = {0, 0}; PolyFluid* o[2] = {r.nd(0).getOutflow(), r.nd(1).getOutflow()}; (void)w;
            r.extra = [&](double dt) { for (int i = 0; i < 2; i++) { r.xH[i] = 0; r.xS[i].assign(2, 0); }
                double pa = r.nd(0).getPotential(), pb = r.nd(1).getPotential(), flux = K * (pa - pb); if (first) { G0 = e.mPort0LeakConductance; G1 = e.mPort1LeakConductance; flux = e.getFlux(); }
                MC_CHECK(near(e.getFlux(), flux, 1e-7, 1e-12 * K * 100 + 1e-16), "flux %.9g through the other network, %.9g was demanded at the drop of %.9g, gives %.9g", e.getFlux(), through, drop[0], flux);
                auto move = [&](int from, int to, double n) { FluidRig::Snap& x = r.snap[from]; double mass = n * x.mw * dt; for (int c = 0; c < 2; c++) { r.xS[from][c] -= mass * x.f[c]; if (to >= 0) r.xS[to][c] += mass * x.f[c]; } };
                if (std::fabs(flux) > 1e-15) move(flux > 0 ? 0 : 1, flux > 0 ? 1 : 0, std::fabs(flux)); move(0, -1, G0 * pa); move(1, -1, G1 * pb); (void)o; };
            if (!r.step(0.1)) return; drop[0] = drop[1]; drop[1] = r.nd(0).getPotential() - r.nd(1).getPotential(); validated();
            if (std::fabs(e.getFlowRate()) > 1e-9) { double T = e.getFlux() > 0 ? T1 : T1 + 5; MC_CHECK(near(e.mInternalFluid->getTemperature(), T, 1e-9), "what returns from the other network has %.9g K instead of %.9g", e.mInternalFluid->getTemperature(), T); }
            
            for (int c = 0; c < 2; c++) MC_CHECK(e.mPort0SupplyMassFractions[c] == r.nd(0).getContent()->getMassFraction(c) && e.mPort1SupplyMassFractions[c] == r.nd(1).getContent()->getMassFraction(c), "supplied mixture"); 
            MC_CHECK(e.mPort0SupplyPressure == r.nd(0).getPotential() && e.mPort1SupplyPressure == r.nd(1).getPotential() && e.mPort0SupplyTemperature == r.nd(0).getContent()->getTemperature() && e.mPort1SupplyTemperature == r.nd(1).getContent()->getTemperature(), "supplied state");
        }
        state(Hash().d(r.nd(0).getPotential()).d(e.getFlux()).i(m).h);
    }
}

// ---------- sensors and monitors ----------
static void monitors() {
    FluidRig r(2, {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O}); static const FluidState S[] = {{300, 120, {0.7, 0.27, 0.03}, {}}, {285, 100, {0.5, 0.5, 0}, {}}, {300, 50, {1, 0, 0}, {}}}; bool back = mc::flip("reversed"); r.init(0, S[0], 1.0); r.init(1, back ? FluidState{285, 140, {0.5, 0.5, 0}, {}} : S[1], 0.5); r.init(2, S[2], 0);
    double kc = 3e-5, ks = 1e-5; GunnsFluidSensor sn; sn.initialize(GunnsFluidSensorConfigData("s", &r.F.list, ks), GunnsFluidSensorInputData(), r.links, 0, 1); r.edge(&sn, 0, 1, &ks); int wet = choose(2, "humid node"); GunnsFluidLiquidWaterSensor lw; double zero = 0; lw.initialize(GunnsFluidLiquidWaterSensorConfigData("w", &r.F.list, 0), GunnsFluidLiquidWaterSensorInputData(), r.links, wet, 2); r.edge(&lw, wet, 2, &zero);
    GunnsFluidConductor c; c.initialize(GunnsFluidConductorConfigData("c", &r.F.list, kc), GunnsFluidConductorInputData(), r.links, 0, 1); r.edge(&c, 0, 1); GunnsFluidSource src; src.initialize(GunnsFluidSourceConfigData("src", &r.F.list), GunnsFluidSourceInputData(false, 0, 0), r.links, 0, 1); r.edge(&src, 0, 1);
    r.start(); GunnsFluidFlowIntegrator fi(c), fs(src); GunnsFluidFlowIntegratorConfigData fc("i"); GunnsFluidFlowIntegratorInputData fd; fi.initialize(&fc, &fd); fs.initialize(&fc, &fd); GunnsFluidVolumeMonitor vm(r.F.list, c); GunnsFluidVolumeMonitorConfigData vc("v"); GunnsFluidVolumeMonitorInputData vi(0); vm.initialize(&vc, &vi);
    { GunnsFluidFlowIntegrator x(c); bool t = false; try { x.initialize(&vc, &fd); } catch (TsInitializationException&) { t = true; } MC_CHECK(t, "monitor takes other configuration"); t = false; GunnsFluidVolumeMonitor y(r.F.list, c); try { y.initialize(&vc, &fd); } catch (TsInitializationException&) { t = true; } MC_CHECK(t, "monitor takes other input"); }
    double sum[3] = {0}, total[3] = {0}; int D = tierPick(4, 5), port = 0; double dem = 0; bool block = false;
    double start[3]; for (int k = 0; k < 3; k++) start[k] = r.mass(1) * r.nd(1).getContent()->getMassFraction(k); double viaSensor[3] = {0};
    for (int s = 0; s < D; s++) {
        switch (choose(6, "event")) { case 0: break; case 1: dem = dem == 0.01 ? -0.02 : 0.01; break; case 2: dem = 0; break; case 3: block = !block; break; case 4: port = (port + 1) % 4; vm.mLinkPort = port == 3 ? -1 : port; break; case 5: r.nd(0).collectHeatFlux(0); dem = -dem; break; }
        src.mFlowDemand = dem; c.setMalfBlockage(block, 1.0); double dt = mc::flip("short step") ? 0.05 : 0.2;
        Fl f[2] = {fl(r.nd(0).getContent()), fl(r.nd(1).getContent())}; double x[2][3], pp[3]; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) x[i][k] = r.nd(i).getContent()->getMassFraction(k); for (int k = 0; k < 3; k++) pp[k] = r.nd(0).getContent()->getPartialPressure(r.F.types[k]); double humid = r.nd(wet).getContent()->getPartialPressure(FP::GUNNS_H2O);
        fi.stepPreSolver(dt); fs.stepPreSolver(dt); vm.stepPreSolver(dt); if (!r.step(dt)) return; fi.stepPostSolver(dt); fs.stepPostSolver(dt); vm.stepPostSolver(dt);
        // the sensor shows each quantity of its node as it was before or is after this step's flows
        const PolyFluid *n0 = r.nd(0).getContent(), *n1 = r.nd(1).getContent(); auto either = [](double v, double a, double b) { return near(v, a, 1e-9, 1e-7) || near(v, b, 1e-9, 1e-7); };
        MC_CHECK(either(sn.mTemperature, f[0].T, n0->getTemperature()) && either(sn.mPressure, f[0].P, n0->getPressure()) && either(sn.mDeltaPressure, f[0].P - f[1].P, n0->getPressure() - n1->getPressure()), "sensor shows %.9g K, %.9g kPa, difference %.9g", sn.mTemperature, sn.mPressure, sn.mDeltaPressure);
        for (int k = 0; k < 3; k++) MC_CHECK(either(sn.mPartialPressure[r.F.types[k]], pp[k], n0->getPartialPressure(r.F.types[k])), "sensor shows partial pressure %.9g, was %.9g, is %.9g", sn.mPartialPressure[r.F.types[k]], pp[k], n0->getPartialPressure(r.F.types[k]));
        MC_CHECK(sn.mMassFlowRate == sn.getFlowRate() && sn.mVolumetricFlowRate == sn.getVolFlowRate(), "sensor shows another flow");
        // humidity from the state the step began with
        const FP* w = fluidProps().getProperties(FP::GUNNS_H2O); double sat = w->getSaturationPressure(f[wet].T), rh = humid / sat; MC_CHECK(near(lw.mSaturationPressure, sat, 1e-9) && near(lw.mRelativeHumidity, rh, 1e-9, 1e-12) && lw.mLiquidPresent == (rh >= 1) && near(lw.mDewPoint, w->getSaturationTemperature(humid), 1e-9), "water sensor shows humidity %.9g, dew point %.9g, liquid %d at %.9g kPa of water, %.9g K", lw.mRelativeHumidity, lw.mDewPoint, lw.mLiquidPresent, humid, f[wet].T);
        // integrated flows are the masses carried
        for (int k = 0; k < 3; k++) { sum[k] += c.getFlowRate() * dt * x[c.getFlowRate() > 0 ? 0 : 1][k]; total[k] += src.getFlowRate() * dt * x[src.getFlowRate() > 0 ? 0 : 1][k]; viaSensor[k] += sn.getFlowRate() * dt * x[sn.getFlowRate() > 0 ? 0 : 1][k];
            MC_CHECK(near(fi.mIntegratedMasses[k], sum[k], 1e-9, 1e-15) && near(fs.mIntegratedMasses[k], total[k], 1e-9, 1e-15), "integrated mass %.12g of constituent %d, %.12g flowed", fi.mIntegratedMasses[k], k, sum[k]);
            MC_CHECK(near(fi.mIntegratedMasses[k] + fs.mIntegratedMasses[k] + viaSensor[k], r.mass(1) * n1->getMassFraction(k) - start[k], 1e-6, 1e-9), "constituent %d: %.12g kg integrated, the node gained %.12g", k, fi.mIntegratedMasses[k] + fs.mIntegratedMasses[k] + viaSensor[k], r.mass(1) * n1->getMassFraction(k) - start[k]); }
        int at = port == 3 ? 0 : std::min(port, 1); const PolyFluid* o = at ? n1 : n0; MC_CHECK(vm.mNodeMass == r.nd(at).getMass() && vm.mNodeVolume == r.nd(at).getVolume(), "monitor of port %d shows %.9g kg in %.9g m3", port, vm.mNodeMass, vm.mNodeVolume);
        for (int k = 0; k < 3; k++) MC_CHECK(vm.mNodeMassFractions[k] == o->getMassFraction(k) && vm.mNodeMoleFractions[k] == o->getMoleFraction(k), "monitor shows another mixture"); validated(); state(Hash().d(sum[0]).d(total[1]).i(port).h);
    }
}
int main(int argc, char** argv) {
    add("orifice", orifice); add("controller", controller); add("basicController", basicController); add("equivalent", equivalent); add("monitors", monitors);
    assume("equivalent conductors: the other network only loses mass by leaks, as documented");
    bounds("two volumes or two driven nodes and ground; event sequences of 2-4 (3-5) events of two steps each");
    return mc::run(argc, argv, "C42");
}
