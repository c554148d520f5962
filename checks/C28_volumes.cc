// mc: hflags=-fno-access-control
// C28: tanks, balloons and accumulators hold what they are given and edited to.
#include "fluid.hh"
#include "aspects/fluid/capacitor/GunnsFluidTank.hh"
#include "aspects/fluid/capacitor/GunnsFluidBalloon.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccumGas.hh"
#include <cmath>
using namespace mc; using FP = FluidProperties;
static const double R = 8.314472;
static const std::vector<FP::FluidType> GAS = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2};
static double molarMass(int k) { static const double m[] = {28.0134, 31.9988, 44.0095}; return m[k]; }
struct Rig : FluidRig {
    double xTb = 300, xQ = 0; Rig(int n, const std::vector<FP::FluidType>& t) : FluidRig(n, t) { Tmin = 50; Tmax = 1500; extra = [this](double dt) { if (more) more(dt); }; } std::function<void(double)> more;
    template<class L, class C, class I> void tank(L& l, int i, const FluidState& s, double v, const C& c, const I& in) { init(i, s, 0); vol[i] = v; l.initialize(c, in, links, i, N); }
};
static double h(Rig& r, int i, int k, double T) { return fluidProps().getProperties(GAS[k])->getSpecificEnthalpy(T) + 0 * r.N * i; }
// Tank with partial pressure rate edits, heat, and another volume; then temperature and pressure edits.
static void tank() {
    bool joined = mc::flip("joined"); double damp = mc::flip("damping") ? 3 : 0, gain = mc::flip("dp/dt filter") ? 1 : 0.3; Rig r(2, GAS); FluidState A{300, 100, {0.7, 0.2, 0.1}, {}}, B{290, 95, {0.6, 0.3, 0.1}, {}}; GunnsFluidTank t; PolyFluidInputData in(A.T, A.P, 0, 0, A.f.data()); float area = 2, rad = 0.5f, shell = 310, bias = 20;
    r.tank(t, 0, A, 0.7, GunnsFluidTankConfigData("t", &r.F.list, 0, gain, damp, 1e-6, area, rad), GunnsFluidTankInputData(false, 0, 0.7, &in, shell, bias)); r.init(1, B, 0.5); r.init(2, A, 0); double c = 2e-5; GunnsFluidConductor cd; if (joined) { cd.initialize(GunnsFluidConductorConfigData("c", &r.F.list, c, 0), GunnsFluidConductorInputData(false, 0), r.links, 0, 1); r.edge(&cd, 0, 1); } r.start();
    struct Ed { bool on = false; double target = 0, rate = 0; } ed[3]; double dpdt = 0; std::vector<double> add(3); r.energy = damp == 0; bool wasEdit = false;
    r.more = [&](double dt) { double T = r.nd(0).getContent()->getTemperature(); (void)T; double Tb = r.law0.size() ? r.H0[0] : 0; (void)Tb; for (int k = 0; k < 3; k++) { r.xS[0][k] += add[k]; r.xH[0] += add[k] * h(r, 0, k, r.xTb); } r.xH[0] += r.xQ * dt; };
    for (int d = 0; d < tierPick(4, 5); d++) { int ev = mc::choose(11, "event"); double dt = ev == 1 ? 0.3 : 0.1; bool zero = false; PolyFluid* cont = r.nd(0).getContent(); double T0 = cont->getTemperature(), P0 = r.nd(0).getPotential();
        auto rate = [&](int k, double dp, double rt) { double to = cont->getPartialPressure(GAS[k]) + dp; t.editPartialPressureRate(GAS[k], true, to, rt); ed[k].on = true; ed[k].target = to; ed[k].rate = std::fabs(rt); };
        if (ev == 2) rate(1, 0.65, 2); if (ev == 3) rate(2, -0.27, -1); if (ev == 4) rate(0, 0.05, 3); if (ev == 5) { for (int k = 0; k < 3; k++) { t.editPartialPressureRate(GAS[k], false); ed[k].on = false; } } if (ev == 6) { rate(1, 1, 0); zero = true; (void)zero; ed[1].on = false; } if (ev == 7) { shell = shell > 300 ? 280 : 310; t.mShellTemperature = shell; } if (ev == 8) { bias = -bias; t.setBiasHeatFlux(bias); }
        double te = 0, pe = 0; if (ev == 9) { te = 330; t.editTemperature(true, te); } if (ev == 10) { if (joined) return; bool part = mc::flip("partial pressures"); te = 280; double pp[] = {50, 60, 7}; pe = part ? 117 : 130; double x[3], keep[3]; for (int k = 0; k < 3; k++) { keep[k] = cont->getMoleFraction(k); x[k] = part ? pp[k] / 117 : keep[k]; } for (int k = 0; k < 3; k++) { t.editPartialPressureRate(GAS[k], false); ed[k].on = false; } if (part) t.editTemperaturePartialPressure(true, te, pp); else t.editTemperaturePressure(true, te, pe); float b = bias; t.setBiasHeatFlux(0);
            int n = 0; do { r.G.step(dt); t.processOutputs(); mc::step(); n++; MC_CHECK(near(cont->getTemperature(), te, 1e-5) && near(cont->getPressure(), pe, 1e-6), "edited tank has %.9g K %.9g kPa", cont->getTemperature(), cont->getPressure()); for (int k = 0; k < 3; k++) MC_CHECK(near(cont->getMoleFraction(k), x[k], 1e-6), "edited tank has mole fraction %.9g of %d, expected %.9g", cont->getMoleFraction(k), k, x[k]); MC_CHECK(n < 5, "edit does not end"); } while (t.mEditTemperaturePressureFlag || t.mEditTemperaturePartialPressureFlag);
            MC_CHECK(near(r.nd(0).getPotential(), pe, 1e-6) && !t.mOverrideVector[0], "pressure %.9g after the edit to %.9g", r.nd(0).getPotential(), pe); double mw = 0; for (int k = 0; k < 3; k++) mw += x[k] * molarMass(k); MC_CHECK(near(r.mass(0), pe * 0.7 * mw / R / te, 1e-5), "edited tank holds %.9g kg, state makes %.9g", r.mass(0), pe * 0.7 * mw / R / te); validated(); t.setBiasHeatFlux(b); dpdt = t.mDpdt; wasEdit = true; continue; }
        r.xTb = T0; for (int k = 0; k < 3; k++) { add[k] = 0; if (!ed[k].on) continue; double p = cont->getPartialPressure(GAS[k]), dp = ed[k].rate * dt; double gap = ed[k].target - p; if (std::fabs(std::fabs(gap) - dp) < 1e-9 * p) prune(); if (gap > dp) add[k] = 1; else if (-gap > dp) add[k] = -1; else { ed[k].on = false; continue; } add[k] *= dp * molarMass(k) / R / T0 * 0.7; }
        double q = bias; if (!(P0 < 1)) q += cont->getThermalConductivity() * (shell - T0) * area / rad; r.xQ = q; bool ok; double Pb = P0;
        if (ev == 9) { r.G.step(dt); mc::step(); ok = true; } else { std::vector<double> pp; for (int k = 0; k < 3; k++) pp.push_back(cont->getPartialPressure(GAS[k])); ok = r.step(dt); }
        t.processOutputs(); if (!ok) return; for (int k = 0; k < 3; k++) MC_CHECK(t.mEditPartialPressureRateFlag[k] == ed[k].on, "rate edit of %d is %s", k, t.mEditPartialPressureRateFlag[k] ? "on" : "off");
        if (ev == 9) { MC_CHECK(!t.mEditTemperatureFlag && std::fabs(cont->getTemperature() - te) < 0.2, "temperature %.9g after an edit to %.9g", cont->getTemperature(), te); if (!joined) { double m = r.mass(0), mw = cont->getMWeight(); (void)m; (void)mw; } }
        else if (damp == 0 || true) MC_CHECK(near(t.getHeatFlux(), q, 1e-5, 1e-6), "tank takes %.9g W, wall and bias make %.9g", t.getHeatFlux(), q);
        dpdt += gain * ((r.nd(0).getPotential() - Pb) / dt - dpdt); if (wasEdit) { wasEdit = false; dpdt = t.mDpdt; } MC_CHECK(near(t.getDpdt(), dpdt, 1e-6, 1e-7), "tank reports %.9g kPa/s, pressures make %.9g", t.getDpdt(), dpdt);
        MC_CHECK(near(t.getTemperature(), cont->getTemperature(), 1e-12) && near(t.getDensity(), cont->getDensity(), 1e-12), "tank reports %.9g K %.9g", t.getTemperature(), t.getDensity()); for (int k = 0; k < 3; k++) MC_CHECK(near(t.mPartialPressure[k], cont->getPartialPressure(GAS[k]), 1e-12) && near(t.mMassFraction[k], cont->getMassFraction(k), 1e-12) && near(t.mMoleFraction[k], cont->getMoleFraction(k), 1e-12), "tank reports stale constituent %d", k); } }

// Balloon filled and drained through a conductor: its volume follows its pressure, what flows in stays.
static void balloon() {
    int start = mc::choose(3, "start"); double P0 = start == 0 ? 100 : start == 1 ? 110 : 150, k = 0.02, vmax = 0.5, c = 1e-5, src = 20, bias = 0, scaleV = 0.5; bool stuck = false, scaled = false, heat = false; Rig r(3, GAS); FluidState A{300, P0, {0.7, 0.2, 0.1}, {}}, B{290, 100, {0.6, 0.3, 0.1}, {}}; GunnsFluidBalloon t; PolyFluidInputData in(A.T, A.P, 0, 0, A.f.data()); r.init(0, A, 0); r.init(1, B, 4); r.init(2, {300, 100, A.f, {}}, 1); r.init(3, {300, 100, A.f, {}}, 0);
    int amb = mc::flip("ambient node") ? 2 : 3; double Pamb = amb == 2 ? 100 : 0; auto vOf = [&](double P, double kk) { return std::max(1e-12, std::min(vmax, kk * (P - Pamb))); }; if (amb == 3) { k = 0.002; }
    t.initialize(GunnsFluidBalloonConfigData("b", &r.F.list, 0, 1, 0, 1e-6, 0, 0, k, vmax), GunnsFluidBalloonInputData(false, false, scaleV, &in, 300, 0), r.links, 0, amb); r.vol[0] = vOf(P0, k);
    MC_CHECK(near(r.nd(0).getVolume(), r.vol[0], 1e-9, 1e-13), "balloon starts with volume %.9g, pressure makes %.9g", r.nd(0).getVolume(), r.vol[0]);
    GunnsFluidPotential po; po.initialize(GunnsFluidPotentialConfigData("p", &r.F.list, c, 0), GunnsFluidPotentialInputData(false, 0, src), r.links, 1, 0); r.edge(&po, 1, 0); r.start(); double held = r.vol[0], kk = k; int quiet = 0;
    r.more = [&](double dt) { r.xH[0] += bias * dt; }; r.energy = true;
    for (int d = 0; d < tierPick(5, 6); d++) { int ev = mc::choose(8, "event"); double dt = 0.1; double keepT = -1;
        if (ev == 1) { src = src > 0 ? -30 : src < -10 ? 0 : 20; po.setSourcePressure(src); } if (ev == 2) { stuck = !stuck; t.mMalfStuckFlag = stuck; if (stuck) held = r.nd(0).getVolume(); } if (ev == 3) { scaled = !scaled; t.mMalfInflatabilityScaleFlag = scaled; t.mMalfInflatabilityScaleValue = scaleV; kk = scaled ? k * scaleV : k; } if (ev == 4) { bool b = po.mMalfBlockageFlag; po.setMalfBlockage(!b, 1); } if (ev == 5) { heat = !heat; bias = heat ? 30 : 0; t.setBiasHeatFlux((float)bias); }
        if (ev == 6) { if (stuck || !po.mMalfBlockageFlag) return; double v = 0.3; t.editVolume(true, v); keepT = r.nd(0).getContent()->getTemperature(); bool b = heat; (void)b; t.setBiasHeatFlux(0); for (int i = 0; i < 4; i++) { r.G.step(dt); mc::step(); } t.setBiasHeatFlux((float)bias); double want = vOf(Pamb + v / kk, kk); MC_CHECK(near(r.nd(0).getVolume(), want, 1e-4), "balloon edited to %.9g has volume %.9g", want, r.nd(0).getVolume()); MC_CHECK(near(r.nd(0).getPotential(), Pamb + v / kk, 1e-4), "balloon edited to %.9g m3 has pressure %.9g, not %.9g", v, r.nd(0).getPotential(), Pamb + v / kk); MC_CHECK(near(r.nd(0).getContent()->getTemperature(), keepT, 1e-4), "volume edit changes temperature to %.9g", r.nd(0).getContent()->getTemperature()); r.vol[0] = r.nd(0).getVolume(); quiet = 0; validated(); continue; }
        double was = 0; int n = ev == 7 ? 40 : 1; for (int i = 0; i < n; i++) { double before = r.nd(0).getVolume(); was = r.nd(0).getPotential(); r.vol[0] = std::max(before, 1e-12); if (!r.step(dt)) return; double P = r.nd(0).getPotential(), v = stuck ? held : vOf(P, kk), is = r.nd(0).getVolume(); MC_CHECK(near(is, v, 1e-6, 1e-11), "balloon has volume %.9g, %.9g kPa make %.9g", is, P, v); MC_CHECK(near(t.mInflation, (v - 1e-12) / vmax, 1e-6, 1e-9), "inflation %.9g for %.9g m3", t.mInflation, v); int st = t.mInflationState; if (!stuck) { bool in_ = v >= vmax, de = v <= 1e-12; MC_CHECK(in_ ? st == GunnsFluidBalloon::INFLATED : de ? st == GunnsFluidBalloon::DEFLATED : v > before + 2e-7 ? st == GunnsFluidBalloon::INFLATING : v < before - 2e-7 ? st == GunnsFluidBalloon::DEFLATING : true, "balloon in state %d when going from %.9g to %.9g", st, before, v); } r.vol[0] = std::max(is, 1e-12); }
        quiet = n > 1 && po.mMalfBlockageFlag; if (quiet && r.nd(0).getVolume() > 1e-3 && !heat) { const PolyFluid* o = r.nd(0).getContent(); double ideal = r.mass(0) / o->getMWeight() * R * o->getTemperature() / r.nd(0).getVolume(); MC_CHECK(near(r.nd(0).getPotential(), ideal, 1e-4) || (near(r.nd(0).getPotential(), ideal, 1e-2) && std::fabs(r.nd(0).getPotential() - ideal) < 0.95 * std::fabs(was - ideal)), "settled balloon has %.9g kPa, its mass makes %.9g", r.nd(0).getPotential(), ideal); validated(); } } }

// Accumulator with liquid against a spring, gas or both; nodes: 0 gas, 1 liquid, 2 more gas, 3 ground.
static void accumulator() {
    static const std::vector<FP::FluidType> T3 = {FP::GUNNS_WATER, FP::GUNNS_N2, FP::GUNNS_O2}; bool gas = !mc::flip("spring only"), spring = !gas || mc::flip("spring too"), junction = mc::flip("liquid junction"); int oneWay = mc::choose(2, "one way"); Rig r(3, T3);
    double Pl = spring && !gas ? 200 : 200, c0 = spring ? (gas ? -20 : 100) : 0, c1 = spring ? (gas ? 40 : 160) : 0, c2 = spring ? 80 : 0, pos0 = mc::choose(3, "position") * 0.45 + 0.05; if (gas) pos0 = std::min(0.9, pos0); double Pg = 200, T0 = 295, sp0 = c0 + c1 * pos0 + c2 * pos0 * pos0; Pl = gas ? Pg + sp0 : sp0; if (!gas && Pl < 1) return;
    FluidState L{T0, Pl, {1, 0, 0}, {}}, Gs{300, Pg, {0, 0.7, 0.3}, {}}, H{310, Pg + 15, {0, 0.2, 0.8}, {}}; r.init(0, Gs, 0.5); r.init(1, L, junction ? 0 : 0.01); r.init(2, H, 0.5); r.init(3, L, 0);
    double V = 0.02, minV = V * 0.05, dead = V * 0.1, maxV = V, range = maxV - minV, total = V + minV, maxC = 0.02, gMax = 1e-5, gMin = 1e-9, thr = oneWay ? 5 : 0, oneRate = 0.5, minScale = 0.1, pRate = 100, bRate = 0.2, hold = 0.5; std::vector<double> chamber = {0, 1, 0}; PolyFluidInputData lin(T0, Pl, 0, 0, L.f.data()), gin(T0, Pg, 0, 0, chamber.data());
    GunnsFluidAccum ls; GunnsFluidAccumGas lg; GunnsFluidAccum& a = gas ? lg : ls; double c = 1e-4;
    if (gas) lg.initialize(GunnsFluidAccumGasConfigData("a", &r.F.list, maxC, minScale, V, 5, 10, bRate, hold, 274, 373, 2000, c0, c1, c2, gMax, gMin, pRate, thr, oneRate), GunnsFluidAccumGasInputData(false, 0, pos0, &lin, &gin, 0), r.links, 0, 1); else ls.initialize(GunnsFluidAccumConfigData("a", &r.F.list, maxC, minScale, V, 5, 10, bRate, hold, 274, 373, 2000, c0, c1, c2, thr, oneRate), GunnsFluidAccumInputData(false, 0, pos0, &lin, 0), r.links, 3, 1);
    double src = 0; GunnsFluidPotential po; po.initialize(GunnsFluidPotentialConfigData("p", &r.F.list, c, 0), GunnsFluidPotentialInputData(false, 0, Pl), r.links, 3, 1); r.edge(&po, 3, 1); GunnsFluidConductor gc; double g0 = 1e-6; gc.initialize(GunnsFluidConductorConfigData("gc", &r.F.list, g0, 0), GunnsFluidConductorInputData(false, 0), r.links, 2, 0); r.edge(&gc, 2, 0); r.start(); (void)src; r.Tmin = 100; r.Tmax = 500;
    struct Ch { double m, H, T, P, V, hh; std::vector<double> f; }; auto take = [&](const PolyFluid* f, double v) { Ch x; x.m = f->getMass(); x.hh = f->getSpecificEnthalpy(); x.H = x.m * x.hh; x.T = f->getTemperature(); x.P = f->getPressure(); x.V = v; for (int k = 0; k < 3; k++) x.f.push_back(f->getMassFraction(k)); return x; };
    double q = 0, qg = 0; r.more = [&](double dt) { q = a.getFlowRate(); const PolyFluid* s = q > 0 ? r.nd(1).getOutflow() : a.mInternalFluid; r.xS[1][0] -= q * dt; r.xH[1] -= q * dt * s->getSpecificEnthalpy(); r.hTol[1] += 1e-6 * std::fabs(q * dt * s->getSpecificEnthalpy()); r.hTol[0] += 0;
        if (gas) { qg = lg.mGasFlowRate; const PolyFluid* t = qg > 0 ? r.nd(0).getOutflow() : lg.mGasInternalFluid; for (int k = 0; k < 3; k++) r.xS[0][k] -= qg * dt * t->getMassFraction(k); r.xH[0] -= qg * dt * t->getSpecificEnthalpy(); } };
    double head = 0, Q = 0, Qg = 0, scale = 1; int stuckMode = 0; bool wasStuck = false; MC_CHECK(near(a.mLiquidVolume + a.mPressurizerVolume, total, 1e-9), "chambers of %.9g and %.9g m3 in %.9g", a.mLiquidVolume, a.mPressurizerVolume, total);
    for (int d = 0; d < tierPick(4, 5); d++) { int ev = mc::choose(10, "event"); double dt = 0.5;
        if (ev == 1) po.setSourcePressure(Pl + 60); if (ev == 2) po.setSourcePressure(std::max(1.0, Pl - 60)); if (ev == 3) { Q = Q ? 0 : 500; a.setLiquidHousingQ(Q); } if (ev == 4) { if (!gas) return; Qg = Qg ? 0 : 20; lg.mGasHousingQ = Qg; } if (ev == 5) { head = head ? 0 : 8; a.setAccelPressureHead(head); } if (ev == 6) { stuckMode = stuckMode ? 0 : 1; a.setMalfBellowsStick(stuckMode == 1); } if (ev == 7) { if (!gas) return; gc.setMalfBlockage(!gc.mMalfBlockageFlag, 1); }
        if (ev == 9) { a.setTemperature(310); }
        int n = ev == 8 ? tierPick(8, 20) : 1; for (int i = 0; i < n; i++) {
            Ch l0 = take(a.mInternalFluid, a.mLiquidVolume), g0_ = gas ? take(lg.mGasInternalFluid, a.mPressurizerVolume) : Ch{}; double pos = a.getBellowsPosition();
            // conductance of the liquid port
            double dPin = r.nd(1).getPotential() - l0.P; int zone = l0.V <= minV ? 0 : l0.V >= maxV ? 4 : l0.V < dead ? 1 : l0.V > maxV - (dead - minV) ? 3 : 2, mode = dPin > thr ? 1 : -dPin > thr ? -1 : 0; double eDead = (l0.V - minV) / (dead - minV), fDead = (a.mPressurizerVolume - minV) / (dead - minV); bool edge = std::fabs(std::fabs(dPin) - thr) < 1e-6;
            if (wasStuck) scale = 0; else if (zone == 2) scale = 1; else if (thr > 0 && mode) { if (mode > 0) scale = zone == 3 ? std::min(1.0, std::max(0.0, fDead)) : zone == 4 ? 0 : std::min(1.0, scale + oneRate * dt); else scale = zone == 1 ? std::min(1.0, std::max(0.0, eDead)) : zone == 0 ? 0 : std::min(1.0, scale + oneRate * dt); } else scale = zone == 1 ? std::min(1.0, std::max(0.0, eDead)) : zone == 3 ? std::min(1.0, std::max(0.0, fDead)) : (zone == 0 && mode > 0) || (zone == 4 && mode < 0) ? minScale : 0;
            if (edge && zone != 2) { prune(); }
            double slope = 2 * c2 * pos + c1 + head / std::max(pos, 2.2e-16), mwl = a.mInternalFluid->getMWeight(), rho = a.mInternalFluid->getDensity(), Cs = slope > 2.3e-16 ? range * rho / mwl / slope : 0, C = Cs; if (gas) { double ng = l0.V > 0 ? g0_.V / R / g0_.T : 0, Cl = ng * rho / mwl * lg.mGasInternalFluid->getMWeight() / lg.mGasInternalFluid->getDensity(); C = spring ? std::min(Cl, Cs) : Cl; }
            double cond = scale * std::min(maxC, C / dt);
            if (!r.step(dt)) return;
            Ch l1 = take(a.mInternalFluid, a.mLiquidVolume), g1 = gas ? take(lg.mGasInternalFluid, a.mPressurizerVolume) : Ch{};
            MC_CHECK(near(a.getFlux(), cond * (r.nd(1).getPotential() - l0.P), 1e-5, 1e-8 * cond * l0.P + 1e-15), "liquid flux %.9g, conductance %.9g and %.9g kPa make %.9g", a.getFlux(), cond, r.nd(1).getPotential() - l0.P, cond * (r.nd(1).getPotential() - l0.P));
            MC_CHECK(near(q, a.getFlux() * mwl, 1e-6, 1e-13), "liquid flow %.9g, flux %.9g", q, a.getFlux()); MC_CHECK(near(a.mVolFlowRate, q / (q > 0 ? r.law0[1].rho : rho), 5e-2, 1e-12), "liquid volume flow %.9g for %.9g", a.mVolFlowRate, q);
            bool edit = ev == 9 && i == 0, held = stuckMode == 1; double wantT = -1; if (edit) wantT = 310;
            if (held) { MC_CHECK(near(a.getBellowsPosition(), pos, 1e-12) && near(a.mLiquidVolume, l0.V, 1e-12), "stuck bellows move from %.9g to %.9g", pos, a.getBellowsPosition()); if (wasStuck) MC_CHECK(std::fabs(q) < 1e-14, "stuck accumulator flows %g", q); }
            else { if (!edit) { double hin = r.nd(1).getOutflow()->getSpecificEnthalpy(), m1 = l0.m + q * dt, H1 = l0.H + (Q + q * (q > 0 ? hin : l0.hh)) * dt; MC_CHECK(near(l1.m, m1, 1e-9), "liquid is %.12g kg, flow makes %.12g", l1.m, m1); if (l1.T > 274 && l1.T < 373) MC_CHECK(near(l1.H, H1, 1e-7), "liquid has %.12g J, flow and heat make %.12g", l1.H, H1); }
                else MC_CHECK(near(l1.T, wantT, 1e-6, std::fabs(q * dt / l0.m) * 30 + std::fabs(Q) * dt / l0.m / 4000), "liquid has %.9g K after edit to %.9g", l1.T, wantT);
                double v = std::min(maxV, std::max(minV, l1.m / a.mInternalFluid->getDensity())); MC_CHECK(near(l1.V, v, 1e-4), "liquid has %.9g m3, its mass makes %.9g", l1.V, v); MC_CHECK(near(a.getBellowsPosition(), (l1.V - minV) / range, 1e-9, 1e-9), "bellows at %.9g with %.9g m3", a.getBellowsPosition(), l1.V); }
            MC_CHECK(near(a.mLiquidVolume + a.mPressurizerVolume, total, 1e-9), "chambers of %.9g and %.9g m3 in %.9g", a.mLiquidVolume, a.mPressurizerVolume, total);
            double x = a.getBellowsPosition(), sp = c0 + c1 * x + c2 * x * x, P = sp + head + (gas ? g1.P : 0); P = std::min(2000.0, std::max(2.3e-16, P)); MC_CHECK(near(l1.P, P, 1e-9), "liquid has %.9g kPa, spring and gas make %.9g", l1.P, P); MC_CHECK(near(a.mLiquidPressureReading, r.nd(1).getPotential(), 1e-12), "liquid pressure reading %.9g", a.mLiquidPressureReading);
            MC_CHECK(near(a.getUsableMass(), l1.m * (1 - minV / l1.V), 1e-9, 1e-9), "usable mass %.9g", a.getUsableMass());
            if (gas) { double gC = std::max(gMin, std::min(gMax, g0_.V / R / g0_.T / dt)); MC_CHECK(near(lg.mGasFlux, gC * (r.nd(0).getPotential() - g0_.P), 1e-5, 1e-8 * gC * g0_.P), "gas flux %.9g, expected %.9g", lg.mGasFlux, gC * (r.nd(0).getPotential() - g0_.P));
                if (!edit) { bool alien = false; const PolyFluid* o = r.nd(0).getOutflow(); double m1 = g0_.m + qg * dt, H1 = g0_.H + (Qg + qg * (qg > 0 ? o->getSpecificEnthalpy() : g0_.hh)) * dt; MC_CHECK(near(g1.m, m1, 1e-9), "gas is %.12g kg, flow makes %.12g", g1.m, m1); for (int k = 0; k < 3; k++) { double f = (g0_.m * g0_.f[k] + qg * dt * (qg > 0 ? o->getMassFraction(k) : g0_.f[k])) / m1; if (qg > 0 && !near(g1.f[k], f, 1e-6, 1e-7) && std::fabs(g1.f[k] - g0_.f[k]) < 1.001 * qg * dt / m1) { alien = true; mc::known("accum-gas-inflow-mixture", "gas flowing into an accumulator does not bring the mixture of its node"); } else MC_CHECK(near(g1.f[k], f, 1e-6, 1e-7), "gas has mass fraction %.9g of %d, flow makes %.9g", g1.f[k], k, f); } if (mc::tracing()) mc::trace("gas m %.9g->%.9g H %.9g->%.9g T %.9g->%.9g f %.9g %.9g->%.9g %.9g qg %.9g dt %g Qg %g ho %.9g alien %d", g0_.m, g1.m, g0_.H, g1.H, g0_.T, g1.T, g0_.f[1], g0_.f[2], g1.f[1], g1.f[2], qg, dt, Qg, o->getSpecificEnthalpy(), alien); if (g1.T > 274 && g1.T < 373) MC_CHECK(near(g1.H, H1, 1e-6, alien ? 0.3 * qg * dt * o->getSpecificEnthalpy() : 0), "gas has %.12g J, flow and heat make %.12g", g1.H, H1); }
                else MC_CHECK(near(g1.T, wantT, 1e-4, Qg * dt / g1.m / 700 + std::fabs(qg * dt / g1.m) * 80), "gas has %.9g K after edit to %.9g", g1.T, wantT);
                double ideal = g1.m / lg.mGasInternalFluid->getMWeight() * R * g1.T / g1.V; MC_CHECK(near(g1.P, ideal, 1e-6), "gas has %.9g kPa, its mass makes %.9g", g1.P, ideal); }
            wasStuck = held; validated(); } } }

// Edits and malfunctions that force the bellows and pressure of a gas accumulator.
static void forced() {
    static const std::vector<FP::FluidType> T3 = {FP::GUNNS_WATER, FP::GUNNS_N2}; Rig r(2, T3); bool reactive = mc::flip("reactive edits"); double c0 = mc::flip("spring") ? 10 : 0, c1 = 2 * c0, pos0 = 0.5, P0 = 200, sp = c0 + c1 * pos0, bRate = 0.2, pRate = 20, hold = 0.7, dt = 0.5; FluidState L{300, P0 + sp, {1, 0}, {}}, Gs{300, P0, {0, 1}, {}}; r.init(0, Gs, 0.5); r.init(1, L, 0.01); r.init(2, L, 0); PolyFluidInputData lin(300, P0 + sp, 0, 0, L.f.data()), gin(300, P0, 0, 0, Gs.f.data()); GunnsFluidAccumGas a;
    a.initialize(GunnsFluidAccumGasConfigData("a", &r.F.list, 0.02, 0.1, 0.02, 5, 10, bRate, hold, 274, 373, 2000, c0, c1, 0, 1e-9, 1e-9, pRate, 0, 0), GunnsFluidAccumGasInputData(false, 0, pos0, &lin, &gin, 0), r.links, 0, 1); a.mEditsAreReactive = reactive; r.start();
    int kind = 0; double bTo = 0, pTo = 0, bTimer = 0, pTimer = 0; bool reached = false, bEdit = false, pEdit = false, simul = false, stuck = false; (void)simul;
    for (int d = 0; d < tierPick(6, 8); d++) { int ev = mc::choose(6, "event"); double rate = 0.3;
        if (ev == 1) { if (kind == 2) return; bTo = bTo == 0.8 ? 0.2 : 0.8; a.mEditBellowsPosition = bTo; a.mEditBellowsRate = 0.15; a.mEditBellowsFlag = true; bTimer = 0; if (kind == 0) { bEdit = true; } } if (ev == 2) { if (kind == 2) return; pTo = pTo == 230 ? 190 : 230; a.mEditPressureValue = pTo; a.mEditPressureRate = 15; a.mEditPressureFlag = true; if (kind == 0) pEdit = true; else return; }
        if (ev == 3) { if (kind == 2) return; kind = kind == 1 ? 0 : 1; a.setMalfBellowsStickToPos(kind == 1, 0.3, rate); } if (ev == 4) { if (kind == 1) return; kind = kind == 2 ? 0 : 2; reached = false; a.setMalfBellowsRupture(kind == 2, 0.9, 0.1, 150, 10); } if (ev == 5) { if (!bEdit && !pEdit) return; a.mEditBellowsFlag = a.mEditPressureFlag = false; bEdit = pEdit = false; }
        double pos = a.getBellowsPosition(), P = a.mInternalFluid->getPressure(), m = a.mInternalFluid->getMass(); bool idle = !a.mEditBellowsFlag && !a.mEditPressureFlag && kind == 0; int n = ev == 0 ? 3 : 1; for (int i = 0; i < n; i++) { pos = a.getBellowsPosition(); P = a.mInternalFluid->getPressure(); m = a.mInternalFluid->getMass(); bool over = a.mPressurizerOrideBellowsFlag; r.G.step(dt); mc::step(); double x = a.getBellowsPosition(); auto ramp = [&](double from, double to, double by) { return to > from ? std::min(from + by, to) : std::max(from - by, to); };
            if (mc::tracing()) mc::trace("position %.9g pressure %.9g gas %.9g mass %.9g over %d flags %d %d", x, a.mInternalFluid->getPressure(), a.mGasInternalFluid->getPressure(), a.mInternalFluid->getMass(), over, a.mEditBellowsFlag, a.mEditPressureFlag);
            MC_CHECK(std::isfinite(x) && x >= 0 && x <= 1 && std::isfinite(a.mInternalFluid->getPressure()), "bellows at %g with %g kPa", x, a.mInternalFluid->getPressure()); MC_CHECK(near(a.mLiquidVolume, 0.001 + 0.019 * x, 1e-6) && near(a.mLiquidVolume + a.mPressurizerVolume, 0.021, 1e-9), "bellows at %.9g with %.9g m3 and %.9g", x, a.mLiquidVolume, a.mPressurizerVolume); MC_CHECK(near(a.mInternalFluid->getMass(), a.mLiquidVolume * a.mInternalFluid->getDensity(), 3e-4), "liquid of %.9g m3 has %.9g kg", a.mLiquidVolume, a.mInternalFluid->getMass());
            double gasP = a.mGasInternalFluid->getPressure(), want = c0 + c1 * x + gasP; MC_CHECK(near(a.mInternalFluid->getPressure(), want, 1e-9), "liquid has %.9g kPa, spring and gas make %.9g", a.mInternalFluid->getPressure(), want);
            if (kind == 1 && !over) { MC_CHECK(!a.mEditBellowsFlag && !a.mEditPressureFlag, "edit goes on while the bellows are stuck"); bEdit = pEdit = false; bTimer = pTimer = 0; if (!over) { double w = ramp(pos, 0.3, std::min(rate, bRate) * dt); MC_CHECK(near(x, w, 1e-9), "bellows forced from %.9g to %.9g, expected %.9g", pos, x, w); } }
            else if (kind == 1) { bTimer = 0; } else if (kind == 2) { bEdit = pEdit = false; bTimer = pTimer = 0; if (over && a.mPressurizerOrideBellowsFlag && i + d > 0 && ev != 4) { double w = ramp(pos, 0.9, 0.1 * dt); MC_CHECK(near(x, w, 1e-9), "ruptured bellows go from %.9g to %.9g, expected %.9g", pos, x, w); double wp = ramp(P, 150, 10 * dt); if (std::fabs(P - 150) <= 6) reached = true; if (near(pos, 0.9, 1e-12) && !reached) MC_CHECK(near(a.mInternalFluid->getPressure(), wp, 1e-2), "ruptured pressure goes from %.9g to %.9g, expected %.9g", P, a.mInternalFluid->getPressure(), wp); } }
            else { if (!bEdit) bTimer = 0; if (bEdit && !over) { double w = ramp(pos, bTo, 0.15 * dt); MC_CHECK(near(x, w, 1e-9), "edited bellows go from %.9g to %.9g, expected %.9g", pos, x, w); if (x == bTo) bTimer += dt; if (!a.mEditBellowsFlag) { MC_CHECK(near(x, bTo, 1e-9), "bellows edit ends at %.9g, not at %.9g", x, bTo); bEdit = false; } else MC_CHECK(bTimer < hold + 2.1 * dt, "bellows edit goes on"); }
                if (pEdit && !bEdit && !over) { double w = ramp(P, pTo, 15 * dt); if (std::fabs(x - pos) < 1e-3) MC_CHECK(near(a.mInternalFluid->getPressure(), w, 2e-3), "edited pressure goes from %.9g to %.9g, expected %.9g", P, a.mInternalFluid->getPressure(), w); } if (!a.mEditPressureFlag) pEdit = false; }
            (void)m; (void)stuck; (void)pTimer; validated(); }
        if (idle && ev == 0) MC_CHECK(!a.mSimultaneousEditsInProgress && !a.mPressurizerOrideBellowsFlag, "edits leave state behind"); } }
// A rupture that is cleared and commanded again moves bellows and pressure to the new values.
static void again() {
    static const std::vector<FP::FluidType> T3 = {FP::GUNNS_WATER, FP::GUNNS_N2}; Rig r(2, T3); double c0 = mc::flip("spring") ? 10 : 0, c1 = 2 * c0, pos0 = 0.5, P0 = 200, sp = c0 + c1 * pos0, dt = 0.5; FluidState L{300, P0 + sp, {1, 0}, {}}, Gs{300, P0, {0, 1}, {}}; r.init(0, Gs, 0.5); r.init(1, L, 0.01); r.init(2, L, 0); PolyFluidInputData lin(300, P0 + sp, 0, 0, L.f.data()), gin(300, P0, 0, 0, Gs.f.data()); GunnsFluidAccumGas a;
    a.initialize(GunnsFluidAccumGasConfigData("a", &r.F.list, 0.02, 0.1, 0.02, 5, 10, 0.2, 0.7, 274, 373, 2000, c0, c1, 0, 1e-9, 1e-9, 20, 0, 0), GunnsFluidAccumGasInputData(false, 0, pos0, &lin, &gin, 0), r.links, 0, 1); r.start();
    static const double X[] = {0.9, 0.3, 0.6}, PR[] = {150, 230, 205}; for (int d = 0; d < tierPick(3, 4); d++) {
        double x = pick(X, "position"), p = pick(PR, "pressure"); bool hitX = false, hitP = false; a.setMalfBellowsRupture(true, x, 0.1, p, 10); double pos = a.getBellowsPosition(), P = a.mInternalFluid->getPressure();
        for (int i = 0; i < 70 && !(hitX && hitP); i++) { r.G.step(dt); mc::step(); double y = a.getBellowsPosition(), q = a.mInternalFluid->getPressure(); if (i > 0 && !hitX) { double w = x > pos ? std::min(pos + 0.05, x) : std::max(pos - 0.05, x); MC_CHECK(near(y, w, 1e-9), "rupture %d: bellows go from %.9g to %.9g, expected %.9g", d, pos, y, w); } hitX |= near(y, x, 1e-9); hitP |= near(q, p, 0.12); pos = y; P = q; } (void)P;
        MC_CHECK(hitX && hitP, "rupture %d to %g and %g kPa ends at %.9g and %.9g kPa", d, x, p, pos, a.mInternalFluid->getPressure()); a.setMalfBellowsRupture(); int gap = 1 + mc::choose(2, "pause"); for (int i = 0; i < gap; i++) { r.G.step(dt); mc::step(); } validated(); } }
int main(int c, char** v) { add("tank", tank); add("balloon", balloon); add("accumulator", accumulator); add("forced accumulator", forced); add("repeated rupture", again); return mc::run(c, v, "C28"); }
