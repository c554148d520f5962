// mc: hflags=-fno-access-control
// C29: crew, fires, evaporation, phase change and boundary sources add to and take from their nodes exactly what their rates say.
#include "fluid.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic2.hh"
#include "aspects/fluid/source/GunnsFluidMetabolic3.hh"
#include "aspects/fluid/source/GunnsFluidFireSource.hh"
#include "aspects/fluid/source/GunnsFluidSourceBoundary.hh"
#include "aspects/fluid/source/GunnsFluidPhaseChangeSource.hh"
#include "aspects/fluid/source/GunnsFluidEvaporation.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
#include <cmath>
using namespace mc; using FP = FluidProperties; using CC = ChemicalCompound;
static double hk(FP::FluidType t, double T) { return fluidProps().getProperties(t)->getSpecificEnthalpy(T); }
static double mwOf(FP::FluidType t) { return fluidProps().getProperties(t)->getMWeight(); }
static GunnsFluidTraceCompoundsConfigData* tcs(int set) {
    static DefinedChemicalCompounds d; static CC::Type a[] = {CC::CH4O, CC::C2H6O, CC::C4H10O, CC::CH2O, CC::C2H4O, CC::C6H6, CC::C7H8, CC::C8H10, CC::CH2CL2, CC::C3H6O, CC::NH3, CC::CO, CC::H2, CC::CH4}, b[] = {CC::C6H6, CC::NH3};
    static GunnsFluidTraceCompoundsConfigData x(a, 14, "tc"), y(b, 2, "tc"), z(b, 1, "tc"); return set == 0 ? 0 : set == 1 ? &x : set == 2 ? &y : &z; }
// A cabin (node 0) next to another volume (node 1); ground is node 2.
struct Cabin : FluidRig { GunnsFluidConductor c; double cc = 2e-5; bool joined; double T0 = 300; bool go1(double dt) { T0 = nd(0).getContent()->getTemperature(); return step(dt); }
    Cabin(const std::vector<FP::FluidType>& t, const std::vector<double>& f, double P, int tc, bool join, double volume = 1, double traces = 1e-7) : FluidRig(2, t, tcs(tc)), joined(join) { std::vector<double> x(TC, traces), y(TC, 3e-7); std::vector<double> g(t.size(), 0.0); g[0] = 0.8; g[1] = 0.2; init(0, {300, P, f, x}, volume); init(1, {290, 90, g, y}, 1); init(2, {300, 100, f, x}, 0); Tmin = 100; Tmax = 3000; }
    void go() { if (joined) { c.initialize(GunnsFluidConductorConfigData("c", &F.list, cc, 0), GunnsFluidConductorInputData(), links, 0, 1); edge(&c, 0, 1, &cc); } start(); } };
// ---- crews
static const std::vector<FP::FluidType> AIR = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O}, ALL = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_H2O, FP::GUNNS_NH3, FP::GUNNS_CO, FP::GUNNS_H2, FP::GUNNS_CH4};
struct Rates { double o2, co2, h2o, q; };
template<class L> struct Kind;
template<> struct Kind<GunnsFluidMetabolic> { typedef GunnsFluidMetabolicConfigData C; typedef GunnsFluidMetabolicInputData I; enum { N = GunnsFluidMetabolic::NO_METABOLIC, traces = 0, bias = 0 };
    static void rates(C& c, Rates* r) { double s[] = {1, 0.6, 1.5, 4}; c.mConsumptionRateO2 = 1e-5; c.mProductionRateCO2 = 1.2e-5; c.mProductionRateH2O = 3e-5; c.mProductionRateHeat = 90; c.mSleepScaleFactor = s[1]; c.mRecoveryScaleFactor = s[2]; c.mExerciseScaleFactor = s[3]; for (int i = 0; i < 4; i++) r[i] = {1e-5 * s[i], 1.2e-5 * s[i], 3e-5 * s[i], 90 * s[i]}; }
    static I input(const double* n) { return I(false, 0, 0, n[0], n[1], n[2], n[3]); } static double& traceRate(C& c, int) { return c.mConsumptionRateO2; } static double* biases(GunnsFluidMetabolic&, int) { return 0; } static void useBias(GunnsFluidMetabolic&, bool) {} };
#define SET(S, i) { double f = 1 + 0.13 * i + 0.31 * (i % 3); c.mO2ConsumptionRate_##S = 1e-5 * f; c.mCO2ProductionRate_##S = 1.2e-5 * (f + 0.05 * i); c.mH2OProductionRate_##S = 3e-5 * (f + 0.03 * i); c.mHeatProductionRate_##S = 90 * (f + 0.02 * i); r[i] = {c.mO2ConsumptionRate_##S, c.mCO2ProductionRate_##S, c.mH2OProductionRate_##S, c.mHeatProductionRate_##S}; }
#define TRACES static double& traceRate(C& c, int k) { double* p[] = {&c.mCH4OProductionRate, &c.mC2H6OProductionRate, &c.mC4H10OProductionRate, &c.mCH2OProductionRate, &c.mC2H4OProductionRate, &c.mC6H6ProductionRate, &c.mC7H8ProductionRate, &c.mC8H10ProductionRate, &c.mCH2CL2ProductionRate, &c.mC3H6OProductionRate, &c.mNH3ProductionRate, &c.mCOProductionRate, &c.mH2ProductionRate, &c.mCH4ProductionRate}; return *p[k]; }
template<> struct Kind<GunnsFluidMetabolic2> { typedef GunnsFluidMetabolic2ConfigData C; typedef GunnsFluidMetabolic2InputData I; enum { N = GunnsFluidMetabolic2::NO_METABOLIC, traces = 1, bias = 1 };
    static void rates(C& c, Rates* r) { SET(Nominal, 0) SET(Sleep, 1) SET(Recovery0, 2) SET(Recovery1, 3) SET(Recovery2, 4) SET(Recovery3, 5) SET(Exercise0, 6) SET(Exercise1, 7) } TRACES
    static I input(const double* n) { return I(false, 0, 0, n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]); } static double* biases(GunnsFluidMetabolic2& l, int k) { double* p[] = {&l.mO2ConsumptionBias, &l.mCO2ProductionBias, &l.mH2OProductionBias, &l.mHeatProductionBias}; return p[k]; } static void useBias(GunnsFluidMetabolic2& l, bool b) { l.mShouldApplyBias = b; } };
template<> struct Kind<GunnsFluidMetabolic3> { typedef GunnsFluidMetabolic3ConfigData C; typedef GunnsFluidMetabolic3InputData I; enum { N = GunnsFluidMetabolic3::NO_METABOLIC, traces = 1, bias = 0 };
    static void rates(C& c, Rates* r) { SET(Nominal, 0) SET(Sleep, 1) SET(Recovery0, 2) SET(Recovery1, 3) SET(Recovery2, 4) SET(Recovery3, 5) SET(Aerobic0, 6) SET(Aerobic1, 7) SET(Resistive0, 8) SET(Resistive1, 9) SET(Resistive2, 10) SET(Resistive3, 11) } TRACES
    static I input(const double* n) { return I(false, 0, 0, n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10], n[11]); } static double* biases(GunnsFluidMetabolic3&, int) { return 0; } static void useBias(GunnsFluidMetabolic3&, bool) {} };
template<class L> static void crew() {
    typedef Kind<L> X; bool bulk = X::traces && mc::flip("all gases in bulk"), thin = mc::flip("little oxygen"); int tc = bulk ? 3 : X::traces ? mc::choose(3, "trace compounds") : mc::choose(2, "trace compounds") * 2; const auto& T = bulk ? ALL : AIR;
    std::vector<double> f(T.size(), 0.0); f[0] = 0.75; f[1] = 0.24; f[2] = f[3] = 0.005; if (thin) { f[0] = 0.989998; f[1] = 2e-6; f[2] = f[3] = 0.005; } Cabin r(T, f, 100, tc, !thin && mc::flip("second volume"));
    typename X::C cfg("crew", &r.F.list); Rates R[X::N]; X::rates(cfg, R); double tr[14]; for (int k = 0; k < 14; k++) { tr[k] = 1e-9 * (1 + 0.37 * k); if (X::traces) X::traceRate(cfg, k) = tr[k]; }
    double n[X::N]; int s0 = mc::choose(X::N, "state"); for (int i = 0; i < X::N; i++) n[i] = i == s0 ? 4 : thin ? 1.5 : i == (s0 + 1) % X::N ? 1.5 : 0; L l; l.initialize(cfg, X::input(n), r.links, 2, 0); r.go(); double b = 0; bool bias = false; double bs[] = {2e-6, 3e-6, -4e-6, 11}; int quiet = 0;
    r.extra = [&](double dt) { Rates t{0, 0, 0, 0}; double all = 0; for (int i = 0; i < X::N; i++) { MC_CHECK(near(l.mNCrew[i], n[i], 1e-12, 1e-12), "%.9g crew in state %d, expected %.9g", l.mNCrew[i], i, n[i]); all += n[i]; t.o2 += n[i] * R[i].o2; t.co2 += n[i] * R[i].co2; t.h2o += n[i] * R[i].h2o; t.q += n[i] * R[i].q; } if (bias) { t.o2 += bs[0]; t.co2 += bs[1]; t.h2o += bs[2]; t.q += bs[3]; }
        double T0 = r.T0; t.o2 = std::min(t.o2, r.s0[0][1] / dt); double g[14]; for (int k = 0; k < 14; k++) g[k] = X::traces ? all * tr[k] : 0; double net = t.h2o + t.co2 - t.o2; if (bulk) for (int k = 10; k < 14; k++) net += g[k]; if (net < 1e-15) { MC_CHECK(all == 0 && !bias, "crew produces %g", net); return; } double w = 1 - b;
        MC_CHECK(near(l.mConsumedO2, t.o2, 1e-9) && near(l.mProducedCO2, t.co2, 1e-9) && near(l.mProducedH2O, t.h2o, 1e-9) && near(l.mProducedHeat, t.q, 1e-9), "crew takes %.9g O2 and makes %.9g CO2 %.9g H2O %.9g W, expected %.9g %.9g %.9g %.9g", l.mConsumedO2, l.mProducedCO2, l.mProducedH2O, l.mProducedHeat, t.o2, t.co2, t.h2o, t.q);
        MC_CHECK(near(l.getFlowRate(), net * w, 1e-9, 1e-16), "flow rate %.9g, crew gives off %.9g", l.getFlowRate(), net * w); if (quiet > 1 && w > 0 && !thin) { double mol = -t.o2 / mwOf(T[1]) + t.co2 / mwOf(T[2]) + t.h2o / mwOf(T[3]); if (bulk) for (int k = 0; k < 4; k++) mol += g[10 + k] / mwOf(T[4 + k]); MC_CHECK(near(l.mSourceVector[1], mol * w, 1e-6), "molar flux %.9g, gases make %.9g", l.mSourceVector[1], mol * w); }
        auto put = [&](int k, double m) { r.xS[0][k] += m * w * dt; r.xH[0] += m * w * dt * hk(T[k], T0); }; put(1, -t.o2); put(2, t.co2); put(3, t.h2o); if (bulk) for (int k = 0; k < 4; k++) put(4 + k, g[10 + k]); r.xH[0] += t.q * dt; if (tc == 1) for (int k = 0; k < 14; k++) r.xT[0][k] += g[k] * w * dt; if (tc == 2) { r.xT[0][0] += g[5] * w * dt; r.xT[0][1] += g[10] * w * dt; } if (tc == 3) r.xT[0][0] += g[5] * w * dt; validated(); };
    for (int d = 0; d < (X::N < 5 ? tierPick(2, 3) : 2); d++) { int ev = mc::choose(6 + X::bias, "event"); double dt = ev == 1 ? 2.0 : 0.1; quiet++; if (ev == 2) { b = b == 0 ? 0.4 : b == 0.4 ? 1 : 0; l.setMalfBlockage(b > 0, b); } if (ev >= 3 && ev <= 5) { quiet = 0; int from = mc::choose(X::N + 1, "from"), to = (from + 1 + mc::choose(mc::thorough() ? 2 : 1, "to")) % (X::N + 1); double k = ev == 3 ? 1 : ev == 4 ? 3 : -1; l.transition(k, (typename L::MetabolicType)from, (typename L::MetabolicType)to); if (k > 0) { if (from < X::N) { k = std::min(k, n[from]); n[from] -= k; } if (to < X::N) n[to] += k; } } if (ev == 6) { quiet = 0; bias = !bias; for (int i = 0; i < 4; i++) if (double* p = X::biases(l, i)) *p = bs[i]; X::useBias(l, bias); } if (!r.go1(dt)) return; } }
// ---- fire
static void fire() {
    bool tc = mc::flip("trace compounds"), thin = mc::flip("little oxygen"); std::vector<double> f = {0.75, 0.24, 0.005, 0.005}; if (thin) f = {0.95, 0.04, 0.005, 0.005}; Cabin r(AIR, f, 100, tc ? 2 : 0, mc::flip("second volume"), thin ? 0.02 : 1); double o2 = 7e-8, co2 = 9e-8, h2o = 3e-8, minP = 3.4, Q = 500, tr[] = {2e-12, 5e-12}; bool on = mc::flip("burning"); double b = 0; GunnsFluidFireSource l;
    l.initialize(GunnsFluidFireSourceConfigData("fire", &r.F.list, o2, co2, h2o, minP, tc ? tr : 0), GunnsFluidFireSourceInputData(false, 0, on, Q), r.links, 0); r.go(); double pp = 0; int quiet = 0; bool was = false;
    r.extra = [&](double dt) { if (pp < minP) on = false; MC_CHECK(l.mMalfFireFlag == on, "fire %s at %.9g kPa of oxygen", l.mMalfFireFlag ? "burns" : "is out", pp); double T0 = r.T0, w = 1 - b, q = on ? Q : 0, net = (co2 + h2o - o2) * q * w; MC_CHECK(near(l.getFlowRate(), net, 1e-9, 1e-16) && near(l.mPower, q, 1e-9), "fire gives off %.9g kg/s and %.9g W, expected %.9g and %.9g", l.getFlowRate(), l.mPower, net, q); MC_CHECK(near(l.mFlowO2, -o2 * q * w, 1e-9, 1e-18) && near(l.mFlowCO2, co2 * q * w, 1e-9, 1e-18) && near(l.mFlowH2O, h2o * q * w, 1e-9, 1e-18), "fire gas flows %.9g %.9g %.9g", l.mFlowO2, l.mFlowCO2, l.mFlowH2O);
        double mol = (-o2 / mwOf(AIR[1]) + co2 / mwOf(AIR[2]) + h2o / mwOf(AIR[3])) * q * w; if (net == 0 && w > 0 && was && l.mSourceVector[0] != 0) mc::known("fire-stale-flux", "a fire that goes out forces its last flow into the pressures of that step"); else if (quiet > 1 || net == 0) MC_CHECK(near(l.mSourceVector[0], mol, 1e-6, 1e-18), "molar flux %.9g, gases make %.9g", l.mSourceVector[0], mol); quiet = on && was ? quiet + 1 : on; was = on;
        auto put = [&](int k, double m) { r.xS[0][k] += m * q * w * dt; r.xH[0] += m * q * w * dt * hk(AIR[k], T0); }; put(1, -o2); put(2, co2); put(3, h2o); r.xH[0] += q * dt; if (tc && w > 0) for (int k = 0; k < 2; k++) r.xT[0][k] += tr[k] * q * dt; validated(); };
    for (int d = 0; d < tierPick(5, 7); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 5.0 : 0.1; if (ev == 2) { on = !on; l.mMalfFireFlag = on; } if (ev == 3) { Q = Q == 500 ? 2000 : 500; l.mMalfFireHeat = Q; quiet = 0; } if (ev == 4) { b = b == 0 ? 0.4 : b == 0.4 ? 1 : 0; l.setMalfBlockage(b > 0, b); quiet = 0; } pp = r.nd(0).getContent()->getPartialPressure(FP::GUNNS_O2); if (near(pp, minP, 1e-9)) prune(); if (on && o2 * Q * dt > 0.5 * r.mass(0) * r.nd(0).getContent()->getMassFraction(1)) prune(); if (!r.go1(dt)) return; } }
// ---- boundary source
static void boundary() {
    bool tc = mc::flip("trace compounds"), only = tc && mc::flip("trace compounds only"), flip = mc::flip("flipped sign"); std::vector<double> f = {0.75, 0.24, 0.005, 0.005}, g = {0.1, 0.2, 0.3, 0.4}; Cabin r(AIR, f, 100, tc ? 2 : 0, mc::flip("second volume"), 1, 1e-5); double tr[] = {1e-4, 3e-5}, zero[] = {0, 0}; GunnsFluidTraceCompoundsInputData tin(tr); PolyFluidInputData in(320, 100, 0, 0, g.data(), tc ? &tin : 0); double rate = 1e-3, b = 0; (void)zero; GunnsFluidSourceBoundary l; l.initialize(GunnsFluidSourceBoundaryConfigData("s", &r.F.list, flip, only), GunnsFluidSourceBoundaryInputData(false, 0, rate, &in), r.links, 0); r.go();
    bool ov = false; double or_[] = {1e-4, -2e-5, 3e-5, 0}, ot[] = {2e-8, -1e-9}, oT = 0, oq = 0; int quiet = 0; for (int k = 0; k < 4; k++) l.mOverrideFlowRates[k] = or_[k]; if (tc) for (int k = 0; k < 2; k++) l.mOverrideTcFlowRates[k] = ot[k];
    r.extra = [&](double dt) { double s = flip ? -1 : 1, w = 1 - b, T0 = r.T0, T = ov ? (oT > 0 ? oT : T0) : 320, net = 0, mol = 0; double m[4]; for (int k = 0; k < 4; k++) { m[k] = (ov ? or_[k] : rate * g[k]) * s * w; net += m[k]; mol += m[k] / mwOf(AIR[k]); } MC_CHECK(near(l.getFlowRate(), net, 1e-9, 1e-15), "flow rate %.9g, expected %.9g", l.getFlowRate(), net); MC_CHECK(near(l.mSourceVector[0], only ? 0 : mol, 1e-7, 1e-15), "molar flux %.9g, expected %.9g", l.mSourceVector[0], only ? 0 : mol);
        if (!only && std::fabs(net) > 1e-13) for (int k = 0; k < 4; k++) { r.xS[0][k] += m[k] * dt; r.xH[0] += m[k] * dt * hk(AIR[k], T); } if (ov) r.xH[0] += s * oq * dt; if (tc) for (int k = 0; k < 2; k++) r.xT[0][k] += ov ? s * ot[k] * dt : net * tr[k] * dt; validated(); };
    for (int d = 0; d < tierPick(4, 6); d++) { int ev = mc::choose(7, "event"); double dt = ev == 1 ? 1.0 : 0.1; quiet++; if (ev == 2) { if (!ov) { ov = true; l.mOverrideMode = true; } else return; if (only) return; } if (ev == 3) { b = b == 0 ? 0.4 : b == 0.4 ? 1 : 0; l.setMalfBlockage(b > 0, b); } if (ev == 4) { rate = rate > 0 ? -5e-4 : rate < 0 ? 0 : 1e-3; l.setFlowDemand(rate); } if (ev == 5) { or_[0] = or_[0] > 0 ? -3e-4 : 1e-4; l.mOverrideFlowRates[0] = or_[0]; if (!ov) return; } if (ev == 6) { oT = oT ? 0 : 350; oq = oq ? 0 : 40; l.mOverrideTemperature = oT; l.mOverrideHeat = oq; if (!ov) return; } if (!r.go1(dt)) return; } }
// ---- phase change by a given power; node 0 liquid, node 1 gas
static void phase() {
    static const std::vector<FP::FluidType> T = {FP::GUNNS_WATER, FP::GUNNS_H2O, FP::GUNNS_N2}; bool pure = mc::flip("pure vapor"); double eff = mc::choose(3, "efficiency") * 0.75 - 0.5, b = 0, P = 1000; if (eff == 0.25) eff = 1; std::vector<double> L = {1, 0, 0}, G = {0, pure ? 1.0 : 0.3, pure ? 0 : 0.7}; FluidRig r(2, T); r.init(0, {310, 150, L, {}}, 0.05); r.init(1, {380, 100, G, {}}, 5); r.init(2, {300, 100, L, {}}, 0); r.Tmin = 100; r.Tmax = 1000; r.energy = true;
    GunnsFluidPhaseChangeSource l; l.initialize(GunnsFluidPhaseChangeSourceConfigData("p", &r.F.list, FP::GUNNS_WATER, FP::GUNNS_H2O, eff), GunnsFluidPhaseChangeSourceInputData(false, 0, P), r.links, 0, 1); r.start(); double p0[2], t0[2], f1 = 0; auto* w = fluidProps().getProperties(FP::GUNNS_WATER); auto* v = fluidProps().getProperties(FP::GUNNS_H2O);
    r.extra = [&](double dt) { double q = P * eff * (1 - b), Ts, dh, hv; if (q > 0) { Ts = v->getSaturationTemperature(p0[1]); dh = w->getSpecificEnthalpy(Ts) - w->getSpecificEnthalpy(t0[0]); hv = w->getHeatOfVaporization(Ts) * 1000; } else { Ts = w->getSaturationTemperature(p0[0]); dh = 0; for (int k = 1; k < 3; k++) dh += (k == 1 ? f1 : 1 - f1) * (hk(T[k], t0[1]) - hk(T[k], Ts)); hv = v->getHeatOfVaporization(Ts) * 1000; } double m = q / std::max(dh + hv, 1.2e-7); MC_CHECK(near(l.getFlowRate(), m, 1e-7, 1e-16) && near(l.mPower, q, 1e-12), "evaporates %.9g kg/s with %.9g W, expected %.9g with %.9g", l.getFlowRate(), l.mPower, m, q);
        MC_CHECK(near(l.mSourceVector[1], m / v->getMWeight(), 1e-7, 1e-14) && near(l.mSourceVector[0], -m / v->getMWeight(), 1e-7, 1e-14), "source vector %.9g %.9g for %.9g kg/s", l.mSourceVector[0], l.mSourceVector[1], m); validated(); if (std::fabs(m) < 1e-13) return;
        double Tg = v->getSaturationTemperature(r.nd(1).getPotential()), Tl = w->getSaturationTemperature(r.nd(0).getPotential()); if (m > 0) { r.xS[0][0] -= m * dt; r.xH[0] -= m * dt * w->getSpecificEnthalpy(t0[0]); r.xS[1][1] += m * dt; r.xH[1] += m * dt * v->getSpecificEnthalpy(Tg); } else { r.xS[0][0] -= m * dt; r.xH[0] -= m * dt * w->getSpecificEnthalpy(Tl); r.xS[1][1] += m * dt; r.xH[1] += m * dt * v->getSpecificEnthalpy(t0[1]); } };
    for (int d = 0; d < tierPick(4, 6); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 1.0 : 0.1; if (ev == 2) { P = P > 0 ? -800 : P < 0 ? 0 : 1000; l.setPowerInput(P); } if (ev == 3) { b = b == 0 ? 0.4 : b == 0.4 ? 1 : 0; l.setMalfBlockage(b > 0, b); } if (ev == 4) { r.nd(0).collectHeatFlux(0); P *= 2; if (std::fabs(P) > 4000) return; l.setPowerInput(P); } f1 = r.nd(1).getContent()->getMassFraction(1); for (int i = 0; i < 2; i++) { p0[i] = r.nd(i).getPotential(); t0[i] = r.nd(i).getContent()->getTemperature(); } bool was = r.nd(1).getContent()->getMassFraction(1) == 1.0; if (pure && P < 0 && !was) prune(); if (!r.step(dt)) return; } }
// ---- evaporation of a liquid pool held by an accumulator; node 0 gas, node 1 liquid
static void evaporation() {
    static const std::vector<FP::FluidType> T = {FP::GUNNS_WATER, FP::GUNNS_H2O, FP::GUNNS_N2}; int wet = mc::choose(3, "humidity"), where = mc::choose(3, "ends"); std::vector<double> L = {1, 0, 0}, G = {0, wet == 0 ? 0.0 : wet == 1 ? 0.01 : 0.05, 0}; G[2] = 1 - G[1]; double expo = mc::flip("square root") ? 0.5 : 0, coef = mc::flip("fast") ? 1.0 : 1e-4, pos0 = mc::flip("little liquid") ? 1e-3 : 0.5, b = 0; bool liq = where != 2, gas = where != 1; FluidRig r(2, T); r.init(0, {300, 100, G, {}}, 2); r.init(1, {300, 100, L, {}}, 0.01); r.init(2, {300, 100, L, {}}, 0); r.Tmin = 100; r.Tmax = 1000;
    GunnsFluidAccum a; PolyFluidInputData lin(300, 100, 0, 0, L.data()); if (liq) a.initialize(GunnsFluidAccumConfigData("a", &r.F.list, 0.02, 0.1, 0.02, 5, 10, 0.2, 0.5, 274, 373, 2000, 100, 0.1, 0, 0, 0.5), GunnsFluidAccumInputData(false, 0, pos0, &lin, 0), r.links, 2, 1);
    double pGas = 100, drop0 = 1.5, rate0 = 2e-4; GunnsFluidEvaporation l; l.initialize(GunnsFluidEvaporationConfigData("e", &r.F.list, FP::GUNNS_H2O, coef, expo, liq ? &a : 0), GunnsFluidEvaporationInputData(false, 0, pGas, drop0, rate0), r.links, liq ? 1 : 2, gas ? 0 : 2); r.start(); double drop = drop0, pool = 0, t0 = 300, q = 0, H = 0;
    r.extra = [&](double dt) { double want = rate0; if (liq) { want = pool > 1.2e-7 ? std::max(drop, 0.0) * coef * std::pow(pool, expo) * (1 - std::min(1.0, std::max(0.0, b))) : 0; want = std::min(want, std::max(0.0, pool / dt)); if (near(pool, 1.2e-7, 0.01)) prune(); } MC_CHECK(near(l.mPotentialDrop, drop, 1e-9, 1e-12), "vapor potential %.9g, expected %.9g", l.mPotentialDrop, drop); MC_CHECK(near(l.getFlowRate(), want, 1e-7, 1e-15), "evaporates %.9g kg/s from %.9g kg at %.9g kPa, expected %.9g", l.getFlowRate(), pool, drop, want); double w = l.getFlowRate();
        if (gas) { double hv = 1000 * fluidProps().getProperties(FP::GUNNS_H2O)->getHeatOfVaporization(t0); MC_CHECK(near(l.mPower, hv * w, 1e-9, 1e-12), "heat of phase change %.9g, flow makes %.9g", l.mPower, hv * w); } double n = w / mwOf(FP::GUNNS_H2O); MC_CHECK(near(l.mSourceVector[0], -n, 1e-9, 1e-16) && near(l.mSourceVector[1], n, 1e-9, 1e-16), "source vector %.9g %.9g for %.9g kg/s", l.mSourceVector[0], l.mSourceVector[1], w); validated(); if (w < 1e-13) w = 0;
        if (gas) { r.xS[0][1] += w * dt; r.xH[0] += w * dt * hk(FP::GUNNS_H2O, r.nd(0).getOutflow()->getTemperature()); MC_CHECK(near(l.mGasTotalPressure, r.nd(0).getPotential(), 1e-9), "gas pressure %.9g, node has %.9g", l.mGasTotalPressure, r.nd(0).getPotential()); }
        if (liq) { double h = r.nd(1).getOutflow()->getSpecificEnthalpy(), f = a.getFlowRate(), ha = f > 0 ? h : a.mInternalFluid->getSpecificEnthalpy(); r.xS[1][0] -= (w + f) * dt; r.xH[1] -= (w * h + f * ha) * dt; r.hTol[1] += 1e-5 * (w + std::fabs(f)) * dt * h; MC_CHECK(near(a.mInternalFluid->getMass() - H, f * dt, 1e-9, 1e-9 * H), "pool changes by %.9g kg, %.9g flows in", a.mInternalFluid->getMass() - H, f * dt); } };
    for (int d = 0; d < tierPick(4, 6); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 1.0 : 0.1; if (ev == 2) { b = b == 0 ? 0.4 : b == 0.4 ? 1.5 : b > 0 ? -0.5 : 0; l.setMalfBlockage(b != 0, b); } if (ev == 3) { if (gas) { r.nd(0).collectHeatFlux(0); return; } drop = drop > 0 ? -1 : 2.5; l.mPotentialDrop = drop; } if (ev == 4) { if (liq) return; rate0 = rate0 > 0 ? 0 : 3e-4; l.mFlowRate = rate0; } const PolyFluid* c = r.nd(0).getContent(); t0 = c->getTemperature(); if (gas) drop = c->getProperties(FP::GUNNS_H2O)->getSaturationPressure(t0) - c->getMoleFraction(1) * r.nd(0).getPotential(); if (liq) { pool = a.getUsableMass(); H = a.mInternalFluid->getMass(); } q = 0; (void)q; if (!r.step(dt)) return; if (liq) MC_CHECK(a.getUsableMass() > -1e-9, "pool has %.9g kg left", a.getUsableMass()); } }
int main(int c, char** v) {
    add("metabolic", crew<GunnsFluidMetabolic>); add("metabolic 2", crew<GunnsFluidMetabolic2>); add("metabolic 3", crew<GunnsFluidMetabolic3>); add("fire", fire); add("boundary", boundary); add("phase change", phase); add("evaporation", evaporation);
    return mc::run(c, v, "C29"); }
