// mc: hflags=-fno-access-control
// C26: links that take out, add or convert fluid account for all of it.
#include "fluid.hh"
#include "aspects/fluid/source/GunnsFluidAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidHotAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidMultiAdsorber.hh"
#include "aspects/fluid/source/GunnsFluidSeparatorGas.hh"
#include "aspects/fluid/source/GunnsFluidSeparatorLiquid.hh"
#include "aspects/fluid/source/GunnsFluidMultiSeparator.hh"
#include "aspects/fluid/source/GunnsFluidReactor.hh"
#include "aspects/fluid/source/GunnsFluidHotReactor.hh"
#include "aspects/fluid/source/GunnsFluidSimpleH2Redox.hh"
#include "aspects/fluid/source/GunnsFluidSelectiveMembrane.hh"
#include "aspects/fluid/source/GunnsFluidHeater.hh"
#include <cmath>
using namespace mc; using FP = FluidProperties;
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static GunnsFluidTraceCompoundsConfigData* tcs() { static ChemicalCompound::Type t[] = {ChemicalCompound::NH3, ChemicalCompound::C2H6O}; static GunnsFluidTraceCompoundsConfigData c(t, 2, "tc"); static DefinedChemicalCompounds d; return &c; }
// A chain of three volumes: the link under test between 0 and 1, a conductor between 1 and 2.
struct Chain : FluidRig { GunnsFluidConductor c; double cc = 0, through = 1e-4;
    Chain(const std::vector<FP::FluidType>& t, const FluidState& hi, const FluidState& mid, const FluidState& lo, bool rev, bool tc, double v1 = 0.3) : FluidRig(3, t, tc ? tcs() : 0) { init(0, rev ? lo : hi, 1); init(1, mid, v1); init(2, rev ? hi : lo, 1); init(3, mid, 0); Tmin = 100; Tmax = 1500; }
    void go(GunnsFluidLink* l, double cond) { cc = cond; c.initialize(GunnsFluidConductorConfigData("c", &F.list, cond, 0), GunnsFluidConductorInputData(), links, 1, 2); edge(l, 0, 1, &through); edge(&c, 1, 2, &cc); start(); }
    double hk(int k, double T) { const PolyFluid* f = nd(0).getContent(); return f->getProperties(f->getType(k))->getSpecificEnthalpy(T); } };
// ---- single compound adsorbers
static void adsorber(bool hot) {
    FluidState hi = {320, 120, {0.7, 0.2, 0.1}, {1e-4, 2e-5}}, mid = {300, 100, {0.78, 0.21, 0.01}, {5e-5, 0}}, lo = {290, 90, {0.8, 0.2, 0}, {0, 1e-5}}; bool tc = mc::flip("trace compounds"), rev = mc::flip("reversed flow"); Chain r({FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2}, hi, mid, lo, rev, tc);
    double eff = mc::flip("efficient") ? 1.0 : 0.4, maxRate = mc::flip("slow") ? 1e-4 : 1, maxMass = mc::flip("small") ? 2e-4 : 10, des = 3e-4, held = mc::flip("loaded") ? 1e-4 : 0, wall = 310, area = mc::flip("wall") ? 0.5 : 0; double te[] = {0.5, 0}, tm[] = {mc::flip("small trace capacity") ? 3e-8 : 1e-3, 1e-6}, t0[] = {1e-9, 0}; GunnsFluidTraceCompoundsInputData e(te), m(tm), h0(t0);
    bool wide = hot && mc::flip("steep"); double bias = hot ? wide ? 31.5 : 10.5 : 0, scale = hot ? wide ? -0.1 : -1.0 / 30 : 0; // adsorbs below 315 K
    std::unique_ptr<GunnsFluidAdsorber> A; bool dc = false; if (!hot) { A.reset(new GunnsFluidAdsorber); A->initialize(GunnsFluidAdsorberConfigData("a", &r.F.list, 1e-4, 0, FP::GUNNS_CO2, eff, maxRate, maxMass, des, area, 1 / M_PI, 1e-6), GunnsFluidAdsorberInputData(false, 0, dc, held, wall, tc ? &e : 0, tc ? &m : 0, tc ? &h0 : 0), r.links, 0, 1); }
    else { GunnsFluidHotAdsorber* a = new GunnsFluidHotAdsorber; A.reset(a); a->initialize(GunnsFluidHotAdsorberConfigData("a", &r.F.list, 1e-4, 0, FP::GUNNS_CO2, eff, maxRate, maxMass, des, area, 1 / M_PI, 1e-6, bias, scale), GunnsFluidHotAdsorberInputData(false, 0, false, held, wall), r.links, 0, 1); }
    r.go(A.get(), 1e-4); bool malf = false; double tcHeld[] = {tc && !hot ? t0[0] : 0, 0};
    r.extra = [&](double dt) { double w = A->getFlowRate(); int s = w >= 0 ? 0 : 1, t = 1 - s; const PolyFluid* o = r.nd(s).getOutflow(); auto src = r.take(o); double T = A->mFluidTemperature, m = std::fabs(w);
        if (m > 0) MC_CHECK(T >= std::min(wall, o->getTemperature()) - 1e-6 && T <= std::max(wall, o->getTemperature()) + 1e-6, "fluid at %.9g leaves the wall at %.9g", T, wall); if (!area && m > 0) MC_CHECK(near(T, o->getTemperature(), 1e-9), "fluid temperature %.9g without a wall", T); r.xH[t] -= A->mWallHeatFlux * dt;
        if (m > 0) { PolyFluid f(*o, "f"); double qc = GunnsFluidUtils::computeConvectiveHeatFlux(&f, w, A->mThermalROverD, 1 / M_PI, area, wall); MC_CHECK(near(T, f.getTemperature(), 1e-9) && near(A->mWallHeatFlux, qc, 1e-6, 1e-9 * m * src.h), "fluid at %.9g and heat %.9g after a wall at %.9g, expected %.9g and %.9g", T, A->mWallHeatFlux, wall, f.getTemperature(), qc); f.setTemperature(T); double q = m * (o->getSpecificEnthalpy() - f.getSpecificEnthalpy()); MC_CHECK(near(A->mWallHeatFlux, q, 1e-6, 1e-7 * m * src.h), "wall heat %.9g, the fluid gives up %.9g", A->mWallHeatFlux, q); }
        double ef = hot ? clamp(-1, bias + scale * T, 1) : dc ? -1 : eff; if (malf) ef = 0.2; bool desorb = hot ? ef < 0 : dc, edge = hot && std::fabs(ef) < 1e-9; if (edge) prune(); double q = 0; if (desorb) q = -std::max(0.0, std::min(held / dt, -ef * des)); else q = std::max(0.0, std::min(std::min(m * src.f[2] * ef, maxRate), (maxMass - held) / dt));
        MC_CHECK(near(A->mAdsorbedMass, held + q * dt, 1e-9, 1e-15), "holds %.12g kg, had %.12g and adsorbs %.12g", A->mAdsorbedMass, held, q * dt); MC_CHECK(near(A->mSorbtionFlowRate, -q, 1e-6, 1e-13), "sorption flow %.9g, expected %.9g", A->mSorbtionFlowRate, -q); double given = A->mAdsorbedMass - held; held = A->mAdsorbedMass; validated();
        if (std::fabs(given) > 1e-13 * dt) { r.xS[t][2] -= given; r.xH[t] -= given * r.hk(2, T); } double sv = std::fabs(q) > 1e-13 ? -q / 44.0095 : 0; MC_CHECK(near(A->mSourceVector[t], sv, 1e-4, 1e-14) && A->mSourceVector[s] == 0, "source vector %.9g %.9g for sorption %.9g to port %d", A->mSourceVector[0], A->mSourceVector[1], q, t);
        if (tc && !hot) for (int k = 0; k < 2; k++) { double in = m / src.mw * src.x[k] * r.tcMW[k], out = A->mTcAdsorbedMass[k] - tcHeld[k]; MC_CHECK(out >= -1e-20 && out <= in * dt * (1 + 1e-6), "takes %.9g kg of trace compound %d of %.9g", out, k, in * dt);
            double want = desorb ? 0 : in * te[k] * std::max(0.0, (tm[k] - tcHeld[k]) / tm[k]) * dt;  MC_CHECK(near(out, want, 1e-6, 1e-18), "takes %.9g kg of trace compound %d, expected %.9g", out, k, want); r.xT[t][k] -= out; tcHeld[k] = A->mTcAdsorbedMass[k]; } };
    for (int d = 0; d < tierPick(3, 5); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 1.0 : 0.1; if (ev == 2) { dc = !dc; A->mDesorbtionCycle = dc; if (hot) return; } if (ev == 3) { wall = wall == 310 ? 350 : 310; A->setWallTemperature(wall); if (!area) return; } if (ev == 4) { malf = !malf; A->setMalfEfficiency(malf, 0.2); } if (!r.step(dt)) return; } }
// ---- several compounds, with trace compounds
static void multi() {
    using CC = ChemicalCompound; FluidState hi = {310, 120, {0.7, 0.2, 0.1}, {1e-4, 2e-5}}, mid = {300, 100, {0.78, 0.21, 0.01}, {5e-5, 0}}, lo = {290, 90, {0.8, 0.2, 0}, {0, 1e-5}}; bool rev = mc::flip("reversed flow"); Chain r({FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2}, hi, mid, lo, rev, true);
    struct Comp { CC::Type t; bool tc; int k; double mw, c0, c1, des, fac, heat, max, held, bexp; bool taper; int dep; }; std::vector<Comp> C; int set = mc::choose(5, "compounds"); bool taper = mc::flip("taper"), loaded = mc::flip("loaded"); double h0 = loaded ? 0.5 : 0;
    if (set != 3) C.push_back({CC::CO2, false, 2, 44.0095, 0.6, 0, 5.0, 2e-5, -40, 1e-3, 1e-3 * h0, 2, taper, -1}); if (set == 1 || set == 4) C.push_back({CC::O2, false, 1, 31.9988, 1.3, -1.0 / 250, 1.0, 1e-4, 20, 0.01, 0.01 * h0, 1, taper, 0}); if (set >= 2) C.push_back({CC::NH3, true, 0, 17.0305, 0.7, 0, 0.008, 1e-7, -10, 1e-6, 1e-6 * h0, 3, taper, -1});
    double area = mc::flip("wall") ? 0.5 : 0, wall = 400; GunnsFluidMultiAdsorberConfigData cfg("a", &r.F.list, 1e-4, 0, area, 1 / M_PI, 1e-6); for (auto& x : C) cfg.addCompound(x.t, x.max, x.c0, x.c1, x.des, x.fac, x.heat, x.taper, x.dep < 0 ? CC::NO_COMPOUND : C[x.dep].t, false, 0, x.held, x.bexp); GunnsFluidMultiAdsorber A; A.initialize(cfg, GunnsFluidMultiAdsorberInputData(false, 0, wall), r.links, 0, 1); r.go(&A, 1e-4); bool malf = false, blk = false;
    r.extra = [&](double dt) { double w = A.getFlowRate(), m = std::fabs(w); int s = w >= 0 ? 0 : 1, t = 1 - s; const PolyFluid* o = r.nd(s).getOutflow(); auto src = r.take(o); if (m == 0) { const PolyFluid* q = A.mInternalFluid; src = r.take(q); } double T = A.mInternalFluid->getTemperature(), qc = 0; if (m > 0) { PolyFluid f(*o, "f"); qc = GunnsFluidUtils::computeConvectiveHeatFlux(&f, w, A.mThermalROverD, 1 / M_PI, area, wall); MC_CHECK(near(T, f.getTemperature(), 1e-9), "fluid at %.9g after a wall at %.9g, expected %.9g", T, wall, f.getTemperature()); r.xH[t] -= qc * dt; } double pAvg = 0.5 * (A.mPotentialVector[0] + A.mPotentialVector[1]), heat = 0, sum = 0, mol = 0, q[3] = {0, 0, 0}; double tAvg = 0.5 * (o->getTemperature() + T);
        for (size_t i = 0; i < C.size(); i++) { auto& x = C[i]; auto& a = A.mCompounds[i]; double e = clamp(-1, x.c0 + x.c1 * tAvg, 1), xm = x.tc ? src.x[x.k] : A.mInternalFluid->getMoleFraction(x.k), pp = pAvg * xm, rate, in = x.tc ? m / src.mw * src.x[x.k] * r.tcMW[x.k] : m * src.f[x.k], fill = x.held / x.max;
            if (pp < x.des || e < 0) rate = std::min(0.0, pp - x.des) * x.fac * std::fabs(e); else rate = e * in; if (near(pp, x.des, 1e-7) || std::fabs(e) < 1e-9) prune();
            if (x.taper) rate *= rate > 0 ? 1 - std::pow(std::max(0.1, fill), x.bexp) : fill; if (x.dep >= 0) { double df = C[x.dep].held / C[x.dep].max; rate *= rate > 0 ? df : 1 - df; } if (malf && i == 0) rate *= 0.3; rate = clamp(-x.held / dt, rate, (x.max - x.held) / dt);
            MC_CHECK(near(a.mAdsorptionRate, rate, 1e-6, 1e-16), "compound %d sorbs %.9g kg/s, expected %.9g", (int)i, a.mAdsorptionRate, rate); MC_CHECK(near(a.mAdsorbedMass, x.held + rate * dt, 1e-7, 1e-15) && a.mAdsorbedMass >= 0 && a.mAdsorbedMass <= x.max, "compound %d holds %.12g kg, expected %.12g of %.12g", (int)i, a.mAdsorbedMass, x.held + rate * dt, x.max);
            MC_CHECK(near(a.mSorptionHeat, -x.heat * rate * 1e6 / x.mw, 1e-4, 1e-9), "heat of compound %d %.9g", (int)i, a.mSorptionHeat); heat += a.mSorptionHeat; double d = a.mAdsorbedMass - x.held; x.held = a.mAdsorbedMass; q[i] = d; if (x.tc) r.xT[t][x.k] -= d; else { sum += d; mol += d / dt / x.mw; } }
        MC_CHECK(near(A.mSorptionHeat, heat, 1e-9, 1e-12) && near(A.mWallHeatFlux, heat + qc, 1e-7, 1e-9), "sorption heat %.9g, wall %.9g, compounds make %.9g", A.mSorptionHeat, A.mWallHeatFlux, heat); validated();
        for (size_t i = 0; i < C.size(); i++) if (!C[i].tc) { r.xS[t][C[i].k] -= q[i]; r.xH[t] -= q[i] * r.hk(C[i].k, T); } if (std::fabs(sum) < 1e-13 * dt) mol = 0; MC_CHECK(near(A.mSourceVector[t], -mol, 1e-4, 1e-14) && A.mSourceVector[s] == 0, "source vector %.9g %.9g for sorption of %.9g moles", A.mSourceVector[0], A.mSourceVector[1], mol); };
    for (int d = 0; d < tierPick(3, 6); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 2.0 : 0.1; if (ev == 4) { if (!area) return; wall = wall == 400 ? 280 : 400; A.setWallTemperature(wall); } if (ev == 2) { malf = !malf; A.mCompounds[0].setMalfEfficiency(malf, 0.3); } if (ev == 3) { blk = !blk; A.setMalfBlockage(blk, 0.4); r.through = blk ? 6e-5 : 1e-4; } if (!r.step(dt)) return; } }
// ---- separators
static double rh(const PolyFluid* f, FP::FluidType t, double P) { return f->getMoleFraction(t) * P / f->getProperties(t)->getSaturationPressure(f->getTemperature()); }
static void separator() {
    bool dry = mc::flip("dry"), rev = mc::flip("reversed flow"), tc = mc::flip("trace compounds"); double w = dry ? 0.01 : 0.05; FluidState hi = {295, 120, {0.76 - w, 0.24, w}, {1e-4, 2e-5}}, mid = {290, 100, {0.78, 0.21, 0.01}, {5e-5, 0}}, lo = {300, 90, {0.8, 0.19, 0.01}, {0, 1e-5}}; Chain r({FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O}, hi, mid, lo, rev, tc);
    double cap = mc::flip("small") ? 3e-5 : 1, speed = 50, held = mc::flip("loaded") ? 2e-5 : 0, ex = mc::flip("square") ? 2 : 0.5; GunnsFluidSeparatorGas S; S.initialize(GunnsFluidSeparatorGasConfigData("s", &r.F.list, 1e-4, FP::GUNNS_H2O, ex, cap, 100, 150, 2e-4), GunnsFluidSeparatorGasInputData(false, 0, speed, 0, held), r.links, 0, 1); r.go(&S, 1e-4);
    double over = 0, P0[2]; r.extra = [&](double dt) { double wf = S.getFlowRate(), m = std::fabs(wf); int s = wf >= 0 ? 0 : 1, t = 1 - s; const PolyFluid* o = r.nd(s).getOutflow(); auto src = r.take(o); double h = rh(o, FP::GUNNS_H2O, P0[s]), q = 0; if (near(h, 1.0, 1e-6)) prune();
        held -= std::max(0.0, S.mTransferFlowRate) * dt; if (held < 0) { over -= held; held = 0; } double space = cap - held; bool flood = false; if (wf > 0 && h >= 1) { double want = std::min(m * src.f[2], 2e-4 / 100 * speed); q = std::min(want, space / dt); flood = want > q; if (near(want, space / dt, 1e-9)) flood = S.mLiquidOverflow; }
        if (wf > 0) MC_CHECK(near(S.mRelativeHumidity, h, 1e-9), "relative humidity %.9g, pressures make %.9g", S.mRelativeHumidity, h); held += q * dt; MC_CHECK(near(S.mLiquidMass, held, 1e-9, 1e-15) && S.mLiquidMass >= 0 && S.mLiquidMass <= cap * (1 + 1e-12), "separator holds %.12g kg, expected %.12g", S.mLiquidMass, held); MC_CHECK(near(S.mSeparationRate, q, 1e-7, 1e-13), "separates %.9g kg/s, expected %.9g", S.mSeparationRate, q);
        MC_CHECK(S.mLiquidOverflow == flood, "overflow %d, expected %d", (int)S.mLiquidOverflow, (int)flood); MC_CHECK(near(S.mLiquidMassError, over, 1e-9, 1e-15), "mass error %.9g, transferred %.9g too much", S.mLiquidMassError, over); double dp = 150.0 / 100 / std::pow(cap, ex) * speed * std::pow(held, ex); MC_CHECK(near(S.mLiquidDeltaP, dp, 1e-7, 1e-9), "delta pressure %.9g, expected %.9g", S.mLiquidDeltaP, dp);
        MC_CHECK(near(S.mTransferPressure, r.nd(0).getPotential() + dp, 1e-9) && near(S.mTransferTemperature, r.nd(0).getContent()->getTemperature(), 1e-9), "transfers at %.9g K %.9g kPa", S.mTransferTemperature, S.mTransferPressure);
        double sv = q > 1e-13 ? -q / o->getProperties(FP::GUNNS_H2O)->getMWeight() : 0; MC_CHECK(near(S.mSourceVector[1], sv, 1e-6, 1e-15) && S.mSourceVector[0] == 0, "source vector %.9g %.9g for %.9g kg/s", S.mSourceVector[0], S.mSourceVector[1], q); validated(); if (q > 1e-13) { r.xS[1][2] -= q * dt; r.xH[1] -= q * dt * r.hk(2, o->getTemperature()); } (void)t; };
    double bv = mc::flip("full blockage") ? 1 : 0.4; for (int d = 0; d < tierPick(3, 6); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 1.0 : 0.1; if (ev == 2) { speed = speed == 50 ? 1 : speed == 1 ? 5000 : 50; S.mSeparatorSpeed = speed; } if (ev == 3) S.mTransferFlowRate = S.mTransferFlowRate == 0 ? 1e-4 : 0; if (ev == 4) { bool f = !S.mMalfBlockageFlag; S.setMalfBlockage(f, bv); r.through = f ? 1e-4 * (1 - bv) : 1e-4; } for (int i = 0; i < 2; i++) P0[i] = r.nd(i).getContent()->getPressure(); if (!r.step(dt)) return; } }
// the liquid end of a separator fills a liquid volume from what the gas end holds
static void liquid() {
    bool mixed = mc::flip("mixture"); double f0 = mixed ? 0.5 : 1; FluidRig r(1, {FP::GUNNS_WATER, FP::GUNNS_AMMONIA}); FluidState st = {295, 200, {f0, 1 - f0}, {}}; r.init(0, st, 0.1); r.init(1, {290, 100, {0.2, 0.8}, {}}, 0); r.Tmin = 200; r.Tmax = 400; FP::FluidType t = mc::flip("ammonia") ? FP::GUNNS_AMMONIA : FP::GUNNS_WATER; int k = t == FP::GUNNS_WATER ? 0 : 1;
    GunnsFluidSeparatorLiquid L; double T = 300, src = 250, block = 0; L.initialize(GunnsFluidSeparatorLiquidConfigData("l", &r.F.list, 1e-9, 0, t), GunnsFluidSeparatorLiquidInputData(false, 0, src, T), r.links, 1, 0); r.start();
    r.extra = [&](double dt) { double n = L.getFlux(), w = L.getFlowRate(); const PolyFluid* o = r.nd(0).getOutflow(); double mw = n >= 0 ? o->getProperties(t)->getMWeight() : o->getMWeight(); MC_CHECK(near(w, n * mw, 1e-7, 1e-15), "flow rate %.9g, moles make %.9g", w, n * mw); double dn = src - r.nd(0).getPotential(); if (std::fabs(dn) > 1e-9) MC_CHECK(block == 1 ? n == 0 : n * dn > 0, "flux %g for %g kPa", n, dn); validated();
        for (int i = 0; i < 2; i++) { double f = n >= 0 ? (i == k ? 1 : 0) : o->getMassFraction(i), d = w * f * dt; r.xS[0][i] += d; } r.xH[0] += w * dt * (n >= 0 ? o->getProperties(t)->getSpecificEnthalpy(T) : o->getSpecificEnthalpy()); };
    for (int d = 0; d < tierPick(3, 6); d++) { int ev = mc::choose(4, "event"); double dt = 0.1; if (ev == 1) { src = src == 250 ? 150 : 250; L.setSourcePressure(src); } if (ev == 2) { T = T == 300 ? 280 : 300; L.mTransferTemperature = T; } if (ev == 3) { block = block ? 0 : 1; L.setMalfBlockage(block > 0, 1); } if (!r.step(dt)) return; } }
static void multiSeparator() {
    using CC = ChemicalCompound; bool rev = mc::flip("reversed flow"), tc = mc::flip("trace compounds"); FluidState hi = {320, 120, {0.7, 0.2, 0.1}, {1e-4, 2e-5}}, lo = {300, 90, {0.8, 0.2, 0}, {0, 1e-5}}, ex = {290, 50, {0.1, 0.4, 0.5}, {2e-5, 3e-5}};
    int set = mc::choose(tc ? 6 : 3, "separates"); static std::vector<FP::FluidType> ft; static std::vector<CC::Type> tt; std::vector<int> fp, tp; std::vector<double> ff, tf; std::vector<int> fk, tk; ft.clear(); tt.clear(); int ports = 4;
    auto fl = [&](int k, int p, double f) { ft.push_back(k == 2 ? FP::GUNNS_CO2 : FP::GUNNS_O2); fk.push_back(k); fp.push_back(p); ff.push_back(f); }; auto tr = [&](int k, int p, double f) { tt.push_back(k ? CC::C2H6O : CC::NH3); tk.push_back(k); tp.push_back(p); tf.push_back(f); };
    if (set == 0) fl(2, 2, 0.5), fl(1, 3, 1.0); if (set == 1) fl(2, 3, 0.3), fl(1, 2, 0.8); if (set == 2) fl(2, 2, 1.0); if (set == 3) fl(2, 2, 0.5), tr(0, 3, 0.4); if (set == 4) tr(0, 2, 0.4), tr(1, 3, 1.0); if (set == 5) fl(1, 3, 0.9), tr(1, 2, 0.5); if (set == 2) ports = 3;
    FluidRig r(4, {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2}, tc ? tcs() : 0); r.init(0, rev ? lo : hi, 1); r.init(1, rev ? hi : lo, 1); r.init(2, ex, 0.3); r.init(3, ex, 0.3); r.init(4, lo, 0); r.Tmin = 200; r.Tmax = 500; std::vector<int> pv = {0, 1, 2, 3}; pv.resize(ports); GunnsFluidMultiSeparator S; S.initialize(GunnsFluidMultiSeparatorConfigData("s", &r.F.list, 2e-4, &ft, &fp, &tt, &tp), GunnsFluidMultiSeparatorInputData(false, 0, &ff, &tf), r.links, &pv); double sc = 2e-4; r.edge(&S, 0, 1, &sc); r.start();
    std::vector<double> buf(fk.size(), 0.0); double last = 0.1; bool p0 = true; r.extra = [&](double dt) { double n = S.getFlux(), sv[4] = {0, 0, 0, 0}; int s = n >= 0 ? 0 : 1, t = 1 - s; const PolyFluid* o = r.nd(s).getOutflow(); auto src = r.take(o); double T = o->getTemperature(), m = std::fabs(S.getFlowRate()); MC_CHECK(near(S.mVolFlowRate, S.getFlowRate() / r.law0[s].rho, 1e-9), "volume flow %.9g of %.9g kg/s", S.mVolFlowRate, S.getFlowRate()); int sp = p0 ? 1 : 0; for (size_t i = 0; i < fk.size(); i++) { double b = buf[i] / o->getProperties(ft[i])->getMWeight(); sv[sp] -= b; sv[fp[i]] += b; } for (int i = 0; i < ports; i++) MC_CHECK(near(S.mSourceVector[i], sv[i], 1e-7, 1e-16), "source vector %d is %.9g, separated flows make %.9g", i, S.mSourceVector[i], sv[i]);
        for (size_t i = 0; i < fk.size(); i++) { int k = fk[i]; double q = ff[i] * m * src.f[k]; if (q > 0) { r.xS[t][k] -= q * dt; r.xH[t] -= q * dt * r.nd(0).getContent()->getProperties(ft[i])->getSpecificEnthalpy(T); } if (buf[i] > 1e-14) { r.xS[fp[i]][k] += buf[i] * dt; r.xH[fp[i]] += buf[i] * dt * r.nd(0).getContent()->getProperties(ft[i])->getSpecificEnthalpy(T); } buf[i] = q; }
        for (size_t i = 0; i < tk.size(); i++) { double q = tf[i] * m / src.mw * src.x[tk[i]] * r.tcMW[tk[i]]; r.xT[t][tk[i]] -= q * dt; r.xT[tp[i]][tk[i]] += q * dt; } validated(); };
    double bv = mc::flip("full blockage") ? 1 : 0.4; for (int d = 0; d < tierPick(3, 6); d++) { int ev = mc::choose(4, "event"); if (ev == 1 && ff.size()) { ff[0] = ff[0] == 0.25 ? 1.0 : 0.25; S.setSeparationFraction(ft[0], ff[0]); } if (ev == 2) { bool f = !S.mMalfBlockageFlag; S.setMalfBlockage(f, bv); sc = f ? 2e-4 * (1 - bv) : 2e-4; } if (ev == 3 && tf.size()) { tf[0] = tf[0] == 0.4 ? 1 : 0.4; S.setTcFraction(tt[0], tf[0]); } p0 = r.nd(0).getPotential() >= r.nd(1).getPotential(); if (!r.step(last)) return; } }
// ---- reactors
static void reactor(bool hot) {
    using CC = ChemicalCompound; using CR = ChemicalReaction; static DefinedChemicalReactions rx; static DefinedChemicalCompounds cc; std::vector<FP::FluidType> types = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2, FP::GUNNS_H2O, FP::GUNNS_CO2, FP::GUNNS_CO, FP::GUNNS_CH4, FP::GUNNS_NH3};
    FluidState hi = {320, 120, {0.55, 0.15, 0.05, 0.05, 0.1, 0.04, 0.04, 0.02}, {1e-4, 2e-5}}, mid = {300, 100, {0.78, 0.2, 0, 0.01, 0.01, 0, 0, 0}, {5e-5, 0}}, lo = {290, 90, {0.75, 0.2, 0, 0.03, 0.02, 0, 0, 0}, {0, 1e-5}}; bool rev = mc::flip("reversed flow"), tc = mc::flip("trace compounds"); Chain r(types, hi, mid, lo, rev, tc); r.Tmin = 100; r.Tmax = 5000;
    std::vector<std::vector<CR::Type>> sets = {{CR::CO_REMOVAL}, {CR::CH4_REMOVAL, CR::H2_REMOVAL}, {CR::H2_REMOVAL}, {CR::LIOHH2O_SYNTHESIS, CR::LI2CO3_FORMATION}, {CR::NH3_REMOVAL, CR::CO_REMOVAL}, {CR::SABATIER_RXN}, {CR::SABATIER_RXN, CR::CH4_REMOVAL}}; auto set = sets[mc::choose((int)sets.size(), "reactions")];
    std::vector<CC::Type> ct; auto need = [&](CC::Type t) { if (t != CC::NO_COMPOUND && std::find(ct.begin(), ct.end(), t) == ct.end()) ct.push_back(t); }; for (auto t : set) { const CR* x = rx.getReaction(t); need(x->mReactantType); need(x->mReagentType); need(x->mProduct1Type); need(x->mProduct2Type); } bool little = mc::flip("small bed"); std::vector<double> bed; for (auto t : ct) bed.push_back(cc.getCompound(t)->mFluidType == FP::NO_FLUID ? (little ? 1e-5 : 0.5) : 0.0); std::vector<double> b0 = bed;
    double wall = 400, area = mc::flip("wall") ? 0.5 : 0; int eff = hot ? 2 * mc::choose(2, "reagent efficiency") : mc::choose(3, "efficiencies"); double bias = -2, scale = 1.0 / 130; GunnsFluidReactorConfigData cfg("r", &r.F.list, 1e-4, 0, &rx, set.data(), (int)set.size(), &cc, ct.data(), (int)ct.size(), area, 1 / M_PI, 1e-6); GunnsFluidHotReactorConfigData hcfg("r", &r.F.list, 1e-4, 0, &rx, set.data(), (int)set.size(), &cc, ct.data(), (int)ct.size(), area, 1 / M_PI, 1e-6, bias, scale);
    std::vector<double> re(set.size(), 0.0), ge(set.size(), 0.0); if (eff == 2) { auto f = cc.getCompound(rx.getReaction(set[0])->mReagentType)->mFluidType; ge[0] = f == FP::NO_FLUID ? 0.8 : 400; double* a = new double[set.size()]; for (size_t i = 0; i < set.size(); i++) a[i] = ge[i]; (hot ? hcfg : cfg).mReagentEfficiency = a; } if (eff == 1) { re[0] = 0.3; cfg.mReactantEfficiency = new double[set.size()]; for (size_t i = 0; i < set.size(); i++) cfg.mReactantEfficiency[i] = re[i]; }
    std::unique_ptr<GunnsFluidReactor> R; if (!hot) { R.reset(new GunnsFluidReactor); R->initialize(cfg, GunnsFluidReactorInputData(false, 0, b0.data(), wall), r.links, 0, 1); } else { auto h = new GunnsFluidHotReactor; R.reset(h); h->initialize(hcfg, GunnsFluidHotReactorInputData(false, 0, b0.data(), wall), r.links, 0, 1); } double lastT = R->mFluidTemperature; r.go(R.get(), 1e-4);
    r.extra = [&](double dt) { double w = R->getFlowRate(), m = std::fabs(w); int s = w >= 0 ? 0 : 1, t = 1 - s; const PolyFluid* o = r.nd(s).getOutflow(); auto src = r.take(o); std::vector<double> have(ct.size()), d(ct.size(), 0.0); std::vector<int> idx(ct.size()); if (near(m, FLT_EPSILON, 1e-3)) prune(); bool on = m > FLT_EPSILON; double Q = 0;
        auto at = [&](CC::Type x) { return (int)(std::find(ct.begin(), ct.end(), x) - ct.begin()); }; for (size_t i = 0; i < ct.size(); i++) { auto f = cc.getCompound(ct[i])->mFluidType; idx[i] = f == FP::NO_FLUID ? -1 : (int)(std::find(types.begin(), types.end(), f) - types.begin()); have[i] = idx[i] < 0 ? bed[i] : m * dt * src.f[idx[i]]; }
        if (on) for (size_t i = 0; i < set.size(); i++) { const CR* x = rx.getReaction(set[i]); int a = at(x->mReactantType), g = at(x->mReagentType), p = at(x->mProduct1Type), p2 = x->mProduct2Type == CC::NO_COMPOUND ? -1 : at(x->mProduct2Type); auto M = [&](int c) { return cc.getCompound(ct[c])->mMWeight; }; double e = hot ? clamp(0, bias + scale * lastT, 1) : re[i] > 0 ? re[i] : x->mReactantEfficiency; if (ge[i] > 0) e *= ge[i] * have[g];
            double xi = std::min(have[a] * std::min(0.9999, e) / (x->mReactantMoleRatio * M(a)), have[g] * 0.9999 / (x->mReagentMoleRatio * M(g))); auto mv = [&](int c, double nu) { double dm = nu * xi * M(c); have[c] += dm; d[c] += dm; }; mv(a, -x->mReactantMoleRatio); mv(g, -x->mReagentMoleRatio); mv(p, x->mProduct1MoleRatio); if (p2 >= 0) mv(p2, x->mProduct2MoleRatio); Q += xi * x->mReactionHeat * 1e6; }
        double mass = 0, scaleM = 0; for (size_t i = 0; i < ct.size(); i++) { mass += d[i]; scaleM += std::fabs(d[i]); } MC_CHECK(std::fabs(mass) <= 2e-4 * scaleM + 1e-15, "reactions make %.9g kg of %.9g", mass, scaleM); if (on) MC_CHECK(near(R->mProducedHeat, Q, 1e-6, 1e-6), "reaction heat %.9g J, expected %.9g", R->mProducedHeat, Q);
        double T = R->mFluidTemperature, dn = 0; if (on) { PolyFluid f(*o, "f"); f.setTemperature(T); double Hin = o->getSpecificEnthalpy() + Q / (m * dt), q = m * (Hin - f.getSpecificEnthalpy()); MC_CHECK(near(R->mWallHeatFlux, q, 1e-5, 1e-6 * m * src.h), "wall heat %.9g, the fluid gives up %.9g", R->mWallHeatFlux, q); if (!area) MC_CHECK(near(f.getSpecificEnthalpy(), Hin, 1e-6), "enthalpy %.9g leaves, %.9g enters with the reactions", f.getSpecificEnthalpy(), Hin);
            double Tm = f.computeTemperature(Hin); MC_CHECK(T >= std::min(wall, Tm) - 1e-3 && T <= std::max(wall, Tm) + 1e-3, "fluid at %.9g leaves the wall at %.9g from %.9g", T, wall, Tm); r.xH[t] += m * dt * (f.getSpecificEnthalpy() - o->getSpecificEnthalpy()); lastT = T; } else lastT = T;
        for (size_t i = 0; i < ct.size(); i++) { if (idx[i] < 0) { MC_CHECK(near(R->mCompounds[i].mTotalMass, have[i], 1e-6, 1e-14), "bed has %.12g kg of compound %d, expected %.12g", R->mCompounds[i].mTotalMass, (int)i, have[i]); bed[i] = R->mCompounds[i].mTotalMass; } else if (std::fabs(d[i]) > 1e-15) { r.xS[t][idx[i]] += d[i]; r.xH[t] += d[i] * r.hk(idx[i], T); dn += d[i] / dt / o->getProperties(types[idx[i]])->getMWeight(); } }
        double sc = 0; for (size_t i = 0; i < ct.size(); i++) if (idx[i] >= 0) sc += std::fabs(d[i]) / dt; MC_CHECK(near(R->mSourceVector[t], dn, 1e-4, 1e-5 * sc + 1e-13) && R->mSourceVector[s] == 0, "source vector %.9g %.9g for %.9g kmol/s to port %d", R->mSourceVector[0], R->mSourceVector[1], dn, t); validated(); };
    double bv = mc::flip("full blockage") ? 1 : 0.4; for (int d = 0; d < tierPick(2, 4); d++) { int ev = mc::choose(4, "event"); double dt = ev == 1 ? 1.0 : 0.1; if (ev == 2) { wall = wall == 400 ? 350 : 400; R->setWallTemperature(wall); if (!area) return; } if (ev == 3) { bool f = !R->mMalfBlockageFlag; R->setMalfBlockage(f, bv); r.through = f ? 1e-4 * (1 - bv) : 1e-4; } if (!r.step(dt)) return; } }
static void redox() {
    FluidRig r(2, {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2, FP::GUNNS_H2O}); int fill = mc::choose(4, "fill"); std::vector<double> a = {0.1, 0, 0.6, 0.3}, b = {0.2, 0.8, 0, 0}; if (fill == 1) a = {0.4, 0, 0.6, 0}; if (fill == 2) a = {0.6, 0, 0, 0.4}; if (fill == 3) b = {1, 0, 0, 0}; r.init(0, {350, 200, a, {}}, 0.2); r.init(1, {300, 300, b, {}}, 0.2); r.init(2, {300, 100, b, {}}, 0); r.Tmin = 100; r.Tmax = 600;
    double I = (mc::choose(3, "current") - 1) * 30.0; int cells = mc::flip("one cell") ? 1 : 20; double rate = 1.05e-8, eff = mc::flip("efficient") ? 1.0 : 0.7; bool trip = mc::flip("tripped"), blk = false; GunnsFluidSimpleH2Redox X; GunnsFluidSimpleH2RedoxConfigData xc("x", &r.F.list, cells, 0.8, rate, eff); X.initialize(xc, GunnsFluidSimpleH2RedoxInputData(false, 0, I, trip), r.links, 0, 1); r.start(); double p0[3];
    auto pp = [&](int i, FP::FluidType t) { return r.nd(i).getContent()->getMoleFraction(t) * r.nd(i).getPotential(); };
    r.extra = [&](double dt) { if (I > 0 ? p0[0] < 1e-3 || p0[1] < 1e-3 : p0[2] < 1e-3) trip = true; double e = blk ? eff * 0.5 : eff, h2 = trip ? 0 : -I * rate * cells * (I > 0 ? 1 / e : e), n = h2 / r.nd(0).getContent()->getProperties(FP::GUNNS_H2)->getMWeight(), M[] = {0, r.nd(0).getContent()->getProperties(FP::GUNNS_O2)->getMWeight(), 0, r.nd(0).getContent()->getProperties(FP::GUNNS_H2O)->getMWeight()};
        MC_CHECK(X.mTrippedOff == trip, "tripped off %d, expected %d", (int)X.mTrippedOff, (int)trip); MC_CHECK(near(X.mOutputStackVoltage, trip ? 0 : 0.8 * cells, 1e-9), "stack voltage %.9g", X.mOutputStackVoltage); MC_CHECK(near(X.mOutputHeat, -n * 4.86e7, 1e-6, 1e-9), "heat %.9g, expected %.9g", X.mOutputHeat, -n * 4.86e7); MC_CHECK(near(X.mSourceVector[0], 0.0, 0, 1e-15) && near(X.mSourceVector[1], n / 2, 1e-9, 1e-18), "source vector %.9g %.9g for %.9g kmol/s", X.mSourceVector[0], X.mSourceVector[1], n); validated();
        double T0 = r.nd(0).getOutflow()->getTemperature(), T1 = r.nd(1).getOutflow()->getTemperature(); auto put = [&](int i, int k, double w, double T, FP::FluidType t) { r.xS[i][k] += w * dt; r.xH[i] += w * dt * r.nd(0).getContent()->getProperties(t)->getSpecificEnthalpy(T); }; if (n > 0 ? r.s0[0][3] < n * M[3] * dt : r.s0[0][2] < -h2 * dt || r.s0[1][1] < -n / 2 * M[1] * dt) prune(); if (n != 0) { put(0, 2, h2, T0, FP::GUNNS_H2); put(0, 3, -n * M[3], T0, FP::GUNNS_H2O); put(1, 1, n / 2 * M[1], T1, FP::GUNNS_O2); } };
    for (int d = 0; d < tierPick(3, 6); d++) { int ev = mc::choose(5, "event"); double dt = ev == 1 ? 1.0 : 0.1; if (ev == 2) { I = I > 0 ? -30 : 30; X.setCurrent(I); } if (ev == 3) { blk = !blk; X.setMalfBlockage(blk, 0.5); } if (ev == 4) { trip = false; X.mTrippedOff = false; } p0[0] = pp(0, FP::GUNNS_H2); p0[1] = pp(1, FP::GUNNS_O2); p0[2] = pp(0, FP::GUNNS_H2O); for (double p : p0) if (near(p, 1e-3, 1e-6)) prune(); if (!r.step(dt)) { double e = blk ? eff * 0.5 : eff, h2 = X.mTrippedOff ? 0 : -I * rate * cells * (I > 0 ? 1 / e : e); MC_CHECK(near(X.mH2MassRate, h2, 1e-9), "hydrogen rate %.9g, expected %.9g", X.mH2MassRate, h2); return; } } }
static void heater() {
    FluidRig r(2, {FP::GUNNS_N2, FP::GUNNS_O2}); r.init(0, {300, 100, {0.8, 0.2}, {}}, 1); r.init(1, {350, 120, {0.5, 0.5}, {}}, 1); r.init(2, {300, 100, {1, 0}, {}}, 0); r.Tmin = 100; r.Tmax = 900; int g = mc::choose(3, "ports"); int a = g == 0 ? 2 : 0, b = g == 2 ? 2 : 1; double eff = mc::flip("efficient") ? 1 : 0.6, P = 100, blk = 0; GunnsFluidHeater H; H.initialize(GunnsFluidHeaterConfigData("h", &r.F.list, eff), GunnsFluidHeaterInputData(false, 0, P), r.links, a, b); GunnsFluidConductor c; c.initialize(GunnsFluidConductorConfigData("c", &r.F.list, 1e-5, 0), GunnsFluidConductorInputData(), r.links, 0, 1); r.edge(&c, 0, 1); r.start();
    r.extra = [&](double dt) { double q = P * eff * (1 - blk) * dt; MC_CHECK(near(H.mHeatFlux * dt, q, 1e-12), "heat flux %.9g, expected %.9g", H.mHeatFlux, q / dt); validated(); if (a < 2) r.xH[a] -= q; if (b < 2) r.xH[b] += q; }; for (int d = 0; d < tierPick(4, 6); d++) { int ev = mc::choose(3, "event"); if (ev == 1) { P = P == 100 ? -50 : 100; H.setHeaterPower(P); } if (ev == 2) { blk = blk ? 0 : 0.3; H.setMalfBlockage(blk > 0, 0.3); } if (!r.step(0.1)) return; } }
static void membrane() {
    bool wet = mc::flip("liquid inside"), rev = mc::flip("reversed flow"); int vent = mc::choose(3, "vent"); std::vector<FP::FluidType> t = {FP::GUNNS_N2, FP::GUNNS_H2O, FP::GUNNS_WATER, FP::GUNNS_AMMONIA}; FluidRig r(3, t); std::vector<double> in = wet ? std::vector<double>{0, 0, 0.9, 0.1} : std::vector<double>{0.99, 0.01, 0, 0}; double base = wet ? 200 : 110; r.init(0, {300, base + (rev ? 0 : 10), in, {}}, wet ? 1 : 0.5); if (!wet) in = {0.97, 0.03, 0, 0}; r.init(1, {310, base + (rev ? 10 : 0), in, {}}, wet ? 1 : 0.5);
    if (vent == 0) r.init(2, {320, 0.5, {0.5, 0.5, 0, 0}, {}}, 0.5); if (vent == 1) r.init(2, {320, wet ? 300.0 : 20.0, {0.1, 0.9, 0, 0}, {}}, 0.5); if (vent == 2) r.init(2, {305, wet ? 300.0 : 3.0, {0, 1, 0, 0}, {}}, 0.5); r.init(3, {300, 100, wet ? in : std::vector<double>{1, 0, 0, 0}, {}}, 0); r.Tmin = 50; r.Tmax = 2000;
    double coef = mc::flip("slow") ? 1e-7 : 1e-4, deg = 0; GunnsFluidSelectiveMembrane M; FP::FluidType it = wet ? FP::GUNNS_WATER : FP::GUNNS_H2O; int ik = wet ? 2 : 1; M.initialize(GunnsFluidSelectiveMembraneConfigData("m", &r.F.list, 1e-6, coef, FP::GUNNS_H2O, it), GunnsFluidSelectiveMembraneInputData(), r.links, 0, 1, 2); double mcond = 1e-6; r.edge(&M, 0, 1, &mcond); r.start(); double p[3], sat[3], w0 = 0; int s0 = 0; double fr[2], T0[3];
    r.extra = [&](double dt) { int d0 = 1 - s0; double dpu = p[s0] - p[2], dpd = p[d0] - p[2], q = 0, heat = 0; bool ext = p[2] > sat[2], change = false; if (dpu * dpd >= 0) { int n; if (dpu > 0) { q = std::min(coef * dpu, 0.99 * std::fabs(w0) * fr[s0]); n = s0; } else { q = coef * dpd; n = d0; } bool inn = p[n] > sat[n]; change = inn != ext; q *= 1 - deg; if (change) { double hv = 1e3 * r.nd(0).getContent()->getProperties(it)->getHeatOfVaporization(T0[q < 0 ? 2 : s0]); heat = std::fabs(q) * hv * ((q < 0 ? ext : inn) ? -1 : 1); } }
        MC_CHECK(near(M.mMembraneFlowRate, q, 1e-7, 1e-15), "membrane flow %.9g, expected %.9g", M.mMembraneFlowRate, q); MC_CHECK(M.mPhaseChange == change, "phase change %d, expected %d", (int)M.mPhaseChange, (int)change); if (!near(M.mPhaseChangeHeat, heat, 1e-7, 1e-9)) { if (q < 0 && near(M.mPhaseChangeHeat, -heat, 1e-7, 1e-9)) mc::known("reversed-membrane-heat", "selective membrane gives the heat of phase change the wrong sign when it flows inward"); else mc::fail("phase change heat %.9g, expected %.9g", M.mPhaseChangeHeat, heat); } validated();
        int s = M.getFlux() >= 0 ? 0 : 1, t2 = 1 - s; double mw = r.nd(0).getContent()->getProperties(it)->getMWeight(); MC_CHECK(near(M.mSourceVector[0] + M.mSourceVector[1] + M.mSourceVector[2], 0.0, 0, 1e-15) && near(M.mSourceVector[2], q / mw, 1e-7, 1e-16), "source vector %.9g %.9g %.9g for %.9g", M.mSourceVector[0], M.mSourceVector[1], M.mSourceVector[2], q / mw);
        if (std::fabs(q) > 1e-13) { int z = q > 0 ? s : 2; double T = M.mInternalMembraneFluid->getTemperature(), Ta = r.nd(z).getContent()->getTemperature(); MC_CHECK(T == M.mExternalMembraneFluid->getTemperature() && T >= std::min(Ta, T0[z]) - 1e-9 && T <= std::max(Ta, T0[z]) + 1e-9, "membrane flow at %.9g, source node at %.9g", T, Ta); auto hh = [&](FP::FluidType x) { return r.nd(0).getContent()->getProperties(x)->getSpecificEnthalpy(T); }; int n = q > 0 ? s : t2; r.xS[n][ik] -= q * dt; r.xH[n] -= q * dt * hh(it); r.xS[2][1] += q * dt; r.xH[2] += q * dt * hh(FP::GUNNS_H2O); }
        if (change) r.xH[q > 1e-13 ? t2 : 2] += M.mPhaseChangeHeat * dt; };
    for (int d = 0; d < tierPick(3, 5); d++) { int ev = mc::choose(4, "event"); if (ev == 2) { deg = deg ? 0 : 0.5; M.setMalfMembraneDegrade(deg > 0, 0.5); } if (ev == 3) { bool f = !M.mMalfBlockageFlag; M.setMalfBlockage(f, 0.4); mcond = f ? 6e-7 : 1e-6; } s0 = M.getFlux() >= 0 ? 0 : 1; w0 = M.getFlowRate(); for (int i = 0; i < 3; i++) { const PolyFluid* c = r.nd(i).getContent(); T0[i] = c->getTemperature(); FP::FluidType x = i == 2 ? FP::GUNNS_H2O : it; p[i] = c->getMoleFraction(x) * r.nd(i).getPotential(); sat[i] = c->getProperties(x)->getSaturationPressure(c->getTemperature()); if (i < 2) fr[i] = c->getMassFraction(x); } if (!r.step(ev == 1 ? 1.0 : 0.1)) return; } }
int main(int c, char** v) {
    add("adsorber", [] { adsorber(false); }); add("hot adsorber", [] { adsorber(true); }); add("multi adsorber", multi); add("separator", separator); add("separator liquid", liquid); add("multi separator", multiSeparator); add("reactor", [] { reactor(false); }); add("hot reactor", [] { reactor(true); }); add("redox", redox); add("heater", heater); add("membrane", membrane);
    return mc::run(c, v, "C26"); }
