// mc: hflags=-fno-access-control
// C23: fluid links and nodes follow their flow and thermodynamic laws.
#include "fluid.hh"
#include "math/UnitConversion.hh"
#include <cmath>
#include <array>
using namespace mc; using FP = FluidProperties;
struct Cap : GunnsFluidCapacitor { double v = 1, heat = 0, und = 0; double getVolume() const override { return v; } double getHeatFlux() const override { return heat; } double getUndampedHeatFlux() const override { return und; } };
struct Cond : GunnsFluidConductor { void internal() { createInternalFluid(); } };
static const double R = 8.314472; // kJ/kmol/K
struct Laws : FluidRig {
    struct Vol { std::unique_ptr<Cap> c; double v, vPrev, gain, corr, tPrev, heat, damp, xsf, err; bool noCorr, vague; }; std::vector<Vol> V; bool gas;
    // what each link is expected to put in each node: kmol/s as solved
    struct Pot { GunnsFluidPotential* l; int a, b; double c, src, exp; }; std::vector<Pot> pots; struct Src { GunnsFluidSource* l; int a, b; double demand, block; }; std::vector<Src> srcs; std::function<void(double)> more; std::vector<bool> edited; std::vector<double> Tbefore, Pbefore;
    Laws(int n, const std::vector<FP::FluidType>& t, bool gas_) : FluidRig(n, t), V(n), gas(gas_), edited(n, false) { energy = true; extra = [this](double dt) { check(dt); };
        adjust = [this] { snapG.clear(); for (int i = 0; i < N; i++) { snapG.push_back(nd(i).getContent()->getAdiabaticIndex()); if (edited[i]) { double f = editMass / m0[i]; m0[i] *= f; n0[i] *= f; H0[i] *= f; for (auto& x : s0[i]) x *= f; } } }; }
    void volume(int i, const FluidState& s, double v, double xsf, double damp) {
        init(i, s, 0); vol[i] = v; std::vector<double> f(s.f); PolyFluidInputData in(s.T, s.P, 0, 0, f.data()); V[i].c.reset(new Cap); V[i].c->v = v; V[i].c->initialize(GunnsFluidCapacitorConfigData("cap", &F.list, xsf), GunnsFluidCapacitorInputData(false, 0, v, &in), links, i, N); V[i].v = V[i].vPrev = v; V[i].gain = 1; V[i].corr = 0; V[i].tPrev = s.T; V[i].damp = damp; V[i].xsf = xsf; V[i].noCorr = V[i].vague = false; if (damp) nd(i).setThermalDampingMass(damp);
        double m = nd(i).getContent()->getMass(), rho = nd(i).getContent()->getDensity(); MC_CHECK(near(m, rho * v, 1e-9), "volume %d starts with %.9g kg in %.9g m3", i, m, v); if (gas) MC_CHECK(near(rho, s.P * nd(i).getContent()->getMWeight() / R / s.T, 1e-9), "density %.9g", rho); for (int k = 0; k < K; k++) MC_CHECK(near(nd(i).getContent()->getMassFraction(k), s.f[k], 1e-9, 1e-12), "mass fraction %d starts at %.9g", k, nd(i).getContent()->getMassFraction(k)); MC_CHECK(near(nd(i).getContent()->getTemperature(), s.T, 1e-9) && near(nd(i).getPotential(), s.P, 1e-9), "volume %d starts at %.9g K %.9g kPa", i, nd(i).getContent()->getTemperature(), nd(i).getPotential()); }
    void ground(const FluidState& s) { init(N, s, 0); }
    bool go(double dt) {
        Tbefore.clear(); Pbefore.clear(); for (int i = 0; i < N; i++) { Tbefore.push_back(nd(i).getContent()->getTemperature()); Pbefore.push_back(nd(i).getPotential()); }
        std::vector<std::array<double, 4>> pre; // density, ideal pressure, molar mass, pressure
        for (int i = 0; i < N; i++) { const PolyFluid* c = nd(i).getContent(); pre.push_back({c->getDensity(), vol[i] > 0 ? (gas ? c->getMass() / V[i].vPrev / c->getMWeight() * R * c->getTemperature() : c->computePressure(c->getTemperature(), c->getMass() / V[i].vPrev)) : 0, c->getMWeight(), c->getPressure()}); }
        info = pre; return step(dt); }
    std::vector<std::array<double, 4>> info;
    // temperature of gas expanded from p1 to p2
    static double expand(double T, double g, double p1, double p2, double sf) { return p1 > 0 && p2 > 0 ? T + sf * T * (std::pow(p2 / p1, (g - 1) / g) - 1) : T; }
    void check(double dt) {
        std::vector<double> q(N, 0.0), win(N, 0.0), wout(N, 0.0);
        for (auto& e : edges) { double f = e.l->getFlux(), w = e.l->getFlowRate(); if (e.a < N) { q[e.a] -= f; (w > 0 ? wout : win)[e.a] += std::fabs(w); } if (e.b < N) { q[e.b] += f; (w > 0 ? win : wout)[e.b] += std::fabs(w); } }
        for (auto& p : pots) { double pa = nd(p.a).getPotential(), pb = nd(p.b).getPotential(), g = conductance(p.c, law0[p.a], law0[p.b], p.exp), f = g * (pa + p.src - pb); MC_CHECK(near(p.l->getFlux(), f, 1e-7, 1e-10 * g * std::max(pa, pb) + 1e-16) || std::fabs(p.l->getDeltaPotential() + p.src) < 1e-10, "pump %d-%d flows %.9g kmol/s, pressures make %.9g", p.a, p.b, p.l->getFlux(), f); MC_CHECK(near(p.l->getPower(), -1000 * p.l->mVolFlowRate * (pa - pb), 1e-6, 1e-9), "pump has power %.9g", p.l->getPower()); }
        for (auto& s : srcs) { double w = s.demand * (1 - s.block); int u = w > 0 ? s.a : s.b, d = w > 0 ? s.b : s.a; double mw = law0[u == N ? d : u].mw; MC_CHECK(near(s.l->getFlux(), w / mw, 1e-9, 1e-15), "source flows %.9g kmol/s, %.9g kg/s asked of %.9g", s.l->getFlux(), w, mw); MC_CHECK(near(s.l->getPower(), -1000 * s.l->mVolFlowRate * (nd(s.a).getPotential() - nd(s.b).getPotential()), 1e-6, 1e-9), "source has power %.9g", s.l->getPower()); if (w != 0) { int k = u == N ? d : u; double f = s.l->getFlowRate(), v = s.l->mVolFlowRate, r0 = law0[k].rho, r1 = nd(k).getOutflow()->getDensity(); MC_CHECK(std::fabs(v) * std::max(r0, r1) >= std::fabs(f) * 0.999 && std::fabs(v) * std::min(r0, r1) <= std::fabs(f) * 1.001 && v * f > 0, "source has volume flow %.9g, its mass flow makes %.9g", v, f / r0); } }
        for (int i = 0; i < N; i++) { MC_CHECK(near(nd(i).getInflux(), win[i], 1e-6, 1e-10) && near(nd(i).getOutflux(), wout[i], 1e-6, 1e-10), "node %d reports %.9g in and %.9g out, links carry %.9g and %.9g", i, nd(i).getInflux(), nd(i).getOutflux(), win[i], wout[i]); MC_CHECK(near(nd(i).getNetFlux(), win[i] - wout[i], 1e-6, 1e-7 * (win[i] + wout[i]) + 1e-10), "node %d reports net flow %.9g, links make %.9g", i, nd(i).getNetFlux(), win[i] - wout[i]); }
        for (int i = 0; i < N; i++) if (vol[i] > 0) { Vol& x = V[i]; const PolyFluid* c = nd(i).getContent(); double T = Tbefore[i], P = Pbefore[i], rho = info[i][0], mw = info[i][2];
            // mass that the pressure is wrong for is corrected, damped when the correction overshoots
            double m = m0[i], ideal = gas ? m / x.v / mw * R * T : PolyFluid(*c, "i").computePressure(T, m / x.v), err = ideal - P; (void)rho; if (!gas) ideal = info[i][1]; if (edited[i] && !gas) ideal = P; err = ideal - P; if (x.noCorr) x.corr = 0; else { if (x.corr != 0 && std::fabs(err) < 1e-9 * P) x.vague = true; /* sign of rounding */ if (err * x.corr < 0) x.gain *= 0.5; else x.gain = std::min(1.0, x.gain * 1.01);  x.corr = std::fabs(err) > 1e-11 ? err * x.gain : 0; }
            double C = gas ? x.v / R / T : liquidC(i, T, P, x.v), comp = law0[i].rho / mw * (x.vPrev - x.v), therm = gas ? P * x.v / R / T / T * (T - x.tPrev) : liquidTherm(i, T, P, x.v) * (T - x.tPrev), want = P + x.corr + (q[i] * dt + comp + therm) / C, tolP = 1e-5 * std::fabs(want - P) + 1e-5 * std::fabs(therm + comp) / C + 1e-8 * P + (x.vague ? std::fabs(err) : 0) + (gas ? 0 : 1e-2 + 2e-2 * std::fabs(want - P));
            MC_CHECK(near(nd(i).getPotential(), want, 0, tolP), "volume %d goes from %.12g to %.12g kPa, flows make %.12g (correction %.9g)", i, P, nd(i).getPotential(), want, x.corr);
            MC_CHECK(near(x.c->getFlux(), q[i], 1e-6, 1e-7 * (win[i] + wout[i]) / mw + 1e-9 * C * P / dt), "volume %d reports a net flow of %.9g kmol/s, links make %.9g", i, x.c->getFlux(), q[i]); x.vPrev = x.v; x.tPrev = T;
            // heat, expansion and damping
            double out = std::min(wout[i] * dt, m), dT = gas && x.xsf > 0 ? expand(T, snapG[i], P, nd(i).getPotential(), x.xsf) - T : 0; double old = m - out; PolyFluid mix(*c, "m"); mix.setTemperature(T); double eE = old * dT * mix.getSpecificHeat(); xH[i] += x.c->heat * dt + eE; if (dT != 0) hTol[i] = 1e-3 * std::fabs(eE);
            if (x.damp > 0) { double stored = nd(i).mThermalDampingHeat * dt; xH[i] -= stored; double hmix = mix.getSpecificEnthalpy() + x.c->und * dt / c->getMass(), hnew = c->getSpecificEnthalpy() - (dT ? eE / c->getMass() : 0), full = hnew + stored / c->getMass(), want2 = hmix + (full - hmix) * c->getMass() / (c->getMass() + x.damp); MC_CHECK(near(hnew, want2, 1e-7), "damped volume has enthalpy %.9g, %.9g and %.9g kg make %.9g", hnew, c->getMass(), x.damp, want2); }
            validated(); }
        if (more) more(dt); }
    std::vector<double> snapG; double editMass = 0;
    double liquidC(int i, double T, double P, double v) { PolyFluid* c = nd(i).getContent(); return (c->computeDensity(T, P * 1.001) - c->computeDensity(T, P * 0.999)) * v / c->getMWeight() / (P * 0.002); }
    double liquidTherm(int i, double T, double P, double v) { PolyFluid* c = nd(i).getContent(); return (c->computeDensity(T * 0.999, P) - c->computeDensity(T * 1.001, P)) * v / c->getMWeight() / (T * 0.002); }
};
static const std::vector<FP::FluidType> GAS = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2}, LIQ = {FP::GUNNS_WATER, FP::GUNNS_AMMONIA};
// two volumes (and perhaps a junction) joined by a conductor and two other links
static void network() {
    bool gas = !mc::flip("liquid"); int xs = gas ? mc::choose(3, "expansion") : 0; double xsf = xs == 1 ? 1 : xs == 2 ? 0.4 : 0, damp = mc::flip("damping") ? 2 : 0; bool junction = mc::flip("junction"); double exps[] = {0.5, 0.75, 1.0}; double ex = exps[mc::choose(3, "exponent")]; int l1 = mc::choose(6, "link"), same = mc::flip("equal pressures"), intern = gas ? mc::choose(3, "internal fluid") : 0;
    Laws r(junction ? 3 : 2, gas ? GAS : LIQ, gas); r.Tmin = 50; r.Tmax = 1500; FluidState A = gas ? FluidState{310, 120, {0.7, 0.2, 0.1}, {}} : FluidState{300, 300, {0.8, 0.2}, {}}, B = gas ? FluidState{290, same ? 120.0 : 90.0, {0.5, 0.5, 0}, {}} : FluidState{285, same ? 300.0 : 200.0, {0.6, 0.4}, {}}; if (xsf > 0) { A.f = {1, 0, 0}; B.f = A.f; }
    int j = junction ? 2 : 1; r.volume(0, A, 0.8, xsf, damp); r.volume(1, B, 0.5, xsf, 0); if (junction) r.init(2, {295, gas ? 105.0 : 250.0, A.f, {}}, 0); r.ground({300, 100, A.f, {}});
    double e0 = std::min(1.0, std::max(0.5, ex)), scale = gas ? 1e-4 : 1e-6, c0 = scale * std::pow(gas ? 50.0 : 5e6, 0.5 - e0), c1 = scale, sf = intern == 1 ? 1 : intern == 2 ? 0.5 : 0; Cond base; base.initialize(GunnsFluidConductorConfigData("base", &r.F.list, c0, sf, ex), GunnsFluidConductorInputData(false, 0), r.links, 0, j); if (intern) base.internal(); double cb = c0; r.edge(&base, 0, j, &cb, e0);
    Cond back; if (junction) { back.initialize(GunnsFluidConductorConfigData("back", &r.F.list, c1, 0), GunnsFluidConductorInputData(false, 0), r.links, 2, 1); r.edge(&back, 2, 1, &c1); }
    GunnsFluidConductor cg; GunnsFluidPotential po; GunnsFluidSource so; double cp = 0.5 * scale, block = 0; int pa = 0, pb = 1, sa = 0, sb = 1; double src = gas ? 15 : 100, dem = (gas ? 2e-3 : 2e-2);
    if (l1 == 1) { cg.initialize(GunnsFluidConductorConfigData("g", &r.F.list, cp, 0), GunnsFluidConductorInputData(false, 0), r.links, 0, r.N); r.edge(&cg, 0, r.N); }
    if (l1 == 2 || l1 == 3) { if (l1 == 3) { pa = r.N; pb = 0; src = gas ? 130 : 400; } po.initialize(GunnsFluidPotentialConfigData("p", &r.F.list, cp, 0), GunnsFluidPotentialInputData(false, 0, src), r.links, pa, pb); r.edge(&po, pa, pb); r.pots.push_back({&po, pa, pb, cp, src, 0.5}); }
    if (l1 == 4 || l1 == 5) { if (l1 == 5) { sa = r.N; sb = 1; } so.initialize(GunnsFluidSourceConfigData("s", &r.F.list), GunnsFluidSourceInputData(false, 0, dem), r.links, sa, sb); r.edge(&so, sa, sb); r.srcs.push_back({&so, sa, sb, dem, 0}); }
    r.start(); bool bl = false; double exp0 = sf;
    r.more = [&](double dt) { if (intern) { double w = base.getFlowRate(); if (std::fabs(w) > 1e-13) { int u = w > 0 ? 0 : j, t = w > 0 ? j : 0; const PolyFluid* o = r.nd(u).getOutflow(); PolyFluid f(*o, "f"); double T = Laws::expand(o->getTemperature(), o->getAdiabaticIndex(), r.nd(u).getPotential(), r.nd(t).getPotential(), exp0); f.setTemperature(T); MC_CHECK(near(base.mInternalFluid->getTemperature(), T, 1e-9), "fluid expands to %.9g K, expected %.9g", base.mInternalFluid->getTemperature(), T); r.xH[t] += std::fabs(w) * dt * (f.getSpecificEnthalpy() - o->getSpecificEnthalpy()); } }
        if (l1 == 1) { double P = r.nd(0).getPotential(), g = r.conductance(cp * (1 - block), r.law0[0], r.law0[r.N]); MC_CHECK(near(cg.getFlux(), g * P, 1e-7, 1e-16), "leak flows %.9g kmol/s, pressure makes %.9g", cg.getFlux(), g * P); } };
    for (int d = 0; d < tierPick(3, 4); d++) { int ev = mc::choose(12, "event"); double dt = ev == 1 ? 0.5 : 0.1; std::fill(r.edited.begin(), r.edited.end(), false); Laws::Law a = r.lawOf(0), b = r.lawOf(j); double dP = std::fabs(a.P - b.P), use = std::max(1e-5, dP) * 1000 * 0.5 * (a.rho + b.rho); auto tune = [&](double w) { double c = dP > 2.3e-16 ? std::fabs(w) / std::pow(use, e0) : 0; c0 = cb = c; bl = false; };
        if (ev == 2) { bl = !bl; base.setMalfBlockage(bl, 0.4); cb = bl ? 0.6 * c0 : c0; } if (ev == 3) { c0 *= 0.5; base.mMaxConductivity = c0; cb = bl ? 0.6 * c0 : c0; }
        if (ev == 4) { double w = gas ? 3e-3 : 0.05; base.mTuneMode = GunnsFluidUtils::MASS; base.mTuneMassFlow = w; tune(w); } if (ev == 5) { double v = d & 1 ? -2e-3 : 2e-3; if (!gas) v *= 0.03; base.mTuneMode = GunnsFluidUtils::TRUE_VOL; base.mTuneVolFlow = v; tune(v * (v >= 0 ? a.rho : b.rho)); } if (ev == 6) { double v = gas ? 2e-3 : 0.04; base.mTuneMode = GunnsFluidUtils::STD_VOL; base.mTuneVolFlow = v; tune(v * 1.2041); }
        if (ev == 7) { if (!intern) return; double dT = d ? 30 : 1.5; base.mTuneMode = GunnsFluidUtils::DELTA_T; base.mTuneDeltaT = dT; int u = a.P >= b.P ? 0 : j, t = u ? 0 : j; const PolyFluid* o = r.nd(u).getContent(); double pu = r.lawOf(u).P, pt = r.lawOf(t).P, g = o->getAdiabaticIndex(); if (std::fabs(pu - pt) < 1e-3) return; exp0 = std::max(0.0, std::min(1.0, dT / (o->getTemperature() * (1 - std::pow(pt / pu, (g - 1) / g))))); }
        if (ev == 8) { if (l1 == 0) return; block = block ? 0 : 0.3; if (l1 == 1) cg.setMalfBlockage(block > 0, 0.3); if (l1 == 2 || l1 == 3) { po.setMalfBlockage(block > 0, 0.3); r.pots[0].c = cp * (1 - block); } if (l1 >= 4) { so.setMalfBlockage(block > 0, 0.3); r.srcs[0].block = block; } }
        if (ev == 9) { if (l1 < 2) return; if (l1 < 4) { src = l1 == 3 ? src * 0.8 : -src; po.setSourcePressure(src); r.pots[0].src = src; } else { dem = -dem; so.setFlowDemand(dem); r.srcs[0].demand = dem; } }
        if (ev == 10) { if (!gas) return; auto& x = r.V[0]; double v = x.v * (d & 1 ? 0.9 : 1.05); if (d == 2) { x.c->editVolume(true, v); r.nd(0); x.vPrev = v; double m = r.nd(0).getContent()->getDensity() * v; r.editMass = m; r.edited[0] = true; } x.v = v; x.c->v = v; r.vol[0] = v; }
        if (ev == 11) { auto& x = r.V[0]; x.c->heat = x.c->heat ? 0 : 300; if (damp) x.c->und = x.c->heat * 0.3; }
        if (!r.go(dt)) return; } }
// pressure of a closed volume comes to what its mass makes, from any error
static void settle() {
    bool gas = !mc::flip("liquid"); FluidState A = gas ? FluidState{310, 120, {0.7, 0.2, 0.1}, {}} : FluidState{300, 300, {0.8, 0.2}, {}}; Laws r(1, gas ? GAS : LIQ, gas); r.extra = nullptr; r.volume(0, A, 0.8, 0, 0); r.ground(A); r.start(); bool off = mc::flip("no correction"); r.V[0].c->mDisablePressureCorrection = off; double k[] = {0.3, 0.999, 1.0, 1.001, 2.0}, m = r.mass(0) * (gas ? k[mc::choose(5, "mass")] : 1 + (mc::choose(3, "mass") - 1) * 1e-5), P0 = r.nd(0).getPotential();
    r.nd(0).getContent()->setMass(m); int n = tierPick(60, 200); for (int i = 0; i < n; i++) { r.G.step(0.1); mc::step(); } const PolyFluid* c = r.nd(0).getContent(); double ideal = gas ? m / 0.8 / c->getMWeight() * R * c->getTemperature() : PolyFluid(*c, "c").computePressure(c->getTemperature(), m / 0.8); MC_CHECK(near(r.mass(0), m, 1e-9), "closed volume has %.12g kg, had %.12g", r.mass(0), m); validated();
    if (off) MC_CHECK(near(r.nd(0).getPotential(), P0, 1e-6), "pressure moves from %.9g to %.9g with correction off", P0, r.nd(0).getPotential()); else MC_CHECK(near(r.nd(0).getPotential(), ideal, 1e-7), "closed volume settles at %.12g kPa, its mass makes %.12g", r.nd(0).getPotential(), ideal); }
int main(int c, char** v) { add("network", network); add("settle", settle); return mc::run(c, v, "C23"); }
