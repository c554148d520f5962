// Fluid nodes and helpers shared by the fluid checks.
#ifndef FLUID_HH
#define FLUID_HH
#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidLink.hh"
#include "aspects/fluid/fluid/PolyFluid.hh"
#include "properties/FluidProperties.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cfloat>
#include <algorithm>
#include <memory>
#include <vector>
#include <functional>
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidConductor.hh"
#include "core/GunnsFluidPotential.hh"
#include "core/GunnsFluidSource.hh"
#include "aspects/fluid/fluid/GunnsFluidTraceCompounds.hh"
#include "mc.hh"

inline DefinedFluidProperties& fluidProps() { static DefinedFluidProperties p; return p; }
// Nodes of one network with the given constituents; the last node is ground.
struct FluidNodes {
    int N; std::vector<FluidProperties::FluidType> types; PolyFluidConfigData config; std::unique_ptr<GunnsFluidNode[]> nodes; GunnsNodeList list;
    FluidNodes(int n, const std::vector<FluidProperties::FluidType>& t, const GunnsFluidTraceCompoundsConfigData* tc = 0) : N(n), types(t), config(&fluidProps(), types.data(), (int)types.size(), tc), nodes(new GunnsFluidNode[n + 1]) {
        static const char* nm[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"};
        for (int i = 0; i <= N; i++) nodes[i].initialize(i == N ? "Ground" : nm[i], &config);
        list.mNodes = nodes.get(); list.mNumNodes = N + 1;
    }
    void fill(int i, double T, double P, const std::vector<double>& fractions, const GunnsFluidTraceCompoundsInputData* tc = 0) { std::vector<double> f(fractions); PolyFluidInputData in(T, P, 0.0, 0.0, f.data(), tc); nodes[i].getContent()->initialize(config, in); }
    ~FluidNodes() {}
};

// A fluid network, and the conservation oracle: each node's constituents, trace compounds and enthalpy change by exactly what its links carry.
struct FluidState { double T, P; std::vector<double> f, tc; };
struct FluidRig {
    FluidNodes F; Gunns G; std::vector<GunnsBasicLink*> links; int N, K, TC; bool energy; double Tmin, Tmax; std::vector<double> vol;
    struct Edge { GunnsFluidLink* l; int a, b; const double* cond; double exponent; }; struct Law { double rho, mw, P; }; std::vector<Law> law0; std::vector<Edge> edges; std::vector<std::unique_ptr<GunnsFluidCapacitor>> caps; std::vector<int> capNode;
    std::vector<double> m0, H0, n0; std::vector<std::vector<double>> s0, t0; std::vector<double> tcMW; bool stop; std::function<void(double)> extra; std::function<void()> adjust; std::vector<double> hTol; std::vector<double> xH; std::vector<std::vector<double>> xS, xT; struct Snap { double mw, h; std::vector<double> f, x; }; std::vector<Snap> snap;
    Snap take(const PolyFluid* o) { Snap s; s.mw = o->getMWeight(); s.h = o->getSpecificEnthalpy(); for (int k = 0; k < K; k++) s.f.push_back(o->getMassFraction(k)); for (int k = 0; k < TC; k++) s.x.push_back(o->getTraceCompounds()->getMoleFractions()[k]); return s; }
    FluidRig(int n, const std::vector<FluidProperties::FluidType>& t, const GunnsFluidTraceCompoundsConfigData* tc = 0) : F(n, t, tc), N(n), K((int)t.size()), TC(tc ? tc->mNTypes : 0), energy(true), Tmin(1e9), Tmax(0), vol(n, 0.0), stop(false) {
        for (int k = 0; k < TC; k++) tcMW.push_back(tc->mCompounds[k]->mMWeight); G.initializeFluidNodes(F.list); }
    GunnsFluidNode& nd(int i) { return F.nodes[i]; }
    void init(int i, const FluidState& s, double volume, double expansion = 0.0) {
        GunnsFluidTraceCompoundsInputData tin(const_cast<double*>(s.tc.data())); std::vector<double> f(s.f); PolyFluidInputData in(s.T, s.P, 0.0, 0.0, f.data(), TC ? &tin : 0);
        F.nodes[i].getContent()->initialize(F.config, in); F.nodes[i].mOutflow.initialize(F.config, in); if (i < N) { Tmin = std::min(Tmin, s.T); Tmax = std::max(Tmax, s.T); }
        if (i < N && volume > 0.0) { vol[i] = volume; if (expansion) energy = false; caps.emplace_back(new GunnsFluidCapacitor); capNode.push_back(i); caps.back()->initialize(GunnsFluidCapacitorConfigData("cap", &F.list, expansion), GunnsFluidCapacitorInputData(false, 0, volume, &in), links, i, N); }
    }
    // cond: the conductivity the link's flow must follow (kg^0.5 m^1.5... as configured), or null
    void edge(GunnsFluidLink* l, int a, int b, const double* cond = 0, double exponent = 0.5) { edges.push_back({l, a, b, cond, exponent}); }
    // conductance (kmol/kPa/s) between two fluids of a link of conductivity c, linearized about their pressures
    static double conductance(double c, const Law& x, const Law& y, double exponent = 0.5, double minLin = 1e-5) { double rho = 0.5 * (x.rho + y.rho), mw = x.mw <= 0 ? y.mw : y.mw <= 0 ? x.mw : 0.5 * (x.mw + y.mw), dP = std::max(minLin, std::fabs(x.P - y.P)); return mw <= 0 ? 0 : c * std::pow(rho * dP * 1000, std::min(1.0, std::max(0.5, exponent))) / dP / mw; }
    Law lawOf(int i) { const PolyFluid* o = nd(i).getContent(); return {o->getDensity(), o->getMWeight(), o->getPressure()}; }
    void start(int minor = 10) { G.initialize(GunnsConfigData("net", 1e-8, 1e-5, minor, minor), links); }
    double mass(int i) { return vol[i] > 0 ? nd(i).getContent()->getMass() : 0.0; }
    double tcMass(int i, int k) { return vol[i] > 0 ? nd(i).getContent()->getTraceCompounds()->getMasses()[k] : 0.0; }
    void before() { law0.clear(); for (int i = 0; i <= N; i++) law0.push_back(lawOf(i)); m0.clear(); H0.clear(); n0.clear(); s0.clear(); t0.clear(); snap.clear(); for (int i = 0; i < N; i++) snap.push_back(take(nd(i).getContent()));
        for (int i = 0; i < N; i++) { double m = mass(i); m0.push_back(m); n0.push_back(nd(i).getContent()->getMole()); H0.push_back(m * nd(i).getContent()->getSpecificEnthalpy()); s0.emplace_back(); t0.emplace_back(); for (int k = 0; k < K; k++) s0[i].push_back(m * nd(i).getContent()->getMassFraction(k)); for (int k = 0; k < TC; k++) t0[i].push_back(tcMass(i, k)); } }
    // Flow cycles through overflowing nodes and sources draining more than there is are documented to violate conservation.
    bool exempt(double dt) {
        std::vector<double> out(N, 0.0), in(N, 0.0); for (auto& e : edges) { double f = e.l->getFlux(); int s = f > 0 ? e.a : e.b, t = f > 0 ? e.b : e.a; if (f == 0) continue; if (s < N) out[s] += std::fabs(f) * dt; if (t < N) in[t] += std::fabs(f) * dt; }
        std::vector<bool> over(N); for (int i = 0; i < N; i++) { double P = nd(i).getPotential(); if (P < 0.0 || P > 1e5) return true;   // sources forced an impossible pressure
            over[i] = out[i] > n0[i] * (1 - 1e-9); if (out[i] > (n0[i] + in[i]) * (1 + 1e-7) + 1e-12) return true; if (vol[i] > 0 && (n0[i] + in[i] - out[i]) < 1e-9) return true; }
        std::vector<std::vector<bool>> r(N, std::vector<bool>(N, false)); for (auto& e : edges) { double f = e.l->getFlux(); int s = f > 0 ? e.a : e.b, t = f > 0 ? e.b : e.a; if (f != 0 && s < N && t < N && over[s] && over[t]) r[s][t] = true; }
        for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
        for (int i = 0; i < N; i++) if (r[i][i]) return true;
        return false; }
    // extra(dt) may set xS, xT and xH: mass of each constituent and trace compound and enthalpy that links add to each node beyond their flow rates.
    bool step(double dt) {
        before(); if (adjust) adjust(); hTol.assign(N, 0.0); G.step(dt); mc::step(); if (mc::tracing()) { for (int i = 0; i < N; i++) mc::trace("node %d P %.9g T %.9g m %.9g h %.9g", i, nd(i).getPotential(), nd(i).getContent()->getTemperature(), mass(i), nd(i).getContent()->getSpecificEnthalpy()); for (auto& e : edges) mc::trace("link %d-%d flux %.9g flow %.9g G %.6g", e.a, e.b, e.l->getFlux(), e.l->getFlowRate(), e.l->mAdmittanceMatrix[0]); } if (exempt(dt)) { stop = true; return false; } xH.assign(N, 0.0); xS.assign(N, std::vector<double>(K, 0.0)); xT.assign(N, std::vector<double>(TC, 0.0)); if (extra) extra(dt); after(dt); return true; }
    void after(double dt) {
        std::vector<double> dm(N, 0.0), dH(N, 0.0), scale(N, 1e-12), hscale(N, 1e-7); std::vector<std::vector<double>> ds(N, std::vector<double>(K, 0.0)), dt_(N, std::vector<double>(TC, 0.0));
        for (int i = 0; i < N && xH.size(); i++) { dH[i] += xH[i]; hscale[i] += std::fabs(xH[i]); for (int k = 0; k < K; k++) { ds[i][k] += xS[i][k]; dm[i] += xS[i][k]; scale[i] += std::fabs(xS[i][k]); } for (int k = 0; k < TC; k++) dt_[i][k] += xT[i][k]; }
        for (auto& e : edges) { for (int q = 0; q < 2; q++) { int i = q ? e.b : e.a; if (i < N) scale[i] += 1e-7 * std::fabs(e.l->mAdmittanceMatrix[0]) * nd(i).getPotential() * dt * 30; }   // rounding of the solution
            if (e.cond) { double g = conductance(*e.cond, law0[e.a], law0[e.b], e.exponent), pa = nd(e.a).getPotential(), pb = nd(e.b).getPotential(), f = g * (pa - pb); MC_CHECK(mc::near(e.l->getFlux(), f, 1e-7, 1e-11 * g * std::max(pa, pb) + 1e-16), "link %d-%d flows %.9g kmol/s, %.9g kPa drive %.9g", e.a, e.b, e.l->getFlux(), pa - pb, f); int u = f > 0 ? e.a : e.b; if (f != 0 && u < N) { double w = e.l->getFlowRate(), r0 = law0[u].rho, r1 = nd(u).getOutflow()->getDensity(), v = w / r0; MC_CHECK(std::fabs(e.l->mVolFlowRate) * std::max(r0, r1) >= std::fabs(w) * 0.999 && std::fabs(e.l->mVolFlowRate) * std::min(r0, r1) <= std::fabs(w) * 1.001 && e.l->mVolFlowRate * w >= 0, "link %d-%d has volume flow %.9g, its mass flow makes %.9g", e.a, e.b, e.l->mVolFlowRate, v); MC_CHECK(mc::near(e.l->getPower(), -1000 * e.l->mVolFlowRate * (pa - pb), 1e-6, 1e-9), "link %d-%d has power %.9g for %.9g m3/s", e.a, e.b, e.l->getPower(), e.l->mVolFlowRate); } }
            double w = e.l->getFlowRate() * dt; int s = w > 0 ? e.a : e.b, t = w > 0 ? e.b : e.a; w = std::fabs(w); if (w <= 0) continue;
            MC_CHECK(e.l->getFlowRate() * e.l->getFlux() >= 0, "flow rate %g against flux %g", e.l->getFlowRate(), e.l->getFlux());
            Snap o = s == N ? snap[t] : take(nd(s).getOutflow()); // what comes from ground has the state of the node it goes to
             MC_CHECK(mc::near(w, std::fabs(e.l->getFlux()) * dt * o.mw, 1e-9, 1e-12), "flow %g kg, flux makes %g", w, std::fabs(e.l->getFlux()) * dt * o.mw);
            for (int q = 0; q < 2; q++) { int i = q ? t : s; double g = q ? w : -w; if (i >= N) continue; dm[i] += g; dH[i] += g * o.h; scale[i] += w; hscale[i] += w * o.h; for (int k = 0; k < K; k++) ds[i][k] += g * o.f[k];
                for (int k = 0; k < TC; k++) dt_[i][k] += g / o.mw * o.x[k] * tcMW[k]; } }
        for (int i = 0; i < N; i++) { GunnsFluidNode& n = nd(i); const PolyFluid* c = n.getContent(); double sum = 0, tol = 1e-9 * (scale[i] + m0[i]) + 1e-12;
            MC_CHECK(std::isfinite(c->getTemperature()) && std::isfinite(c->getPressure()) && std::isfinite(mass(i)), "node %d not finite", i);
            for (int k = 0; k < K; k++) { double f = c->getMassFraction(k); sum += f; MC_CHECK(f >= 0 && f <= 1 + 1e-6, "node %d has mass fraction %d = %g", i, k, f); }
            MC_CHECK(mc::near(sum, 1.0, 1e-6), "mass fractions of node %d add up to %.9g", i, sum);
            MC_CHECK(mass(i) >= 0, "node %d has mass %g", i, mass(i));
            if (vol[i] > 0) {
                MC_CHECK(mc::near(mass(i), m0[i] + dm[i], 0, tol), "node %d has mass %.12g, flows make %.12g (was %.12g)", i, mass(i), m0[i] + dm[i], m0[i]);
                for (int k = 0; k < K; k++) MC_CHECK(mc::near(mass(i) * c->getMassFraction(k), s0[i][k] + ds[i][k], 0, tol + 2e-7 * mass(i)), "node %d has %.12g kg of constituent %d, flows make %.12g (was %.12g)", i, mass(i) * c->getMassFraction(k), k, s0[i][k] + ds[i][k], s0[i][k]);
                for (int k = 0; k < TC; k++) MC_CHECK(mc::near(tcMass(i, k), t0[i][k] + dt_[i][k], 0, 1e-7 * (std::fabs(t0[i][k]) + scale[i] * 1e-3) + 1e-14), "node %d has %.12g kg of trace compound %d, flows make %.12g (was %.12g)", i, tcMass(i, k), k, t0[i][k] + dt_[i][k], t0[i][k]);
                if (energy) MC_CHECK(mc::near(mass(i) * c->getSpecificEnthalpy(), H0[i] + dH[i], 0, 1e-8 * (hscale[i] + H0[i]) + hTol[i]), "node %d has enthalpy %.12g, flows make %.12g (was %.12g)", i, mass(i) * c->getSpecificEnthalpy(), H0[i] + dH[i], H0[i]);
            } else { MC_CHECK(mc::near(dm[i], 0.0, 0, 1e-6 * scale[i] + 1e-11), "node %d without volume gains %g kg of %g", i, dm[i], scale[i]);
                for (int k = 0; k < K; k++) MC_CHECK(mc::near(ds[i][k], 0.0, 0, 1e-6 * scale[i] + 1e-11), "node %d without volume gains %g kg of constituent %d of %g", i, ds[i][k], k, scale[i]);
                for (int k = 0; k < TC; k++) MC_CHECK(mc::near(dt_[i][k], 0.0, 0, 1e-6 * scale[i] * 1e-2 + 1e-11), "node %d without volume gains %g kg of trace compound %d", i, dt_[i][k], k);
                if (energy) MC_CHECK(mc::near(dH[i], 0.0, 0, 1e-6 * hscale[i] + 4e-6 + scale[i]), "node %d without volume gains %g J of %g", i, dH[i], hscale[i]); }
            if (energy) MC_CHECK(c->getTemperature() > Tmin - 1e-3 && c->getTemperature() < Tmax + 1e-3, "node %d has temperature %.9g outside of %g to %g", i, c->getTemperature(), Tmin, Tmax);
        }
    }
};
#endif
