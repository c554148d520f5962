// mc: hflags=-fno-access-control
// C20: fluid networks conserve every constituent, trace compound and energy at every node in every step.
#include "fluid.hh"
using FP = FluidProperties;
static const FluidState states[4] = {{290.0, 100.0, {1.0, 0.0}, {1e-4, 0.0}}, {350.0, 180.0, {0.25, 0.75}, {0.0, 2e-3}}, {230.0, 20.0, {0.5, 0.5}, {1e-5, 3e-5}}, {300.0, 1e-6, {0.0, 1.0}, {5e-5, 0.0}}};
static const double volumes[3] = {1.0, 0.0, 0.01};
static void net(int n, const std::vector<std::pair<int, int>>& slots, bool tc, int nsteps, int kinds) {
    ChemicalCompound::Type tt[2] = {ChemicalCompound::CO, ChemicalCompound::NH3}; std::unique_ptr<DefinedChemicalCompounds> dc; static GunnsFluidTraceCompoundsConfigData tcc(tt, 2, "tc");
    FluidRig r(n, {FP::GUNNS_N2, FP::GUNNS_O2}, tc ? &tcc : 0);
    int shift = tc ? 1 : 0; std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(volumes[mc::choose(3, "volume")]);
    for (int i = 0; i <= n; i++) r.init(i, states[i == n ? 3 : (i + shift) % 3], i == n ? 0.0 : v[i]);
    std::vector<std::unique_ptr<GunnsFluidLink>> own; std::vector<int> kind; std::vector<int> comp(n + 1); for (int i = 0; i <= n; i++) comp[i] = i;
    std::function<int(int)> find = [&](int x) { return comp[x] == x ? x : comp[x] = find(comp[x]); };
    GunnsNodeList* L = &r.F.list;
    for (auto& s : slots) { int k = mc::choose(kinds, "link"); kind.push_back(k); if (!k) continue; int a = s.first < 0 ? n : s.first, b = s.second < 0 ? n : s.second;
        if (k == 1) { auto* l = new GunnsFluidConductor; own.emplace_back(l); l->initialize(GunnsFluidConductorConfigData("c", L, 1e-6, 0.0), GunnsFluidConductorInputData(false, 0.0), r.links, a, b); comp[find(a)] = find(b); }
        if (k == 2) { auto* l = new GunnsFluidConductor; own.emplace_back(l); l->initialize(GunnsFluidConductorConfigData("c", L, 2e-3, 0.0, 1.0), GunnsFluidConductorInputData(false, 0.5), r.links, a, b); comp[find(a)] = find(b); }
        if (k == 3) { auto* l = new GunnsFluidPotential; own.emplace_back(l); l->initialize(GunnsFluidPotentialConfigData("p", L, 1e-4, 0.0), GunnsFluidPotentialInputData(false, 0.5, 40.0), r.links, a, b); comp[find(a)] = find(b); }
        if (k == 4) { auto* l = new GunnsFluidSource; own.emplace_back(l); l->initialize(GunnsFluidSourceConfigData("s", L), GunnsFluidSourceInputData(false, 0.5, 0.02), r.links, a, b); }
        r.edge(own.back().get(), a, b); }
    if (own.empty()) mc::prune();
    for (int i = 0; i < n; i++) { if (v[i] > 0) continue; bool ok = find(i) == find(n); for (int j = 0; j < n; j++) ok = ok || (v[j] > 0 && find(i) == find(j)); if (!ok) mc::prune(); }
    if (r.links.empty()) mc::prune();
    r.start();
    double dt = 0.1; bool any = false;
    for (int k = 0; k < nsteps; k++) {
        int act = k ? mc::choose(4, "action") : 0;
        if (act == 1) for (auto& e : r.edges) { e.l->mMalfBlockageFlag = !e.l->mMalfBlockageFlag; break; }
        if (act == 2) dt = dt < 0.5 ? 1.0 : 0.02;
        if (act == 3) { size_t q = 0; for (size_t i = 0; i < kind.size(); i++) if (kind[i]) { GunnsFluidLink* l = own[q++].get(); if (kind[i] == 4) ((GunnsFluidSource*)l)->mFlowDemand *= -1; if (kind[i] == 3) ((GunnsFluidPotential*)l)->mSourcePressure *= -1; if (kind[i] == 2) ((GunnsFluidConductor*)l)->mMaxConductivity *= 0.01; } }
        if (!r.step(dt)) { mc::outcome("exempt"); return; }
        for (auto& e : r.edges) any = any || e.l->getFlowRate() != 0;
    }
    mc::Hash h; for (int i = 0; i < n; i++) h.d(r.nd(i).getContent()->getPressure()).d(r.nd(i).getContent()->getTemperature()).d(r.nd(i).getContent()->getMassFraction(0)); mc::state(h.h);
    mc::outcome(any ? "flow" : "no flow");
}
int main(int argc, char** argv) {
    mc::add("two", [] { net(2, {{0, 1}, {1, 0}, {0, -1}, {1, -1}, {-1, 1}}, mc::flip(), 3, 5); });
    mc::add("three", [] { net(3, {{0, 1}, {2, 1}, {0, 2}, {1, -1}, {-1, 0}}, true, 2, 5); });
    mc::add("chain4", [] { net(4, {{3, 2}, {2, 1}, {1, 0}, {0, -1}, {3, 0}}, false, 2, 4); });
    mc::add("deep", [] { net(3, {{0, 1}, {2, 1}, {0, 2}, {1, -1}, {-1, 0}, {2, -1}}, true, 4, 5); }, 1);
    mc::bounds("2-4 nodes each with volume 1, 0 or 0.01 m3, in 3 states of two gases and two trace compounds; each of 5-6 link slots empty, weak or strong conductor, pressure source or flow source; 2-4 steps with blockage toggled, sources reversed, conductance or time step changed");
    mc::assume("flow cycles through overflowing nodes, and sources draining more than a node holds, are exempt (documented conservation errors)");
    return mc::run(argc, argv, "C20");
}
