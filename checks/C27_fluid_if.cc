// mc: hflags=-fno-access-control
// C27: fluid networks joined by distributed interface links exchange exactly what each message says, nothing is created or lost on the way, and the pressures settle.
#include "fluid.hh"
#include "core/GunnsFluidDistributedIf.hh"
#include <deque>
using FP = FluidProperties;
static const FP::FluidType T3[3] = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O};
static double mwOf(int k) { return fluidProps().getProperties(T3[k])->getMWeight(); }
static const FluidState states[5] = {{290.0, 100.0, {1.0, 0.0, 0.0}, {1e-4, 0.0}}, {350.0, 180.0, {0.25, 0.75, 0.0}, {0.0, 2e-3}}, {250.0, 20.0, {0.5, 0.3, 0.2}, {1e-5, 3e-5}}, {310.0, 150.0, {0.0, 0.9, 0.1}, {5e-5, 0.0}}, {300.0, 1e-6, {0.0, 1.0, 0.0}, {5e-5, 0.0}}};
struct Msg { unsigned fc, fl; bool demand; double e, cap, src; std::vector<double> f, tc; };
static GunnsFluidTraceCompoundsConfigData& tcConfig() { static std::unique_ptr<DefinedChemicalCompounds> dc(new DefinedChemicalCompounds); static ChemicalCompound::Type tt[2] = {ChemicalCompound::CO, ChemicalCompound::NH3}; static GunnsFluidTraceCompoundsConfigData t(tt, 2, "tc"); return t; }
struct Led { std::vector<double> s, t; double h, scale; };
struct Probe : GunnsFluidDistributedIf { std::function<void()> in, out; void processInputs() { GunnsFluidDistributedIf::processInputs(); if (in) in(); } void processOutputs() { if (out) out(); GunnsFluidDistributedIf::processOutputs(); } };   // looks at the link between its own stages
struct Side {
    FluidRig r; Probe link; std::unique_ptr<GunnsFluidLink> l; bool tc, enthalpy; int over; int lat; std::deque<Msg> wire; bool suspended, last, started; Led led; Msg in; bool got; GunnsFluidCapacitor* ifcap; int kind; double lastOut[4]; bool sent0; double g0;
    Side(bool tc_, bool enth, int over_, int latency) : r(2, {T3[0], T3[1], T3[2]}, tc_ ? &tcConfig() : 0), tc(tc_), enthalpy(enth), over(over_), lat(latency), suspended(true), last(false), started(false), got(false), ifcap(0), kind(0) {}
    void build(const FluidState& s0, double v0, const FluidState& s1, double v1, int kind_, bool master, bool option, int force) {
        volume = v1; kind = kind_; r.init(0, s0, v0); r.init(1, s1, v1); r.init(2, states[4], 0.0); ifcap = r.caps.back().get(); GunnsNodeList* L = &r.F.list;
        if (kind == 0) { auto* c = new GunnsFluidConductor; l.reset(c); c->initialize(GunnsFluidConductorConfigData("c", L, 1e-4, 0.0), GunnsFluidConductorInputData(false, 0.0), r.links, 0, 1); }
        if (kind == 1) { auto* c = new GunnsFluidConductor; l.reset(c); c->initialize(GunnsFluidConductorConfigData("c", L, 2e-2, 0.0, 1.0), GunnsFluidConductorInputData(false, 0.0), r.links, 0, 1); }
        if (kind == 2) { auto* c = new GunnsFluidPotential; l.reset(c); c->initialize(GunnsFluidPotentialConfigData("p", L, 1e-4, 0.0), GunnsFluidPotentialInputData(false, 0.0, 30.0), r.links, 0, 1); }
        GunnsFluidDistributedIfConfigData cfg("if", L, master, enthalpy, option, ifcap); if (over) cfg.overrideInterfaceMixtureSizes(over == 1 ? 5 : 3, over == 1 ? 4 : (tc ? 2 : 0));
        link.initialize(cfg, GunnsFluidDistributedIfInputData(false, 0.0, force == 1, force == 2), r.links, 1); r.start(); }
    Led ledger() { Led d; d.s.assign(3, 0.0); d.t.assign(2, 0.0); d.h = 0; d.scale = 0; for (int i = 0; i < 2; i++) { GunnsFluidNode& n = r.nd(i); if (n.getVolume() <= 0) continue; double m = n.getContent()->getMass(); d.scale += m; d.h += m * n.getContent()->getSpecificEnthalpy();
            for (int k = 0; k < 3; k++) d.s[k] += m * n.getContent()->getMassFraction(k); if (tc) for (int k = 0; k < 2; k++) d.t[k] += n.getContent()->getTraceCompounds()->getMasses()[k]; } return d; }
    bool demand() { return link.mInterface.isInDemandRole(); }
    double enthalpyOf(const Msg& m) { if (enthalpy) return m.e; double f[3], s = 0; for (int k = 0; k < 3; k++) s += (f[k] = m.f[k] * mwOf(k)); for (int k = 0; k < 3; k++) f[k] /= s; PolyFluidInputData in(m.e, 100.0, 0.0, 0.0, f); PolyFluid p(r.F.config, in); return p.getSpecificEnthalpy(); }
    Led carries(const Msg& m, double dt) { Led d; d.t.assign(2, 0.0); double n = m.src * dt, mass = 0; for (int k = 0; k < 3; k++) { d.s.push_back(n * m.f[k] * mwOf(k) * 1e-3); mass += d.s[k]; } if (tc) for (int k = 0; k < 2; k++) d.t[k] = n * m.tc[k] * tcConfig().mCompounds[k]->mMWeight * 1e-3; d.h = n == 0 ? 0 : mass * enthalpyOf(m); d.scale = std::fabs(mass); return d; }
    void compare(const char* what, const Led& a, const Led& b, const Led& add, double sign) {
        double tol = 1e-9 * (a.scale + b.scale) + 1e-6 * add.scale + 1e-12;
        for (int k = 0; k < 3; k++) MC_CHECK(mc::near(b.s[k] - a.s[k], sign * add.s[k], 0, tol), "%s: network gains %.9g kg of constituent %d, the message says %.9g", what, b.s[k] - a.s[k], k, sign * add.s[k]);
        if (tc) for (int k = 0; k < 2; k++) MC_CHECK(mc::near(b.t[k] - a.t[k], sign * add.t[k], 1e-6, 1e-3 * tol), "%s: network gains %.9g kg of trace compound %d, the message says %.9g", what, b.t[k] - a.t[k], k, sign * add.t[k]);
        MC_CHECK(mc::near(b.h - a.h, sign * add.h, 0, 1e-8 * (std::fabs(a.h) + std::fabs(b.h)) + 1e-5 * std::fabs(add.h) + 1e-6), "%s: network gains %.9g J, the message carries %.9g", what, b.h - a.h, sign * add.h); }
    Msg out() { const auto& o = link.mOutData; Msg m{o.mFrameCount, o.mFrameLoopback, o.mDemandMode, o.mEnergy, o.mCapacitance, o.mSource, {}, {}}; for (int k = 0; k < 3; k++) m.f.push_back(o.mMoleFractions[k]); for (int k = 0; k < 2; k++) m.tc.push_back(tc ? o.mTcMoleFractions[k] : 0.0);
        if (over == 1) { for (int k = 3; k < 5; k++) MC_CHECK(o.mMoleFractions[k] == 0.0, "unused fraction %d of the interface is %g", k, o.mMoleFractions[k]); for (int k = 2; k < 4; k++) MC_CHECK(o.mTcMoleFractions[k] == 0.0, "unused trace fraction %d of the interface is %g", k, o.mTcMoleFractions[k]); }
        return m; }
    void feed(const Msg& m) { auto& i = link.mInData; i.mFrameCount = m.fc; i.mFrameLoopback = m.fl; i.mDemandMode = m.demand; i.mEnergy = m.e; i.mCapacitance = m.cap; i.mSource = m.src; for (int k = 0; k < 3; k++) i.mMoleFractions[k] = m.f[k]; if (tc) for (int k = 0; k < 2; k++) i.mTcMoleFractions[k] = m.tc[k]; in = m; got = true; }
    // one frame; returns false where the network leaves what can be simulated (exempt)
    bool frame(double dt, const char* name) {
        while ((int)wire.size() >= lat) { feed(wire.front()); wire.pop_front(); }
        frames++; double lag = frames - (got ? (double)in.fl : 0.0); bool before = demand(), now = before; double v1 = r.nd(1).getVolume(); Led a = ledger(), b = a; bool fluid = false, flow = false; double sentFlux = 0; GunnsFluidDistributedIf& lk = link;
        link.in = [&] { now = demand(); if (now != before) suspended = true;
        fluid = now && got && !in.demand && in.fc > 0 && in.e > 0; flow = !now && got && in.demand && in.fc > 0 && in.e > 0;
        if (now && !before) MC_CHECK(v1 > 0 || !started, "%s switched to demand without a volume", name);
        if (fluid) { GunnsFluidNode& n = r.nd(1); MC_CHECK(mc::near(n.getContent()->getPressure(), in.src * 1e-3, 1e-9), "%s: demand node at %.9g kPa, the supply says %.9g Pa", name, n.getContent()->getPressure(), in.src);
            MC_CHECK(mc::near(n.getContent()->getSpecificEnthalpy(), enthalpyOf(in), 1e-8), "%s: demand node at %.9g J/kg, the supply says %.9g", name, n.getContent()->getSpecificEnthalpy(), enthalpyOf(in)); double b = in.f[0] + in.f[1] + in.f[2];
            for (int k = 0; k < 3; k++) MC_CHECK(mc::near(n.getContent()->getMoleFraction(k), in.f[k] / b, 1e-9, 1e-12), "%s: demand node has mole fraction %d %.9g, the supply says %.9g", name, k, n.getContent()->getMoleFraction(k), in.f[k] / b);
            if (tc) for (int k = 0; k < 2; k++) MC_CHECK(mc::near(n.getContent()->getTraceCompounds()->getMoleFractions()[k], in.tc[k] / b, 1e-9, 1e-15), "%s: demand node trace compound %d", name, k); }
        };
        double held[5] = {0, 0, 0, 0, 0}; { GunnsFluidNode& n = r.nd(1); for (int k = 0; k < 3; k++) held[k] = n.getContent()->getMole() * n.getContent()->getMoleFraction(k); if (tc) for (int k = 0; k < 2; k++) held[3 + k] = n.getContent()->getMole() * n.getContent()->getTraceCompounds()->getMoleFractions()[k]; }
        link.out = [&] { b = ledger(); };
        r.G.step(dt); mc::step(); started = true; link.in = link.out = nullptr; { bool end = demand(); double v = r.nd(1).getVolume(); if (now) { MC_CHECK(v == 0.0, "%s: demand node keeps the volume %g", name, v); } else MC_CHECK(mc::near(v, volume, 1e-12), "%s: supply node has volume %g instead of %g", name, v, volume); if (before && !now) flipsBack++; (void)end; } (void)sentFlux; (void)lk;
        for (int i = 0; i < 2; i++) { double P = r.nd(i).getPotential(); if (!(P >= 0 && P < 1e5)) return false; for (int k = 0; k < 3; k++) if (r.nd(i).getContent()->getMassFraction(k) < 0) return false; }
        double n0 = r.nd(0).getContent()->getMole(); if (n0 < std::fabs(link.getFlux()) * dt * 1.5) return false;
        double g = link.mAdmittanceMatrix[0];
        if (flow && in.src > 0) { double b0 = in.f[0] + in.f[1] + in.f[2]; (void)b0; for (int k = 0; k < 3; k++) if (in.src * in.f[k] * dt * 1e-3 > 0.9 * held[k]) return false; if (tc) for (int k = 0; k < 2; k++) if (in.src * in.tc[k] * dt * 1e-3 > 0.9 * held[3 + k]) return false; }   // asks for more than the node still holds, after the delay
        if (!now) { MC_CHECK(g == 0.0, "%s: supply link has conductance %g", name, g); double s = 0; if (flow) s = -in.src * 1e-3 * (in.f[0] + in.f[1] + in.f[2]); MC_CHECK(mc::near(link.getFlux(), s, 1e-9, 1e-15), "%s: supply flux %.9g, demanded %.9g", name, link.getFlux(), s); }
        else { double cs = in.cap, cd = lastCap, gain = 1.0, want; if (!got) cs = 0; if (cs > DBL_EPSILON && cd > DBL_EPSILON) { double lg = std::min(1.0, 1.5 * std::pow(0.75, std::max(1.0, lag))), q = std::min(1.25, std::max(1.0, cs / cd)); gain = in.demand ? 0.0 : lg + (1 - lg) * (q - 1) * 4; double c = gain * cs / dt; want = option || c < DBL_EPSILON ? c : 1.0 / (1.0 / c + dt / cd); } else want = cs / dt;
            want *= block ? 0.5 : 1.0; MC_CHECK(mc::near(g, want, 1e-9, 1e-15), "%s: demand conductance %.9g, the limit makes %.9g (Cs %g Cd %g loop latency %g)", name, g, want, cs, cd, lag);
            MC_CHECK(mc::near(link.getFlux(), g * ((fluid ? in.src * 1e-3 : pHold) - r.nd(1).getPotential()), 1e-9, 1e-9 * g * 100 + 1e-15), "%s: demand flux %.9g through %.9g from %.9g to %.9g kPa", name, link.getFlux(), g, fluid ? in.src * 1e-3 : pHold, r.nd(1).getPotential()); }
        bool after = demand(); Msg m = out();
        double sum = m.f[0] + m.f[1] + m.f[2] + m.tc[0] + m.tc[1]; MC_CHECK(mc::near(sum, 1.0, 1e-9), "%s sends mole fractions adding up to %.12g", name, sum); MC_CHECK(m.cap >= 0 && std::isfinite(m.cap), "%s sends capacitance %g", name, m.cap);
        mc::trace("%s %s P0 %.9g P1 %.9g T0 %.6g m0 %.9g src %.9g e %.9g f %.6g %.6g cap %.6g g %.6g in.src %.9g%s", name, now ? "DEMAND" : "SUPPLY", r.nd(0).getPotential(), r.nd(1).getPotential(), r.nd(0).getContent()->getTemperature(), r.nd(0).getContent()->getMass(), m.src, m.e, m.f[0], m.f[1], m.cap, g, got ? in.src : 0.0, suspended ? " (suspended)" : "");
        if (!suspended) {
            if (now && after) compare(name, a, b, carries(m, dt), 1.0);
            if (!now) { if (flow) compare(name, a, b, carries(in, dt), -1.0); else { Led z; z.s.assign(3, 0); z.t.assign(2, 0); z.h = 0; z.scale = 0; compare(name, a, b, z, 1.0); } }
            // what the rest of the network can take or give at this node per unit of pressure
            double G = l->mAdmittanceMatrix[0], c0 = r.caps[0]->mCapacitance, c1 = now ? 0.0 : r.caps[1]->mCapacitance; (void)c0; if (G > 0) { double y0 = r.caps[0]->mAdmittanceMatrix[0], y1 = r.caps[1]->mAdmittanceMatrix[0], want = dt * (y1 + G * y0 / (G + y0)); (void)c1; MC_CHECK(mc::near(m.cap, want, 1e-5, 1e-9), "%s: capacitance sent %.9g, the network has %.9g", name, m.cap, want); }
        }
        if (!now) { MC_CHECK(after || mc::near(m.src, r.nd(1).getPotential() * 1e3, 1e-9), "%s: supply sends %.9g Pa from a node at %.9g kPa", name, m.src, r.nd(1).getPotential());
            if (!after) { const PolyFluid* c = r.nd(1).getContent(); MC_CHECK(mc::near(m.e, enthalpy ? c->getSpecificEnthalpy() : c->getTemperature(), 1e-9), "%s: supply sends energy %.9g", name, m.e); double bulk = m.f[0] + m.f[1] + m.f[2]; for (int k = 0; k < 3; k++) MC_CHECK(mc::near(m.f[k] / bulk, c->getMoleFraction(k), 1e-9, 1e-12), "%s: supply sends mole fraction %d %.9g of %.9g", name, k, m.f[k], c->getMoleFraction(k)); if (tc) for (int k = 0; k < 2; k++) MC_CHECK(mc::near(m.tc[k] / bulk, c->getTraceCompounds()->getMoleFractions()[k], 1e-9, 1e-15), "%s: supply sends trace compound %d", name, k); } }
        if (after != now) { suspended = true; MC_CHECK(m.src == 0.0, "%s flips to demand and sends its old pressure %g", name, m.src); } else suspended = false;
        lastCap = m.cap; pHold = r.nd(1).getPotential(); peer->wire.push_back(m); return true; }
    Side* peer; double lastCap; double pHold; int frames = 0; double volume = 0; int flipsBack = 0; bool option, block;
};
static void pair(int nsteps, bool actions, bool settle) {
    bool tc = mc::flip("trace compounds"), enth = mc::flip("enthalpy"); int over = tc ? mc::choose(2, "interface sizes") : 0; bool option = settle ? false : mc::flip("demand option");
    int lat = mc::choose(3, "latency"); int kindA = settle ? 1 : mc::choose(3, "link A"), kindB = settle ? 1 : mc::choose(2, "link B"); int sA = mc::choose(3, "state A"), sB = (sA + 1 + (settle ? 0 : mc::choose(2, "state B"))) % 4; static const double vols[3] = {1.0, 8.0, 1.3}; double vA = vols[mc::choose(settle ? 3 : 2, "volume A")];
    double vif = mc::flip("interface volume") ? 0.5 : 0.05; int force = settle ? 0 : mc::choose(2, "forced roles");
    Side A(tc, enth, over, 1), B(tc, enth, over, lat == 0 ? 1 : lat); A.peer = &B; B.peer = &A; A.lastCap = B.lastCap = 0; A.option = B.option = option; A.block = B.block = false;   // A runs before B in each frame, so messages to B arrive in the same frame
    A.lat = lat == 2 ? 2 : 1;
    A.build(states[sA], vA, states[sA], vif, kindA, true, option, force ? 1 : 0); B.build(states[sB], 1.0, states[sB], vif, kindB, false, option, force ? 2 : 0); A.pHold = A.r.nd(1).getPotential(); B.pHold = B.r.nd(1).getPotential();
    double dt = 0.1; bool any = false; double worst = 0, last = 0;
    for (int f = 0; f < nsteps; f++) {
        if (actions && f >= 8 && f % 3 == 0) { int act = mc::choose(5, "action");
            if (act == 1) { GunnsFluidCapacitor* c = A.r.caps[0].get(); c->editVolume(true, vA = (vA > 2 ? 0.5 : 8.0)); A.suspended = true; }
            if (act == 2) { GunnsFluidConductor* c = dynamic_cast<GunnsFluidConductor*>(A.l.get()); if (c) c->mMaxConductivity *= 0.05; }
            if (act == 3) { Side& d = A.demand() ? A : B; d.block = !d.block; d.link.setMalfBlockage(d.block, 0.5); }
            if (act == 4) { if (GunnsFluidPotential* p = dynamic_cast<GunnsFluidPotential*>(A.l.get())) p->mSourcePressure *= -1; } }
        for (int q = 0; q < 2; q++) { Side& s = q ? B : A; if (!s.frame(dt, q ? "B" : "A")) { mc::outcome("exempt"); return; } }
        if (f > 12) MC_CHECK(A.demand() != B.demand() || f < 40, "both ends in the same role after %d frames", f);
        any = any || A.link.getFlux() != 0; last = std::fabs(A.r.nd(0).getPotential() - B.r.nd(0).getPotential()); if (f == 0) worst = last; if (settle) MC_CHECK(last < 2.0 * worst + 1.0, "pressure difference grows to %g from %g", last, worst);
    }
    if (settle) MC_CHECK(last < 0.05 * worst + 0.05, "pressures of the joined networks are still %g apart, were %g", last, worst);
    mc::Hash h; h.d(A.r.nd(0).getPotential()).d(B.r.nd(0).getPotential()).d(A.r.nd(0).getContent()->getTemperature()); mc::state(h.h); mc::outcome(any ? A.flipsBack + B.flipsBack ? "flow and a swap of roles" : "flow" : "no flow");
}
int main(int argc, char** argv) {
    mc::add("exchange", [] { pair(14, true, false); });
    mc::add("settle", [] { pair(400, false, true); });
    mc::add("deep", [] { pair(18, true, false); }, 1);
    mc::bounds("two networks of a volume (1 or 8 m3), a conductor or pressure source and an interface node (0.05 or 0.5 m3), four states of three gases and two trace compounds; messages delayed by 0-2 frames each way, energy sent as temperature or enthalpy, larger interface arrays, demand option, roles negotiated or forced; 14 frames (18 thorough) with two (four) changes of volume, conductance, blockage or source direction; 400 quiet frames for settling");
    mc::assume("frames in which an end changes role are not balanced (the volume of the interface node is removed or restored), nor those in which the delayed demand asks for more of a constituent than the supply node still holds");
    return mc::run(argc, argv, "C27");
}
