// mc: hflags=-fno-access-control
// C51: electrical converters regulate, limit and protect their output, and draw from their input exactly the power they deliver.
#include "net.hh"
#include "aspects/electrical/Converter/GunnsElectConverterInput.hh"
#include "aspects/electrical/Converter/GunnsElectConverterOutput.hh"
#include "math/approximation/TsLinearInterpolator.hh"
using namespace mc; typedef GunnsElectConverterOutput Out; typedef GunnsElectConverterInput In;
static const double UV = 90, OV = 150, OUV = 20, OOV = 33, OOC = 10, GO = 100, EFF = 0.8;
static bool rel(double a, double b, double r = 2e-5, double abs = 2e-4) { return std::fabs(a - b) <= abs + r * std::max(std::fabs(a), std::fabs(b)); }
struct Circuit { double vs = 120, gs = 10, gl = 0.2, vb = 0, gb = 0; };
struct Conv {
    NetRig rig; In* in = new In; Out* out = new Out; Circuit c; int type, prio; bool limiting, order, iuv, table; bool enIn = true, enOut = true, blkIn = false, blkOut = false; double set, blkV = 0.5; TsLinearInterpolator eff;
    Conv(int t, bool lim, bool ord, bool uv, bool tbl, double gs) : rig(2, 200, 200, 1e-8), type(t), prio(2), limiting(lim), order(ord), iuv(uv), table(tbl) {
        c.gs = gs; set = setpoint(0); rig.addLink(POT, 2, 0, c.gs, c.vs); rig.addLink(COND, 1, 2, c.gl); rig.addLink(POT, 2, 1, 0.0, 40.0); rig.own.emplace_back(in); rig.own.emplace_back(out); static double X[] = {0, 0.5, 1}, Y[] = {0.6, 0.9, 0.8}; if (table) eff.init(X, Y, 3, 0, 1, "eff");
        GunnsElectConverterInputConfigData ic("in", &rig.list, 0, 0, prio, iuv ? UV : 0, iuv ? OV : 0, table ? &eff : 0); GunnsElectConverterInputInputData ii(false, 0, true, 120, 0, 200);
        GunnsElectConverterOutputConfigData oc("out", &rig.list, (Out::RegulatorType)t, GO, EFF, 0, 0, prio, OOV, OOC, in, lim, OUV); GunnsElectConverterOutputInputData oi(false, 0, true, 120, 0, set);
        if (order) { out->initialize(oc, oi, rig.links, 1); in->initialize(ic, ii, rig.links, 0); } else { in->initialize(ic, ii, rig.links, 0); out->initialize(oc, oi, rig.links, 1); }
        rig.gunns->initialize(GunnsConfigData("n", 1e-8, 1e-12, 200, 200), rig.links); }
    double setpoint(int k) const { static const double S[4][3] = {{28, 24, 0}, {0.25, 0.2, 0}, {5, 8, 0}, {100, 50, 0}}; return S[type][k]; }
    bool volt() const { return type < 2; }
    // power the load asks for, as a fraction of what the source can give at all
    double stress() const { double g = c.gl + c.gb, v = type == 0 ? set : type == 1 ? set * c.vs : type == 2 ? std::min(OOV, set / std::max(g, 1e-9)) : 0, p = type == 3 ? set : v * v * g; p /= EFF * (table ? 0.6 : 1) * std::max(1e-9, blkIn ? 1 - blkV : 1); return p / std::max(1e-9, c.vs * c.vs * c.gs / 4); }
    bool inTrip() const { return in->mInputUnderVoltageTrip.isTripped() || in->mInputOverVoltageTrip.isTripped(); }
    bool outTrip() const { return out->mOutputOverVoltageTrip.isTripped() || out->mOutputUnderVoltageTrip.isTripped() || out->mOutputOverCurrentTrip.isTripped(); }
    uint64_t sig() const { Hash h; h.i(inTrip()).i(in->mInputUnderVoltageTrip.isTripped()).i(out->mOutputOverVoltageTrip.isTripped()).i(out->mOutputUnderVoltageTrip.isTripped()).i(out->mOutputOverCurrentTrip.isTripped()).i(out->mLimitState).i(out->mReverseBiasState).i(in->mOverloadedState).i(enIn).i(enOut).i(blkIn).i(blkOut); return h.h; }
    void checks(bool settled, bool wasInTrip, bool wasOutTrip) {
        double v0 = rig.nodes[0].getPotential(), v1 = rig.nodes[1].getPotential(), i0 = in->getFlux(), i1 = out->getFlux(), load = c.gl * v1 + (c.gb ? c.gb * (v1 - c.vb) : 0); int ls = out->mLimitState; bool rev = out->mReverseBiasState;
        mc::trace("  V0 %.6g I0 %.6g V1 %.6g I1 %.6g limit state %d reverse %d trips in %d %d out %d %d %d overloaded %d flips %u %u minor %d", v0, i0, v1, i1, ls, rev, in->mInputUnderVoltageTrip.isTripped(), in->mInputOverVoltageTrip.isTripped(), out->mOutputOverVoltageTrip.isTripped(), out->mOutputUnderVoltageTrip.isTripped(), out->mOutputOverCurrentTrip.isTripped(), in->mOverloadedState, out->mReverseBiasFlips, out->mLimitStateFlips, rig.gunns->mLastMinorStep);
        if (rig.gunns->mConvergenceFailCount && stress() > 0.5) { mc::outcome("source too weak: the power iteration need not converge"); mc::prune(); }
        MC_CHECK(rig.gunns->mConvergenceFailCount == 0, "network did not converge"); mc::validated();
        MC_CHECK(rel(i1, load), "output current %g while the load takes %g", i1, load); MC_CHECK(rel(i0, c.gs * (c.vs - v0), 1e-5, 1e-3), "input current %g while the source gives %g", i0, c.gs * (c.vs - v0));
        bool avail = enIn && !inTrip() && !(blkIn && blkV >= 1) && v0 > 0, on = enOut && !outTrip() && avail, chatter = rig.gunns->mLastMinorStep > 4 && (out->mReverseBiasFlips >= out->mStateFlipsLimit || out->mLimitStateFlips >= out->mStateFlipsLimit); double G = blkOut ? GO * (1 - blkV) : GO, k = blkOut ? 1 - blkV : 1;
        if (chatter) mc::outcome("state flips limited");
        // protection
        if (iuv && enIn && !inTrip()) MC_CHECK(v0 >= UV * (1 - 1e-6) && v0 <= OV * (1 + 1e-6), "a converged step leaves the input on at %g V", v0);
        if (inTrip() || !enIn) MC_CHECK(std::fabs(i0) < 1e-9, "input takes %g A while %s", i0, enIn ? "tripped" : "disabled");
        if (outTrip() || !enOut) MC_CHECK(std::fabs(i1) < 1e-9, "output gives %g A while %s", i1, enOut ? "tripped" : "disabled");
        if (enOut && !outTrip()) { if (!limiting && out->mOutputOverCurrentTrip.mLimit) MC_CHECK(i1 <= OOC * (1 + 1e-6), "a converged step leaves the output on at %g A", i1); if (!(limiting && !volt())) MC_CHECK(v1 <= OOV * (1 + 1e-6) && v1 >= OUV * (1 - 1e-6), "a converged step leaves the output on at %g V", v1); }
        if (wasInTrip) MC_CHECK(inTrip(), "input trip cleared itself"); if (wasOutTrip) MC_CHECK(outTrip(), "output trip cleared itself");
        if (limiting) MC_CHECK(!out->mOutputOverCurrentTrip.isTripped(), "over-current trip while limiting"); if (limiting && !volt()) MC_CHECK(!outTrip(), "trip while limiting");
        if (limiting && volt() && on && !chatter) MC_CHECK(i1 <= OOC * (1 + 1e-6) + 1e-5, "limited output gives %g A", i1);
        if (!chatter) MC_CHECK(i1 >= -1e-4, "reverse output current %g", i1);
        MC_CHECK(out->getLimitingState() == (ls != 0), "limiting state");
        // power drawn is power delivered
        double pout = i1 * v1 + i1 * i1 / GO, need = pout / EFF; if (settled || true) { double e = 1; if (table) { double f = std::min(1.0, std::max(0.0, need / 200)); e = f < 0.5 ? 0.6 + 0.6 * f : 0.9 - 0.2 * (f - 0.5); } if (blkIn) e *= 1 - blkV; e = std::max(e, DBL_EPSILON);
            if (avail && !in->mOverloadedState && !(iuv && v0 < UV) && i1 > -1e-6) MC_CHECK(rel(i0 * v0, need / e, 1e-4, 2e-3), "input takes %.9g W for %.9g W of output (delivered %.9g)", i0 * v0, need, pout);
            if (avail && !in->mOverloadedState && i1 > 1e-6) { MC_CHECK(rel(out->getInputPower(), need, 1e-4, 2e-3), "reported input power %g, expected %g", out->getInputPower(), need); MC_CHECK(rel(in->mTotalPowerLoss, need / e - need, 1e-4, 2e-3) && rel(out->mTotalPowerLoss, need - i1 * v1, 1e-4, 2e-3), "power losses %g and %g", in->mTotalPowerLoss, out->mTotalPowerLoss); } }
        if (!settled) return;
        // regulation
        if (in->mOverloadedState) { mc::outcome("overloaded"); return; }
        if (!on) { MC_CHECK(std::fabs(i1) < 1e-6, "output gives %g A while off", i1); mc::outcome(outTrip() ? "output tripped" : inTrip() ? "input tripped" : "off"); return; }
        double goal = type == 1 ? set * v0 : set; if (chatter) return;
        if (volt()) {
            if (ls == Out::LIMIT_OC) { MC_CHECK(rel(i1, OOC, 1e-5, 1e-4) && v1 <= goal * (1 + 1e-6), "current limiting gives %g A at %g V", i1, v1); mc::outcome("limiting current"); }
            else { MC_CHECK(ls == Out::NO_LIMIT, "limit state %d", ls); if (rev) { MC_CHECK(v1 >= goal - 1e-4 && std::fabs(i1) < 1e-9, "reverse biased at %g V, set point %g", v1, goal); mc::outcome("reverse biased"); } else { if (G > 0) MC_CHECK(rel(v1, goal - i1 / G, 1e-5, 1e-4), "output %.9g V, set point %g with %g A", v1, goal, i1); else MC_CHECK(std::fabs(i1) < 1e-9, "blocked output gives %g A", i1); mc::outcome("regulating voltage"); } }
        } else {
            double leak = FLT_EPSILON * v1;   // small conductance for open circuits
            double R = i1 > 1e-9 && v1 > 1e-9 ? v1 / i1 : 1, want = type == 2 ? k * set : set > 0 ? k * std::sqrt(set / R) : 0;
            if (ls == Out::NO_LIMIT) { MC_CHECK(rel(i1, want - leak, 1e-4, 1e-3), "output %g A at %g V, set point %g asks for %g", i1, v1, set, want); if (limiting) MC_CHECK(v1 <= OOV * (1 + 1e-5) && v1 >= OUV * (1 - 1e-5), "regulating current outside the voltage limits at %g V", v1); mc::outcome(type == 2 ? "regulating current" : "regulating power"); }
            else { MC_CHECK(limiting, "limiting"); double lim = ls == Out::LIMIT_OV ? OOV : OUV; if (ls == Out::LIMIT_OC) { if (type == 2) MC_CHECK(rel(i1, k * OOC - leak, 1e-4, 1e-3), "limiting current at %g A", i1); MC_CHECK(v1 <= OUV * (1 + 1e-5), "limiting current at %g V", v1); mc::outcome("limiting current at low voltage"); }
                else { if (rev) MC_CHECK(v1 >= lim - 1e-4 && std::fabs(i1) < 1e-9, "reverse biased at %g V", v1); else if (G > 0) MC_CHECK(rel(v1, lim - i1 / G, 1e-5, 1e-4), "limiting voltage to %g V at %g V with %g A", lim, v1, i1);
                    if (ls == Out::LIMIT_OV) MC_CHECK(i1 <= want * (1 + 1e-5) + 1e-4 || want == 0, "limiting over-voltage while giving %g A of %g", i1, want); else if (want) MC_CHECK(type != 2 || i1 >= want * (1 - 1e-4), "limiting under-voltage while giving %g A of %g", i1, want); mc::outcome(ls == Out::LIMIT_OV ? "limiting over-voltage" : "limiting under-voltage"); } }
        }
    }
};
static void conv(int type, int depth, bool cyc) {
    bool lim = mc::flip("limiting"), ord = mc::flip("output first"); int ii = mc::choose(3, "input"); static const double GS[] = {10, 10, 0.5}; Conv r(type, lim, ord, ii == 1, mc::flip("efficiency table"), GS[ii]);
    static const double GL[] = {0.2, 0.05, 1, 2, 0, 0.4}, VS[] = {120, 80, 160, 0, 90.6};
    std::vector<std::pair<int,double>> seen;
    for (int d = 0; d < depth + (cyc ? 10 : 0); d++) {
        int e; double x = 0; bool reset = false;
        if (cyc && d >= 2) { e = seen[d % 2].first; x = seen[d % 2].second; if (e == 0 && x == r.c.gl) x = 0.2; if (e == 1 && x == r.c.vs) x = 120; if (e == 6 && x == r.set) x = r.setpoint(0); }
        else { e = mc::choose(10, "event"); if (e == 0) x = pick(GL, "load conductance"); if (e == 1) x = pick(VS, "source voltage"); if (e == 6) x = r.setpoint(mc::choose(3, "set point")); }
        seen.push_back({e, x});
        if (e == 0) { if (x == r.c.gl) mc::prune(); r.c.gl = x; r.rig.setValue(1, x); }
        if (e == 1) { if (x == r.c.vs) mc::prune(); r.c.vs = x; ((GunnsBasicPotential*)r.rig.links[0])->setSourcePotential(x); }
        if (e == 2) { r.c.gb = r.c.gb ? 0 : 0.5; r.c.vb = 40; r.rig.setValue(2, r.c.gb); x = r.c.gb; }
        if (e == 3) { r.enIn = !r.enIn; r.in->setEnabled(r.enIn); } if (e == 4) { r.enOut = !r.enOut; r.out->setEnabled(r.enOut); }
        if (e == 5) { reset = true; r.out->mResetTrips = r.in->mResetTrips = true; }
        if (e == 6) { if (x == r.set) mc::prune(); r.set = x; r.out->setSetpoint(x); }
        if (e == 7) { r.blkOut = !r.blkOut; r.out->setMalfBlockage(r.blkOut, r.blkV); } if (e == 8) { r.blkIn = !r.blkIn; r.in->setMalfBlockage(r.blkIn, r.blkV); }
        if (e == 9) { r.blkV = r.blkV == 0.5 ? 1 : 0.5; r.out->setMalfBlockage(r.blkOut, r.blkV); r.in->setMalfBlockage(r.blkIn, r.blkV); }
        mc::trace("event %d %g", e, x); bool it = !reset && r.inTrip(), ot = !reset && r.outTrip(); uint64_t s[4]; double v[4], q[4];
        for (int n = 0; n < 4; n++) { r.rig.gunns->step(0.1); mc::step(); r.checks(n > 0, it || (n && r.inTrip()), ot || (n && r.outTrip())); s[n] = r.sig(); v[n] = r.rig.nodes[1].getPotential(); q[n] = r.rig.nodes[0].getPotential(); it = r.inTrip(); ot = r.outTrip(); }
        bool ch = r.out->mReverseBiasFlips >= 1 || r.out->mLimitStateFlips >= 1 || r.in->mOverloadedState; if (!ch) MC_CHECK(s[3] == s[2] && rel(v[3], v[2], 1e-4, 1e-3) && rel(q[3], q[2], 1e-4, 1e-3), "does not settle: output %g to %g V, input %g to %g V", v[2], v[3], q[2], q[3]);
    }
}
int main(int argc, char** argv) {
    static const char* N[] = {"voltage regulator", "transformer", "current regulator", "power regulator"};
    for (int t = 0; t < 4; t++) mc::add(N[t], [=] { conv(t, tierPick(3, 4), false); });
    for (int t = 0; t < 4; t++) mc::add(std::string(N[t]) + ", repeated cycles", [=] { conv(t, 2, true); });
    return mc::run(argc, argv, "C51");
}
