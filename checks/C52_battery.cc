// mc: hflags=-fno-access-control
// C52: battery cells integrate exactly the charge that passes, within 0 and 1, and the battery's voltage, resistance and heat follow from its cells.
#include "net.hh"
#include "aspects/electrical/Batt/GunnsElectBattery.hh"
#include "math/approximation/TsLinearInterpolator.hh"
using namespace mc; typedef GunnsElectBattery Batt;
static double XS[] = {0, 0.2, 0.8, 1}, YV[] = {3, 3.5, 4, 4.2};
static double voc(double s) { for (int i = 0; i < 3; i++) if (s <= XS[i + 1]) return YV[i] + (YV[i + 1] - YV[i]) * (s - XS[i]) / (XS[i + 1] - XS[i]); return 4.2; }
struct Cell { double soc, cap; bool open = false, shrt = false, capF = false, run = false; double capV = 0, dur = 0, p = 0, rate = 0;
    double c() const { return capF ? capV : cap; } bool off() const { return open || shrt; } double eSoc() const { return off() ? 0 : soc; } };
struct Bat {
    NetRig rig; Batt* b = new Batt; TsLinearInterpolator t; bool par; double rc, ri; std::vector<Cell> c; double gl = 0.2, gc = 0, vc = 9; bool blk = false; double blkV = 0.5;
    bool run = false; double rdur = 0, rint = 0, timer = 0; unsigned next = 0; bool wasRun = false;
    Bat(int n, bool p, double r, double ir, double soc) : rig(1, 10, 10, 1e-9), par(p), rc(r), ri(ir) {
        t.init(XS, YV, 4, 0, 1, "t"); rig.addLink(COND, 0, 1, gl); rig.addLink(POT, 1, 0, gc, vc); rig.own.emplace_back(b);
        GunnsElectBatteryConfigData cd("b", &rig.list, n, p, r, ir, 3.0 * n, &t); GunnsElectBatteryInputData id(false, 0, soc); b->initialize(cd, id, rig.links, 1, 0); rig.start();
        for (int i = 0; i < n; i++) { Cell x; x.soc = soc; x.cap = 3; c.push_back(x); } }
    static bool eq(double a, double e, double r = 1e-9) { return std::fabs(a - e) <= 1e-9 + r * std::max(std::fabs(a), std::fabs(e)); }
    void step(double dt) {
        if (run) { if (next >= c.size()) next = 0; c[next].run = true; c[next].dur = rdur; timer += dt; wasRun = true; if (timer >= rint) { timer = 0; next++; } }
        else { if (wasRun) for (auto& x : c) { x.run = false; } wasRun = false; timer = 0; next = 0; }
        double res = 0, cond = 0, v = 0; for (auto& x : c) { double r = x.shrt ? DBL_EPSILON : x.open || x.run ? 1 / DBL_EPSILON : rc, e = x.open || x.shrt || x.run ? 0 : voc(x.soc); res += r; cond += 1 / std::max(r, DBL_EPSILON); if (par) v = std::max(v, e); else v += e; }
        double g = 1 / (ri + (par ? 1 / std::max(cond, DBL_EPSILON) : std::max(res, DBL_EPSILON))); if (blk) g *= 1 - blkV; g = std::min(std::max(g, 0.0), 1e15);
        double V = g + gl + gc > 0 ? (g * v + gc * vc) / (g + gl + gc) : 0, I = g * (v - V); if (g + gl + gc < 1e-12) V = 0;
        rig.gunns->step(dt); mc::step(); mc::validated(); double gotV = rig.nodes[0].getPotential(), gotI = b->getFlux();
        mc::trace("  V %.9g (expected %.9g) I %.9g (%.9g) soc %.9g", gotV, V, gotI, I, b->getSoc());
        if (g < 1e6 && g + gl + gc > 1e-9) { MC_CHECK(eq(gotV, V, 1e-7), "terminal voltage %.12g, expected %.12g from open circuit %g and conductance %g", gotV, V, v, g); MC_CHECK(eq(gotI, I, 1e-6) || std::fabs(gotI - I) < 1e-7 * std::max(1.0, g), "current %.12g, expected %.12g", gotI, I); }
        I = gotI; int n = 0; for (auto& x : c) if (x.eSoc() > DBL_EPSILON || (I < 0 && !x.off() && x.c() > DBL_EPSILON)) n++;
        double heat = 0, soc = 0, cap = 0, before = 0, after = 0; bool clean = n > 0 || I == 0;
        for (auto& x : c) { before += x.eSoc() * x.c();
            if (x.shrt) { if (n) x.soc = 0; clean = false; }
            else if (n && !x.open) { double q = x.c(), rcur = 0; if (q > DBL_EPSILON) { if (x.run && x.soc > 0) { double e = voc(x.soc); if (x.p == 0) x.rate = 2 * x.soc * q * e * 3600 / std::max(DBL_EPSILON, x.dur * x.dur); x.p += x.rate * dt; rcur = x.p / e; clean = false; } double s = x.soc - (I / n + rcur) * dt / q / 3600; if (s < 0 || s > 1) clean = false; x.soc = std::min(1.0, std::max(0.0, s)); } else { x.soc = 0; clean = false; } }
            if (x.soc == 0 || !x.run) if (n) x.p = x.rate = 0;
            heat += x.p; soc += x.eSoc() / c.size(); cap += x.off() ? 0 : x.c(); after += x.eSoc() * x.c(); }
        for (unsigned i = 0; i < c.size(); i++) { double s = b->mCells[i].getEffectiveSoc(); MC_CHECK(s >= 0 && s <= 1 && std::fabs(s - c[i].eSoc()) < 1e-9, "cell %u charge %.12g, expected %.12g", i, s, c[i].eSoc()); if (!c[i].off()) c[i].soc = s; MC_CHECK(b->mCells[i].mMalfThermalRunawayFlag == c[i].run, "cell %u thermal runaway is %s", i, c[i].run ? "off" : "on"); MC_CHECK(eq(b->mCells[i].getRunawayPower(), c[i].p, 1e-7), "cell %u runaway heat %g, expected %g", i, b->mCells[i].getRunawayPower(), c[i].p);
            MC_CHECK(eq(b->getCellEffectiveVoltage(i), c[i].off() || c[i].run ? 0 : voc(c[i].soc), 1e-7), "cell %u voltage", i); }
        if (clean) { MC_CHECK(std::fabs((after - before) * 3600 + I * dt) < 1e-6 * std::max(1.0, std::fabs(I * dt)), "charge changed by %.9g C while %.9g C passed", (after - before) * 3600, -I * dt); mc::outcome(I > 1e-6 ? "discharging" : I < -1e-6 ? "charging" : "idle"); } else mc::outcome("clipped or failed cells");
        MC_CHECK(b->getSoc() >= 0 && b->getSoc() <= 1 && eq(b->getSoc(), soc, 1e-7), "state of charge %g, expected %g", b->getSoc(), soc); MC_CHECK(eq(b->getCapacity(), cap), "capacity %g, expected %g", b->getCapacity(), cap); MC_CHECK(b->getVoltage() == gotV && b->getCurrent() == gotI, "reported voltage and current");
        if (g < 1e6) MC_CHECK(std::fabs(b->getHeat() - (heat + I * I / std::max(g, DBL_EPSILON))) <= 1e-6 * (1 + heat), "heat %g, expected %g", b->getHeat(), heat + I * I / std::max(g, DBL_EPSILON));
    }
};
static void history(int n, bool par, int depth) {
    static const double RC[] = {0.02, 0}, SOC[] = {0.9, 0.05, 0, 1}; double ri = mc::flip("interconnect") ? 0.03 : 0.005; Bat r(n, par, pick(RC, "cell resistance"), ri, pick(SOC, "charge")); static const double DT[] = {60, 900};
    for (int d = 0; d < depth; d++) {
        int e = mc::choose(9, "event"); double x = 0; int k = 0;
        static const double GL[] = {0.2, 0, 3}; if (e == 0) { x = pick(GL, "load"); if (x == r.gl) mc::prune(); r.gl = x; r.rig.setValue(0, x); }
        if (e == 1) { r.gc = r.gc ? 0 : 1.5; r.rig.setValue(1, r.gc); x = r.gc; }
        if (e == 2) { r.blk = !r.blk; r.b->setMalfBlockage(r.blk, r.blkV); }
        if (e >= 3 && e <= 6) { k = n == 1 ? 0 : mc::choose(2, "cell") * (n - 1); Cell& c = r.c[k]; GunnsElectBatteryCell& m = r.b->mCells[k];
            if (e == 3) m.setMalfOpenCircuit(c.open = !c.open); if (e == 4) m.setMalfShortCircuit(c.shrt = !c.shrt); if (e == 5) { if (c.capF) { c.capF = false; m.setMalfCapacity(); } else { static const double CV[] = {0.5, 0}; c.capF = true; c.capV = pick(CV, "capacity"); m.setMalfCapacity(true, c.capV); } }
            if (e == 6) { c.run = !c.run; c.dur = c.run ? 600 : 0; m.setMalfThermalRunaway(c.run, c.dur); } }
        if (e == 7) { static const double IV[] = {60, 500, 0}; r.run = !r.run; r.rdur = r.run ? 900 : 0; r.rint = r.run ? pick(IV, "interval") : 0; r.b->setMalfThermalRunaway(r.run, r.rdur, r.rint); x = r.rint; }
        if (e == 8) { }
        double dt = pick(DT, "dt"); mc::trace("event %d cell %d value %g dt %g", e, k, x, dt); for (int s = 0; s < (e == 8 ? 3 : 1); s++) r.step(dt);
    }
}
int main(int argc, char** argv) {
    mc::bounds("batteries of 1-3 cells in series and parallel; events: load, charger, blockage, cell open, short, capacity and runaway malfunctions, battery runaway, plain steps");
    for (int n = 1; n <= 3; n++) for (int p = 0; p < 2; p++) mc::add(std::to_string(n) + (p ? " cells in parallel" : " cells in series"), [=] { history(n, p, n == 2 ? tierPick(3, 4) : tierPick(2, 4)); });
    return mc::run(argc, argv, "C52");
}
