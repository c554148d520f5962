// mc: hflags=-fno-access-control
// C60: valve controllers move, hold, fail and draw power exactly by command, power and malfunction, within their travel.
#include "mc.hh"
#include "common/controllers/fluid/TsOpenCloseValveController.hh"
#include "common/controllers/fluid/TsSpeedValveController.hh"
#include "common/controllers/fluid/TsPositionValveController.hh"
#include "common/controllers/fluid/TsToggleValveController.hh"
#include "common/controllers/fluid/TsDualSolenoidValveController.hh"
#include "common/controllers/fluid/TsTValveController.hh"
#include "common/controllers/valveAssemblies/TsOpenCloseValveAssembly.hh"
#include "common/controllers/valveAssemblies/TsToggleValveAssembly.hh"
#include "common/controllers/valveAssemblies/TsDualSolenoidValveAssembly.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cmath>
#include <cfloat>
using namespace mc;
typedef TsPoweredValveController P;
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }

struct Ref {   // a valve behind a drive
    double lo, hi, flo, fhi, pos, scale, cmd; int latch; bool supply, enable, manual, vstuck, vfail, noManual, good, pfail, dstuck, dfail; double manualV, vfailV, dfailV, power, hold, move, stuckP, refV, res, raw;
    bool driven() const { return (supply || good) && !pfail && enable; }
    void drive(double dt) {
        double p = dstuck ? pos : dfail ? dfailV : !driven() ? (latch == P::NORMALLY_CLOSED ? lo : latch == P::NORMALLY_OPEN ? hi : pos) : pos + cmd * scale * dt;
        if (!driven()) { power = 0; res = 1e6; }
        else { bool idle = std::fabs(cmd) <= DBL_EPSILON || (manual && !noManual), against = (pos <= lo && cmd * scale < 0) || (pos >= hi && cmd * scale > 0); power = idle ? hold : vstuck || dstuck || against ? stuckP : move; res = refV * refV / power; }
        valve(p); }
    void valve(double p) { if (!vstuck) pos = vfail ? vfailV : manual && !noManual ? manualV : p; raw = pos; pos = clamp(lo, pos, hi); }
    double fluid() const { return clamp(0, fhi + (fhi - flo) / (hi - lo) * (pos - hi), 1); }
    bool stuck() const { return vstuck || vfail; }
};
static void match(const TsValveController& v, const Ref& r, const char* when) {
    mc::validated(); MC_CHECK(near(v.getPosition(), r.pos, 1e-9, 1e-9 * (r.hi - r.lo)), "%s: position %.12g, expected %.12g", when, v.getPosition(), r.pos); MC_CHECK(v.getPosition() >= r.lo && v.getPosition() <= r.hi, "%s: position %g beyond its travel", when, v.getPosition());
    MC_CHECK(near(v.getFluidPosition(), r.fluid(), 1e-9, 1e-9), "%s: fluid position %.12g, expected %.12g", when, v.getFluidPosition(), r.fluid()); MC_CHECK(v.isStuck() == r.stuck(), "%s: stuck flag %d", when, v.isStuck());
    bool edge = std::fabs(r.raw - r.lo) < 1e-7 * (r.hi - r.lo) || std::fabs(r.raw - r.hi) < 1e-7 * (r.hi - r.lo);
    MC_CHECK(edge || (v.isLowerLimit() == (r.raw <= r.lo) && v.isUpperLimit() == (r.raw >= r.hi)), "%s: limit flags %d %d at %g", when, v.isLowerLimit(), v.isUpperLimit(), v.getPosition()); mc::step();
}
static void matchPower(const P& v, const Ref& r, const char* when) { MC_CHECK(near(v.getPower(), r.power, 1e-9, 1e-9), "%s: power %g, expected %g", when, v.getPower(), r.power); MC_CHECK(near(v.getResistance(), r.res, 1e-9, 0), "%s: resistance %g, expected %g", when, v.getResistance(), r.res); }
struct Shape { double lo, hi, flo, fhi, transit, ref; };
static const Shape SHAPES[] = {{0, 1, 0, 1, 1, 1}, {-10, 90, 0.1, 0.8, 2, -4}};
static Ref makeRef(const Shape& s, int latch, double pos, bool supply, bool enable) {
    Ref r; r.lo = s.lo; r.hi = s.hi; r.flo = s.flo; r.fhi = s.fhi; r.pos = r.raw = pos; r.scale = (s.hi - s.lo) / (s.ref * s.transit); r.cmd = 0; r.latch = latch; r.supply = supply; r.enable = enable; r.manual = r.vstuck = r.vfail = r.noManual = r.good = r.pfail = r.dstuck = r.dfail = false; r.manualV = r.vfailV = r.dfailV = 0; r.power = r.res = 0; r.hold = 1; r.move = 20; r.stuckP = 40; r.refV = 28; return r; }
static TsPoweredValveControllerConfigData config(const Shape& s, bool eot, int latch) { return TsPoweredValveControllerConfigData(s.lo, s.hi, s.flo, s.fhi, s.transit, s.ref, 1, 20, 40, 28, eot, (P::LatchType)latch); }
static uint64_t key(const Ref& r, const TsValveController& v, int a, int b) { Hash h; h.i(a).i(b).d(r.lo).i(r.latch).d(r.pos).i(r.supply).i(r.enable).i(r.manual).d(r.manualV).i(r.vstuck).i(r.vfail).i(r.noManual).i(r.good).i(r.pfail).i(r.dstuck).i(r.dfail).d(r.vfailV).d(r.dfailV).d(r.power).d(v.getPosition()); return h.h; }
// one change of power, manual or malfunction settings
static void disturb(Ref& r, TsValveController& v, P* p, bool wide) {
    double span = r.hi - r.lo; int m = mc::choose(p ? (wide ? 15 : 9) : 7, "change"); mc::trace("change %d", m);
    switch (m) {
        case 1: r.vstuck = !r.vstuck; v.mMalfValveStuckFlag = r.vstuck; break;
        case 2: r.vfail = !r.vfail; v.mMalfValveFailToFlag = r.vfail; break;
        case 3: r.vfailV = r.vfailV == 0 ? r.lo + 0.7 * span : r.hi + span; v.mMalfValveFailToValue = r.vfailV; break;
        case 4: r.manual = !r.manual; v.setManualPosition(r.manual, r.manualV); break;
        case 5: r.manualV = r.manualV == 0 ? r.lo + 0.25 * span : r.lo - span; v.setManualPosition(r.manual, r.manualV); break;
        case 6: r.noManual = !r.noManual; v.mMalfManualFlag = r.noManual; break;
        case 7: r.supply = !r.supply; break;
        case 8: r.enable = !r.enable; break;
        case 9: r.good = !r.good; p->mMalfPowerGoodFlag = r.good; break;
        case 10: r.pfail = !r.pfail; p->mMalfPowerFailFlag = r.pfail; break;
        case 11: r.dstuck = !r.dstuck; p->mMalfDriveStuckFlag = r.dstuck; break;
        case 12: r.dfail = !r.dfail; p->mMalfDriveFailToFlag = r.dfail; break;
        case 13: r.dfailV = r.lo + 0.4 * span; p->mMalfDriveFailToValue = r.dfailV; break;
        case 14: r.dfailV = r.hi + span; p->mMalfDriveFailToValue = r.dfailV; break;
    } }
enum { OC, SPEED, POSITION, TOGGLE };
static void powered(int kind, int depth, bool wide) {
    Shape s = pick(SHAPES, "travel"); if (kind == OC || kind == TOGGLE) s.ref = 1; if (kind == POSITION) s.ref = 1; if (kind == TOGGLE) s.transit = 0.25; int latch = mc::choose(3, "latch"); bool eot = mc::flip("end-of-travel interrupt"); if (kind == POSITION && eot) return; double span = s.hi - s.lo, pos = s.lo + span * (mc::choose(3, "initial position") * 0.5); bool supply = mc::flip("supply");
    Ref r = makeRef(s, latch, pos, supply, true); TsOpenCloseValveController oc; TsSpeedValveController sp; TsPositionValveController po; TsToggleValveController to; P* v = kind == OC ? (P*)&oc : kind == SPEED ? (P*)&sp : kind == POSITION ? (P*)&po : (P*)&to;
    TsPoweredValveControllerInputData in(pos, false, 0, supply, true, 0); TsPoweredValveControllerConfigData c = config(s, eot, latch);
    if (kind == OC) oc.initialize(c, in, "v"); else if (kind == SPEED) sp.initialize(c, in, "v"); else if (kind == TOGGLE) to.initialize(c, in, "v"); else po.initialize(TsPositionValveControllerConfigData(s.lo, s.hi, s.flo, s.fhi, s.transit, 5, 1, 20, 40, 28, eot, (P::LatchType)latch, 0.01 * span), in, "v");
    r.drive(0); match(*v, r, "initially"); matchPower(*v, r, "initially"); MC_CHECK(v->isInitialized() && near(v->getCmdScale(), r.scale, 1e-12, 0), "initialized with scale %g, expected %g", v->getCmdScale(), r.scale);
    bool so = pos > s.hi - 1e-6, sc = pos < s.lo + 1e-6, armed = to.mCommand.mArmed; static const double DT[] = {0.25, 1};
    for (int d = 0; d < depth; d++) {
        if (mc::cut(key(r, *v, kind * 64 + eot * 32 + armed * 16 + so * 8 + sc * 4, 0), depth - d)) return;
        disturb(r, *v, v, wide); double dt = pick(DT, "time step"); v->setSupplyVoltageFlag(r.supply); v->setEnabledFlag(r.enable);
        if (kind == TOGGLE) { bool toggle = mc::flip("toggle"); to.setToggle(toggle); to.setOpenSensed(so); to.setCloseSensed(sc); bool act = false;
            if (r.enable) { if (armed && toggle) { armed = false; act = true; } else if (!armed && !toggle) armed = true; }
            r.cmd = 0; double mid = 0.5 * (s.lo + s.hi); if (act) { if (r.pos < mid) { if (!eot || !so) r.cmd = span / dt; } else if (!eot || !sc) r.cmd = -span / dt; } mc::trace("toggle %d", toggle); }
        else { int k = mc::choose(kind == OC ? 4 : 5, "command"); static const double S[] = {0, 1, -1, 4, -0.5}; r.cmd = 0;
            if (kind == OC) { bool o = k & 1, cl = k & 2; oc.setOpenCommand(o); oc.setCloseCommand(cl); oc.setOpenSensed(so); oc.setCloseSensed(sc); if (o && !cl && !(eot && so)) r.cmd = 1; if (cl && !o && !(eot && sc)) r.cmd = -1; }
            if (kind == SPEED) { r.cmd = S[k]; sp.setSpeedCommand(r.cmd); sp.setOpenSensed(so); sp.setCloseSensed(sc); if (eot && ((so && r.cmd * r.scale > 0) || (sc && r.cmd * r.scale < 0))) r.cmd = 0; }
            if (kind == POSITION) { double target = s.lo + span * (k == 4 ? 1.5 : k * 0.25 + 0.05); po.setPositionCommand(target); po.setSensed(r.pos); double e = target - r.pos, lim = dt * r.scale; r.cmd = std::fabs(e) < 0.01 * span ? 0 : clamp(-lim, e, lim) / lim; }
            mc::trace("command %d (%g)", k, r.cmd); }
        double before = v->getPosition(); v->update(dt); r.drive(dt); match(*v, r, "after update"); matchPower(*v, r, "after update");
        if (!r.vstuck && !r.vfail && !(r.manual && !r.noManual) && !r.dstuck && !r.dfail && r.driven() && kind == OC) MC_CHECK(std::fabs(v->getPosition() - before) <= span * dt / s.transit * (1 + 1e-9), "moved from %g to %g in %g s", before, v->getPosition(), dt);
        int f = mc::choose(2, "position sensors"); so = f == 0 && r.pos > s.hi - 1e-6; sc = f == 0 && r.pos < s.lo + 1e-6;   // sensors follow the valve, or read nothing
    }
}
static void handle() {   // manual handle of the open/close valve
    Shape s = SHAPES[0]; TsOpenCloseValveController v; Ref r = makeRef(s, P::LATCHING, 0.5, true, true); v.initialize(config(s, false, P::LATCHING), TsPoweredValveControllerInputData(0.5, false, 0, true, true, 0), "v"); r.drive(0);
    for (int d = 0; d < 4; d++) { bool un = mc::flip("unstowed"), up = mc::flip("handle open"); int k = mc::choose(4, "command"); r.enable = !mc::flip("disabled"); v.mHandleStowed = un ? TsOpenCloseValveController::UNSTOWED : TsOpenCloseValveController::STOWED; v.mHandlePosition = up ? 1 : 0; v.setOpenCommand(k & 1); v.setCloseCommand(k & 2); v.setEnabledFlag(r.enable);
        r.cmd = un ? (up ? 1 : -1) : k == 1 ? 1 : k == 2 ? -1 : 0; v.update(0.25); r.drive(0.25); match(v, r, "handle"); matchPower(v, r, "handle"); }
}
// queued toggle commands: an odd number of presses in the batch acts once
static void queue() {
    TsToggleValveCmd c; bool en[3], tg[3]; c.mEnable_queue = en; c.mToggle_queue = tg; bool armed = c.mArmed; int total = 0;
    for (int d = 0; d < 3; d++) { int n = 1 + mc::choose(3, "samples"); int presses = 0, on = 0; for (int i = 0; i < n; i++) { en[i] = mc::flip("enable"); tg[i] = mc::flip("toggle"); on += en[i]; if (en[i]) { if (armed && tg[i]) { presses++; armed = false; } else if (!armed && !tg[i]) armed = true; } }
        c.mEnable_queue_size = c.mToggle_queue_size = n; c.update(0.1); total += presses; mc::step(); MC_CHECK(c.getToggle() == (presses % 2 == 1), "%d presses toggle %d", presses, c.getToggle()); MC_CHECK(c.getEnable() == (presses % 2 == 1 || 2 * on >= n), "enabled %d with %d of %d samples enabled", c.getEnable(), on, n); MC_CHECK(c.mToggleCount == total, "counted %d presses of %d", c.mToggleCount, total); }
}
// ---------- dual solenoid ----------
static void dual(int depth, bool assembly) {
    Shape s = pick(SHAPES, "travel"); int latch = mc::choose(3, "latch"); double span = s.hi - s.lo, pos = s.lo + span * mc::choose(3, "initial position") * 0.5; typedef TsDualSolenoidValveController D; Ref r = makeRef(s, latch, pos, true, true);
    TsDualSolenoidValveAssembly a; D v0; TsDualSolenoidValveControllerConfigData c(s.lo, s.hi, s.flo, s.fhi, (D::LatchType)latch); TsDualSolenoidValveControllerInputData in(pos, false, 0, false, false); D& v = assembly ? a.mController : v0;
    if (assembly) a.initialize(TsDualSolenoidValveAssemblyConfigData(c, SensorBooleanAiConfigData(false, s.hi, 0.01 * span), SensorBooleanAiConfigData(false, s.lo, 0.01 * span)), TsDualSolenoidValveAssemblyInputData(in, SensorBooleanAiInputData(true, false, pos), SensorBooleanAiInputData(true, false, pos)), "a"); else v0.initialize(c, in, "v");
    r.valve(pos); match(v, r, "initially"); bool fo = false, fc = false;
    for (int d = 0; d < depth; d++) { if (mc::cut(key(r, v, fo, fc), depth - d)) return; disturb(r, v, 0, false); if (mc::flip("open solenoid fails or recovers")) { fo = !fo; v.mMalfOpenSolenoidFail = fo; } else if (mc::flip("close solenoid fails or recovers")) { fc = !fc; v.mMalfCloseSolenoidFail = fc; }
        bool o = mc::flip("open"), cl = mc::flip("close"); if (assembly) a.update(o, cl, 0.1); else { v.setOpenSolenoidCmd(o); v.setCloseSolenoidCmd(cl); v.update(0.1); }
        o = o && !fo; cl = cl && !fc; r.valve(o && !cl ? s.hi : cl && !o ? s.lo : latch == D::NORMALLY_OPEN ? s.hi : latch == D::NORMALLY_CLOSED ? s.lo : r.pos >= 0.5 * (s.lo + s.hi) ? s.hi : s.lo); match(v, r, "after update");
        MC_CHECK(v.mOpenSolenoidLoad == (o ? LoadON : LoadOFF) && v.mCloseSolenoidLoad == (cl ? LoadON : LoadOFF), "solenoid loads %d %d", v.mOpenSolenoidLoad, v.mCloseSolenoidLoad);
        if (assembly) MC_CHECK(a.mSensorOpen.getSensedOutput() == (r.pos > s.hi - 0.01 * span) && a.mSensorClosed.getSensedOutput() == (r.pos < s.lo + 0.01 * span), "assembly sensors %d %d at %g", a.mSensorOpen.getSensedOutput(), a.mSensorClosed.getSensedOutput(), r.pos); }
}
static void tvalve(int depth) {
    Shape s = pick(SHAPES, "travel"); TsValveControllerConfigData c(s.lo, s.hi, s.flo, s.fhi); TsTValveController t; int sel = mc::choose(3, "selected"); t.initialize(TsTValveControllerConfigData(c, c), TsTValveControllerInputData((TsTValveController::PositionType)sel, TsValveControllerInputData(s.lo), TsValveControllerInputData(s.hi)), "t");
    Ref a = makeRef(s, 0, s.lo, true, true), b = a; auto upd = [&] { a.manual = b.manual = true; a.manualV = sel == TsTValveController::A_PATH ? s.hi : s.lo; b.manualV = sel == TsTValveController::B_PATH ? s.hi : s.lo; a.valve(a.pos); b.valve(b.pos); match(t.mAPath, a, "A path"); match(t.mBPath, b, "B path"); if (!a.vstuck && !b.vstuck) MC_CHECK(!(a.pos == s.hi && b.pos == s.hi), "both paths open"); }; upd(); MC_CHECK(t.isInitialized(), "initialized");
    for (int d = 0; d < depth; d++) { if (mc::flip("A stuck or freed")) { a.vstuck = !a.vstuck; t.mAPath.mMalfValveStuckFlag = a.vstuck; } if (mc::flip("B stuck or freed")) { b.vstuck = !b.vstuck; t.mBPath.mMalfValveStuckFlag = b.vstuck; } sel = mc::choose(3, "selected"); t.setPosition((TsTValveController::PositionType)sel); t.update(0.1); upd(); }
}
// ---------- assemblies: the controller with its own position sensors in the loop ----------
static void assembly(int depth, bool toggleKind) {
    Shape s = SHAPES[0]; s.transit = toggleKind ? 0.25 : 1; bool eot = mc::flip("end-of-travel interrupt"); double pos = mc::choose(3, "initial position") * 0.5; Ref r = makeRef(s, P::LATCHING, pos, true, true); TsOpenCloseValveAssembly oc; TsToggleValveAssembly to; SensorBooleanAiConfigData so(false, 1, 0.01f), sc(false, 0, 0.01f); TsPoweredValveControllerInputData in(pos, false, 0, true, true, 0);
    if (toggleKind) to.initialize(TsToggleValveAssemblyConfigData(config(s, eot, P::LATCHING), so, sc), TsToggleValveAssemblyInputData(in, SensorBooleanAiInputData(true, false, pos), SensorBooleanAiInputData(true, false, pos)), "a"); else oc.initialize(TsOpenCloseValveAssemblyConfigData(config(s, eot, P::LATCHING), so, sc), TsOpenCloseValveAssemblyInputData(in, SensorBooleanAiInputData(true, false, pos), SensorBooleanAiInputData(true, false, pos)), "a");
    P& v = toggleKind ? (P&)to.mController : (P&)oc.mController; SensorBooleanAi &ss = toggleKind ? to.mSensorOpen : oc.mSensorOpen, &cc = toggleKind ? to.mSensorClosed : oc.mSensorClosed; bool senseO = pos > 0.99, senseC = pos < 0.01, armed = to.mController.mCommand.mArmed, failO = false; r.drive(0); match(v, r, "initially");
    for (int d = 0; d < depth; d++) { if (mc::cut(key(r, v, eot * 8 + senseO * 4 + senseC * 2 + armed, failO), depth - d)) return; if (mc::flip("open sensor fails on or recovers")) { failO = !failO; ss.mMalfFailToFlag = failO; ss.mMalfFailToValue = true; }
        disturb(r, v, &v, false); int k = mc::choose(4, "command"); double dt = 0.25; r.cmd = 0;
        if (toggleKind) { bool t = k & 1, act = false; if (k > 1) return; to.update(r.supply, r.enable, t, dt); if (r.enable) { if (armed && t) { armed = false; act = true; } else if (!armed && !t) armed = true; } if (act) { if (r.pos < 0.5) { if (!eot || !senseO) r.cmd = 1 / dt; } else if (!eot || !senseC) r.cmd = -1 / dt; } }
        else { TsOpenCloseValveCmd c; c.mEnable = r.enable; c.mOpen = k & 1; c.mClose = k & 2; oc.update(r.supply, c, dt); if (k == 1 && !(eot && senseO)) r.cmd = 1; if (k == 2 && !(eot && senseC)) r.cmd = -1; }
        r.drive(dt); match(v, r, "after update"); matchPower(v, r, "after update"); senseO = failO || r.pos > 0.99; senseC = r.pos < 0.01; MC_CHECK(ss.getSensedOutput() == senseO && cc.getSensedOutput() == senseC, "sensors read %d %d at %g", ss.getSensedOutput(), cc.getSensedOutput(), r.pos); }
}
static void validation() {   // bad configurations are refused
    static const double L[] = {0, 1, -1}; double lo = pick(L, "min"), hi = pick(L, "max"), flo = pick(L, "fluid min"), fhi = pick(L, "fluid max"), pos = pick(L, "position"), ref = pick(L, "reference"), tr = pick(L, "transit"), pw = mc::flip("no power") ? 0 : 1; bool man = mc::flip("manual"); double mv = pick(L, "manual value"); bool ok = true; P v;
    try { v.initialize(TsPoweredValveControllerConfigData(lo, hi, flo, fhi, tr, ref, 1, pw, 1, 28, false, P::LATCHING), TsPoweredValveControllerInputData(pos, man, mv, true, true, 0), "v"); } catch (TsInitializationException&) { ok = false; }
    MC_CHECK(ok == v.isInitialized(), "initialized flag"); mc::step(); if (hi == lo) return; bool bad = hi < lo || fhi <= flo || pos < lo || pos > hi || (man && (mv < lo || mv > hi)) || ref == 0 || tr <= 0 || pw == 0; MC_CHECK(ok == !bad, "travel %g..%g fluid %g..%g position %g transit %g was %s", lo, hi, flo, fhi, pos, tr, ok ? "accepted" : "refused");
}
int main(int argc, char** argv) {
    mc::bounds("command, power and malfunction histories up to depth 3-6 with state hashing, two travels, three latch types");
    const char* N[] = {"open/close", "speed", "position", "toggle"};
    for (int k = 0; k < 4; k++) { mc::add(std::string(N[k]) + " valve", [=] { powered(k, tierPick(3, 5), true); }); mc::add(std::string(N[k]) + " valve, deeper", [=] { powered(k, tierPick(4, 6), false); }); }
    mc::add("handle", handle); mc::add("toggle queue", queue); mc::add("dual solenoid", [] { dual(tierPick(3, 5), false); }); mc::add("dual solenoid assembly", [] { dual(tierPick(3, 4), true); }); mc::add("T valve", [] { tvalve(tierPick(4, 5)); });
    mc::add("open/close assembly", [] { assembly(tierPick(4, 6), false); }); mc::add("toggle assembly", [] { assembly(tierPick(4, 6), true); }); mc::add("validation", validation);
    return mc::run(argc, argv, "C60");
}
