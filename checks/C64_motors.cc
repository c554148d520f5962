// mc: hflags=-fno-access-control
// C64: motor models obey their torque, speed, electrical and heat balance in every history.
#include "mc.hh"
#include "common/effectors/mechanical/motor/DcDynPumpMotor.hh"
#include "common/effectors/mechanical/motor/TsDcPwmDynMotor.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cmath>
#include <cfloat>
using namespace mc;
static const double RPM = 60 / (2 * M_PI);
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }
struct Malf { bool degrade = false, jam = false, over = false, heat = false; double degradeV = 0.25, jamV = 0.5, overV = 777, heatV = 3; };
template<class M> static void apply(M& m, const Malf& f) { m.mMalfDegradeFlag = f.degrade; m.mMalfDegradeValue = f.degradeV; m.mMalfJamFlag = f.jam; m.mMalfJamValue = f.jamV; m.mMalfSpeedOverrideFlag = f.over; m.mMalfSpeedOverrideValue = f.overV; m.mMalfHeatRateBiasFlag = f.heat; m.mMalfHeatRateBiasValue = f.heatV; }
static const double VV[] = {28, 0, 120}, TQ[][4] = {{0, 0, 0, 0}, {-0.02, -0.01, 0, 0.005}, {0.01, 0.02, 0.03, 0.04}, {-1, -2, 0, 0}};
// change number m>=2 toggles or edits a malfunction
static void malfunction(int m, Malf& f) { switch (m) { case 2: f.degrade = !f.degrade; break; case 3: f.jam = !f.jam; break; case 4: f.over = !f.over; break; case 5: f.heat = !f.heat; break; case 6: f.degradeV = f.degradeV == 0.25 ? 1 : f.degradeV == 1 ? 0 : 0.25; break; case 7: f.jamV = f.jamV == 0.5 ? 5 : 0.5; break; case 8: f.overV = f.overV == 777 ? 0 : 777; break; } }
static void pump(int depth) {
    struct C { double R, kt, kf, fmin, J; }; static const C CFG[] = {{2, 0.05, 1e-5, 0, 0.01}, {0.5, 0.2, 1e-4, 500, 0.5}}; const C c = pick(CFG, "motor"); static const double W[] = {0, 2000}, LIM[] = {1e15, 4, 0}; double w = pick(W, "initial speed"), V = pick(VV, "voltage"), lim = 1e15; int q = mc::choose(4, "load");
    DcDynPumpMotor m; m.initialize(DcDynPumpMotorConfigData(c.R, c.kt, c.kf, c.fmin, c.J), DcDynPumpMotorInputData(V, lim, w, TQ[q][0], TQ[q][1], TQ[q][2], TQ[q][3]), "m"); MC_CHECK(m.isInitialized() && m.getSpeed() == w, "initialized"); Malf f;
    for (int d = 0; d < depth; d++) {
        Hash h; h.d(c.R).d(w).d(V).d(lim).i(q).i(f.degrade).i(f.jam).i(f.over).i(f.heat).d(f.degradeV).d(f.jamV).d(f.overV).d(m.getSpeed()); if (mc::cut(h.h, depth - d)) return;
        int k = mc::choose(11, "change"); if (k == 1) { V = pick(VV, "voltage"); m.setVoltage(V); } if (k == 9) { lim = pick(LIM, "current limit"); m.setCurrentLimit(lim); } if (k == 10) { q = mc::choose(4, "load"); m.setLoadTorques(TQ[q][0], TQ[q][1], TQ[q][2], TQ[q][3]); } malfunction(k, f); apply(m, f); double dt = mc::flip("long step") ? 1.0 : 0.0625; m.step(dt); mc::step();
        double R = f.degrade ? c.R / std::max(DBL_EPSILON, 1 - f.degradeV) : c.R, I = clamp(0, (V - c.kt * w / RPM) / R, lim), ext = TQ[q][0] + TQ[q][1] + TQ[q][2] + TQ[q][3] - (f.jam ? f.jamV * c.kt * V / R : 0); double net = c.kt * I + ext - c.kf * std::max(w, c.fmin); w = f.over ? f.overV : std::max(0.0, w + net * dt * RPM / c.J);
        double P = I * V, useful = -ext * w / RPM, heat = std::max(P - useful, 0.0) + (f.heat ? f.heatV : 0); mc::validated(); mc::trace("change %d dt %g: speed %g (%g) current %g (%g) heat %g (%g)", k, dt, m.getSpeed(), w, m.getCurrent(), I, m.getWasteHeat(), heat);
        MC_CHECK(near(m.getSpeed(), w, 1e-9, 1e-9) && m.getSpeed() >= 0, "speed %.12g, expected %.12g", m.getSpeed(), w); MC_CHECK(near(m.getCurrent(), I, 1e-9, 1e-12) && near(m.getPower(), P, 1e-9, 1e-12), "current %g, expected %g", m.getCurrent(), I); MC_CHECK(near(m.getResistance(), V / std::max(I, DBL_EPSILON), 1e-9, 0) || I < 1e-9, "resistance %g", m.getResistance());
        MC_CHECK(near(m.getWasteHeat(), heat, 1e-9, 1e-9 * (1 + P + std::fabs(useful))) && m.getWasteHeat() >= 0, "waste heat %g, expected %g", m.getWasteHeat(), heat); MC_CHECK(near(m.getEfficiency(), P > 0 ? useful / P : 0, 1e-9, 1e-9), "efficiency %g", m.getEfficiency()); w = m.getSpeed();
    }
}
static void pwm(int depth) {
    struct C { double waste, s1, s2, fr, ke, R, J, ratio; }; static const C CFG[] = {{0.1, 0.02, 1e-4, -0.001, 0.01, 4, 0.01, 5e4}, {0, 0.05, 0, 0, 0.05, 1, 0.1, 2e3}}; const C c = pick(CFG, "motor"); static const double W[] = {0, 3000}, PW[] = {1, 0, 0.5}; double w = pick(W, "initial speed"), V = pick(VV, "voltage"), pw = pick(PW, "pulse width"); int q = mc::choose(4, "load");
    TsDcPwmDynMotor m; m.initialize(TsDcPwmDynMotorConfigData(c.waste, c.s1, c.s2, c.fr, c.ke, c.R, c.J, c.ratio), TsDcPwmDynMotorInputData(V, pw, w, TQ[q][0], TQ[q][1], TQ[q][2], TQ[q][3]), "m"); MC_CHECK(m.isInitialized() && m.getSpeed() == w, "initialized"); Malf f;
    for (int d = 0; d < depth; d++) {
        Hash h; h.d(c.R).d(w).d(V).d(pw).i(q).i(f.degrade).i(f.jam).i(f.over).i(f.heat).d(f.degradeV).d(f.jamV).d(f.overV).d(m.getSpeed()); if (mc::cut(h.h, depth - d)) return;
        int k = mc::choose(11, "change"); if (k == 1) { V = pick(VV, "voltage"); m.setVoltage(V); } if (k == 9) { pw = pick(PW, "pulse width"); m.setPulseWidth(pw); } if (k == 10) { q = mc::choose(4, "load"); m.setLoadTorques(TQ[q][0], TQ[q][1], TQ[q][2], TQ[q][3]); } malfunction(k, f); apply(m, f); double dt = mc::flip("long step") ? 1.0 : 0.0625; m.step(dt); mc::step();
        double deg = f.degrade ? 1 - f.degradeV : 1, stall = (c.s1 * V + c.s2 * V * V) * deg, drive = std::max(0.0, stall - w / c.ratio) * pw, ext = TQ[q][0] + TQ[q][1] + TQ[q][2] + TQ[q][3] - (f.jam ? f.jamV * stall : 0); w = f.over ? f.overV : std::max(0.0, w + (drive + ext + c.fr) * dt * RPM / c.J);
        double back = c.ke * w / c.R, I = std::max(0.0, (c.waste + pw * (1 - c.waste)) * (V / c.R - back) * deg), gen = std::max(0.0, back - I), P = I * V, useful = -ext * w / RPM, heat = std::max(0.0, P - useful) + (f.heat ? f.heatV : 0); mc::validated(); mc::trace("change %d dt %g: speed %g (%g) current %g (%g) heat %g (%g)", k, dt, m.getSpeed(), w, m.getCurrent(), I, m.getWasteHeat(), heat);
        MC_CHECK(near(m.getSpeed(), w, 1e-9, 1e-9) && m.getSpeed() >= 0, "speed %.12g, expected %.12g", m.getSpeed(), w); MC_CHECK(near(m.getCurrent(), I, 1e-9, 1e-9) && near(m.getPower(), P, 1e-9, 1e-9 * (1 + V)), "current %g, expected %g", m.getCurrent(), I); MC_CHECK(near(m.getGeneratedCurrent(), gen, 1e-9, 1e-9), "generated current %g, expected %g", m.getGeneratedCurrent(), gen);
        if (I > 1e-9) MC_CHECK(near(m.getResistance(), V / I, 1e-6, 0), "resistance %g", m.getResistance()); else if (I == 0) MC_CHECK(m.getResistance() > 1e9, "resistance %g without current", m.getResistance()); MC_CHECK(near(m.getWasteHeat(), heat, 1e-9, 1e-9 * (1 + P + std::fabs(useful))), "waste heat %g, expected %g", m.getWasteHeat(), heat);
        if (P == 0 || P > 1e-6) MC_CHECK(near(m.getEfficiency(), P > 0 ? useful / P : 0, 1e-6, 1e-9), "efficiency %g", m.getEfficiency()); w = m.getSpeed();
    }
}
static void validation() { int f = mc::choose(20, "fault"); bool refused = false, ok;
    if (f < 8) { DcDynPumpMotorConfigData c(1, 1, 0, 0, 1); DcDynPumpMotorInputData in(1, 1, 1); switch (f) { case 1: c.mWindingResistance = 0; break; case 2: c.mTorqueConstant = 0; break; case 3: c.mFrictionConstant = -1e-9; break; case 4: c.mFrictionMinSpeed = -1e-9; break; case 5: c.mInertia = 0; break; case 6: in.mVoltage = -1e-9; break; case 7: in.mMotorSpeed = -1e-9; break; }
        DcDynPumpMotor m; if (mc::flip("before")) m.initialize(DcDynPumpMotorConfigData(1, 1, 0, 0, 1), DcDynPumpMotorInputData(), "m"); try { m.initialize(c, in, "m"); } catch (TsInitializationException&) { refused = true; } ok = m.isInitialized(); MC_CHECK(refused == (f != 0) && ok == !refused, "pump motor fault %d %s", f, refused ? "refused" : "accepted"); }
    else { TsDcPwmDynMotorConfigData c(0.5, 1, 1, 0, 1, 1, 1, 1); TsDcPwmDynMotorInputData in(1, 0.5, 1); switch (f) { case 9: c.mPulseWasteFraction = -1e-9; break; case 10: c.mPulseWasteFraction = 1.001; break; case 11: c.mFrictionTorque = 1e-9; break; case 12: c.mArmatureResistance = 0; break; case 13: c.mInertia = 0; break; case 14: c.mSpeedLoadRatio = 0; break; case 15: in.mVoltage = -1e-9; break; case 16: in.mPulseWidth = -1e-9; break; case 17: in.mPulseWidth = 1.001; break; case 18: in.mMotorSpeed = -1e-9; break; case 19: c.mArmatureResistance = -1; break; }
        TsDcPwmDynMotor m; if (mc::flip("before")) m.initialize(TsDcPwmDynMotorConfigData(0.5, 1, 1, 0, 1, 1, 1, 1), TsDcPwmDynMotorInputData(), "m"); try { m.initialize(c, in, "m"); } catch (TsInitializationException&) { refused = true; } ok = m.isInitialized(); MC_CHECK(refused == (f != 8) && ok == !refused, "motor fault %d %s", f, refused ? "refused" : "accepted"); }
    mc::step(); }
int main(int argc, char** argv) {
    mc::bounds("histories of voltage, load, limit, pulse width, malfunction and time step changes up to depth 3 (5)");
    mc::add("pump motor", [] { pump(tierPick(3, 5)); }); mc::add("pwm motor", [] { pwm(tierPick(3, 5)); }); mc::add("validation", validation);
    return mc::run(argc, argv, "C64");
}
