// mc: hflags=-fno-access-control
// C63: thermostats, PID controllers and pump motor controllers follow their control laws in every history.
#include "mc.hh"
#include "aspects/signal/effectors/thermostat/Thermostat.hh"
#include "common/controllers/generic/TsPidController.hh"
#include "common/controllers/fluid/TsPumpMotorController.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cmath>
#include <cfloat>
#include <vector>
using namespace mc;
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }
// ---------- thermostat ----------
static void thermostat(int depth, bool malfs) {
    int n = 1 + mc::choose(3, "sensors"), logic = n == 1 ? 1 + mc::choose(3, "logic") : 2 + mc::choose(2, "logic");
    SensorAnalogConfigData sc(0, 1000); SensorAnalogInputData si(true, 230); bool on0 = malfs && mc::flip("malfunction on"), off0 = malfs && !on0 && mc::flip("malfunction off");
    Thermostat t; t.initialize(ThermostatConfigData(sc, 220, 240, n, (ThermostatConfigData::LogicType)logic), ThermostatInputData(si, on0, off0, false, false, 226, 234), "t"); MC_CHECK(t.isInitialized() && t.getNominalSetptLow() == 220 && t.getNominalSetptHigh() == 240, "initialized");
    std::vector<double> T(n, 230), sensed(n, 230); std::vector<bool> fail(n, false), unp(n, false); double bias = 0, malfLo = 226, malfHi = 234; bool mlo = false, mhi = false, on = on0, off = off0, kill = false, nominal = false, effective = false;
    for (int d = 0; d < depth; d++) {
        Hash h; h.i(n).i(logic).d(bias).i(mlo).i(mhi).i(on).i(off).i(kill).i(nominal).i(effective).d(malfLo).d(malfHi); for (int k = 0; k < n; k++) h.d(T[k]).i(fail[k]).i(unp[k]); h.i(t.mCommandActual).i(t.mCommandNominal).i(t.mCommandSetpt); if (mc::cut(h.h, depth - d)) return;
        static const double X[] = {230, 200, 260, 222, 238, 220, 240}; int m = mc::choose(malfs ? 12 : 5, "change"), who = m == 1 || m == 10 || m == 11 ? mc::choose(n, "sensor") : 0;
        switch (m) {
            case 1: T[who] = pick(X, "temperature"); t.mTempSensor[who].setTruthInput(T[who]); break;
            case 2: bias = 0; t.setTemperatureSetpt(230); break;
            case 3: bias = 20; t.setTemperatureSetpt(250); break;
            case 4: bias = -20; t.setCommandSetptBias(-20); break;
            case 5: on = !on; t.mMalfCmdOnFlag = on; break;
            case 6: off = !off; t.mMalfCmdOffFlag = off; break;
            case 7: kill = !kill; t.mIsKillSwitchEngaged = kill; break;
            case 8: mlo = !mlo; t.mMalfSetptLowFlag = mlo; break;
            case 9: mhi = !mhi; t.mMalfSetptHighFlag = mhi; break;
            case 10: fail[who] = !fail[who]; t.mTempSensor[who].mMalfFailToFlag = fail[who]; t.mTempSensor[who].mMalfFailToValue = 300; break;
            case 11: unp[who] = !unp[who]; t.mTempSensor[who].setPowerFlag(!unp[who]); break;
        }
        auto command = [&](bool memory, double lo, double hi) { bool any = false, all = true; for (int k = 0; k < n; k++) { bool c = sensed[k] > hi ? false : sensed[k] < lo ? true : memory; any = any || c; all = all && c; } return logic == 2 ? all : any; };
        t.update(0.1); mc::step();
        for (int k = 0; k < n; k++) { sensed[k] = unp[k] ? 0 : fail[k] ? 300 : T[k]; MC_CHECK(near(t.mTempSensor[k].getSensedOutput(), sensed[k], 1e-6, 0), "sensor %d", k); }
        bool was = nominal; nominal = command(nominal, 220 + bias, 240 + bias); effective = command(mlo || mhi ? effective : was, mlo ? malfLo : 220 + bias, mhi ? malfHi : 240 + bias);
        bool want = off ? false : on ? true : kill ? false : effective; mc::trace("change %d sensor %d -> %d, expected %d", m, who, t.getCommandActual(), want); mc::validated();
        MC_CHECK(t.getCommandActual() == (want ? LoadON : LoadOFF), "commands %d, expected %d", t.getCommandActual(), want);
        mc::outcome(want ? "on" : "off");
    }
}
static void thermostatValidation() {
    int n = mc::choose(4, "sensors"), logic = 1 + mc::choose(3, "logic"); static const double L[] = {0, 220, 240}; double lo = pick(L, "low"), hi = pick(L, "high"), mlo = pick(L, "malf low"), mhi = pick(L, "malf high"); bool on = mc::flip("on"), off = mc::flip("off"), again = mc::flip("initialized before");
    SensorAnalogConfigData sc(0, 1000); SensorAnalogInputData si(true, 230); Thermostat t; bool bad = n < 1 || (n > 1 && logic == 1) || lo >= hi || mlo >= mhi || (on && off), refused = false, early = false;
    try { t.update(0.1); } catch (TsInitializationException&) { early = true; } MC_CHECK(early, "an uninitialized thermostat updated");
    if (again) { t.initialize(ThermostatConfigData(sc, 1, 2, 2, ThermostatConfigData::AND), ThermostatInputData(si), "t"); t.update(0.1); }
    try { t.initialize(ThermostatConfigData(sc, lo, hi, n, (ThermostatConfigData::LogicType)logic), ThermostatInputData(si, on, off, false, false, mlo, mhi), "t"); } catch (TsInitializationException&) { refused = true; }
    MC_CHECK(refused == bad && t.isInitialized() == !bad, "%s sensors %d logic %d setpoints %g %g malf %g %g on %d off %d", refused ? "refused" : "accepted", n, logic, lo, hi, mlo, mhi, on, off); mc::step();
    if (!bad) { t.update(0.1); MC_CHECK(t.getCommandActual() == LoadOFF || on || lo < 230, "command"); }
}
// ---------- PID ----------
static void pid(int depth) {
    static const double G[][3] = {{1, 0, 0}, {0, 0.5, 0}, {0, 0, 0.25}, {0.5, 0.125, -0.25}}, IV[] = {0.1, 0.5, 1.0}, LIM[][2] = {{0, 1}, {-10, 10}, {2, 100}}, DT[] = {0.1, 0.5, 2.0}, X[] = {0, 1, -4, 25}, SP[] = {1, 0, -3};
    int g = mc::choose(4, "gains"), l = mc::choose(3, "limits"); double iv = pick(IV, "interval"), in0 = pick(X, "input"), out0 = 0.5; TsPidController p; p.initialize(TsPidControllerConfigData(G[g][0], G[g][1], G[g][2], iv, LIM[l][0], LIM[l][1]), TsPidControllerInputData(in0, 1, 0.05, 0.25, out0), "p");
    MC_CHECK(p.isInitialized(), "initialized"); double in = in0, sp = 1, timer = 0.05, integral = 0.25, out = out0, err = in0 - 1; std::vector<double> hist; bool updated = false;
    for (int d = 0; d < depth; d++) {
        Hash h; h.i(g).i(l).d(iv).d(in).d(sp).d(timer).d(integral).d(out).d(err).d(p.getOutput()); if (mc::cut(h.h, depth - d)) return;
        if (mc::flip("new setpoint")) { sp = pick(SP, "setpoint"); p.setSetpoint(sp); } in = pick(X, "input"); double dt = pick(DT, "time step");
        timer += dt; if (std::fabs(timer - iv) < 1e-12) return;   // rounding decides
        if (timer >= iv) { double e = in - sp, prev = err; err = e; integral += e * timer; out = clamp(LIM[l][0], out + G[g][0] * e + G[g][1] * integral + G[g][2] * (e - prev) / timer, LIM[l][1]); timer = 0; updated = true; }
        double got; if (mc::flip("separate input")) { p.setInput(in); got = p.update(dt); } else got = p.update(dt, in); mc::step(); mc::validated(); mc::trace("in %g sp %g dt %g -> %g, expected %g", in, sp, dt, got, out);
        MC_CHECK(near(got, out, 1e-9, 1e-12) && got == p.getOutput(), "output %.12g, expected %.12g", got, out); MC_CHECK(!updated || (got >= LIM[l][0] && got <= LIM[l][1]), "output %g outside its limits", got);
    }
}
static void pidValidation() { static const double I[] = {-1, 0, 1e-9, 1}, L[] = {-1, 0, 0.5}; double iv = pick(I, "interval"), lo = pick(L, "low"), hi = pick(L, "high"); TsPidController p; bool refused = false, bad = !(iv > 0) || !(hi > lo);
    try { p.initialize(TsPidControllerConfigData(1, 1, 1, iv, lo, hi), TsPidControllerInputData(), "p"); } catch (TsInitializationException&) { refused = true; } MC_CHECK(refused == bad && p.isInitialized() == !bad, "interval %g limits %g %g %s", iv, lo, hi, refused ? "refused" : "accepted"); mc::step(); }
// ---------- pump motor controller ----------
static void pump(int depth, bool noise) {
    const double R = 2, KT = 0.05, KF = 1e-5, J = 0.01, FG = 0.1, DG = 0.25, DC = 0.05, LOAD = 14, RPM = 60 / (2 * M_PI), NA = noise ? 300 : 0, NF = 1.0, LIMIT = 3;
    double speed = 0; TsPumpMotorController c; DcDynPumpMotorConfigData mc_(R, KT, KF, 0, J); TsPumpMotorControllerConfigData cfg(mc_, FG, DG, DC, 350, 340, 20, 32, LOAD, NA, NF, LIMIT); c.initialize(cfg, TsPumpMotorControllerInputData(DcDynPumpMotorInputData(0, 1e15, speed), 28, 0, 300, true, false, 0, 0), "c"); MC_CHECK(c.isInitialized(), "initialized");
    double V = 28, sensed = 0, temp = 300, cmd = 0, ovv = 24, mcmd = 800, pw = 0, err = 0, phase = 0; bool en = true, closed = true, mfail = false, mov = false, mspd = false, trip = false, startup = true;
    for (int d = 0; d < depth; d++) {
        Hash h; h.d(V).d(sensed).d(temp).d(cmd).d(ovv).d(mcmd).i(en).i(closed).i(mfail).i(mov).i(mspd).i(trip).i(startup).d(pw).d(err).d(phase).d(speed).d(c.getPulseWidth()).d(c.getMotorSpeed()).d(c.mSpeedError); if (mc::cut(h.h, depth - d)) return;
        static const double VV[] = {28, 19.9, 20, 32, 32.1, 0}, TT[] = {300, 345, 351, 339}, CC[] = {1000, 0, 100, -50}; int m = mc::choose(9, "change");
        switch (m) { case 1: V = pick(VV, "voltage"); break; case 2: temp = pick(TT, "temperature"); break; case 3: cmd = pick(CC, "speed command"); break; case 4: en = !en; break; case 5: closed = !closed; break;
            case 6: mfail = !mfail; c.mMalfFailPower = mfail; break; case 7: mov = !mov; c.mMalfPowerOverrideFlag = mov; c.mMalfPowerOverrideValue = ovv; break; case 8: mspd = !mspd; c.mMalfCommandSpeedFlag = mspd; c.mMalfCommandSpeedValue = mcmd; break; }
        sensed = closed ? c.getMotorSpeed() : 990; double dt = mc::flip("long step") ? 0.5 : 0.0625; c.stepWithArgs(dt, V, sensed, temp, cmd, en); mc::step();
        double u = mov ? ovv : V; bool ctrl = u >= 20 && u <= 32 && !mfail; if (!ctrl) trip = false; else { if (temp > 350) trip = true; if (temp < 340) trip = false; } bool motor = ctrl && en && !trip;
        double sc = mspd ? mcmd : cmd;
        if (motor && sc > FLT_EPSILON) { phase = std::fmod(phase + 2 * M_PI * NF * dt, 2 * M_PI); sc += NA * std::sin(phase); double was = err; err = sc > FLT_EPSILON ? (sc - sensed) / sc : -1; double e = std::fabs(err); if (std::fabs(e - DC) < 1e-9) return; pw += err * FG; if (e > DC) pw += DG * (err - was) / std::max(e, 1e-4); else startup = false; pw = clamp(0, pw, 1); }
        else { pw = err = 0; startup = true; }
        double vm = pw * u, I = clamp(0, (vm - KT * speed / RPM) / R, startup ? LIMIT : 1e15); speed = std::max(0.0, speed + (KT * I - KF * speed) * dt * RPM / J); double P = I * vm;
        mc::trace("change %d: V %g T %g cmd %g: pw %g (%g) speed %g (%g) trip %d bus %d %d", m, V, temp, sc, c.getPulseWidth(), pw, c.getMotorSpeed(), speed, c.isTemperatureTripped(), c.isControllerBusPowered(), c.isMotorBusPowered()); mc::validated();
        MC_CHECK(c.isTemperatureTripped() == trip, "tripped %d, expected %d", c.isTemperatureTripped(), trip); MC_CHECK(c.isControllerBusPowered() == ctrl && c.isMotorBusPowered() == motor, "buses %d %d, expected %d %d", c.isControllerBusPowered(), c.isMotorBusPowered(), ctrl, motor);
        MC_CHECK(near(c.getPulseWidth(), pw, 1e-9, 1e-12), "pulse width %g, expected %g", c.getPulseWidth(), pw); MC_CHECK(near(c.getMotorSpeed(), speed, 1e-9, 1e-9), "speed %g, expected %g", c.getMotorSpeed(), speed); MC_CHECK(near(c.getMotorCurrent(), I, 1e-9, 1e-9) && near(c.getMotorPower(), P, 1e-9, 1e-9), "motor current %g, expected %g", c.getMotorCurrent(), I);
        double cond = (ctrl ? LOAD / (u * u) : 0) + (motor && I > 1e-12 ? pw * I / u : 0), heat = (ctrl ? LOAD : 0) + (motor ? std::max(P, 0.0) : 0), volt = ctrl ? u : V;   // no load torque: all motor power is heat
        MC_CHECK(near(c.getTotalWasteHeat(), heat, 1e-9, 1e-9), "waste heat %g, expected %g", c.getTotalWasteHeat(), heat); MC_CHECK(cond < 1e-9 ? c.getTotalResistance() > 1e9 : near(c.getTotalResistance(), 1 / cond, 1e-9, 0), "resistance %g, expected %g", c.getTotalResistance(), 1 / cond);
        MC_CHECK(near(c.getTotalCurrent(), volt * cond, 1e-9, 1e-9), "total current %g, expected %g", c.getTotalCurrent(), volt * cond); if (!mov && ctrl) MC_CHECK(near(c.getTotalPower(), LOAD + P, 1e-9, 1e-9), "total power %g, expected %g", c.getTotalPower(), LOAD + P);
        mc::outcome(motor ? startup ? "starting" : "running" : trip ? "tripped" : "off");
    }
}
static void pumpValidation() {
    DcDynPumpMotorConfigData good(1, 1, 0, 0, 1); TsPumpMotorControllerConfigData c(good, 0.5, 0.5, 0.5, 350, 340, 20, 30, 10, 1, 1, 5); TsPumpMotorControllerInputData in; int m = mc::choose(22, "fault"); bool bad = m != 0;
    switch (m) { case 1: c.mForcingGain = -0.1; break; case 2: c.mForcingGain = 1.1; break; case 3: c.mDampingGain = -0.1; break; case 4: c.mDampingGain = 1.1; break; case 5: c.mDampingCutoff = -0.1; break; case 6: c.mDampingCutoff = 1.1; break; case 7: c.mTemperatureTripReset = -1; break; case 8: c.mTemperatureTripLimit = 340; break;
        case 9: c.mMinVoltage = -1; break; case 10: c.mMaxVoltage = 20; break; case 11: c.mControllerPowerLoad = -1; break; case 12: c.mNoiseAmplitude = -1; break; case 13: c.mNoiseFrequency = -1; break; case 14: in.mVoltage = -1; break; case 15: c.mMotor.mWindingResistance = 0; break; case 16: c.mMotor.mTorqueConstant = 0; break; case 17: c.mMotor.mFrictionConstant = -1; break; case 18: c.mMotor.mInertia = 0; break; case 19: in.mMotor.mVoltage = -1; break; case 20: in.mMotor.mMotorSpeed = -1; break; case 21: c.mMotor.mFrictionMinSpeed = -1; break; }
    TsPumpMotorController p; bool refused = false; if (mc::flip("initialized before")) p.initialize(TsPumpMotorControllerConfigData(good, 0.5, 0.5, 0.5, 350, 340, 20, 30, 10, 1, 1, 5), TsPumpMotorControllerInputData(), "p"); try { p.initialize(c, in, "p"); } catch (TsInitializationException&) { refused = true; } MC_CHECK(refused == bad && p.isInitialized() == !bad, "fault %d %s", m, refused ? "refused" : "accepted"); mc::step();
}
int main(int argc, char** argv) {
    mc::bounds("thermostats of 1-3 sensors with histories up to depth 4 (6), PID histories to 4 (5), pump motor controllers to 6 (8), with state hashing; exact rounding ties are excluded");
    mc::add("thermostat", [] { thermostat(tierPick(5, 7), false); }); mc::add("thermostat malfunctions", [] { thermostat(tierPick(4, 6), true); }); mc::add("thermostat validation", thermostatValidation); mc::add("pid", [] { pid(tierPick(3, 4)); }); mc::add("pid validation", pidValidation);
    mc::add("pump", [] { pump(tierPick(5, 7), false); }); mc::add("pump noise", [] { pump(tierPick(4, 6), true); }); mc::add("pump validation", pumpValidation);
    return mc::run(argc, argv, "C63");
}
