// mc: hflags=-fno-access-control
// C61: every sensor's output follows from truth, power and malfunctions by its documented priorities, and clears cleanly.
#include "mc.hh"
#include "common/sensors/SensorAnalog.hh"
#include "common/sensors/SensorBooleanBi.hh"
#include "common/sensors/SensorBooleanAi.hh"
#include "common/sensors/SensorVlvOpenClose.hh"
#include "common/sensors/TsLimitSwitch.hh"
#include "common/sensors/TsLimitSwitchAnalog.hh"
#include "common/sensors/TsFanSpeedSensors.hh"
#include "common/sensors/TsOpticSmokeDetector.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cmath>
#include <cfloat>
using namespace mc;

static double gNoise; static int gNoiseCalls;
static double noise() { gNoiseCalls++; return gNoise; }
static double clamp(double lo, double x, double hi) { return x < lo ? lo : x > hi ? hi : x; }

// ---------- analog ----------
struct Cfg { double lo, hi, off, bias, scale, ns, nm, res; int unit; };
static double convert(int u, double x) { return u == 0 ? x : u == 1 ? x * 9.0 / 5.0 + 32.0 : x * 1000.0; }
struct ARef { Cfg c; bool power, to, off, stuck, ignore, perfect, mscale, mbias, mdrift, mnoise, mres; double drift, out, truth; bool tie;
    void update(double dt, double n) { tie = false;
        if (perfect) out = convert(c.unit, truth);
        else if ((power || ignore) && !off) {
            if (to) out = 7; else if (!stuck) {
                double x = convert(c.unit, truth) * c.scale * (mscale ? 1.5 : 1) + c.bias + (mbias ? -2.25 : 0);
                if (mdrift) drift += 0.5 * dt; else drift = 0; x += drift;
                double ns = mnoise ? 0.75 : c.ns, nm = mnoise ? 0.125 : c.nm, mult = nm * std::fabs(x - c.off); x += n * mult; x += n * ns;
                double r = mres ? 2.0 : c.res; if (r > 0) { double q = std::floor(x / r + 0.5); double f = x / r + 0.5; tie = std::fabs(f - std::floor(f)) < 1e-4 || std::fabs(f - std::ceil(f)) < 1e-4; x = q * r; }
                out = x; } }
        else out = c.off;
        out = clamp(c.lo, out, c.hi); } };
static void analog(int depth) {
    static const Cfg CFG[] = {{-100, 100, 0, 0, 1, 0, 0, 0, 0}, {-20, 80, -20, 1.5, 1.25, 0.5, 0.03125, 0.25, 0}, {0, 500, 3, 0, 1, 0, 0.0625, 0, 1}, {-100, 1000, 0, 0, 1, 0, 0, 0.0625, 2}};
    static const double T[] = {10, 0, -30, 1e-42, 95.3, 1e9, -1e9};
    ARef r; r.c = pick(CFG, "sensor"); r.power = true; r.to = r.off = r.stuck = r.ignore = r.perfect = r.mscale = r.mbias = r.mdrift = r.mnoise = r.mres = false; r.drift = 0; r.truth = pick(T, "initial truth"); r.power = mc::flip("initially powered");
    SensorAnalog s; gNoise = 0; bool hasNoise = mc::flip("noise function");
    const UnitConversion::Type U[] = {UnitConversion::NO_CONVERSION, UnitConversion::C_TO_F, UnitConversion::UNIT_TO_MILLI};
    s.initialize(SensorAnalogConfigData(r.c.lo, r.c.hi, r.c.off, r.c.bias, r.c.scale, r.c.ns, r.c.res, hasNoise ? noise : 0, U[r.c.unit], r.c.nm), SensorAnalogInputData(r.power, r.truth), "s");
    r.out = 0; r.update(0, 0); MC_CHECK(s.isInitialized(), "not initialized");
    auto same = [&](const char* when) { double span = r.c.hi - r.c.lo; if (r.tie) { double q = r.mres ? 2 : r.c.res; MC_CHECK(std::fabs(s.getSensedOutput() - r.out) <= q * 1.001, "%s: sensed %.9g, expected %.9g", when, s.getSensedOutput(), r.out); r.out = s.getSensedOutput(); }
        MC_CHECK(near(s.getSensedOutput(), r.out, 1e-5, 1e-6 * span), "%s: sensed %.9g, expected %.9g (truth %g)", when, s.getSensedOutput(), r.out, r.truth);
        MC_CHECK(s.getSensedOutput() >= (float)r.c.lo && s.getSensedOutput() <= (float)r.c.hi, "%s: sensed %g out of range", when, s.getSensedOutput());
        MC_CHECK(near(s.getTruthOutput(), convert(r.c.unit, r.truth), 1e-9, 1e-30) && s.getTruthInput() == r.truth, "%s: truth output %.12g", when, s.getTruthOutput());
        MC_CHECK(s.mDegradedFlag == s.determineDegradation() && s.determineDegradation() == (!r.perfect && (r.to || r.off || r.stuck || r.mscale || r.mbias || r.mdrift || r.mnoise || r.mres)), "%s: degraded flag %d", when, s.determineDegradation());
        mc::validated(); mc::step(); };
    same("initially");
    for (int d = 0; d < depth; d++) {
        Hash h; h.d(r.c.lo).d(r.c.hi).i(hasNoise).i(r.to).i(r.off).i(r.stuck).i(r.ignore).i(r.perfect).i(r.mscale).i(r.mbias).i(r.mdrift).i(r.mnoise).i(r.mres).d(r.drift).d(r.out).d(s.getSensedOutput());
        if (mc::cut(h.h, depth - d)) return;
        int m = mc::choose(11, "malfunction toggled"); bool* f[] = {0, &r.to, &r.off, &r.stuck, &r.ignore, &r.perfect, &r.mscale, &r.mbias, &r.mdrift, &r.mnoise, &r.mres};
        if (m) { *f[m] = !*f[m]; s.mMalfFailToFlag = r.to; s.mMalfFailToValue = 7; s.mMalfFailOffFlag = r.off; s.mMalfFailStuckFlag = r.stuck; s.mMalfIgnorePower = r.ignore; s.mMalfPerfectSensor = r.perfect; s.mMalfScaleFlag = r.mscale; s.mMalfScaleValue = 1.5; s.mMalfBiasFlag = r.mbias; s.mMalfBiasValue = -2.25;
            s.mMalfDriftFlag = r.mdrift; s.mMalfDriftRate = 0.5; s.mMalfNoiseFlag = r.mnoise; s.mMalfNoiseScale = 0.75; s.mMalfNoiseMultiplier = 0.125; s.mMalfResolutionFlag = r.mres; s.mMalfResolutionValue = -2.0f; }
        r.truth = pick(T, "truth"); r.power = !mc::flip("unpowered"); double dt = mc::flip("long step") ? 2 : 0.1; gNoise = hasNoise ? (mc::choose(2, "noise") ? -1 : 0.5) : 0;
        mc::trace("malfunction %d, truth %g, power %d, dt %g", m, r.truth, r.power, dt);
        float got = s.sense(dt, r.power, r.truth); r.update(dt, gNoise); MC_CHECK(got == s.getSensedOutput(), "sense returned %g", got); same("after sense");
    }
}
static void analogInit() {
    static const double R[] = {-10, 0, 10}; double lo = pick(R, "min"), hi = pick(R, "max"), off = pick(R, "off"); SensorAnalog s; bool ok = true;
    try { s.initialize(SensorAnalogConfigData(lo, hi, off), SensorAnalogInputData(mc::flip("power"), 5), mc::flip("unnamed") ? "" : "s"); } catch (TsInitializationException&) { ok = false; }
    MC_CHECK(ok == (lo < hi && off >= lo && off <= hi) || !ok, "initialization accepted range %g..%g off %g", lo, hi, off); MC_CHECK(ok == s.isInitialized(), "initialized flag"); mc::step();
}
// ---------- boolean, on boolean or analog truth, and the open/close pair ----------
struct BRef { bool offv, power, to, tov, off, stuck, ignore, perfect, out;
    void update(bool truth) { if (perfect) out = truth; else if ((power || ignore) && !off) { if (to) out = tov; else if (!stuck) out = truth; } else out = offv; } };
static void boolean(int depth) {
    BRef r; r.offv = mc::flip("off value"); r.to = r.tov = r.off = r.stuck = r.ignore = r.perfect = r.out = false; r.power = mc::flip("initially powered"); int kind = mc::choose(3, "kind"); static const double X[] = {1.0, 0.91, 0.89, 1.09, 1.11, 0.0, -1.0}; bool truth = mc::flip("initial truth"); double x = truth ? 1 : 0;
    SensorBooleanBi b; SensorBooleanAi a; SensorVlvOpenClose v; SensorBooleanBi* s = &b;
    if (kind == 0) b.initialize(SensorBooleanBiConfigData(r.offv), SensorBooleanBiInputData(r.power, truth), "b");
    else if (kind == 1) { a.initialize(SensorBooleanAiConfigData(r.offv, 1.0f, 0.1f), SensorBooleanAiInputData(r.power, mc::flip("stale truth flag"), x), "a"); s = &a; }
    else { v.initialize(SensorVlvOpenCloseConfigData(SensorBooleanAiConfigData(r.offv, 1.0f, 0.1f), SensorBooleanAiConfigData(!r.offv, 0.0f, 0.1f)), SensorVlvOpenCloseInputData(r.power), mc::flip("unnamed") ? "" : "v"); s = &v.mOpen; truth = false; MC_CHECK(v.isInitialized(), "pair initialized"); }
    r.update(truth); MC_CHECK(s->getSensedOutput() == r.out, "initial output %d", s->getSensedOutput()); MC_CHECK(s->isInitialized(), "initialized");
    for (int d = 0; d < depth; d++) {
        Hash h; h.i(kind).i(r.offv).i(r.to).i(r.tov).i(r.off).i(r.stuck).i(r.ignore).i(r.perfect).i(r.out).i(s->getSensedOutput()); if (mc::cut(h.h, depth - d)) return;
        int m = mc::choose(7, "malfunction toggled"); bool* f[] = {0, &r.to, &r.off, &r.stuck, &r.ignore, &r.perfect, &r.tov}; if (m) *f[m] = !*f[m];
        s->mMalfFailToFlag = r.to; s->mMalfFailToValue = r.tov; s->mMalfFailOffFlag = r.off; s->mMalfFailStuckFlag = r.stuck; s->mMalfIgnorePower = r.ignore; s->mMalfPerfectSensor = r.perfect;
        r.power = !mc::flip("unpowered"); x = pick(X, "truth"); truth = kind == 0 ? x > 0.95 : x > 0.9 && x < 1.1; mc::trace("malfunction %d power %d truth %g", m, r.power, x);
        bool got = kind == 0 ? b.sense(0.1, r.power, truth) : kind == 1 ? a.sense(0.1, r.power, x) : (v.sense(0.1, r.power, x), v.isOpen());
        r.update(truth); MC_CHECK(got == r.out && s->getSensedOutput() == r.out, "sensed %d, expected %d", got, r.out); mc::validated(); mc::step();
        MC_CHECK(s->determineDegradation() == (!r.perfect && (r.to || r.off || r.stuck)), "degraded");
        if (kind == 2) MC_CHECK(v.isClosed() == (r.power ? std::fabs(x) <= 0.1 : !r.offv), "the close sensor reads %d at %g", v.isClosed(), x);
    }
}
static void limitSwitch() {
    static const double T[] = {1, -1, 0, 5}, X[] = {1, 1.05, 0.95, 0.85, -1, -1.05, -0.85, 0, 0.05, -0.15, 5, 6, -6}; double target = pick(T, "target"), x = pick(X, "value"); bool power = mc::flip("power"), fail = mc::flip("failed"), fv = mc::flip("failed value"), np = mc::flip("unpowered value");
    TsLimitSwitchAnalogConfigData c; c.mTargetValue = target; c.mTolerance = 0.1; c.mNotPoweredValue = np; TsLimitSwitchAnalogInputData in(false, false, fv); TsLimitSwitchAnalog s; s.initialize(c, in);
    bool truth = std::fabs(x - target) < 0.1 || (target > 0 && x > target) || (target < 0 && x < target);
    if (mc::flip("earlier update")) s.update(pick(X, "earlier value"), mc::flip("earlier power"), mc::flip("earlier fail"));
    s.update(x, power, fail); mc::step(); MC_CHECK(s.mTrueValue == truth, "true value %d", s.mTrueValue); MC_CHECK(s.mSensedValue == (fail ? fv : !power ? np : truth), "sensed %d for %g at target %g", s.mSensedValue, x, target);
}
// ---------- fan speed: three sensors and their average ----------
static void fan(int depth) {
    SensorAnalogConfigData c(0, 1000, 0, 0, 1, 0, 0, noise); gNoise = 0; TsFanSpeedSensors f; f.initialize(TsFanSpeedSensorsConfigData(c), TsFanSpeedSensorsInputData(SensorAnalogInputData(true, 10), SensorAnalogInputData(true, 10), SensorAnalogInputData(true, 10)), "f");
    SensorAnalog* S[] = {&f.mSensorA, &f.mSensorB, &f.mSensorC}; bool fail[3] = {0, 0, 0}; static const double X[] = {10, 100, 2000, -5};
    for (int d = 0; d < depth; d++) { int m = mc::choose(4, "malfunction"); if (m) { fail[m - 1] = !fail[m - 1]; S[m - 1]->mMalfFailToFlag = fail[m - 1]; S[m - 1]->mMalfFailToValue = 100.0f * m; }
        double x = pick(X, "speed"); bool p = !mc::flip("unpowered"); float got = f.sense(0.1, p, x); double e = 0; for (int k = 0; k < 3; k++) e += !p ? 0 : fail[k] ? 100.0 * (k + 1) : clamp(0, x, 1000);
        MC_CHECK(near(got, e / 3, 1e-5, 1e-5), "average speed %g, expected %g", got, e / 3); mc::step(); }
}
// ---------- smoke detector: built-in test sequence ----------
static void smoke(int depth) {
    TsOpticSmokeDetectorConfigData c; c.bitRecoveryTime = 1.5f; TsOpticSmokeDetectorInputData in; TsOpticSmokeDetector s; s.initialize(c, in, "sd"); MC_CHECK(s.isInitialized(), "initialized");
    s.obscurationSensor.mMalfPerfectSensor = s.scatterSensor.mMalfPerfectSensor = true;   // the noise of the embedded sensors is checked elsewhere
    bool bit = false, power = false, fail = false, on = false, running = false; double left = 0, level = 0;
    for (int d = 0; d < depth; d++) {
        Hash h; h.i(bit).i(power).i(fail).i(on).i(running).d(left).d(level).d(s.bitTimer).i(s.isBitInProcess); if (mc::cut(h.h, depth - d)) return;
        switch (mc::choose(6, "event")) { case 1: bit = !bit; break; case 2: power = !power; break; case 3: fail = !fail; break; case 4: on = !on; break; case 5: level = level == 0 ? 0.5 : level == 0.5 ? 1 : 0; break; }
        s.isBitEnabled = bit; s.isPowered = power; s.malfTotalFail = fail; s.malfPowerToOn = on; s.smokeLevelFactor = level; double dt = mc::flip("long step") ? 1.0 : 0.4; s.update(dt); mc::step();
        bool load = (power || on) && !fail; double obs, sc;
        if (!load) { obs = c.obsOffValue; sc = c.scatOffValue; }
        else if (bit) { if (left > 0) return;   // commanded again while recovering: not specified
            running = true; obs = c.obsMaxPercentage; sc = c.bitOnMaxScatterValue; }
        else if (running) { obs = c.obsMaxPercentage; sc = c.scatterMinPercentage; running = left <= 1.5; left += dt; }   // recovering, one update past the recovery time
        else { left = 0; obs = c.nominalObscuration + c.obsSmokeContributer * level; sc = c.nominalScatter + (c.scatterMaxPercentage - c.nominalScatter) * level; }
        mc::trace("bit %d power %d fail %d on %d level %g dt %g -> %g %g", bit, power, fail, on, level, dt, s.getSensedObscurationValue(), s.getSensedScatterValue());
        if (std::fabs(left - 1.5) < 1e-3) return;
        MC_CHECK((s.isLoadOn != 0) == load, "load %d", s.isLoadOn); MC_CHECK(near(s.getSensedObscurationValue(), obs, 1e-4, 1e-4) && near(s.getSensedScatterValue(), sc, 1e-4, 1e-4), "senses %g / %g, expected %g / %g", s.getSensedObscurationValue(), s.getSensedScatterValue(), obs, sc);
        MC_CHECK(near(s.obsSensedVoltage, -0.08 * obs + 4.0, 1e-4, 1e-4) && near(s.scatSensedVoltage, 2.01 * sc, 1e-4, 1e-4), "voltages %g / %g", s.obsSensedVoltage, s.scatSensedVoltage); mc::validated();
    }
}
int main(int argc, char** argv) {
    mc::assume("the noise function is replaced by a chosen value in [-1, 1]"); mc::bounds("analog malfunction histories up to depth 3 (4), boolean to 6 (9), smoke detector to 8 (12), with state hashing");
    mc::add("analog", [] { analog(tierPick(3, 4)); }); mc::add("analog-init", analogInit); mc::add("boolean", [] { boolean(tierPick(6, 9)); }); mc::add("limit-switch", limitSwitch); mc::add("fan", [] { fan(tierPick(3, 4)); }); mc::add("smoke", [] { smoke(tierPick(8, 12)); });
    return mc::run(argc, argv, "C61");
}
