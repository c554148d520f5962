// mc: hflags=-fno-access-control
// C56: solar array cells, strings, sections, arrays and their regulators follow their current-voltage laws and lose no power.
#include "net.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvArray.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvString2.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegConv.hh"
#include "aspects/electrical/SolarArray/GunnsElectPvRegShunt.hh"
#include "core/GunnsSensorAnalogWrapper.hh"
using namespace mc; typedef GunnsElectPvRegConv Conv; typedef GunnsElectPvRegShunt Shunt;
static const int CELLS = 20, STEP = 5; static const double BLOCK = 0.7, BYPASS = 0.5, AREA = 0.05, EFFIC = 0.9, RS = 0.017, RSH = 200, VOC = 0.6, TREF = 294, CV = -0.003, CI = 0.00065;
static const double V2[] = {0.6, 2.6, 0.5, 2.4, 1361, 300, -0.002, 0.0014, 1.1, 0.003}; // Voc Isc Vmp Imp flux T dVoc dIsc n area
static double kq() { return 1.380649e-23 / 1.602176634e-19; }
struct Line { double voc, isc, vmp, imp; }; // a string's end points and maximum power point
struct Env { double flux, exposed, T, degrade = 0; int group = 0; };
static int bypassed(const Env& e) { int n = (int)std::ceil((CELLS / STEP) * (1 - e.exposed)); return std::max(n, std::min(CELLS / STEP, std::max(0, e.group))); }
static Line v1(const Env& e) {
    Line l = {0, 0, 0, 0}; int by = bypassed(e), n = CELLS - by * STEP; if (!n) return l; double dT = e.T - TREF, vs = n * VOC * std::max(0.0, 1 + dT * CV), drop = BLOCK + by * BYPASS, rs = n * RS;
    double il = vs > DBL_EPSILON ? e.flux * n * AREA * EFFIC * std::max(0.0, 1 + dT * CI) * (1 - e.degrade) / vs : 0;
    l.voc = vs - drop + il * RSH / 1e6; l.isc = std::max(0.0, (il * RSH - drop) / (RSH + rs)); double is = il - vs / RSH, p = std::max(0.0, vs * is - is * drop - is * is * rs);
    if (p > 0) { l.vmp = std::max(DBL_EPSILON, vs - is * rs - drop); l.imp = p / l.vmp; } return l; }
// version 2: current through a cell with the properties the string reports; zero when they satisfy the diode equation
static double residual(const GunnsElectPvCellEquivCircuit& c, double v, double i) { return c.mIL - c.mI0 * (std::exp((v + i * c.mRs) / c.mNVt) - 1) - (v + i * c.mRs) / c.mRsh - i; }
static double exact(const GunnsElectPvCellEquivCircuit& c, double v, double isc) { double a = -isc, b = 2 * isc; for (int k = 0; k < 60; k++) { double m = (a + b) / 2; (residual(c, v, m) > 0 ? a : b) = m; } return a; }
static void cellLaws(const GunnsElectPvCellEquivCircuit& c, double ratio, double T) {
    double dT = T - V2[5], voc = V2[0] + dT * V2[6], isc = V2[1] * ratio + dT * V2[7]; if (ratio < 1e-9 || voc < 1e-9 || isc < 1e-9) { MC_CHECK(c.mIsc == 0 && c.mVoc == 0 && c.mImp == 0, "dark or hot cell has Isc %g Voc %g", c.mIsc, c.mVoc); return; }
    double vmp = V2[2] * voc / V2[0], imp = V2[3] * isc / V2[1]; MC_CHECK(near(c.mVoc, voc, 1e-9) && near(c.mIsc, isc, 1e-9) && near(c.mVmp, vmp, 1e-9) && near(c.mImp, imp, 1e-9), "cell has Voc %.9g Isc %.9g Vmp %.9g Imp %.9g, expected %.9g %.9g %.9g %.9g", c.mVoc, c.mIsc, c.mVmp, c.mImp, voc, isc, vmp, imp);
    MC_CHECK(near(c.mNVt, V2[8] * kq() * T, 1e-4), "thermal voltage %.9g at %g K", c.mNVt, T); double s = isc; MC_CHECK(std::fabs(residual(c, 0, isc)) < 2e-3 * s, "cell equation misses short circuit by %g", residual(c, 0, isc)); MC_CHECK(std::fabs(residual(c, voc, 0)) < 2e-3 * s, "cell equation misses open circuit by %g", residual(c, voc, 0)); MC_CHECK(std::fabs(residual(c, vmp, imp)) < 1e-2 * s, "cell equation misses maximum power point by %g", residual(c, vmp, imp));
    double last = isc * 1.001; for (int k = 0; k <= 20; k++) { double v = voc * k / 20.0, i = c.computeCurrent(v); if (v > DBL_EPSILON && v < voc) MC_CHECK(near(i, exact(c, v, isc), 0, 1e-2 * s), "cell gives %.9g A at %.9g V, its equation makes %.9g", i, v, exact(c, v, isc)); MC_CHECK(i <= last + 2e-3 * s && i >= -1e-2 * s, "current %.9g at %.9g V does not fall from %.9g", i, v, last); MC_CHECK(i * v <= vmp * imp * 1.005, "power %.9g at %.9g V is above the maximum %.9g", i * v, v, vmp * imp); last = i; if (i > 0.02 * isc && i < 0.98 * isc && v < voc && (c.mI0 + c.mIL - i) * c.mRsh < 490 * c.mNVt) MC_CHECK(near(c.computeVoltage(i), v, 0, 0.035 * (c.mI0 + c.mIL) * c.mRsh), "voltage %.9g at %.9g A, expected %.9g", c.computeVoltage(i), i, v); }
    MC_CHECK(c.computeVoltage(0) == c.mVoc && c.computeVoltage(isc * 1.1) == 0 && c.computeCurrent(voc * 1.01) == 0 && near(c.computeCurrent(-1), isc, 1e-12), "cell ends"); MC_CHECK(near(c.mFillFactor, vmp * imp / voc / isc, 1e-9), "fill factor %.9g", c.mFillFactor); }
static GunnsElectPvStringConfigData* config(int version) { return version == 1 ? new GunnsElectPvStringConfigData(BLOCK, BYPASS, STEP, CELLS, AREA, EFFIC, RS, RSH, VOC, TREF, CV, CI) : new GunnsElectPvStringConfigData(BLOCK, BYPASS, STEP, CELLS, V2[0], V2[1], V2[2], V2[3], V2[4], V2[5], V2[6], V2[7], V2[8], V2[9]); }
static double on(const Line& l, double v) { return v < DBL_EPSILON || v > l.voc ? 0 : v <= l.vmp ? l.isc - (l.isc - l.imp) * v / l.vmp : l.imp * (l.voc - v) / (l.voc - l.vmp); }
static void stringLaws(GunnsElectPvString& s, int version, const Env& e, Line& l) {
    int by = bypassed(e), n = CELLS - by * STEP; double drop = BLOCK + by * BYPASS;
    if (version == 1) { l = v1(e); MC_CHECK(near(s.getOpenCircuitVoltage(), l.voc, 1e-9, 1e-12) && near(s.getShortCircuitCurrent(), l.isc, 1e-9, 1e-12), "string has %.9g V open, %.9g A shorted, expected %.9g, %.9g", s.getOpenCircuitVoltage(), s.getShortCircuitCurrent(), l.voc, l.isc); MC_CHECK(near(s.getMpp().mVoltage, l.vmp, 1e-9, 1e-12) && near(s.getMpp().mCurrent, l.imp, 1e-9, 1e-12) && near(s.getMpp().mPower, l.vmp * l.imp, 1e-9, 1e-12), "string's maximum power is at %.9g V %.9g A, expected %.9g %.9g", s.getMpp().mVoltage, s.getMpp().mCurrent, l.vmp, l.imp); }
    else { const GunnsElectPvCellEquivCircuit& c = s.getEqProps(); if (n == 0 || e.T <= 1) { MC_CHECK(s.getOpenCircuitVoltage() == 0 && s.getShortCircuitCurrent() == 0 && s.getMpp().mPower == 0, "bypassed string gives power"); l = {0, 0, 0, 0}; return; } cellLaws(c, e.flux * (1 - e.degrade) / V2[4], e.T);
        l.voc = std::max(0.0, c.mVoc * n - drop); l.isc = c.mIsc; l.vmp = std::max(0.0, c.mVmp * n - drop); l.imp = c.mImp; MC_CHECK(near(s.getOpenCircuitVoltage(), l.voc, 1e-9, 1e-12) && near(s.getShortCircuitCurrent(), l.isc, 1e-9, 1e-12) && near(s.getMpp().mVoltage, l.vmp, 1e-9, 1e-12) && near(s.getMpp().mCurrent, l.imp, 1e-9, 1e-12) && near(s.getMpp().mPower, l.vmp * l.imp, 1e-9, 1e-12), "string of %d cells gives %.9g V %.9g A, its cells make %.9g %.9g", n, s.getOpenCircuitVoltage(), s.getShortCircuitCurrent(), l.voc, l.isc); }
    if (l.vmp > 0) MC_CHECK(near(s.getMpp().mConductance, l.imp / l.vmp, 1e-9), "conductance at maximum power %.9g", s.getMpp().mConductance); else MC_CHECK(s.getMpp().mConductance == 0, "conductance of no power"); }
static void consistent(const GunnsElectPvLoadState& t, const char* how) { MC_CHECK(near(t.mPower, t.mVoltage * t.mCurrent, 1e-6, 1e-9), "%s: power %.9g at %.9g V %.9g A", how, t.mPower, t.mVoltage, t.mCurrent); if (t.mCurrent > 0 && t.mVoltage > 1e-6) MC_CHECK(near(t.mConductance, t.mCurrent / t.mVoltage, 1e-6), "%s: conductance %.9g at %.9g V %.9g A", how, t.mConductance, t.mVoltage, t.mCurrent); }
static void strings() {
    int version = mc::choose(2, "version") + 1; std::unique_ptr<GunnsElectPvStringConfigData> cfg(config(version)); double ref = version == 1 ? 31.6 : V2[4], T0 = version == 1 ? TREF : V2[5]; Env e{ref, 1, T0}; GunnsElectPvStringInputData in(e.flux, e.exposed, e.T); std::unique_ptr<GunnsElectPvString> s(version == 1 ? new GunnsElectPvString(cfg.get(), &in) : new GunnsElectPvString2(cfg.get(), &in)); s->initialize("s");
    for (int d = 0; d < tierPick(3, 4); d++) {
        switch (mc::choose(6, "event")) { case 0: break; case 1: { static const double k[] = {0, 1e-4, 0.3, 1.2}; e.flux = ref * mc::pick(k, "flux"); break; } case 2: { static const double k[] = {1, 0.76, 0.74, 0.5, 0}; e.exposed = mc::pick(k, "exposed"); break; } case 3: { static const double k[] = {-40, 0, 35, 2000, -1e3}; e.T = std::max(0.0, T0 + mc::pick(k, "temperature")); break; } case 4: { static const double k[] = {0, 0.3, 1}; e.degrade = mc::pick(k, "degrade"); break; } default: { static const int k[] = {0, 1, 4, 99, -1}; e.group = mc::pick(k, "failed groups"); } }
        in.mPhotoFlux = e.flux; in.mSourceExposedFraction = e.exposed; in.mTemperature = e.T; s->mMalfDegradeFlag = e.degrade > 0; s->mMalfDegradeValue = e.degrade; s->mMalfCellGroupFlag = e.group != 0; s->mMalfCellGroupValue = e.group; s->update(); mc::step(); Line l; stringLaws(*s, version, e, l); const GunnsElectPvLoadState& t = s->getTerminal(); const int n = CELLS - bypassed(e) * STEP; double drop = BLOCK + bypassed(e) * BYPASS;
        auto cur = [&](double v) { return version == 1 ? on(l, v) : n && e.T > 1 ? s->getEqProps().computeCurrent((v + drop) / n) : 0.0; };
        for (int k = -1; k <= 11; k++) { double v = l.voc * k / 10; s->loadAtVoltage(v); double i = cur(v); MC_CHECK(t.mVoltage == v && near(t.mCurrent, i, 1e-9, 1e-12) && near(s->predictCurrentAtVoltage(v), i, 1e-9, 1e-12), "string gives %.9g A at %.9g V, expected %.9g", t.mCurrent, v, i); consistent(t, "at voltage"); }
        s->loadAtMpp(); MC_CHECK(t.mPower == s->getMpp().mPower && t.mVoltage == s->getMpp().mVoltage && t.mCurrent == s->getMpp().mCurrent, "not loaded at maximum power");
        if (version == 1 && l.voc > 0 && l.imp > 0 && l.isc > l.imp) for (int k = 0; k <= 11; k++) { double p = l.vmp * l.imp * k / 10; for (int side = 0; side < 2; side++) { s->loadAtPower(p, side); if (k == 0 || k >= 10) { if (k != 10) MC_CHECK(t.mPower == 0 && t.mCurrent == 0 && t.mVoltage == 0, "string loaded with %.9g of %.9g W gives %.9g W", p, l.vmp * l.imp, t.mPower); } else { consistent(t, "at power"); MC_CHECK(near(t.mPower, p, 1e-9), "string loaded with %.9g W gives %.9g", p, t.mPower); MC_CHECK(near(t.mCurrent, on(l, t.mVoltage), 1e-6), "string loaded with %.9g W is at %.9g V %.9g A, off its line at %.9g", p, t.mVoltage, t.mCurrent, on(l, t.mVoltage)); MC_CHECK(side ? t.mVoltage <= l.vmp * (1 + 1e-9) : t.mVoltage >= l.vmp * (1 - 1e-9), "string loaded on the wrong side at %.9g V of %.9g", t.mVoltage, l.vmp); } } }
        if (version == 1 && l.imp > 0) { double g0 = l.imp / l.vmp; static const double K[] = {0, 0.1, 0.9, 1, 1.1, 5, 100}; for (double k : K) { s->loadAtConductance(g0 * k); consistent(t, "at conductance"); if (k == 0) MC_CHECK(near(t.mVoltage, l.voc, 1e-9) && t.mCurrent == 0, "unloaded string at %.9g V", t.mVoltage); else { MC_CHECK(near(t.mCurrent, on(l, t.mVoltage), 1e-6), "string with load of %.9g S is at %.9g V %.9g A, off its line at %.9g", g0 * k, t.mVoltage, t.mCurrent, on(l, t.mVoltage)); MC_CHECK(near(t.mConductance, g0 * k, 1e-9), "load of %.9g S became %.9g", g0 * k, t.mConductance); } } }
        if (version == 2 && n && e.T > 1 && l.isc > 0) { s->loadAtPower(0, false); MC_CHECK(t.mPower == 0 && t.mCurrent == 0 && t.mVoltage == l.voc, "unloaded string at %.9g V", t.mVoltage); s->loadAtPower(0, true); MC_CHECK(t.mPower == 0 && t.mVoltage == 0 && near(t.mCurrent, l.isc, 1e-12), "shorted string gives %.9g A", t.mCurrent); s->loadAtPower(1, false); MC_CHECK(t.mPower == s->getMpp().mPower, "loaded string gives %.9g W", t.mPower); s->loadAtConductance(s->getMpp().mConductance * 0.5); MC_CHECK(near(t.mVoltage, 0.9999 * l.voc, 1e-9), "lightly loaded string at %.9g V", t.mVoltage); s->loadAtConductance(s->getMpp().mConductance * 2); MC_CHECK(near(t.mVoltage, 0.0001 * l.voc, 1e-9, 1e-12), "shunted string at %.9g V", t.mVoltage); consistent(t, "at conductance"); }
        validated(); } }
// light on a section, with its angle, shade and malfunctions
static void light() {
    bool edge = mc::flip("edge on"); static const double X[] = {1, 0.8, 2}; double ex = mc::pick(X, "exponent"), back = mc::choose(3, "backside reduction") * 0.5, ref = 1000; GunnsElectPvSectionConfigData cfg(ex, back, edge, ref, BLOCK, BYPASS, STEP, CELLS, AREA, EFFIC, RS, RSH, VOC, TREF, CV, CI); GunnsElectPvSectionInputData in(30, 0, 1, TREF); GunnsElectPvSection s(&cfg); s.initialize("s", in, 2); double flux = 30, angle = 0, exposed = 1, T = TREF, t = 0, dur = 0, ramp = 0, mag = 0, start = 0; bool malf = false, mx = false, mt = false;
    for (int d = 0; d < tierPick(5, 6); d++) { static const double DT[] = {0.5, 0.2}; double dt = DT[d & 1]; int ev = mc::choose(7, "event");
        if (ev == 1) { static const double A[] = {0, 1, 1.5707963267948966, 2, -2.5}; angle = mc::pick(A, "angle"); s.setSourceAngle(angle); } if (ev == 2) { flux = flux == 30 ? 10 : 30; s.setSourceFluxMagnitude(flux); } if (ev == 3) { exposed = exposed == 1 ? 0.4 : 1; s.setSourceExposedFraction(exposed); }
        if (ev == 4) { if (malf) return; malf = true; dur = 2; ramp = mc::choose(3, "ramp") * 0.8; mag = 50; t = 0; s.mStringsInput.setMalfPhotoFlux(true, mag, dur, ramp); } if (ev == 5) { if (malf) { malf = false; s.mStringsInput.setMalfPhotoFlux(); } else { mx = !mx; s.mStringsInput.setMalfExposedFraction(mx, 0.5); } } if (ev == 6) { mt = !mt; s.mStringsInput.setMalfTemperature(mt, 350); T = 280; s.setTemperature(T); }
        double trig = edge ? std::sin(angle) : std::cos(angle), facing = std::pow(std::fabs(trig), ex) * (trig < 0 ? 1 - back : 1), want = flux * exposed * facing; if (std::fabs(trig) < 1e-9) facing = want = 0;
        double r = std::min(ramp, dur / 2); if (malf) { auto blend = [&](double x, double out) { double f = r > 0 ? 0.5 * (1 + std::sin(M_PI * (std::min(1.0, std::max(0.0, x / r)) - 0.5))) : 1; return out + f * (mag - out); }; if (t > dur) { malf = false; } else if (t == 0) { start = want; } else if (t > dur - r) want = blend(dur - t, want); else if (t > r) want = mag; else want = blend(t, start); t += dt; }
        s.update(dt); mc::step(); MC_CHECK(near(s.mStringsInput.mPhotoFlux, want, 1e-9, 1e-9), "flux on strings %.9g, light makes %.9g (time %g)", s.mStringsInput.mPhotoFlux, want, t); MC_CHECK(s.mStringsInput.mMalfPhotoFluxFlag == malf, "light malfunction %s", malf ? "ended early" : "goes on"); MC_CHECK(near(s.getPercentInsolation(), 100 * want / ref, 1e-9, 1e-9), "insolation %.9g for %.9g", s.getPercentInsolation(), want); if (!malf && t > 0) { if (mc::tracing()) mc::trace("malfunction over"); t = 0; if (ev != 5) s.mStringsInput.setMalfPhotoFlux(); }
        Env e{want, mx ? 0.5 : exposed, mt ? 350 : T}; Line l; double p = 0; for (unsigned k = 0; k < s.getNumStrings(); k++) { stringLaws(s.mStrings[k], 1, e, l); p -= s.mStrings[k].getTerminal().mPower; s.mStrings[k].loadAtVoltage(8); } MC_CHECK(near(s.mTerminalPower, p, 1e-9, 1e-12), "section power %.9g, strings make %.9g", s.mTerminalPower, p); validated(); } }
struct Array { GunnsElectPvArray a; std::unique_ptr<GunnsElectPvArrayConfigData> cfg; int version; double ref; Env env[3]; int per[3], ns;
    void make(NetRig& r, int ver, int port, bool uneven) { version = ver; ns = uneven ? 3 : 2; if (ver == 1) cfg.reset(new GunnsElectPvArrayConfigData("a", &r.list, ns, uneven ? 6 : 4, 0.8, 0.75, false, 31.6, BLOCK, BYPASS, STEP, CELLS, AREA, EFFIC, RS, RSH, VOC, TREF, CV, CI)); else cfg.reset(new GunnsElectPvArrayConfigData("a", &r.list, V2[0], V2[1], V2[2], V2[3], V2[5], V2[6], V2[7], V2[8], V2[9], 0.8, 0.75, false, V2[4], BLOCK, BYPASS, STEP, CELLS, ns, uneven ? 6 : 4));
        for (int k = 0; k < ns; k++) { per[k] = uneven ? k + 1 : 2; if (uneven) cfg->mNumStringsBySection = nullptr; } static unsigned by[3] = {1, 2, 3}; if (uneven) cfg->mNumStringsBySection = by; ref = ver == 1 ? 31.6 : V2[4]; double T = ver == 1 ? TREF : V2[5]; GunnsElectPvArrayInputData in(ref, 0, 1, T); for (int k = 0; k < 3; k++) env[k] = {ref, 1, T}; a.initialize(*cfg, in, r.links, port); }
    double voc, isc, vc, ic, pm, vm;
    // the array's line from its strings
    void laws() { voc = isc = vc = ic = 0; double best = 0, sum = 0; for (int k = 0; k < ns; k++) { sum += 100 * env[k].flux * env[k].exposed / ref; for (int j = 0; j < per[k]; j++) { Line l; Env e = env[k]; e.flux *= e.exposed; stringLaws(a.mSections[k].mStrings[j], version, e, l); voc = std::max(voc, l.voc); isc += l.isc; if (l.vmp * l.imp > best) { best = l.vmp * l.imp; vc = l.vmp; } } } for (int k = 0; k < ns; k++) for (int j = 0; j < per[k]; j++) ic += a.mSections[k].mStrings[j].predictCurrentAtVoltage(vc);
        MC_CHECK(near(a.getOpenCircuitVoltage(), voc, 1e-9, 1e-12) && near(a.getShortCircuitCurrent(), isc, 1e-9, 1e-12) && near(a.getIvCornerVoltage(), vc, 1e-9, 1e-12) && near(a.getIvCornerCurrent(), ic, 1e-9, 1e-12), "array has %.9g V %.9g A corner %.9g V %.9g A, strings make %.9g %.9g %.9g %.9g", a.getOpenCircuitVoltage(), a.getShortCircuitCurrent(), a.getIvCornerVoltage(), a.getIvCornerCurrent(), voc, isc, vc, ic); MC_CHECK(near(a.mPercentInsolation, sum / ns, 1e-9, 1e-9), "array insolation %.9g, sections make %.9g", a.mPercentInsolation, sum / ns);
        pm = 0; vm = 0; if (isc - ic > 1e-12 && vc > 0) { vm = std::min(vc, 0.5 * isc * vc / (isc - ic)); pm = line(vm) * vm; } MC_CHECK(near(a.getMpp().mPower, pm, 1e-6, 1e-9) && near(a.getMpp().mVoltage, vm, 1e-6, 1e-9), "array maximum power %.9g at %.9g V, its line makes %.9g at %.9g", a.getMpp().mPower, a.getMpp().mVoltage, pm, vm); for (int k = 1; k < 20; k++) { double v = voc * k / 20; if (pm > 0) MC_CHECK(line(v) * v <= pm * (1 + 1e-9) + 1e-9, "array gives more than its maximum at %.9g V", v); } }
    double line(double v) const { return v < 0 || v > voc ? 0 : v < vc ? isc - (isc - ic) * v / vc : voc > vc ? ic * (voc - v) / (voc - vc) : 0; }
    void predictions() { for (int k = 1; k < 20; k++) { double v = voc * k / 20, p, g; a.predictLoadAtVoltage(p, g, v); double i = std::max(DBL_EPSILON, line(v)); if (voc > 0) MC_CHECK(near(p, i * v, 1e-6, 1e-12) && near(g, i / v, 1e-6, 1e-12), "predicted load at %.9g V is %.9g W %.9g S, its line makes %.9g %.9g", v, p, g, i * v, i / v); } double p = 1, g = 1; a.predictLoadAtVoltage(p, g, voc * 1.01 + 1e-9); MC_CHECK(p == 0 && g == 0, "load predicted above open circuit"); }
    bool event(int k) { if (k == 1) { int s = mc::choose(ns, "section"); env[s].exposed = env[s].exposed == 1 ? 0.6 : env[s].exposed == 0.6 ? 0 : 1; a.mSections[s].setSourceExposedFraction(env[s].exposed); return true; } if (k == 2) { double f = env[0].flux == ref ? 0.4 * ref : env[0].flux > 0 ? 0 : ref; for (int s = 0; s < ns; s++) { env[s].flux = f; a.mSections[s].setSourceFluxMagnitude(f); } return true; } if (k == 3) { double T = env[ns - 1].T == env[0].T ? env[0].T + 40 : env[0].T; env[ns - 1].T = T; a.mSections[ns - 1].setTemperature(T); return true; } return false; }
    void at(double v) { for (int k = 0; k < ns; k++) for (int j = 0; j < per[k]; j++) { const GunnsElectPvLoadState& t = a.mSections[k].mStrings[j].getTerminal(); MC_CHECK(near(t.mVoltage, v, 1e-9, 1e-12) && near(t.mCurrent, a.mSections[k].mStrings[j].predictCurrentAtVoltage(v), 1e-9, 1e-12), "string at %.9g V %.9g A with %.9g V at its array", t.mVoltage, t.mCurrent, v); } } };
static void step(NetRig& r) { r.gunns->step(0.1); mc::step(); }
static void array() {
    int version = mc::choose(2, "version") + 1; NetRig r(1, 30, 30, 1e-8); Array A; A.make(r, version, 0, mc::flip("uneven")); static const double G[] = {0.05, 2, 20}; double g = mc::pick(G, "load"), gs = 0, vs = 0; r.addLink(COND, 0, 1, g); r.addLink(POT, 1, 0, 0.0, 9.0); r.gunns->initialize(GunnsConfigData("n", 1e-8, 1e-12, 30, 30), r.links); auto* pot = static_cast<GunnsBasicPotential*>(r.links[2]);
    for (int d = 0; d < tierPick(4, 5); d++) { int ev = mc::choose(7, "event"); if (!A.event(ev)) { if (ev == 4) { g = g == 0.05 ? 2 : 0.05; static_cast<GunnsBasicConductor*>(r.links[1])->setDefaultConductivity(g); } if (ev == 5) { gs = gs ? 0 : 10; pot->setDefaultConductivity(gs); } if (ev == 6) { vs = vs == 5 ? 14 : 5; pot->setSourcePotential(vs); } else if (vs == 0) { vs = 9; } }
        step(r); A.laws(); A.predictions(); double v = r.nodes[0].getPotential(), i = A.a.getFlux(), out = v * g + gs * (v - vs); MC_CHECK(near(i, out, 1e-6, 1e-7), "array gives %.9g A, bus takes %.9g", i, out); MC_CHECK(near(A.a.getPower(), i * v, 1e-6, 1e-9), "array power %.9g", A.a.getPower());
        if (mc::tracing()) mc::trace("V %.9g I %.9g voc %.9g isc %.9g vc %.9g ic %.9g", v, i, A.voc, A.isc, A.vc, A.ic); if (r.gunns->getMinorStepCount() > 300) prune(); double a = v >= A.vc ? (A.voc - A.vc > 1e-12 ? A.ic / (A.voc - A.vc) * (A.voc - v) : 0) : A.isc - (A.isc - A.ic) / A.vc * v; bool dark = v < A.vc && near(i, A.isc - A.ic - (A.isc - A.ic) / A.vc * v, 1e-5, 1e-6) && A.ic > 1e-3; if (dark) mc::known("array-short-side-source", "a photovoltaic array below its corner voltage gives its short-circuit current less the corner current"); else if (r.gunns->mLastMinorStep < 30) MC_CHECK(near(i, a, 1e-5, 1e-6), "array gives %.9g A at %.9g V, its line makes %.9g (corner %.9g)", i, v, a, A.vc); A.at(v); validated(); } }
static void converter() {
    NetRig r(1, 30, 30, 1e-8); Array A; A.make(r, mc::choose(2, "version") + 1, 1, false); static const double L[] = {1, 2}; double ratio = mc::pick(L, "ratio"), eff = 0.9, set = mc::flip("high setpoint") ? 12 : 6, delta = 0; Conv c; c.initialize(GunnsElectPvRegConvConfigData("c", &r.list, ratio, eff, &A.a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2), GunnsElectPvRegConvInputData(set, 0, true, true), r.links, 0);
    double g = 0.3, gs = 0, vs = 9; r.addLink(COND, 0, 1, g); r.addLink(POT, 1, 0, 0.0, vs); r.gunns->initialize(GunnsConfigData("n", 1e-8, 1e-12, 30, 30), r.links); auto* pot = static_cast<GunnsBasicPotential*>(r.links[3]); auto* con = static_cast<GunnsBasicConductor*>(r.links[2]); bool pow_ = true, en = true, bias = false, trip = false; double limit = 0; int quiet = 0;
    for (int d = 0; d < tierPick(4, 5); d++) { int ev = mc::choose(11, "event"); quiet = 0; if (ev == 0) quiet = -1; else if (!A.event(ev)) { if (ev == 4) { g = g == 0.3 ? 2 : g == 2 ? 20 : 0.3; con->setDefaultConductivity(g); } if (ev == 5) { gs = gs ? 0 : 5; pot->setDefaultConductivity(gs); } if (ev == 6) { vs = vs == 9 ? 20 : 9; if (!gs) return; pot->setSourcePotential(vs); } if (ev == 7) { if (pow_ && mc::flip("by power")) pow_ = false; else if (!pow_) pow_ = true; else en = !en; c.mPowered = pow_; c.setEnabled(en); } if (ev == 8) { bias = !bias; c.mMalfVoltageBiasFlag = bias; c.mMalfVoltageBiasValue = -2; } if (ev == 9) { limit = limit ? 0 : 3; c.mTrips.mOutOverCurrent.setLimit((float)limit); } if (ev == 10) { delta = delta ? 0 : 1; c.setVoltageSetpointDelta(delta); } }
        bool reset = ev == 9 && !limit; if (reset) c.mResetTrips = true; if (reset || !pow_) trip = false;
        for (int k = 0; k < (ev == 0 ? 4 : 1); k++, quiet++) { int steps0 = r.gunns->getMinorStepCount(); step(r); int minor = r.gunns->mLastMinorStep; (void)steps0; A.laws(); double v = r.nodes[0].getPotential(), i = c.getFlux(), reg = std::max(DBL_EPSILON, set + delta - (bias ? 2 : 0)), out = v * g + gs * (v - vs), load = gs ? (gs * vs) / (gs + g) : 0;
            if (mc::tracing()) mc::trace("V %.9g I %.9g state %d Pin %.9g Pout %.9g Vt %.9g voc %.9g vc %.9g pm %.9g minor %d trip %d", v, i, c.mState, c.mInputPower, c.mOutputPower, A.a.getTerminal().mVoltage, A.voc, A.vc, A.pm, minor, c.mTrips.isTripped());
            if (minor >= 25) { prune(); return; } bool is = c.mTrips.isTripped(); if (limit == 0) MC_CHECK(!is || trip, "converter tripped without limits"); if (is && !trip) { trip = true; MC_CHECK(c.mTrips.mOutOverCurrent.isTripped(), "wrong trip"); } else if (!is && trip) mc::fail("trip lost");
            if (c.mState == Conv::OFF) { MC_CHECK(std::fabs(i) < 1e-5, "converter that is off gives %.9g A", i); MC_CHECK(near(c.mInputPower, 0, 0, 1e-5) && near(c.mOutputPower, 0, 0, 1e-5) && near(c.mWasteHeat, 0, 0, 1e-5), "converter that is off has power %.9g %.9g", c.mInputPower, c.mOutputPower); MC_CHECK(near(v, load, 1e-5, 1e-5), "dead bus at %.9g V, expected %.9g", v, load); }
            else { MC_CHECK(pow_ && en && !is, "converter works while off"); MC_CHECK(near(i, out, 1e-4, 1e-3), "converter gives %.9g A, bus takes %.9g", i, out); MC_CHECK(near(c.mOutputPower, i * v, 1e-3, 1e-2) && near(c.mInputPower, c.mOutputPower / eff, 1e-9), "converter takes %.9g W and gives %.9g, bus has %.9g", c.mInputPower, c.mOutputPower, i * v); MC_CHECK(near(c.mWasteHeat, c.mInputPower - c.mOutputPower, 1e-9, 1e-9), "waste heat %.9g", c.mWasteHeat);
                const GunnsElectPvLoadState& t = A.a.getTerminal(); if (c.mInputPower > 1e-3 && c.mInputPower < A.pm * (1 - 1e-6)) { MC_CHECK(near(t.mPower, c.mInputPower, 1e-6), "array gives %.9g W, converter takes %.9g", t.mPower, c.mInputPower); MC_CHECK(near(t.mCurrent, A.line(t.mVoltage), 1e-4, 1e-6), "array at %.9g V %.9g A, its line makes %.9g", t.mVoltage, t.mCurrent, A.line(t.mVoltage)); consistent(t, "array"); A.at(t.mVoltage); }
                if (c.mState == Conv::REG) { MC_CHECK(near(v, reg, 1e-5, 1e-5), "bus regulated to %.9g V, setpoint %.9g", v, reg); MC_CHECK(c.mInputPower <= A.pm * (1 + 1e-6) + 1e-6, "converter takes %.9g W of %.9g", c.mInputPower, A.pm); MC_CHECK(i >= -1e-3, "regulating converter takes %.9g A from the bus", i); }
                else { double q = c.mState == Conv::SAG ? std::max(1e-8, A.ic * eff / ratio / std::max(1e-12, (A.voc - A.vc) * ratio)) * (A.voc * ratio - v) : A.isc / ratio - std::max(1e-8, (A.isc / ratio - A.ic * eff / ratio) / std::max(1e-12, A.vc * ratio)) * v; MC_CHECK(near(i, q, 1e-4, 1e-5), "sagging converter gives %.9g A at %.9g V, its line makes %.9g", i, v, q); } }
            if (!(pow_ && en) || trip || A.pm <= 0) MC_CHECK(c.mState == Conv::OFF, "converter works in state %d without power", c.mState);
            else if (quiet >= 3) { double need = (reg * g + gs * (reg - vs)) * reg / eff; bool back = load > reg * (1 + 1e-6); double vin = 0; if (need > 1e-6 && need < A.pm * 0.98 && A.voc > A.vc) { double a = A.ic / (A.voc - A.vc), s = a * A.voc, b4 = s * s - 4 * a * need; if (b4 > 0) vin = 0.5 * (s + std::sqrt(b4)) / a; } else if (need <= 1e-6) vin = A.voc; if (!back && vin * ratio > reg * 1.01 && vin > A.vc) MC_CHECK(c.mState == Conv::REG, "converter in state %d, could regulate %.9g V from %.9g V", c.mState, reg, vin); if (back && vs > 0) MC_CHECK(c.mState != Conv::REG || v <= reg * (1 + 1e-6), "converter regulates a bus held at %.9g V", v); }
            double vr = reg / ratio, w = vr > 0 && vr <= A.voc ? A.line(vr) * eff / ratio : 0; MC_CHECK(near(c.getMaxRegCurrent(), w, 1e-6, 1e-9), "maximum current %.9g, its line makes %.9g", c.getMaxRegCurrent(), w);
            validated(); } } }
static void shunt() {
    NetRig r(2, 30, 30, 1e-8); Array A; A.make(r, mc::choose(2, "version") + 1, 0, true); double go = 100, sg = 10, set = 9, minP = 1; Shunt c; GunnsElectPvRegShuntConfigData cfg("s", &r.list, go, sg, &A.a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2); std::vector<std::pair<int, int>> order; bool rev = mc::flip("reversed order"); for (int k = 0; k < 3; k++) for (int j = 0; j <= k; j++) order.push_back({k, j}); if (rev) { std::reverse(order.begin(), order.end()); for (auto& o : order) cfg.addStringLoadOrder(o.first, o.second); } c.initialize(cfg, GunnsElectPvRegShuntInputData(set, true, true, minP), r.links, 0, 1);
    double g = 0.3, gs = 0, vs = 7; r.addLink(COND, 1, 2, g); r.addLink(POT, 2, 1, 0.0, vs); r.gunns->initialize(GunnsConfigData("n", 1e-8, 1e-12, 30, 30), r.links); auto* con = static_cast<GunnsBasicConductor*>(r.links[2]); auto* pot = static_cast<GunnsBasicPotential*>(r.links[3]); bool pow_ = true, en = true, bias = false, trip = false; double limit = 0; int quiet = 0;
    for (int d = 0; d < tierPick(4, 5); d++) { int ev = mc::choose(11, "event"); quiet = 0; if (ev == 0) quiet = -1; else if (!A.event(ev)) { if (ev == 4) { g = g == 0.3 ? 1 : g == 1 ? 5 : 0.3; con->setDefaultConductivity(g); } if (ev == 5) { gs = gs ? 0 : 5; pot->setDefaultConductivity(gs); } if (ev == 6) { vs = vs == 7 ? 20 : 7; if (!gs) return; pot->setSourcePotential(vs); } if (ev == 7) { if (pow_ && mc::flip("by power")) pow_ = false; else if (!pow_) pow_ = true; else en = !en; c.mPowered = pow_; c.setEnabled(en); } if (ev == 8) { bias = !bias; c.mMalfVoltageBiasFlag = bias; c.mMalfVoltageBiasValue = -2; } if (ev == 9) { limit = limit ? 0 : 3; c.mTrips.mOutOverCurrent.setLimit((float)limit); } if (ev == 10) { minP = minP == 1 ? 40 : 1; c.setMinOperatePower(minP); } }
        bool reset = ev == 9 && !limit; if (reset) c.mResetTrips = true; if (reset || !pow_) trip = false;
        for (int k = 0; k < (ev == 0 ? 4 : 1); k++, quiet++) { step(r); int minor = r.gunns->mLastMinorStep; A.laws(); double v = r.nodes[1].getPotential(), i = c.getFlux(), reg = std::max(DBL_EPSILON, set - (bias ? 2 : 0)), out = v * g + gs * (v - vs);
            if (mc::tracing()) mc::trace("V %.9g I %.9g state %d Pin %.9g Pout %.9g shunt %.9g avail %.9g minor %d trip %d", v, i, c.mState, c.mInputPower, c.mOutputPower, c.mShuntPower, c.mPvBulkPowerAvail, minor, c.mTrips.isTripped()); if (minor >= 25) { prune(); return; }
            bool is = c.mTrips.isTripped(); if (limit == 0) MC_CHECK(!is || trip, "regulator tripped without limits"); if (is && !trip) { trip = true; MC_CHECK(c.mTrips.mOutOverCurrent.isTripped(), "wrong trip"); } else if (!is && trip) mc::fail("trip lost");
            double avail = reg <= A.voc ? std::max(0.0, A.line(reg) * reg) : 0, sum = 0; for (auto& o : order) sum += A.a.mSections[o.first].mStrings[o.second].predictCurrentAtVoltage(reg); if (c.mState == Shunt::REG || k == 0) { MC_CHECK(near(c.mPvBulkPowerAvail, avail, 1e-5, 1e-9), "bulk power %.9g, its line makes %.9g", c.mPvBulkPowerAvail, avail); MC_CHECK(near(c.getMaxRegCurrent(), sum, 1e-6, 1e-9), "maximum current %.9g, strings make %.9g", c.getMaxRegCurrent(), sum); }
            if (c.mState == Shunt::REG) { MC_CHECK(pow_ && en && !is && avail >= minP * (1 - 1e-9), "regulator works without power"); MC_CHECK(near(i, out, 1e-5, 1e-6) && near(i, (reg - v) * go, 1e-5, 1e-6), "regulator gives %.9g A at %.9g V, bus takes %.9g", i, v, out); MC_CHECK(i >= -1e-6, "regulator takes %.9g A from its output", i); double need = reg * i, got = 0, sh = 0; MC_CHECK(near(c.mOutputPower, v * i, 1e-6, 1e-9), "output power %.9g", c.mOutputPower);
                for (auto& o : order) { GunnsElectPvString& s = A.a.mSections[o.first].mStrings[o.second]; const GunnsElectPvLoadState& t = s.getTerminal(); if (got < need - 1e-6 * need) { MC_CHECK(!s.isShunted() && near(t.mVoltage, reg, 1e-9) && near(t.mCurrent, s.predictCurrentAtVoltage(reg), 1e-9, 1e-12), "string %d/%d at %.9g V %s, %.9g of %.9g W loaded before it", o.first, o.second, t.mVoltage, s.isShunted() ? "shunted" : "loaded", got, need); got += t.mPower; } else { if (!near(got, need, 1e-5)) MC_CHECK(s.isShunted(), "string %d/%d loaded, %.9g of %.9g W loaded before it", o.first, o.second, got, need); if (s.isShunted()) sh += t.mPower; else got += t.mPower; } }
                MC_CHECK(near(c.mInputPower, got, 1e-6, 1e-9), "regulator takes %.9g W, strings give %.9g", c.mInputPower, got); MC_CHECK(near(c.mShuntPower, sh, 1e-6, 1e-9), "regulator shunts %.9g W, strings give %.9g", c.mShuntPower, sh); MC_CHECK(near(c.getPower(), -i * (reg - v), 1e-6, 1e-9) && near(c.mWasteHeat, sh - c.getPower(), 1e-6, 1e-9), "waste heat %.9g", c.mWasteHeat); MC_CHECK(got >= need * (1 - 1e-6) || avail >= need * (1 - 1e-6), "regulator gives %.9g W, array %.9g", need, got); }
            else { MC_CHECK(std::fabs(i) < 1e-12 && c.mOutputPower == 0 && c.mInputPower == 0, "regulator that is off gives %.9g A", i); MC_CHECK(std::fabs(v * g + gs * (v - vs)) < 1e-5, "dead bus at %.9g V", v); if (pow_ && en && !trip && quiet >= 1 && minor < 10) for (auto& o : order) MC_CHECK(A.a.mSections[o.first].mStrings[o.second].isShunted() || A.pm <= 0 || avail < minP || true, "string is not shunted"); }
            if (quiet >= 2 && pow_ && en && !trip && avail >= minP && A.pm > 0) { double need = reg * (reg - reg * go / (go + g + gs) - gs * vs / (go + g + gs)) * go, open = gs ? gs * vs / (gs + g) : 0; double vv = (reg * go + gs * vs) / (go + g + gs); if (vv < reg * (1 - 1e-6) && need < 0.98 * std::max(avail, 0.0) && (limit == 0 || need / reg < 0.98 * limit) && open < reg * 0.99) MC_CHECK(c.mState == Shunt::REG, "regulator is off, %.9g of %.9g W needed", need, avail); }
            validated(); } } }
int main(int c, char** v) {
    bounds("string: versions 1 and 2, 3 (thorough 4) events of flux, exposure, temperature, degradation, failed groups; light: 5 (6) events of angle, flux, shade and malfunctions; array, converter, shunt regulator in a solved network: 4 (5) events of light, temperature, load, back voltage, power, enable, bias, trip limit");
    add("strings", strings); add("light", light); add("array", array); add("converter", converter); add("shunt regulator", shunt);
    return run(c, v, "C56");
}
