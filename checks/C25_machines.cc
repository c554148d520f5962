// mc: hflags=-fno-access-control
// C25: fans, pumps, turbines, drive shafts and rockets follow their performance laws and exchange only the power they report.
#include "fluid.hh"
#include "math/UnitConversion.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/potential/GunnsGasFan.hh"
#include "aspects/fluid/potential/GunnsLiquidCentrifugalPump.hh"
#include "aspects/fluid/potential/GunnsFluidPressureHead.hh"
#include "aspects/fluid/conductor/GunnsGasTurbine.hh"
#include "aspects/fluid/conductor/GunnsDriveShaftSpotter.hh"
#include "aspects/fluid/conductor/GunnsFluidSimpleRocket.hh"
#include "aspects/fluid/source/GunnsGasDisplacementPump.hh"
#include "aspects/fluid/source/GunnsLiquidDisplacementPump.hh"
#include "aspects/fluid/capacitor/GunnsFluidAccum.hh"
using namespace mc; using FP = FluidProperties;
static const double R = 8314.472, RPM = 60 / (2 * M_PI), FE = FLT_EPSILON;
static const std::vector<FP::FluidType> GAS = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_CO2}, LIQ = {FP::GUNNS_WATER, FP::GUNNS_AMMONIA};
static const double LEN = 0.6, DIA = 0.08, ROUGH = 4e-5, WALL = M_PI * LEN * DIA;
static double expand(double T, double g, double p1, double p2, double sf) { return p1 > 0 && p2 > 0 ? T + sf * T * (std::pow(p2 / p1, (g - 1) / g) - 1) : T; }
struct Rig : FluidRig { using FluidRig::FluidRig; bool gas = true; std::function<void()> more;
    // a link's inner fluid is expanded from its source and meets a wall: returns the heat the wall gets, adds what the receiving node gets
    double wall(GunnsFluidLink& l, int a, int b, double dt, double sf, double area, double Tw, int used = -1) { double w = l.getFlowRate(); if (w == 0) return 0; int u = w > 0 ? a : b, t = w > 0 ? b : a; const PolyFluid* o = nd(u).getOutflow(); PolyFluid f(*o, "f"); if (gas && sf > 0) f.setTemperature(expand(o->getTemperature(), o->getAdiabaticIndex(), nd(u).getPotential(), nd(t).getPotential(), sf)); double h1 = f.getSpecificEnthalpy(), T1 = f.getTemperature();
        if (area > 0 && std::fabs(w) > 1e-12) { double ua = area * GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(w, &f, ROUGH / DIA, DIA), c = std::fabs(w) * f.getSpecificHeat(); f.setTemperature(Tw + std::exp(-std::min(100.0, ua / c)) * (T1 - Tw)); } if (t < N) { xH[t] += std::fabs(w) * dt * (f.getSpecificEnthalpy() - o->getSpecificEnthalpy()); hTol[t] += 1e-7 * std::fabs(w) * dt * o->getSpecificEnthalpy(); } return std::fabs(w) * (h1 - f.getSpecificEnthalpy()); }
    int up(double flux, int a, int b) { return (flux < 0 && b != N) || (flux > 0 && a == N) ? b : a; } };
// what the machine works against: a return path between two volumes of gas, or a supply and a return line of liquid at given pressures
struct Loop { GunnsFluidConductor cond; GunnsFluidPotential feed, exit; GunnsFluidConductor* back; double c, P[2]; Loop(Rig& r, bool liquid) : back(&cond), c(liquid ? 0.002 : 0.03) { if (!liquid) { cond.initialize(GunnsFluidConductorConfigData("b", &r.F.list, c, 0), GunnsFluidConductorInputData(false, 0), r.links, 1, 0); return; } P[0] = 400; P[1] = 390; feed.initialize(GunnsFluidPotentialConfigData("in", &r.F.list, c, 0), GunnsFluidPotentialInputData(false, 0, P[0]), r.links, r.N, 0); exit.initialize(GunnsFluidPotentialConfigData("out", &r.F.list, c, 0), GunnsFluidPotentialInputData(false, 0, -P[1]), r.links, 1, r.N); r.edge(&feed, r.N, 0); r.edge(&exit, 1, r.N); back = &exit; } };
static double poly(const double* c, double q, int n = 6) { double r = 0; for (int k = n; k--;) r = r * q + c[k]; return r; }
// lowest root of a falling curve
static double root(const double* c, double hi) { double lo = 0; for (int k = 1; k <= 400; k++) { double x = hi * k / 400; if (poly(c, x) < 0) { hi = x; lo = hi - x / k; break; } if (k == 400) return hi; } for (int k = 0; k < 100; k++) { double m = (lo + hi) / 2; (poly(c, m) > 0 ? lo : hi) = m; } return lo; }
struct Cavity { double frac = 0, time = 0, dur = 0; bool noisy = false; bool full = false, part = false, autoOn = false; double fdur = 0, pdur = 0, amp = 0; static constexpr double AD = 1.0;
    double update(double src, double dt, double P, double Pv) { bool f = false; noisy = false; double a = 0; time += dt; if (full) { f = true; dur = fdur; a = amp; } else if (autoOn && P < Pv) { f = true; dur = AD; a = 0; } else if (part) { dur = pdur; a = amp; } else time = 0; dur = std::max(dur, DBL_EPSILON); if (f) frac += 2 * std::sqrt(std::max(frac, 0.01)) * dt / dur; else frac -= 2 * std::sqrt(1 - std::min(frac, 0.99)) * dt / dur; frac = std::min(1.0, std::max(0.0, frac)); noisy = a > 0 && time < dur; return src * (1 - frac); } };
struct FanLaw { double slope = 0, rho0, n0, c[6], q0, eff, gain, drive, qmax, Ns, pc[4], Pb, K;
    void init() { double rad[] = {1.09, 0.33, -0.59, -0.39, 1.32, -0.76}, ax[] = {1.69, -5.45, 9.62, -4.88, 0.022, -0.013}, pr[] = {0.42, 0.69, -0.11, 0}, pa[] = {2, -5.98, 8.78, -3.8}; Ns = 0; if (q0 > 0 && eff > 0) { bool def = true; for (int k = 1; k < 6; k++) if (c[k] != 0) def = false; double p = def ? c[0] : poly(c, q0); Ns = n0 / RPM * std::sqrt(q0) * std::pow(rho0 / p / 1000, 0.75); Ns = std::min(5.0, std::max(0.2, Ns)); double x = (Ns - 0.2) / 4.8; if (def) for (int k = 0; k < 6; k++) c[k] = (rad[k] + x * (ax[k] - rad[k])) * p / std::pow(q0, k); for (int k = 0; k < 4; k++) pc[k] = pr[k] + x * (pa[k] - pr[k]); Pb = 1000 * p * q0 / eff; } qmax = root(c, 1000 * (q0 > 0 ? q0 : 1) * 0.01); K = qmax / std::sqrt(c[0]); }
    double source(double speed, double rho, double q, double src, double* q1 = 0) { double n = speed / drive; if (!(n > FE && rho > FE)) return 0; double s = n / n0, a[6], b[6]; for (int k = 0; k < 6; k++) a[k] = b[k] = c[k] * rho / rho0 * std::pow(s, 2 - k); double g = std::max(qmax * s * 1e-4, q) / std::sqrt(std::min(a[0], std::max(DBL_EPSILON, src))); K = gain * g + (1 - gain) * K; if (K > DBL_EPSILON) b[2] -= 1 / K / K; double x = root(b, qmax * s); if (q1) *q1 = x; slope = 0; for (int k = 1; k < 6; k++) slope += k * a[k] * std::pow(x, k - 1); return std::max(0.0, poly(a, x)); }
    double power(double speed, double rho, double q, double src) { double n = speed / drive, s = n / n0; if (!(Ns > 0 && n > FE)) return 1000 * std::fabs(q) * src; double x = std::min(qmax * s, std::max(0.0, q)) / (q0 * s); return s * s * s * Pb * rho / rho0 * poly(pc, x, 4); } };
static void fan(bool liquid) {
    int var = mc::choose(3, "curve"); bool expd = !liquid && mc::flip("expansion"); FanLaw L; L.rho0 = liquid ? 997 : 1.2; L.n0 = liquid ? 3000 : 6000; L.gain = mc::flip("slow filter") ? 0.2 : 0.5; L.drive = mc::flip("geared") ? 2.5 : 1; double q = liquid ? 2e-3 : 0.05, p = liquid ? 200 : 2; for (double& x : L.c) x = 0; L.q0 = L.eff = 0; L.c[0] = p; if (var == 0) { L.c[1] = -0.3 * p / q; L.c[2] = -0.2 * p / q / q; L.c[3] = -0.05 * p / q / q / q; } else { L.q0 = 0.8 * q; L.eff = 0.7; if (var == 2) { L.c[1] = -0.2 * p / q; L.c[2] = -0.5 * p / q / q; } }
    bool valve = mc::flip("check valve"); double sf = expd ? 0.5 : 0; Rig r(2, liquid ? LIQ : GAS); r.gas = !liquid; r.Tmin = 1; r.Tmax = 3000; FluidState A = liquid ? FluidState{300, 400, {1, 0}, {}} : FluidState{300, 100, {0.7, 0.2, 0.1}, {}}, B = liquid ? FluidState{290, 390, {1, 0}, {}} : FluidState{290, 99.5, {0.5, 0.3, 0.2}, {}}; r.init(0, A, liquid ? 0 : 3); r.init(1, liquid ? A : B, liquid ? 0 : 2); r.init(2, A, 0);
    double cmax = liquid ? 0.003 : 0.05, Tw = 320; std::unique_ptr<GunnsGasFan> f; GunnsLiquidCentrifugalPump* pump = 0; Cavity cav;
    auto fill = [&](GunnsGasFanConfigData& c) { c.mName = "fan"; c.mNodeList = &r.F.list; c.mMaxConductivity = cmax; c.mExpansionScaleFactor = sf; c.mReferenceDensity = L.rho0; c.mReferenceSpeed = L.n0; c.mReferenceCoeff0 = L.c[0]; c.mReferenceCoeff1 = L.c[1]; c.mReferenceCoeff2 = L.c[2]; c.mReferenceCoeff3 = L.c[3]; c.mReferenceCoeff4 = L.c[4]; c.mReferenceCoeff5 = L.c[5]; c.mBestEfficiency = L.eff; c.mReferenceQBep = L.q0; c.mFilterGain = L.gain; c.mDriveRatio = L.drive; c.mThermalLength = LEN; c.mThermalDiameter = DIA; c.mSurfaceRoughness = ROUGH; c.mCheckValveActive = valve; };
    double speed = L.n0 * L.drive, area = WALL, block = 0; bool Auto = liquid && mc::flip("auto cavitation"); if (liquid) { GunnsLiquidCentrifugalPumpConfigData c; fill(c); c.mLiquidType = FP::GUNNS_WATER; c.mAutoCavitationDuration = Cavity::AD; c.mAutoCavitationAmplitude = 0; pump = new GunnsLiquidCentrifugalPump; f.reset(pump); pump->initialize(c, GunnsLiquidCentrifugalPumpInputData(false, 0, 0, speed, Tw, Auto), r.links, 0, 1); cav.autoOn = Auto; } else { GunnsGasFanConfigData c; fill(c); f.reset(new GunnsGasFan); f->initialize(c, GunnsGasFanInputData(false, 0, 0, speed, Tw), r.links, 0, 1); }
    r.edge(f.get(), 0, 1); Loop loop(r, liquid); GunnsFluidConductor& back = *loop.back; double cb = loop.c, ceff = cb; if (!liquid) r.edge(&back, 1, 0, &ceff); r.start(); L.init(); MC_CHECK(near(f->mReferenceQ, L.qmax, 1e-5), "fan's largest flow %.9g, its curve makes %.9g", f->mReferenceQ, L.qmax);
    double dt = 0.1, src = 0, qv = 0, flux = 0; int still = 0; r.extra = [&](double dt) { double h = r.wall(*f, 0, 1, dt, sf, area, Tw); MC_CHECK(near(f->getWallHeatFlux(), h, 1e-6, 1e-6), "wall gets %.9g W, expected %.9g", f->getWallHeatFlux(), h); };
    for (int d = 0; d < (liquid ? 3 : tierPick(3, 4)); d++) { int ev = mc::choose(liquid ? 10 : 8, "event"); int steps = 2; switch (ev) {
            case 0: steps = liquid && d ? 30 : 80; break; case 1: { static const double k[] = {0, 0.3, 1.4}; speed = L.n0 * L.drive * mc::pick(k, "speed"); f->setMotorSpeed(speed); break; } case 2: Tw = Tw == 320 ? 250 : 320; f->setWallTemperature(Tw); break; case 3: { static const double k[] = {0, -1, 0.2}; double a = mc::pick(k, "area"); area = std::max(0.0, a); f->setThermalSurfaceArea(a); break; } case 4: valve = !valve; f->setCheckValveFlag(valve); break; case 5: block = block ? 0 : 0.6; f->setMalfBlockage(block > 0, block); break; case 6: ceff = ceff == cb ? 1e-3 * cb : cb; back.mMaxConductivity = ceff; break;
            case 7: { if (liquid) { static const double k[] = {1, 200, 600}; double x = mc::pick(k, "pressure"); if (mc::flip("outlet")) loop.exit.setSourcePressure(-x); else loop.feed.setSourcePressure(x); } else { static const double k[] = {0.97, 1.03}; int i = mc::choose(2, "node"); double x = mc::pick(k, "pressure"); std::vector<double> fr((i ? B : A).f); PolyFluidInputData in(r.nd(i).getContent()->getTemperature(), r.nd(i).getContent()->getPressure() * x, 0, 0, fr.data()); r.caps[i]->initializeFluid(in); } r.G.step(dt); mc::step(); qv = f->mVolFlowRate; src = f->getSourcePressure(); flux = f->getFlux(); { double dummy = f->mSystemConstant; L.K = dummy; if (pump) { cav.frac = pump->mCavitation.mCavitationFraction; cav.time = pump->mCavitation.mCavitationElapsedTime; cav.dur = pump->mCavitation.mDuration; } } break; }
            case 8: cav.full = !cav.full; cav.fdur = 0.4; pump->mCavitation.setMalfFullCavitation(cav.full, 0.4); break; default: cav.part = !cav.part; cav.pdur = 0.3; cav.amp = 0.1; pump->mCavitation.setMalfPartialCavitation(cav.part, 0.3, 0.1); }
        still = 0; for (int k = 0; k < steps; k++) { double rho0 = r.nd(0).getContent()->getDensity(), rho1 = r.nd(1).getContent()->getDensity(), P0 = r.nd(0).getContent()->getPressure(), P1 = r.nd(1).getContent()->getPressure(), T0 = r.nd(0).getContent()->getTemperature(), rho = r.up(flux, 0, 1) ? rho1 : rho0; double want = L.source(speed, rho, qv, src), base = want; bool open = !valve || base + P0 - P1 > 0; if (pump) want = cav.update(want, dt, P0, fluidProps().getProperties(FP::GUNNS_WATER)->getSaturationPressure(T0));
            double q0 = qv, psrc = src; if (!r.step(dt)) { prune(); return; } double got = f->getSourcePressure(); if (mc::tracing()) mc::trace("K %.9g vs %.9g Q %.9g want %.9g got %.9g max %.9g c %.6g %.6g %.6g %.6g %.6g %.6g rho %.9g v %.9g", L.K, f->mSystemConstant, f->mSourceQ, want, got, f->mReferenceQ, f->mReferenceCoeffs[0], f->mReferenceCoeffs[1], f->mReferenceCoeffs[2], f->mReferenceCoeffs[3], f->mReferenceCoeffs[4], f->mReferenceCoeffs[5], rho, valve*1.0); MC_CHECK(near(f->getImpellerSpeed(), speed / L.drive, 1e-9), "impeller speed %.9g", f->getImpellerSpeed()); MC_CHECK(got >= 0, "fan's source pressure %.9g", got); if (!cav.noisy) MC_CHECK(near(got, want, 1e-5, 1e-6 + 2.5e-7 * std::fabs(L.slope)), "fan's source pressure %.9g kPa, its curve makes %.9g (flow %.9g)", got, want, q0); if (pump) MC_CHECK(near(pump->mCavitation.mCavitationFraction, cav.frac, 1e-9, 1e-12), "cavitation %.9g, expected %.9g", pump->mCavitation.mCavitationFraction, cav.frac);
            bool edge = valve && std::fabs(base + P0 - P1) < 1e-4; double g = r.conductance(cmax * (open ? 1 : 0) * (1 - block), r.law0[0], r.law0[1]), fl = g * (r.nd(0).getPotential() + got - r.nd(1).getPotential()); if (!edge) MC_CHECK(near(f->getFlux(), fl, 1e-6, 1e-9 * g * P0 + 1e-15), "fan flows %.9g kmol/s, pressures make %.9g", f->getFlux(), fl);
            flux = f->getFlux(); qv = f->mVolFlowRate; src = got; L.K = f->mSystemConstant; double pw = L.power(speed, r.law0[0].rho, qv, got); double rtol = 1e-6 + std::fabs(r.nd(0).getOutflow()->getDensity() / r.law0[0].rho - 1); MC_CHECK(near(f->getImpellerPower(), pw, rtol, 1e-9), "impeller power %.9g W, expected %.9g", f->getImpellerPower(), pw); pw = f->getImpellerPower(); double tq = speed > FE ? -pw * RPM / speed : 0; MC_CHECK(near(f->getImpellerTorque(), tq, 1e-6, 1e-12), "impeller torque %.9g, expected %.9g", f->getImpellerTorque(), tq);
            if (std::fabs(qv - q0) < 1e-5 * std::fabs(qv) && std::fabs(got - psrc) < 1e-4 * got) still++; else still = 0; validated(); if (mc::tracing()) mc::trace("src %.9g want %.9g q %.9g K %.9g", got, want, qv, L.K); }
        // at rest the operating point is on the curve of the present speed and density
        if (still >= 25 && speed > 0 && qv > 1e-3 * L.qmax && cav.frac == 0) { double s = speed / L.drive / L.n0, a[6], rho = r.nd(r.up(flux, 0, 1)).getContent()->getDensity(); for (int k = 0; k < 6; k++) a[k] = L.c[k] * rho / L.rho0 * std::pow(s, 2 - k); double want = std::max(0.0, poly(a, qv)); MC_CHECK(near(src, want, 5e-3, 5e-3 * a[0]), "steady fan gives %.9g kPa at %.9g m3/s, its curve makes %.9g", src, qv, want); } } }
struct TurbLaw { double T0 = 300, P0 = 100, mx[2] = {0.4, 0.6}, c1[2] = {0.5, 0.3}, c2[2] = {1.0, 2.0}, e[2][6] = {{-0.4, 0.8, -0.1, 0, 0, 0}, {-0.2, 0.6, -0.05, 0.001, 0, 0}}, mn[2] = {1.1, 1.2}, mxe[2] = {3.0, 4.0}, lo = 3000, hi = 9000, gain = 1, drive = 1, dP = 0;
    double frac(double speed, double T) const { double n = std::min(hi, std::max(lo, speed / drive / (T / T0))); return (n - lo) / (hi - lo); } static double mix(const double* v, double x) { return v[0] + x * (v[1] - v[0]); }
    double ratio(double P) const { return std::max(1.0, P / std::max(DBL_EPSILON, P - dP)); }
    double flow(double speed, double T, double P) const { double x = frac(speed, T), y = ratio(P) - 1; return mix(mx, x) * (y * y + mix(c1, x) * y) / ((y + 1) * (y + 1) + mix(c2, x)) * (P / P0) / std::sqrt(T / T0); }
    double efficiency(double speed, double T, double pr) const { double x = frac(speed, T); if (pr < mix(mn, x) || pr > mix(mxe, x)) return 0; double c[6]; for (int k = 0; k < 6; k++) c[k] = e[0][k] + x * (e[1][k] - e[0][k]); return std::min(1.0, std::max(0.0, poly(c, pr))); } };
static void turbine() {
    bool expd = mc::flip("expansion"); TurbLaw L; L.gain = mc::flip("filter") ? 0.3 : 1; L.drive = mc::flip("geared") ? 2 : 1; double sf = expd ? 0.5 : 0; Rig r(2, GAS); r.Tmin = 1; r.Tmax = 3000; FluidState A{400, 250, {0.7, 0.2, 0.1}, {}}, B{300, 100, {0.5, 0.3, 0.2}, {}}; r.init(0, A, 5); r.init(1, B, 4); r.init(r.N, A, 0); double speed = 6000 * L.drive, Tw = 350, area = WALL, block = 0;
    GunnsGasTurbine single; GunnsGasTurbine* t = &single; auto fill = [&](auto& c) { c.mReferenceTemp = L.T0; c.mReferencePress = L.P0; c.mMaxFlowLowSpeed = L.mx[0]; c.mMaxFlowHighSpeed = L.mx[1]; c.mCoeffLowSpeed1 = L.c1[0]; c.mCoeffHighSpeed1 = L.c1[1]; c.mCoeffLowSpeed2 = L.c2[0]; c.mCoeffHighSpeed2 = L.c2[1]; double* lo[] = {&c.mEffCoeffLowSpeed0, &c.mEffCoeffLowSpeed1, &c.mEffCoeffLowSpeed2, &c.mEffCoeffLowSpeed3, &c.mEffCoeffLowSpeed4, &c.mEffCoeffLowSpeed5}; double* hi[] = {&c.mEffCoeffHighSpeed0, &c.mEffCoeffHighSpeed1, &c.mEffCoeffHighSpeed2, &c.mEffCoeffHighSpeed3, &c.mEffCoeffHighSpeed4, &c.mEffCoeffHighSpeed5}; for (int k = 0; k < 6; k++) { *lo[k] = L.e[0][k]; *hi[k] = L.e[1][k]; } c.mMinEffLimLowSpeed = L.mn[0]; c.mMinEffLimHighSpeed = L.mn[1]; c.mMaxEffLimLowSpeed = L.mxe[0]; c.mMaxEffLimHighSpeed = L.mxe[1]; c.mCorrectedSpeedLow = L.lo; c.mCorrectedSpeedHigh = L.hi; c.mFilterGain = L.gain; c.mDriveRatio = L.drive; c.mThermalLength = LEN; c.mThermalDiameter = DIA; c.mSurfaceRoughness = ROUGH; };
    GunnsGasTurbineConfigData c("t", &r.F.list, 0.01, sf); fill(c); single.initialize(c, GunnsGasTurbineInputData(false, 0, speed, Tw), r.links, 0, 1); r.edge(t, 0, 1); GunnsFluidConductor back; double cb = 1e-4; back.initialize(GunnsFluidConductorConfigData("b", &r.F.list, cb, 0), GunnsFluidConductorInputData(false, 0), r.links, 1, 0); r.edge(&back, 1, 0, &cb); r.start();
    double dt = 0.1, flux = 0; r.extra = [&](double dt) { double h = r.wall(*t, 0, 1, dt, sf, area, Tw); MC_CHECK(near(t->getWallHeatFlux(), h, 1e-6, 1e-6), "wall gets %.9g W, expected %.9g", t->getWallHeatFlux(), h); };
    for (int d = 0; d < tierPick(3, 4); d++) { int ev = mc::choose(7, "event"), steps = 3; switch (ev) { case 0: steps = 20; break; case 1: { static const double k[] = {0, 0.3, 1.4, 3}; speed = 6000 * L.drive * mc::pick(k, "speed"); t->setMotorSpeed(speed); break; } case 2: Tw = Tw == 350 ? 250 : 350; t->setWallTemperature(Tw); break; case 3: { static const double k[] = {0, -1, 0.2}; double a = mc::pick(k, "area"); area = std::max(0.0, a); t->setThermalSurfaceArea(a); break; } case 4: block = block ? 0 : 0.6; t->setMalfBlockage(block > 0, block); break; case 5: cb = cb == 1e-4 ? 0.01 : 1e-4; back.mMaxConductivity = cb; break;
            default: { static const double k[] = {0.6, 1.5}; double x = mc::pick(k, "pressure"); std::vector<double> fr(A.f); PolyFluidInputData in(r.nd(0).getContent()->getTemperature(), r.nd(0).getContent()->getPressure() * x, 0, 0, fr.data()); r.caps[0]->initializeFluid(in); r.G.step(dt); mc::step(); L.dP = t->mPressureDrop; flux = t->getFlux(); } }
        for (int k = 0; k < steps; k++) { int u = r.up(flux, 0, 1); double T = r.nd(u).getContent()->getTemperature(), P = r.nd(u).getContent()->getPressure(), old = r.nd(0).getContent()->getPressure() - r.nd(1).getContent()->getPressure(), pot = t->getDeltaPotential(); L.dP = L.gain * pot + (1 - L.gain) * L.dP; double want = L.flow(speed, T, P) * (1 - block), pr = L.ratio(P); if (!r.step(dt)) { prune(); return; }
            MC_CHECK(near(t->getImpellerSpeed(), speed / L.drive, 1e-9), "impeller speed %.9g", t->getImpellerSpeed()); double mw = 0.5 * (r.law0[0].mw + r.law0[1].mw), lin = std::fabs(old) > 1e-5 ? want / mw * (r.nd(0).getPotential() - r.nd(1).getPotential()) / std::fabs(old) : 0; if (std::fabs(old) > 1e-5) MC_CHECK(near(t->getFlux(), lin, 1e-6, 1e-13 * 1e5 / std::fabs(old)), "turbine flows %.9g kmol/s, its map makes %.9g (ratio %.9g)", t->getFlux(), lin, pr);
            flux = t->getFlux(); u = r.up(flux, 0, 1); double eff = L.efficiency(speed, r.nd(u).getOutflow()->getTemperature(), pr), q = t->mVolFlowRate; double x = L.frac(speed, r.nd(u).getOutflow()->getTemperature()); bool edge = near(pr, L.mix(L.mn, x), 1e-6) || near(pr, L.mix(L.mxe, x), 1e-6); if (!edge) { MC_CHECK(near(t->getEfficiency(), eff, 1e-6, 1e-9), "efficiency %.9g, its map makes %.9g", t->getEfficiency(), eff); double pw = speed > FE ? -1000 * std::fabs(q) * L.dP * eff : 0; MC_CHECK(near(t->getImpellerPower(), pw, 1e-6, 1e-9) && near(t->getImpellerTorque(), speed > FE ? -pw * RPM / speed : 0, 1e-6, 1e-12), "impeller power %.9g W, torque %.9g, expected %.9g", t->getImpellerPower(), t->getImpellerTorque(), pw); }
            validated(); if (mc::tracing()) mc::trace("dP %.9g pr %.9g eff %.9g", L.dP, pr, eff); } } }
static void shaft() {
    Rig r(2, GAS); r.Tmin = 1; r.Tmax = 3000; FluidState A{400, 250, {0.7, 0.2, 0.1}, {}}, B{300, 100, {0.5, 0.3, 0.2}, {}}; r.init(0, A, 50); r.init(1, B, 50); r.init(2, A, 0); TurbLaw L; GunnsGasTurbineConfigData tc("t", &r.F.list, 0.01, 0, L.T0, L.P0, 0.4, 0.6, 0.5, 0.3, 1, 2, -0.4, 0.8, -0.1, 0, 0, 0, -0.2, 0.6, -0.05, 0, 0, 0, 1.1, 1.2, 3, 4, 3000, 9000); GunnsGasTurbine t; t.initialize(tc, GunnsGasTurbineInputData(false, 0, 5000, 300), r.links, 0, 1); GunnsGasFanConfigData fc("f", &r.F.list, 0.05, 0, 1.2, 6000, 2, -10, -200, 0, 0, 0, 0.7, 0.03, 0.5, 1.5); GunnsGasFan f; f.initialize(fc, GunnsGasFanInputData(false, 0, 0, 5000, 300), r.links, 1, 0); r.edge(&t, 0, 1); r.edge(&f, 1, 0); GunnsFluidConductor back; double cb = 1e-4; back.initialize(GunnsFluidConductorConfigData("b", &r.F.list, cb, 0), GunnsFluidConductorInputData(false, 0), r.links, 1, 0); r.edge(&back, 1, 0); r.start();
    GunnsDriveShaftSpotter s; double k = 1e-3, mn = mc::flip("least friction") ? 500 : 0, J = 0.5, speed = mc::flip("at rest") ? 0 : 4000, load = 0; bool first = mc::flip("fan first"); if (first) s.addImpeller(&f); if (!mc::flip("no turbine")) s.addImpeller(&t); if (!first) s.addImpeller(&f); bool turb = !s.mTurbRef.empty(); GunnsDriveShaftSpotterConfigData sc("s", k, mn, J); GunnsDriveShaftSpotterInputData si(speed); s.initialize(&sc, &si); double jam = 0; bool over = false; double dt = 0.1; r.extra = [&](double dt) { r.wall(t, 0, 1, dt, 0, 0, 0); r.wall(f, 1, 0, dt, 0, 0, 0); };
    for (int d = 0; d < tierPick(6, 7); d++) { int ev = mc::choose(4, "event"); if (ev == 1) { static const double j[] = {0, 0.5, 1}; jam = mc::pick(j, "jam"); s.mMalfJamFlag = jam > 0; s.mMalfJamValue = jam; } if (ev == 2) { over = !over; s.mMalfSpeedOverrideFlag = over; s.mMalfSpeedOverrideValue = 2000; } if (ev == 3) { cb = cb == 1e-4 ? 0.02 : 1e-4; back.mMaxConductivity = cb; }
        s.stepPreSolver(dt); double want = std::max(DBL_EPSILON, speed + (load - k * std::max(speed, mn)) * dt * RPM / J); if (over) want = 2000; MC_CHECK(near(s.mMotorSpeed, want, 1e-9, 1e-12), "shaft turns at %.9g rpm, torques make %.9g", s.mMotorSpeed, want); speed = want; if (!r.step(dt)) { prune(); return; } s.stepPostSolver(dt); MC_CHECK((!turb || near(t.getImpellerSpeed(), speed, 1e-9)) && near(f.getImpellerSpeed(), speed / 1.5, 1e-9), "impellers turn at %.9g and %.9g, shaft at %.9g", t.getImpellerSpeed(), f.getImpellerSpeed(), speed);
        double tq = (turb ? t.getImpellerTorque() : 0) + f.getImpellerTorque(); load = tq * (1 - jam); auto h = [&](int i) { return r.nd(i).getContent()->getSpecificEnthalpy(); }; double ex = (turb ? t.getEfficiency() * t.getFlowRate() * (h(0) - h(1)) - t.getWallHeatFlux() : 0) - (f.getFlowRate() * (h(0) - h(1)) - f.getWallHeatFlux()); MC_CHECK(near(s.getPowerExcess(), ex, 1e-6, 1e-6), "excess power %.9g, expected %.9g", s.getPowerExcess(), ex); validated(); } }
static void displacement(bool liquid) {
    double cyc = liquid ? 1e-4 : 1e-3, drive = mc::flip("geared") ? 2.5 : 1, full = 600 * drive, speed = full, Tw = 320, area = WALL, block = 0; bool valve = mc::flip("check valve"), Auto = liquid && mc::flip("auto cavitation"); Rig r(2, liquid ? LIQ : GAS); r.gas = !liquid; r.Tmin = 1; r.Tmax = 3000; FluidState A = liquid ? FluidState{300, 400, {1, 0}, {}} : FluidState{300, 100, {0.7, 0.2, 0.1}, {}}, B = liquid ? FluidState{290, 390, {1, 0}, {}} : FluidState{290, 99.5, {0.7, 0.2, 0.1}, {}}; bool same = liquid || !mc::flip("other gas"); if (!same) B.f = {0.1, 0.1, 0.8}; r.init(0, A, liquid ? 0 : 3); r.init(1, liquid ? A : B, liquid ? 0 : 2); r.init(2, A, 0);
    std::unique_ptr<GunnsGasDisplacementPump> p; GunnsLiquidDisplacementPump* lp = 0; Cavity cav; auto fill = [&](GunnsGasDisplacementPumpConfigData& c) { c.mName = "p"; c.mNodeList = &r.F.list; c.mCycleVolume = cyc; c.mDriveRatio = drive; c.mThermalLength = LEN; c.mThermalDiameter = DIA; c.mSurfaceRoughness = ROUGH; c.mCheckValveActive = valve; };
    if (liquid) { GunnsLiquidDisplacementPumpConfigData c; fill(c); c.mLiquidType = FP::GUNNS_WATER; c.mAutoCavitationDuration = Cavity::AD; c.mAutoCavitationAmplitude = 0; lp = new GunnsLiquidDisplacementPump; p.reset(lp); lp->initialize(c, GunnsLiquidDisplacementPumpInputData(false, 0, 0, speed, Tw, Auto), r.links, 0, 1); cav.autoOn = Auto; } else { GunnsGasDisplacementPumpConfigData c; fill(c); p.reset(new GunnsGasDisplacementPump); p->initialize(c, GunnsGasDisplacementPumpInputData(false, 0, 0, speed, Tw), r.links, 0, 1); }
    r.edge(p.get(), 0, 1); Loop loop(r, liquid); GunnsFluidConductor& back = *loop.back; double cb = loop.c; if (!liquid) r.edge(&back, 1, 0, &cb); r.start(); double dt = 0.1; r.extra = [&](double dt) { double h = r.wall(*p, 0, 1, dt, 0, area, Tw); MC_CHECK(near(p->getWallHeatFlux(), h, 1e-6, 1e-6), "wall gets %.9g W, expected %.9g", p->getWallHeatFlux(), h); };
    for (int d = 0; d < tierPick(4, 5); d++) { int ev = mc::choose(liquid ? 9 : 7, "event"); switch (ev) { case 0: break; case 1: { static const double k[] = {0, 0.3, -1}; speed = full * mc::pick(k, "speed"); p->setMotorSpeed(speed); break; } case 2: Tw = Tw == 320 ? 250 : 320; p->setWallTemperature(Tw); break; case 3: { static const double k[] = {0, -1, 0.2}; double a = mc::pick(k, "area"); area = std::max(0.0, a); p->setThermalSurfaceArea(a); break; } case 4: valve = !valve; p->setCheckValveFlag(valve); break; case 5: block = block ? 0 : 0.6; p->setMalfBlockage(block > 0, block); break; case 6: cb = cb > 1e-3 ? 1e-4 : liquid ? 0.002 : 0.03; back.mMaxConductivity = cb; break; case 7: cav.full = !cav.full; cav.fdur = 0.4; lp->mCavitation.setMalfFullCavitation(cav.full, 0.4); break; default: cav.part = !cav.part; cav.pdur = 0.3; lp->mCavitation.setMalfPartialCavitation(cav.part, 0.3, 0); }
        for (int k = 0; k < 3; k++) { double v = speed / drive * cyc / 60; if (valve && v < 0) v = 0; int u = v >= 0 ? 0 : 1; if (lp) v = cav.update(v, dt, r.nd(u).getContent()->getPressure(), fluidProps().getProperties(FP::GUNNS_WATER)->getSaturationPressure(r.nd(u).getContent()->getTemperature())); int src = speed > 0 ? 0 : 1; double want = v * r.nd(src).getContent()->getDensity() * (1 - block); if (!r.step(dt)) { prune(); return; }
            MC_CHECK(near(p->getImpellerSpeed(), speed / drive, 1e-9, 1e-12), "impeller speed %.9g", p->getImpellerSpeed()); MC_CHECK(near(p->getFlowRate(), want, 1e-6, 1e-12), "pump flows %.9g kg/s, its displacement makes %.9g", p->getFlowRate(), want);
            double q = p->mVolFlowRate, pw = 1000 * std::fabs(q * (r.nd(0).getPotential() - r.nd(1).getPotential())); MC_CHECK(near(p->getImpellerPower(), pw, 1e-6, 1e-9), "impeller power %.9g, expected %.9g", p->getImpellerPower(), pw); MC_CHECK(near(p->getImpellerTorque(), std::fabs(speed) > FE ? -pw * RPM / speed : 0, 1e-6, 1e-12), "impeller torque %.9g", p->getImpellerTorque()); validated(); } } }
static void rocket() {
    double At = 1e-3, ratio = mc::flip("no nozzle") ? 1.5 : 20, cs = 1500, Tc = 3000, gc = 1.2, tune = 0.95; bool ign = mc::flip("needs ignition"); Rig r(2, GAS); r.Tmin = 1; r.Tmax = 3000; FluidState A{300, 2000, {0.7, 0.2, 0.1}, {}}, B{300, 1, {0.7, 0.2, 0.1}, {}}; bool ground = mc::flip("to ground"); r.init(0, A, 20); r.init(1, B, 500); r.init(2, FluidState{300, ground ? 1e-6 : 1.0, {0.7, 0.2, 0.1}, {}}, 0); GunnsFluidSimpleRocketConfigData c; c.mName = "r"; c.mNodeList = &r.F.list; c.mThroatArea = At; c.mAreaRatio = ratio; c.mCharacteristicVelocity = cs; c.mCombustionTemperature = Tc; c.mCombustionGamma = gc; c.mThrustTuning = tune; c.mRecombinationTuning = 0.5; c.mNeedsIgnition = ign; c.mCombustType = CombustFactory::NONE; GunnsFluidSimpleRocket k; int to = ground ? 2 : 1; bool lit = false; k.initialize(c, GunnsFluidSimpleRocketInputData(false, 0, false, false), r.links, 0, to); r.edge(&k, 0, to); GunnsFluidConductor v; double cv = 1e-5; v.initialize(GunnsFluidConductorConfigData("v", &r.F.list, cv, 0), GunnsFluidConductorInputData(false, 0), r.links, 1, 0); r.edge(&v, 1, 0, &cv); r.start(); double dt = 0.1, flow = 0, p0 = A.P; int count = 0; bool burn = false;
    for (int d = 0; d < tierPick(6, 7); d++) { int ev = mc::choose(4, "event"); if (ev == 1) { lit = !lit; k.setIgnition(lit); } if (ev == 2) { static const double P[] = {0.5, 1000, 5000}; double x = mc::pick(P, "pressure"); std::vector<double> fr(A.f); PolyFluidInputData in(r.nd(0).getContent()->getTemperature(), x, 0, 0, fr.data()); r.caps[0]->initializeFluid(in); r.G.step(dt); mc::step(); flow = k.getFlowRate(); burn = k.mCombustion; count = k.mCombustionCount; p0 = r.nd(0).getPotential(); } if (ev == 3) { cv = cv == 1e-5 ? 0.05 : 1e-5; v.mMaxConductivity = cv; }
        p0 = k.mPotentialVector[0]; if (flow > FE) burn = ign ? burn || lit : true; else burn = false; count = burn ? count + 1 : 0; const PolyFluid* o = r.nd(0).getContent(); double g = burn ? gc : o->getAdiabaticIndex(), T = burn ? Tc : o->getTemperature(), P = p0, mwo = o->getMWeight(), pc0 = o->getPressure(), pc1 = r.nd(to).getContent()->getPressure(), pv1 = k.mPotentialVector[1]; double vd = std::sqrt(g) * std::pow(2 / (g + 1), (g + 1) / 2 / (g - 1)), mwc = burn ? R * Tc / (vd * vd * cs * cs) : std::max(2.0, mwo), mdot = At * P * 1000 * vd / std::sqrt(R / mwc * T); if (burn && count == 1) mdot = At * 1000 / cs * (std::max(pc0, pc1 + 1e-5) - pc1);
        double lo = 1, hi = 50; auto ar = [&](double M) { return std::pow(2 / (g + 1) * (1 + (g - 1) / 2 * M * M), (g + 1) / 2 / (g - 1)) / M; }; for (int i = 0; i < 100; i++) { double m = (lo + hi) / 2; (ar(m) > ratio ? hi : lo) = m; } double M = lo, pe = P * std::pow(1 + (g - 1) / 2 * M * M, -g / (g - 1)), Te = T / (1 + (g - 1) / 2 * M * M), ue = M * std::sqrt(g * R / mwc * Te);
        if (!r.step(dt)) { prune(); return; } MC_CHECK(k.mCombustion == burn, "rocket %s", burn ? "does not burn" : "burns"); MC_CHECK(near(k.getChamberPressure(), P, 1e-9) && near(k.getChamberTemperature(), T, 1e-9), "chamber at %.9g kPa %.9g K, expected %.9g %.9g", k.getChamberPressure(), k.getChamberTemperature(), P, T); double den = std::max(pc0, pc1 + 1e-5) - pc1, G = P > pv1 - FE ? mdot / den / mwo : 0, fl = G * (r.nd(0).getPotential() - r.nd(to).getPotential());
        MC_CHECK(near(k.getFlux(), fl, 3e-4, 1e-12 + 3e-14 * G * P), "rocket flows %.9g kmol/s, nozzle makes %.9g", k.getFlux(), fl); MC_CHECK(near(k.mExitMach, M, 1e-4), "exit Mach %.9g, area ratio makes %.9g", k.mExitMach, M); MC_CHECK(near(k.mExitPressure, pe, 2e-3, 1e-12) && near(k.mExitTemperature, Te, 1e-3) && near(k.mExitVelocity, ue, 1e-4), "exit at %.9g kPa %.9g K %.9g m/s, expected %.9g %.9g %.9g", k.mExitPressure, k.mExitTemperature, k.mExitVelocity, pe, Te, ue); flow = k.getFlowRate(); double F = burn ? tune * flow * ue : 0; MC_CHECK(near(k.getThrust(), F, 1e-3, 1e-9), "thrust %.9g N, exhaust makes %.9g", k.getThrust(), F); MC_CHECK(near(k.getPower(), 0.5 * F * ue, 2e-3, 1e-6), "power %.9g", k.getPower()); if (flow > FE) MC_CHECK(near(k.mCharacteristicVelocity, r.nd(0).getPotential() * 1000 * At / flow, 1e-6), "characteristic velocity %.9g", k.mCharacteristicVelocity); if (mc::tracing()) mc::trace("burn %d flow %.9g thrust %.9g", burn, flow, k.getThrust()); validated(); } }
static void head() {
    bool liquid = mc::flip("liquid"); Rig r(2, liquid ? LIQ : GAS); r.gas = !liquid; FluidState A = liquid ? FluidState{300, 400, {0.8, 0.2}, {}} : FluidState{300, 100, {0.7, 0.2, 0.1}, {}}, B = liquid ? FluidState{290, 390, {0.9, 0.1}, {}} : FluidState{290, 99.5, {0.5, 0.3, 0.2}, {}}; r.Tmin = 1; r.Tmax = 3000; r.init(0, A, 3); r.init(1, B, 2); r.init(2, A, 0); GunnsFluidPotential p; double c = 1e-3; p.initialize(GunnsFluidPotentialConfigData("p", &r.F.list, c, 0), GunnsFluidPotentialInputData(), r.links, 0, 1); r.edge(&p, 0, 1); r.start(); double col[3], acc[3] = {0, 0, 0}, dcm[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; static const double C[][3] = {{0, 0, 0}, {2, 0, 0}, {1, -2, 3}}; int ci = mc::choose(3, "column"); for (int i = 0; i < 3; i++) col[i] = C[ci][i]; bool rev = mc::flip("reversed"), rot = mc::flip("rotated"), tr = mc::flip("transposed"); GunnsFluidPressureHead h(p); GunnsFluidPressureHeadConfigData hc("h", col[0], col[1], col[2], acc, rev, rot ? dcm : 0, tr); GunnsFluidPressureHeadInputData hi; h.initialize(&hc, &hi);
    for (int d = 0; d < 3; d++) { static const double AC[][3] = {{0, 0, 0}, {-9.8, 0, 0}, {1, 2, -3}, {0, 0, 30}}; int a = mc::choose(4, "acceleration"); for (int i = 0; i < 3; i++) acc[i] = AC[a][i]; int q = mc::choose(3, "frame"); double t = q == 1 ? 0.7 : q == 2 ? M_PI / 2 : 0, z = q == 2 ? 0.4 : 0; double rz[3][3] = {{std::cos(t), std::sin(t), 0}, {-std::sin(t), std::cos(t), 0}, {0, 0, 1}}, rx[3][3] = {{1, 0, 0}, {0, std::cos(z), std::sin(z)}, {0, -std::sin(z), std::cos(z)}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { dcm[3 * i + j] = 0; for (int k = 0; k < 3; k++) dcm[3 * i + j] += rx[i][k] * rz[k][j]; }
        double s[3], rho = std::min(r.nd(0).getContent()->getDensity(), r.nd(1).getContent()->getDensity()), dot = 0; for (int i = 0; i < 3; i++) { s[i] = 0; if (!rot) s[i] = acc[i]; else for (int j = 0; j < 3; j++) s[i] += (tr ? dcm[3 * j + i] : dcm[3 * i + j]) * acc[j]; dot += s[i] * col[i]; } double want = (rev ? -1 : 1) * rho * dot / 1000; h.stepPreSolver(0.1); MC_CHECK(near(p.getSourcePressure(), want, 1e-9, 1e-12), "pressure head %.9g kPa, column makes %.9g", p.getSourcePressure(), want); if (!r.step(0.1)) { prune(); return; } h.stepPostSolver(0.1); double g = r.conductance(c, r.law0[0], r.law0[1]), fl = g * (r.nd(0).getPotential() + want - r.nd(1).getPotential()); MC_CHECK(near(p.getFlux(), fl, 1e-6, 1e-9 * g * 400 + 1e-15), "column flows %.9g, pressures make %.9g", p.getFlux(), fl); validated(); } }
int main(int c, char** v) {
    bounds("fan and centrifugal pump: 3 curves x gear x filter x valve, 3 (thorough 4) events of speed, wall, valve, blockage, load, pressures, cavitation, with 2 to 80 steps each; turbine: 3 (4) events; drive shaft: 6 (7) events; displacement pumps: 4 (5) events; rocket: 6 (8) events of ignition and pressure; pressure head: 3 accelerations and frames");
    add("fan", [] { fan(false); }); add("centrifugal", [] { fan(true); }); add("turbine", turbine); add("shaft", shaft); add("gasdisplacement", [] { displacement(false); }); add("liquiddisplacement", [] { displacement(true); }); add("rocket", rocket); add("head", head);
    return run(c, v, "C25");
}
