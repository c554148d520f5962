// mc: hflags=-fno-access-control
// C24: fluid states, streams, trace compounds and the fluid laws derived from them stay consistent under every sequence of operations.
#include "mc.hh"
#include "aspects/fluid/fluid/PolyFluid.hh"
#include "core/GunnsFluidUtils.hh"
#include "properties/FluidProperties.hh"
#include "properties/ChemicalCompound.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cmath>
#include <cfloat>
#include <memory>
#include <vector>
using namespace mc; typedef FluidProperties FP; typedef std::vector<double> Vec;
static DefinedFluidProperties& props() { static DefinedFluidProperties p; return p; }
static FP* pr(int t) { return props().getProperties(static_cast<FP::FluidType>(t)); }
static const double R = 8.314472;
static const FP::FluidType GAS[] = {FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O};
static GunnsFluidTraceCompoundsConfigData* tcs() { static ChemicalCompound::Type t[] = {ChemicalCompound::NH3, ChemicalCompound::C2H6O}; static GunnsFluidTraceCompoundsConfigData c(t, 2, "tc"); static DefinedChemicalCompounds d; return &c; }
static const int K = 3, TC = 2;
static double mw(int i) { return pr(GAS[i])->getMWeight(); }
static double tcmw(int i) { return tcs()->mCompounds[i]->mMWeight; }
static PolyFluidConfigData& cfg(bool tc) { static PolyFluidConfigData a(&props(), GAS, K), b(&props(), GAS, K, tcs()); return tc ? b : a; }
static bool nr(double a, double b, double r = 1e-9) { return mc::near(a, b, r, 1e-12); }

// ---------- pure fluids: the state functions of each fluid are inverses of each other ----------
static void pure() {
    int t = choose(FP::NO_FLUID, "fluid"); FP* p = pr(t); static const double TS[] = {260, 273.15, 300, 330, 400}, PS[] = {5, 101.325, 400, 2000}; double T = pick(TS, "temperature"), P = pick(PS, "pressure"); mc::step();
    bool liquid = p->getPhase() == FP::LIQUID; if (t == FP::GUNNS_OXYGEN || t == FP::GUNNS_HYDROGEN || t == FP::GUNNS_METHANE) T = t == FP::GUNNS_HYDROGEN ? 18 + (T - 260) / 50 : t == FP::GUNNS_METHANE ? 100 + (T - 260) / 50 : 85 + (T - 260) / 50;
    if (liquid && T > (t == FP::GUNNS_AMMONIA ? 310 : 340) && t != FP::GUNNS_NAK78) prune();
    double rho = p->getDensity(T, P), h = p->getSpecificEnthalpy(T, P);
    if ((t == FP::GUNNS_WATER_PVT && (T > 370 || (T > 300 && P < 20))) || (t >= FP::GUNNS_NTO && T < 275)) prune();
    MC_CHECK(rho > 0 && p->getMWeight() > 0 && p->getSpecificHeat(T, P) > 0, "fluid %d has density %g and heat capacity %g", t, rho, p->getSpecificHeat(T, P));
    if (t <= FP::GUNNS_AR) MC_CHECK(nr(rho, P * p->getMWeight() / (R * T), 1e-4), "ideal gas %d at %g K, %g kPa has density %.9g, expected %.9g", t, T, P, rho, P * p->getMWeight() / (R * T));
    MC_CHECK(liquid == (t >= FP::GUNNS_WATER), "fluid %d has the wrong phase", t);
    MC_CHECK(nr(h, p->getSpecificHeat(T, P) * T), "fluid %d enthalpy %.9g, heat capacity gives %.9g", t, h, p->getSpecificHeat(T, P) * T);
    MC_CHECK(nr(p->getTemperature(h, P), T, liquid ? 1e-3 : 1e-6), "fluid %d: %g K has enthalpy %.9g, which is that of %.9g K", t, T, h, p->getTemperature(h, P));
    double P2 = p->getPressure(T, rho); trace("  fluid %d T %g P %g rho %.9g back %.9g", t, T, P, rho, P2);
    if (t != FP::GUNNS_WATER_PVT) MC_CHECK(nr(P2, P, liquid ? 1e-3 : 1e-5), "fluid %d at %g K: density %.9g at %g kPa, which is that of %.9g kPa", t, T, rho, P, P2);
    MC_CHECK(p->getDensity(T, P * 1.01) >= rho * (1 - 1e-12), "fluid %d gets thinner with pressure", t);
    if (!liquid) MC_CHECK(p->getDensity(T * 1.01, P) < rho, "gas %d gets denser with temperature", t);
    validated();
}

// ---------- one fluid under every sequence of operations ----------
struct Ref { double T = 0, P = 0, m = 0, flow = 0; Vec f = Vec(K, 0); bool fresh = true; };   // mass fractions
static Vec moles(const Vec& f) { Vec x(K); double s = 0; for (int i = 0; i < K; i++) s += x[i] = f[i] / mw(i); for (double& v : x) v /= s; return x; }
static Vec masses(const Vec& x) { Vec f(K); double s = 0; for (int i = 0; i < K; i++) s += f[i] = x[i] * mw(i); for (double& v : f) v /= s; return f; }
static double MW(const Vec& f) { double s = 0; for (int i = 0; i < K; i++) s += f[i] / mw(i); return 1 / s; }
static double cp(const Vec& f, double T) { double s = 0; for (int i = 0; i < K; i++) s += f[i] * pr(GAS[i])->getSpecificHeat(T, 100); return s; }
static void same(const PolyFluid& q, const Ref& r, const char* what, bool mass, bool parts) {
    Vec x = moles(r.f); double w = MW(r.f), visc = 0, tcn = 0, prn = 0, ad = 0;
    MC_CHECK(nr(q.getTemperature(), r.T) && nr(q.getPressure(), r.P), "%s: at %.9g K, %.9g kPa instead of %.9g, %.9g", what, q.getTemperature(), q.getPressure(), r.T, r.P);
    MC_CHECK(nr(q.getFlowRate(), r.flow), "%s: flow rate %.9g, expected %.9g", what, q.getFlowRate(), r.flow);
    MC_CHECK(nr(q.getMWeight(), w), "%s: molecular weight %.9g, fractions give %.9g", what, q.getMWeight(), w);
    double sx = 0, sf = 0; for (int i = 0; i < K; i++) { sx += q.getMoleFraction(i); sf += q.getMassFraction(i); MC_CHECK(nr(q.getMassFraction(i), r.f[i]) && nr(q.getMoleFraction(i), x[i]), "%s: constituent %d has mass fraction %.9g of %.9g, mole fraction %.9g of %.9g", what, i, q.getMassFraction(i), r.f[i], q.getMoleFraction(i), x[i]);
        const MonoFluid* c = &q.mConstituents[i].mFluid; if (parts) MC_CHECK(nr(c->getFlowRate(), r.flow * r.f[i]), "%s: constituent %d flows at %.9g, expected %.9g", what, i, c->getFlowRate(), r.flow * r.f[i]);
        if (mass) MC_CHECK(nr(c->getMass(), r.m * r.f[i]) && nr(c->getMole(), r.m * r.f[i] / mw(i)), "%s: constituent %d has %.9g kg (%.9g mol), expected %.9g", what, i, c->getMass(), c->getMole(), r.m * r.f[i]);
        visc += x[i] * pr(GAS[i])->getViscosity(r.T, r.P * x[i]); tcn += r.f[i] * pr(GAS[i])->getThermalConductivity(r.T, r.P * x[i]); prn += x[i] * pr(GAS[i])->getPrandtlNumber(r.T, r.P * x[i]); ad += x[i] * pr(GAS[i])->getAdiabaticIndex(r.T, r.P * x[i]); }
    MC_CHECK(nr(sx, 1) && nr(sf, 1), "%s: fractions add up to %.12g and %.12g", what, sf, sx);
    if (mass) MC_CHECK(nr(q.getMass(), r.m) && nr(q.getMole(), r.m / w), "%s: %.9g kg, %.9g mol, expected %.9g, %.9g", what, q.getMass(), q.getMole(), r.m, r.m / w);
    double rho = r.P * w / (R * r.T), c = cp(r.f, r.T);
    bool ok = nr(q.getDensity(), rho, 1e-4) && nr(q.getSpecificHeat(), c) && nr(q.getSpecificEnthalpy(), c * r.T) && nr(q.getViscosity(), visc) && nr(q.getThermalConductivity(), tcn) && nr(q.getPrandtlNumber(), prn) && nr(q.getAdiabaticIndex(), ad);
    if (!r.fresh) return;   // documented: composite properties follow new fractions when the temperature is set
    MC_CHECK(ok, "%s: density %.9g (%.9g) heat capacity %.9g (%.9g) enthalpy %.9g (%.9g) viscosity %.9g (%.9g) conductivity %.9g (%.9g) Prandtl %.9g (%.9g) adiabatic index %.9g (%.9g)", what, q.getDensity(), rho, q.getSpecificHeat(), c, q.getSpecificEnthalpy(), c * r.T, q.getViscosity(), visc, q.getThermalConductivity(), tcn, q.getPrandtlNumber(), prn, q.getAdiabaticIndex(), ad);
    MC_CHECK(nr(q.computeTemperature(q.getSpecificEnthalpy()), r.T, 1e-8), "%s: the temperature of its enthalpy is %.9g, not %.9g", what, q.computeTemperature(q.getSpecificEnthalpy()), r.T);
    for (double T : {r.T, 250.0, 420.0}) { double h = q.computeSpecificEnthalpy(T), d = q.computeDensity(T, r.P); MC_CHECK(nr(h, cp(r.f, T) * T) && nr(q.computeTemperature(h), T, 1e-8), "%s: enthalpy at %g K is %.9g, expected %.9g, back to %.9g", what, T, h, cp(r.f, T) * T, q.computeTemperature(h));
        MC_CHECK(nr(d, r.P * w / (R * T), 1e-4) && nr(q.computePressure(T, d), r.P, 1e-6), "%s: density at %g K is %.9g, expected %.9g, pressure %.9g", what, T, d, r.P * w / (R * T), q.computePressure(T, d)); }
    validated();
}
static const double FR[][3] = {{1, 0, 0}, {0.75, 0.23, 0.02}, {0, 0.5, 0.5}, {0.7, 0.3 - 1e-9, 1e-9}, {0.50001, 0.25, 0.25}, {0.5, 0.6, 0}, {0.9, 0, 0}};
static void ops() {
    Ref r; int f0 = choose(3, "initial"); r.T = 300; r.P = 100; r.flow = 0.5; r.m = 2; r.f.assign(FR[f0], FR[f0] + K); double fr[3] = {FR[f0][0], FR[f0][1], FR[f0][2]};
    PolyFluid q(cfg(false), PolyFluidInputData(r.T, r.P, r.flow, r.m, fr)), other(cfg(false), PolyFluidInputData(350, 200, -1, 7, fr)); same(q, r, "initial", true, true); int D = tierPick(3, 4);
    for (int t = 0; t < D; t++) {
        int op = choose(12, "operation"); const char* nm = "operation"; Ref b = r; mc::step();
        auto fracs = [&](bool mole) { int k = choose(7, "fractions"); double v[3] = {FR[k][0], FR[k][1], FR[k][2]}; double a[3] = {v[0], v[1], v[2]}, s = v[0] + v[1] + v[2]; double n = mole ? 0.1 : 3; bool threw = false;
            try { if (mole) q.setMoleAndMoleFractions(n, a); else q.setMassAndMassFractions(n, a); } catch (TsOutOfBoundsException&) { threw = true; }
            MC_CHECK(threw == (std::fabs(s - 1) > 1e-4), "fractions adding up to %g are %s", s, threw ? "refused" : "accepted"); if (threw) return; for (double& x : v) x /= s; Vec f(v, v + K); if (mole) { r.f = masses(f); r.m = n * MW(r.f); } else { r.f = f; r.m = n; } r.fresh = false; };
        switch (op) {
        case 0: nm = "set temperature"; r.T = mc::flip("hot") ? 400 : 250; q.setTemperature(r.T); r.fresh = true; break;
        case 1: nm = "set pressure"; r.P = mc::flip("high") ? 400 : 50; q.setPressure(r.P); break;
        case 2: nm = "set mass and fractions"; fracs(false); break;
        case 3: nm = "set moles and fractions"; fracs(true); break;
        case 4: nm = "set mass"; r.m = mc::flip("none") ? 0 : 5; q.setMass(r.m); break;
        case 5: nm = "set moles"; q.setMole(0.2); r.m = 0.2 * MW(r.f); break;
        case 6: { nm = "set constituent mass"; if (r.m == 0) prune(); int i = choose(K, "constituent"); double m = mc::flip("none") ? 0 : 1.5, tot = 0; Vec g(K); for (int k = 0; k < K; k++) tot += g[k] = k == i ? m : r.m * r.f[k]; if (tot < 1e-6) prune(); q.setMass(i, m); q.updateMass(); r.m = tot; for (int k = 0; k < K; k++) r.f[k] = g[k] / tot;
            r.fresh = false; for (int k = 0; k < K; k++) q.mConstituents[k].mFluid.setFlowRate(r.flow * r.f[k]); break; }
        case 7: nm = "edit"; r.T = mc::flip("hot") ? 390 : 255; r.P = 77; q.edit(r.T, r.P); r.fresh = true; break;
        case 8: { nm = "partial pressure edit"; static const double PP[][3] = {{80, 20, 0}, {0, 0, 30}, {80, 20, 1}, {50, -3, 10}, {0, 0, 0}}; int k = choose(5, "partial pressures"); double v[3] = {PP[k][0], PP[k][1], PP[k][2]}; double n = r.m / MW(r.f); q.edit(310, v); r.T = 310; Vec x(K); double s = 0; for (int i = 0; i < K; i++) s += x[i] = std::max(0.0, PP[k][i]); r.P = s; r.fresh = true; if (s > 1e-6) { for (double& y : x) y /= s; r.f = masses(x); r.m = n * MW(r.f); } else { outcome("edit to vacuum"); prune(); } break; }
        case 9: { nm = "set state"; other.setState(&q); Ref o = r; o.m = 7; same(other, o, "copied state", false, true); MC_CHECK(other.getMass() == 7, "copying a state changed the mass to %g", other.getMass()); other.setFlowRate(2); other.setTemperature(222); break; }
        case 10: { nm = "copy"; PolyFluid c(q, "copy"); same(c, r, "copy", false, false); MC_CHECK(nr(c.getMass(), q.getMass()) && nr(c.getMole(), q.getMole()), "copy of %g kg has %g kg", q.getMass(), c.getMass()); for (int i = 0; i < K && r.fresh; i++) { double pp = r.P * moles(r.f)[i]; if (!nr(c.mConstituents[i].mFluid.getPressure(), pp) || !nr(c.mConstituents[i].mFluid.getMass(), r.m * r.f[i]) || !nr(c.mConstituents[i].mFluid.getFlowRate(), r.flow * r.f[i])) MC_CHECK(nr(c.mConstituents[i].mFluid.getPressure(), r.P) && nr(c.mConstituents[i].mFluid.getMass(), q.getMass()) && nr(c.mConstituents[i].mFluid.getFlowRate(), r.flow), "copy: constituent %d is at %g kPa", i, c.mConstituents[i].mFluid.getPressure()); else continue; known("copy-full-partial-pressures", "copy constructor"); } break; }
        case 11: nm = "set flow rate"; r.flow = mc::flip("negative") ? -2 : 0.25; q.setFlowRate(r.flow); break;
        }
        same(q, r, nm, true, true); if (r.fresh && op != 1) { bool pp = op == 0 || op == 7 || op == 8; if (pp) for (int i = 0; i < K; i++) MC_CHECK(nr(q.getPartialPressure(GAS[i]), r.P * moles(r.f)[i]), "%s: partial pressure of constituent %d is %.9g, expected %.9g", nm, i, q.getPartialPressure(GAS[i]), r.P * moles(r.f)[i]); }
    }
}

// ---------- streams: adding them up in any order conserves mass, constituents, trace compounds and heat ----------
static void streams() {
    static const double TF[][2] = {{250, 0.5}, {400, 2}, {320, 1e-7}, {300, -0.25}}; int n = 2 + choose(2, "streams"); Vec F(K, 0), X(TC, 0); double tot = 0, H = 0; PolyFluid mix(cfg(true), [] { static double f[3] = {1, 0, 0}; return PolyFluidInputData(300, 100, 0, 0, f); }()); mix.resetState(); std::vector<int> used(n);
    MC_CHECK(mix.getFlowRate() == 0 && mix.getMass() == 0 && mix.getDensity() == 0 && mix.getTemperature() == 0 && mix.getMassFraction(0) == 0, "a reset fluid is not empty");
    bool own = mc::flip("flow rates of the sources");
    for (int k = 0; k < n; k++) {
        int s = choose(4, "stream"), c = choose(4, "composition"), tc = choose(2, "trace compounds"); double f[3] = {FR[c][0], FR[c][1], FR[c][2]}, x[2] = {tc ? 1e-3 : 0, tc ? 2e-5 : 1e-6}, T = TF[s][0], w = TF[s][1], sum = f[0] + f[1] + f[2];
        GunnsFluidTraceCompoundsInputData ti(x); PolyFluid src(cfg(true), PolyFluidInputData(T, 100 + 50 * s, own ? w : 0, 1, f, &ti)); for (double& v : f) v /= sum; Vec ff(f, f + K);
        double before = tot; if (std::fabs(tot + w) < 1e-9 || tot + w < 0) prune();
        // what a stream takes out must be there
        for (int i = 0; i < K; i++) if (F[i] + w * f[i] < -1e-15) prune(); (void)before;
        mix.addState(&src, own ? 0 : w); mc::step(); tot += w; for (int i = 0; i < K; i++) F[i] += w * f[i]; for (int i = 0; i < TC; i++) X[i] += w / MW(ff) * x[i]; H += w * cp(ff, T) * T;
        Ref r; r.flow = tot; r.f = F; for (double& v : r.f) v = std::max(0.0, v / tot); r.P = mix.getPressure(); r.T = mix.computeTemperature(H / tot);
        MC_CHECK(nr(mix.getFlowRate(), tot), "streams of %.9g flow at %.9g", tot, mix.getFlowRate());
        for (int i = 0; i < K; i++) MC_CHECK(std::fabs(mix.getMassFraction(i) * tot - F[i]) < 1e-12, "constituent %d flows at %.12g, streams carry %.12g", i, mix.getMassFraction(i) * tot, F[i]);
        MC_CHECK(nr(mix.getSpecificEnthalpy() * tot, H, 1e-9), "streams carry %.9g J, their sum %.9g", H, mix.getSpecificEnthalpy() * tot);
        double Tm = mix.getTemperature(); MC_CHECK(nr(cp(r.f, Tm) * Tm * tot, H, 1e-7), "mixture at %.9g K carries %.9g of %.9g J", Tm, cp(r.f, Tm) * Tm * tot, H);
        MC_CHECK(nr(mix.getMWeight(), MW(r.f), 1e-7), "mixture has molecular weight %.9g, expected %.9g", mix.getMWeight(), MW(r.f)); Vec mx = moles(r.f); for (int i = 0; i < K; i++) MC_CHECK(mc::near(mix.getMoleFraction(i), mx[i], 1e-7, 1e-12), "mixture has mole fraction %.9g of constituent %d, expected %.9g", mix.getMoleFraction(i), i, mx[i]);
        double visc = 0, ad = 0; for (int i = 0; i < K; i++) { visc += mx[i] * pr(GAS[i])->getViscosity(Tm, 100); ad += mx[i] * pr(GAS[i])->getAdiabaticIndex(Tm, 100); } MC_CHECK(nr(mix.getViscosity(), visc, 1e-6) && nr(mix.getAdiabaticIndex(), ad, 1e-6) && nr(mix.getSpecificHeat(), cp(r.f, Tm), 1e-7), "mixture properties %.9g %.9g %.9g, expected %.9g %.9g %.9g", mix.getViscosity(), mix.getAdiabaticIndex(), mix.getSpecificHeat(), visc, ad, cp(r.f, Tm));
        double tcn = 0, prn = 0, dens = 0; for (int i = 0; i < K; i++) { tcn += r.f[i] * pr(GAS[i])->getThermalConductivity(Tm, 100); prn += mx[i] * pr(GAS[i])->getPrandtlNumber(Tm, 100); if (mx[i] > 1e-15) dens += mix.getConstituent(GAS[i])->getDensity(); }
        MC_CHECK(nr(mix.getThermalConductivity(), tcn, 1e-6) && nr(mix.getPrandtlNumber(), prn, 1e-6), "mixture conductivity %.9g and Prandtl number %.9g, expected %.9g %.9g", mix.getThermalConductivity(), mix.getPrandtlNumber(), tcn, prn);
        MC_CHECK(nr(mix.getDensity(), dens, 1e-6), "mixture density %.9g, its constituents have %.9g", mix.getDensity(), dens);
        for (int i = 0; i < TC; i++) { double want = X[i] / (tot / MW(r.f)), got = mix.getTraceCompounds()->getMoleFractions()[i]; MC_CHECK(mc::near(got, want, 1e-7, 1e-15), "trace compound %d has mole fraction %.12g, streams carry %.12g", i, got, want); }
        validated();
    }
}

// ---------- masses mixed in a vessel, with trace compounds ----------
static void vessel() {
    double f0[3] = {0.75, 0.23, 0.02}, x0[2] = {1e-4, 0}, g0[3] = {0, 0.5, 0.5}, y0[2] = {0, 3e-3}; GunnsFluidTraceCompoundsInputData a(x0), b(y0); PolyFluid q(cfg(true), PolyFluidInputData(300, 100, 0, 2, f0, &a)), in(cfg(true), PolyFluidInputData(320, 120, 0, 0, g0, &b));
    Vec m(K), x(TC); for (int i = 0; i < K; i++) m[i] = 2 * f0[i]; for (int i = 0; i < TC; i++) x[i] = x0[i] * 2 / MW(Vec(f0, f0 + K)) * tcmw(i); GunnsFluidTraceCompounds* tc = q.getTraceCompounds(); tc->updateMasses(); int D = tierPick(5, 6);
    for (int t = 0; t < D; t++) {
        double tot = m[0] + m[1] + m[2]; mc::step();
        switch (choose(6, "operation")) {
        case 0: case 1: { double w = mc::flip("much") ? 3 : 1e-6; GunnsFluidUtils::mixFluidMasses(&q, tot, &in, w, K); for (int i = 0; i < K; i++) m[i] += w * g0[i]; for (int i = 0; i < TC; i++) x[i] += w / MW(Vec(g0, g0 + K)) * y0[i] * tcmw(i); break; }
        case 2: { double part = mc::flip("half") ? 0.5 : 1e-3, w = part * tot; tc->flowOut(w / q.getMWeight()); for (int i = 0; i < TC; i++) x[i] *= 1 - part; for (int i = 0; i < K; i++) m[i] *= 1 - part; Vec f(K); double fr[3]; for (int i = 0; i < K; i++) fr[i] = m[i] / (tot - w); q.setMassAndMassFractions(tot - w, fr); tc->updateMoleFractions(); break; }
        case 3: { double rate[2] = {mc::flip("inject") ? 1e-4 : -1e-3, 0}; tc->flowIn(rate, 0.5); for (int i = 0; i < TC; i++) x[i] = std::max(0.0, x[i] + rate[i] * 0.5); break; }
        case 4: { double k = mc::flip("grow") ? 2 : 0.25; q.setMass(tot * k); for (double& v : m) v *= k; for (double& v : x) v *= k; break; }   // the composition stays
        case 5: { int i = choose(TC, "compound"); tc->setMass(i, -1e-5); tc->limitPositive(); x[i] = 0; break; } }
        tot = m[0] + m[1] + m[2]; double n = 0; for (int i = 0; i < K; i++) n += m[i] / mw(i);
        MC_CHECK(nr(q.getMass(), tot) && nr(q.getMole(), n), "vessel holds %.12g kg, %.12g mol, expected %.12g, %.12g", q.getMass(), q.getMole(), tot, n);
        for (int i = 0; i < K; i++) MC_CHECK(std::fabs(q.getMass() * q.getMassFraction(i) - m[i]) < 1e-9 * tot, "vessel holds %.12g kg of constituent %d, expected %.12g", q.getMass() * q.getMassFraction(i), i, m[i]);
        for (int i = 0; i < TC; i++) { MC_CHECK(mc::near(tc->getMasses()[i], x[i], 1e-9, 1e-14), "vessel holds %.12g kg of compound %d, expected %.12g", tc->getMasses()[i], i, x[i]); MC_CHECK(mc::near(tc->getMoleFractions()[i], x[i] / tcmw(i) / n, 1e-8, 1e-14), "compound %d has mole fraction %.12g, expected %.12g", i, tc->getMoleFractions()[i], x[i] / tcmw(i) / n); }
        validated();
    }
}

// ---------- gas diffusion between two mixtures ----------
static void diffusion() {
    static const double D[][3] = {{1, 0, 0}, {0.5, 0.5, 0}, {0.5, 0.5, 1e-9}, {0.2, 0.3, 0.5}, {0, 0, 1}}, TS[] = {260, 330}, PS[] = {20, 101.325}, LS[] = {0, 0.3, 2}, AS[] = {0, 0.01, 1.5};
    PolyFluid* f[2]; std::unique_ptr<PolyFluid> keep[2]; double T[2], P[2], L[2]; Vec x[2];
    for (int k = 0; k < 2; k++) { const double* d = D[choose(5, "composition")]; double a[3] = {d[0], d[1], d[2]}, sum = a[0] + a[1] + a[2]; T[k] = pick(TS, "temperature"); P[k] = pick(PS, "pressure"); L[k] = pick(LS, "length"); for (double& v : a) v /= sum;
        keep[k].reset(new PolyFluid(cfg(false), PolyFluidInputData(T[k], P[k], 0, 0, a))); f[k] = keep[k].get(); x[k] = moles(Vec(a, a + K)); }
    double area = pick(AS, "area"); static double one[3] = {1, 0, 0}; PolyFluid out(cfg(false), PolyFluidInputData(300, 100, 0, 0, one)), back(cfg(false), PolyFluidInputData(300, 100, 0, 0, one)); mc::step();
    if (L[0] + L[1] == 0) { bool threw = false; try { GunnsFluidUtils::computeGasDiffusion(&out, area, f[0], f[1], 0, 0, 0); } catch (TsOutOfBoundsException&) { threw = true; } MC_CHECK(threw, "diffusion over no length is computed"); validated(); return; }
    double tl = L[0] + L[1]; auto mean = [&](double a, double b) { return (a * L[0] + b * L[1]) / tl; };
    double w0 = f[0]->getMWeight(), w1 = f[1]->getMWeight();
    // mean free path (molecules of 3.85e-10 m or as the reference case below gives) times mean speed over 3
    double rho = mean(f[0]->getDensity() / w0, f[1]->getDensity() / w1), speed = std::sqrt(3000 * R * mean(T[0], T[1]) / mean(w0, w1)), path = GunnsFluidUtils::LAMBDA_BASE * mean(T[0] / P[0], T[1] / P[1]);
    MC_CHECK(path > 1e-9 && path < 1e-5, "mean free path %g m", path);
    double diff = path * speed / 3, pos = 0, neg = 0; Vec j(K); for (int i = 0; i < K; i++) { j[i] = diff * rho * (x[0][i] - x[1][i]) / tl; (j[i] > 0 ? pos : neg) += j[i]; }
    // bulk flow washes away up to all of what diffuses against it
    static const double BS[] = {0, 0.4, 1.0, 3.0, -0.4, -3.0}; int b = choose(6, "bulk flow"); double bulk = BS[b] * pos * area * (BS[b] > 0 ? w0 : w1), ratio = 1;
    if (pos > 0 && area > 0) ratio = std::max(0.0, 1 - std::fabs(BS[b]));
    double net = 0; Vec m(K); for (int i = 0; i < K; i++) net += m[i] = j[i] * mw(i) * ratio;
    double got = GunnsFluidUtils::computeGasDiffusion(&out, area, f[0], f[1], bulk, L[0], L[1]), scale = diff * rho / tl * 0.03 * std::max(area, 1.0);
    auto close = [&](double a, double c) { return std::fabs(a - c) <= 1e-6 * scale + 1e-7 * std::fabs(c); };
    MC_CHECK(close(got, net * area), "net diffusion is %.9g kg/s instead of %.9g", got, net * area);
    for (int i = 0; i < K; i++) MC_CHECK(close(out.getConstituent(GAS[i])->getMass(), m[i]), "constituent %d diffuses at %.9g kg/s/m2 instead of %.9g", i, out.getConstituent(GAS[i])->getMass(), m[i]);
    // the same seen from the other side
    double rev = GunnsFluidUtils::computeGasDiffusion(&back, area, f[1], f[0], -bulk, L[1], L[0]);
    MC_CHECK(close(rev, -got), "diffusion from the other side is %.9g, was %.9g", rev, got);
    for (int i = 0; i < K; i++) MC_CHECK(close(back.getConstituent(GAS[i])->getMass(), -out.getConstituent(GAS[i])->getMass()), "constituent %d diffuses %.9g one way and %.9g the other", i, out.getConstituent(GAS[i])->getMass(), back.getConstituent(GAS[i])->getMass());
    validated(); state(Hash().d(got).d(out.getTemperature()).h);
}

// ---------- laws built on fluids ----------
static void laws() {
    static const double TT[] = {270, 300, 380}, PP[] = {50, 100, 100.001, 300}; int ci = choose(3, "composition 0"), cj = choose(3, "composition 1"); double f[3] = {FR[ci][0], FR[ci][1], FR[ci][2]}, g[3] = {FR[cj][0], FR[cj][1], FR[cj][2]};
    double T0 = pick(TT, "temperature 0"), T1 = pick(TT, "temperature 1"), P0 = pick(PP, "pressure 0"), P1 = pick(PP, "pressure 1"), G = 0.01; mc::step();
    PolyFluid a(cfg(false), PolyFluidInputData(T0, P0, 0, 1, f)), b(cfg(false), PolyFluidInputData(T1, P1, 0, 1, g)); Vec fa(f, f + K), fb(g, g + K);
    // flow conductance: the mass flow at the pressure difference is G (rho dP)^n
    for (double n : {0.5, 0.75, 1.0, 0.3, 2.0}) for (double lin : {0.0, 10.0}) { double dP = std::max(std::fabs(P0 - P1), lin), e = std::min(1.0, std::max(0.5, n)), rho = 0.5 * (a.getDensity() + b.getDensity()), w = 0.5 * (MW(fa) + MW(fb)), A = GunnsFluidUtils::computeAdmittance(G, lin, &a, &b, n);
        double want = dP > DBL_EPSILON ? G * std::pow(rho * dP * 1000, e) / dP / w : 0; MC_CHECK(nr(A, want, 1e-9), "conductance %g with exponent %g between %g and %g kPa gives %.9g, expected %.9g", G, n, P0, P1, A, want);
        double back = GunnsFluidUtils::predictConductivity(A * dP * w, lin, &a, &b, n), wb = std::fabs(P0 - P1) > DBL_EPSILON ? G : 0; MC_CHECK(nr(back, wb, 1e-9), "predicted conductance %.9g for the flow of %.9g", back, wb); }
    double vol = 3, cap = GunnsFluidUtils::computeCapacitance(&a, vol); MC_CHECK(nr(cap, vol / (R * T0), 1e-4), "capacitance of %g m3 at %g K is %.9g, expected %.9g", vol, T0, cap, vol / (R * T0));
    for (double s : {0.0, 0.5, 1.0}) { double ga = a.getAdiabaticIndex(), T2 = GunnsFluidUtils::computeIsentropicTemperature(s, P0, P1, &a), want = T0 + s * (T0 * std::pow(P1 / P0, (ga - 1) / ga) - T0); MC_CHECK(nr(T2, want), "expansion from %g to %g kPa ends at %.9g K, expected %.9g", P0, P1, T2, want);
        if (P0 != P1 && s > 0) { PolyFluid& hi = P0 > P1 ? a : b; double lo = std::min(P0, P1), Th = hi.getTemperature(), dT = GunnsFluidUtils::computeIsentropicTemperature(s, hi.getPressure(), lo, &hi) - Th, k = GunnsFluidUtils::predictExpansionScaleFactor(dT, &a, &b); MC_CHECK(nr(k, s, 1e-6), "expansion by %g K needs scale factor %g, predicted %g", dT, s, k); } }
    for (double v : {0.001, 0.5, 20.0}) { double D = 0.1, re = a.getDensity() * v * D / a.getViscosity(); MC_CHECK(nr(GunnsFluidUtils::computeReynoldsNumber(&a, v, D), re), "Reynolds number %g, expected %g", GunnsFluidUtils::computeReynoldsNumber(&a, v, D), re); }
    double q = GunnsFluidUtils::computeConductiveHeatFlux(2, &a, &b, 0.3, 0.5), kc = (a.getThermalConductivity() * 0.3 + b.getThermalConductivity() * 0.5) / 0.8, qw = 2 * kc * (T0 - T1) / 0.8; MC_CHECK(nr(q, qw), "conducted heat %g, expected %g", q, qw);
    // humidity
    double rh = GunnsFluidUtils::computeRelativeHumidityH2O(&a), sat = pr(FP::GUNNS_H2O)->getSaturationPressure(T0); MC_CHECK(nr(rh, P0 * moles(fa)[2] / sat, 1e-9), "humidity %g, expected %g", rh, P0 * moles(fa)[2] / sat);
    // mixture conversions are inverses of each other and of the fluid's fractions
    double x[3], y[3], z[3]; GunnsFluidUtils::convertMassFractionToMoleFraction(x, f, &cfg(false)); GunnsFluidUtils::convertMoleFractionToMassFraction(y, x, &cfg(false)); GunnsFluidUtils::convertMoleFractionToPartialPressure(z, x, &cfg(false), P0); for (int i = 0; i < K; i++) MC_CHECK(nr(x[i], moles(fa)[i]) && nr(y[i], fa[i]) && nr(z[i], P0 * x[i]), "fraction %d: %g by mass, %g by mole, %g back, %g kPa", i, f[i], x[i], y[i], z[i]);
    double back[3]; GunnsFluidUtils::convertPartialPressureToMoleFraction(back, z, &cfg(false)); for (int i = 0; i < K; i++) MC_CHECK(nr(back[i], x[i]), "partial pressure %g is mole fraction %g, expected %g", z[i], back[i], x[i]);
    validated();
}
// Reynolds number regimes: laminar, blended, turbulent by the friction and heat transfer correlations.
static void friction() {
    static const double RE[] = {1, 500, 2299, 2300, 2301, 3000, 4000, 1e4, 1e5, 1e7}, RD[] = {0, 1e-4, 0.01, 0.05}; double re = pick(RE, "Reynolds"), rd = pick(RD, "roughness"); mc::step();
    double reg = std::min(1.0, std::max(0.0, (re - 2300) / 1700)), rt = std::max(re, 4000.0), f = 0.02; MC_CHECK(nr(GunnsFluidUtils::computeFlowRegimeFactor(re), reg), "regime %g at %g", GunnsFluidUtils::computeFlowRegimeFactor(re), re);
    for (int i = 0; i < 200; i++) { double s = -2 * std::log10(rd / 3.7 + 2.51 / rt / std::sqrt(f)); f = 1 / (s * s); }   // Colebrook
    double lam = 64 / std::min(re, 2300.0), want = lam * (1 - reg) + f * reg, got = GunnsFluidUtils::computeDarcyFrictionFactor(rd, re);
    trace("  re %g rough %g: %.6g of %.6g", re, rd, got, want); double rod = rd / 3.7, ga = std::log10(rod + 12 / rt), gb = std::log10(rod - 5.02 * ga / rt), gc = std::log10(rod + 10.04 * ga * gb / rt), gd = ga - (gb - ga) * (gb - ga) / (gc - 2 * gb + ga), bad = lam * (1 - reg) + 0.25 / gd / gd * reg;
    if (reg > 0 && !nr(got, want, 5e-3) && nr(got, bad, 1e-6)) known("darcy-serghide", "friction factor"); else MC_CHECK(nr(got, want, 5e-3), "friction factor %g at %g, expected %g", got, re, want);
    double fr[3] = {0.75, 0.23, 0.02}; PolyFluid a(cfg(false), PolyFluidInputData(300, 100, 0, 1, fr)); double d8 = GunnsFluidUtils::computeDarcyFrictionFactor(rd, rt) / 8, prn = a.getPrandtlNumber(), tur = d8 * (rt - 1000) * prn / (1 + 12.7 * std::sqrt(d8) * (std::pow(prn, 2.0 / 3) - 1)), nu = 3.66 * (1 - reg) + tur * reg, gn = GunnsFluidUtils::computeNusseltNumber(&a, rd, re);
    MC_CHECK(nr(gn, nu, 1e-9), "Nusselt number %g at %g, expected %g", gn, re, nu); double D = 0.05, md = re * a.getViscosity() * D * M_PI / 4, h = GunnsFluidUtils::computeConvectiveHeatTransferCoefficient(mc::flip("reversed") ? -md : md, &a, rd, D); MC_CHECK(nr(h, a.getThermalConductivity() / D * nu, 1e-5), "heat transfer coefficient %g, expected %g", h, a.getThermalConductivity() / D * nu);
    // heat to a wall: bounded by what brings the fluid to the wall temperature, by the exponential law below it
    for (double UA : {0.0, 1.0, 1e3, 1e9}) for (double Tw : {250.0, 300.0, 400.0}) for (double w : {0.1, -0.1, 0.0}) { a.setTemperature(300); double mcp = std::fabs(w) * a.getSpecificHeat(), To = std::fabs(w) < DBL_EPSILON ? 300 : Tw + (300 - Tw) * std::exp(-UA / mcp), e = std::fabs(w) * (a.getSpecificEnthalpy() - a.computeSpecificEnthalpy(To)), got2 = GunnsFluidUtils::computeConvectiveHeatFlux(&a, w, UA, Tw); MC_CHECK(mc::near(got2, e, 1e-6, 1e-9) && nr(a.getTemperature(), UA > 0 ? To : 300), "heat to a wall of %g K with UA %g at %g kg/s is %g, expected %g, leaving at %g K of %g", Tw, UA, w, got2, e, a.getTemperature(), To); }
    validated();
}
// Between networks of different fluids: common constituents keep their proportions, the others are converted or dropped.
static void transform() {
    static const FP::FluidType IN[][3] = {{FP::GUNNS_N2, FP::GUNNS_O2, FP::GUNNS_H2O}, {FP::GUNNS_O2, FP::GUNNS_CO2, FP::GUNNS_N2}, {FP::GUNNS_CO2, FP::GUNNS_AR, FP::GUNNS_HE}}; int a = choose(3, "from"), conv = choose(4, "convert to"); FP::FluidType to = conv == 3 ? FP::NO_FLUID : conv == 2 ? FP::GUNNS_AR : GAS[conv];
    PolyFluidConfigData ic(&props(), IN[a], 3); int map[4]; bool threw = false, common = false; mc::step(); for (auto i : IN[a]) for (auto j : GAS) common |= i == j; try { GunnsFluidUtils::buildTransformMap(map, &ic, &cfg(false), to); } catch (TsInitializationException&) { threw = true; }
    bool bad = to == FP::GUNNS_AR || (to == FP::NO_FLUID && !common); MC_CHECK(threw == bad, "transform map %s", threw ? "refused" : "accepted"); if (threw) return;
    int c = choose(4, "composition"); double f0[3] = {1, 0, 0}; Vec f(K, 0); double sum = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < K; j++) { bool has = false; for (auto t : GAS) has |= t == IN[a][i]; if (IN[a][i] == GAS[j] || (!has && to == GAS[j])) f[j] += FR[c][i], sum += FR[c][i]; }
    PolyFluid out(cfg(false), PolyFluidInputData(300, 100, 0, 1, f0)); GunnsFluidUtils::transformState(&out, 150, 320, FR[c], map); if (sum <= 0) { outcome("nothing in common"); return; } Ref r; r.T = 320; r.P = 150; r.flow = 0; for (int i = 0; i < K; i++) r.f[i] = f[i] / sum; same(out, r, "transformed", false, true);
}
static void normalize() {
    static const double V[] = {0, 1, 0.5, 0.25, -0.5, 1e-20, 3}; double v[3], w[3], s = 0; for (int i = 0; i < 3; i++) { v[i] = pick(V, "value"); w[i] = v[i] < DBL_EPSILON * DBL_EPSILON ? 0 : v[i]; s += w[i]; } mc::step(); bool did = GunnsFluidUtils::normalizeArray(v, 3); MC_CHECK(did == (std::fabs(s - 1) > FLT_EPSILON), "normalizing reported %d", did);
    for (int i = 0; i < 3; i++) MC_CHECK(nr(v[i], s > 0 && did ? w[i] / s : w[i]), "value %d normalized to %g, expected %g", i, v[i], w[i] / s);
    double sum = v[0] + v[1] + v[2]; if (s > 0) MC_CHECK(std::fabs(sum - 1) <= 1.01 * FLT_EPSILON, "normalized values add up to %g", sum); validated();
}
int main(int argc, char** argv) {
    add("pure", pure); add("ops", ops); add("streams", streams); add("vessel", vessel); add("laws", laws); add("diffusion", diffusion); add("friction", friction); add("transform", transform); add("normalize", normalize);
    assume("gas mixtures of three constituents and two trace compounds; pure fluids of every defined type"); bounds("all sequences of 3 (thorough 4) state operations, sums of up to 3 streams, 5-6 vessel operations, all pairs of states on a grid");
    return run(argc, argv, "C24");
}
