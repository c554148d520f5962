// mc: hflags=-fno-access-control
// Thermal networks: links of aspects/thermal in real networks against an independent step solution.
#include "core/Gunns.hh"
#include "core/GunnsBasicNode.hh"
#include "core/GunnsBasicConductor.hh"
#include "aspects/thermal/GunnsThermalCapacitor.hh"
#include "aspects/thermal/GunnsThermalCapacitorHeatQueues.hh"
#include "aspects/thermal/GunnsThermalHeater.hh"
#include "aspects/thermal/GunnsThermalSource.hh"
#include "aspects/thermal/GunnsThermalPanel.hh"
#include "aspects/thermal/GunnsThermalMultiPanel.hh"
#include "aspects/thermal/GunnsThermalPotential.hh"
#include "aspects/thermal/GunnsThermalRadiation.hh"
#include "aspects/thermal/GunnsThermalPhaseChangeBattery.hh"
#include "aspects/thermal/GunnsThermoelectricDevice.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include <cfloat>
#include <cmath>
#include <memory>
#include <vector>
#include "mc.hh"
using std::vector; using std::fabs; using std::max; using std::min; using mc::choose; using mc::flip; using mc::tierPick;
typedef long double LD;

static bool close(double a, double b, double scale) { return std::isfinite(a) && fabs(a - b) <= 1e-9 * max(fabs(a), fabs(b)) + 1e-9 * scale; }

// What the harness knows about each link, set through the same public interface the link is driven by.
struct El {
    enum Kind { CAP, COND, RAD, POT, SRC, HEAT, PANEL, MULTI, TED, PCB } k;
    vector<int> p; GunnsBasicLink* l = nullptr;
    double v = 0, e = 0;                                      // capacitance, conductivity, potential
    bool blk = false; double blkV = 0; double view = 1, tune = 1, demand = 0; bool ovF = false; double ovV = 0; bool ovT = false; double ovTV = 0; vector<double> frac;
    double ext[15] = {0}; bool pin = false; double pinV = 0;
    double ab[5] = {0}, vs[5] = {0}, in[5] = {0}, area = 0; int nf = 1;
    double n2 = 0, geo = 0, rc[2] = {0}, sc[3] = {0}, kc[3] = {0}, plate = 0, tmin = 1, tmax = 1e4, cur = 0; bool te = false; double teV = 1;   // thermoelectric
    double m = 0, f = 0, tpc = 0, hpc = 0, ch = 0, cc = 0, cs = 0; bool leak = false; double leakV = 0;      // phase change battery
};
static double poly(const double* c, int n, double t) { double r = 0; for (int i = n; i-- > 0;) r = r * t + c[i]; return r; }
// mean of a polynomial over [a,b] by exact Gauss quadrature, valid for a == b
static double meanPoly(const double* c, int n, double a, double b) { double h = 0.5 * (b - a), m = 0.5 * (a + b), x = std::sqrt(0.6) * h; return (5 * poly(c, n, m - x) + 8 * poly(c, n, m) + 5 * poly(c, n, m + x)) / 18; }
struct TedOut { double K, Qh, Qc, V, Ke; };
static TedOut tedLaw(const El& e, double Th, double Tc) {
    double h = min(max(Th, e.tmin), e.tmax), c = min(max(Tc, e.tmin), e.tmax), r[2], s[3], k[3];
    for (int i = 0; i < 2; i++) r[i] = e.rc[i] * e.n2 / e.geo;
    for (int i = 0; i < 3; i++) { s[i] = e.sc[i] * e.n2 * (e.te ? max(0.0, e.teV) : 1.0); k[i] = e.kc[i] * e.n2 * e.geo; }
    if (e.plate > 0) k[0] = 1 / (1 / k[0] + 2 / e.plate);
    TedOut o; double R = max(poly(r, 2, 0.5 * (h + c)), DBL_EPSILON), J = e.cur * e.cur * R;
    o.K = meanPoly(k, 3, h, c); o.V = meanPoly(s, 3, h, c) * (h - c); o.Ke = 1 / R;
    o.Qh = J / 2 - e.cur * h * poly(s, 3, h); o.Qc = J / 2 + e.cur * c * poly(s, 3, c); return o;
}

struct Rig {
    int N; std::unique_ptr<GunnsBasicNode[]> nodes; GunnsNodeList list; vector<GunnsBasicLink*> links; vector<std::unique_ptr<GunnsBasicLink>> own; std::unique_ptr<Gunns> G; vector<El> els; vector<double> T, flux;
    explicit Rig(int n) : N(n), nodes(new GunnsBasicNode[n + 1]), G(new Gunns) {
        static const char* nm[] = {"n0", "n1", "n2", "n3"}; for (int i = 0; i <= N; i++) nodes[i].initialize(i == N ? "Ground" : nm[i], 0.0);
        list.mNodes = nodes.get(); list.mNumNodes = N + 1; G->initializeNodes(list); els.reserve(20);
    }
    ~Rig() { G.reset(); own.clear(); nodes.reset(); }
    template<class L> L* hold(L* l, El& e) { own.emplace_back(l); e.l = l; return l; }
    El& push(El::Kind k, vector<int> p) { els.emplace_back(); els.back().k = k; els.back().p = p; return els.back(); }
    El& cap(int a, double C, double T0, bool pin = false, double pinV = 0) { El& e = push(El::CAP, {a, N}); e.v = C; e.e = T0; e.pin = pin; e.pinV = pinV; GunnsThermalCapacitorConfigData c("cap", &list); GunnsThermalCapacitorInputData i(false, 0, C, T0, pin, pinV); hold(new GunnsThermalCapacitor, e)->initialize(c, i, links, a, N); return e; }
    El& cond(int a, int b, double g) { El& e = push(El::COND, {a, b}); e.v = g; GunnsBasicConductorConfigData c("cond", &list, g); GunnsBasicConductorInputData i(false, 0); hold(new GunnsBasicConductor, e)->initialize(c, i, links, a, b); return e; }
    El& rad(int a, int b, double g, double view) { El& e = push(El::RAD, {a, b}); e.v = g; e.view = view; GunnsThermalRadiationConfigData c("rad", &list, g); GunnsThermalRadiationInputData i(false, 0, view); hold(new GunnsThermalRadiation, e)->initialize(c, i, links, a, b); return e; }
    El& pot(int b, double g, double v) { El& e = push(El::POT, {N, b}); e.v = g; e.e = v; GunnsThermalPotentialConfigData c("pot", &list, g); GunnsThermalPotentialInputData i(false, 0, v); hold(new GunnsThermalPotential, e)->initialize(c, i, links, N, b); return e; }
    El& src(vector<int> p, vector<double> fr, double tune, double q) { El& e = push(El::SRC, p); e.frac = fr; e.tune = tune; e.demand = q; GunnsThermalSourceConfigData c("src", &list, tune, &fr); GunnsThermalSourceInputData i(false, 0, q, false, 0); hold(new GunnsThermalSource, e)->initialize(c, i, links, &p); return e; }
    El& heater(vector<int> p, vector<double> fr, double tune, double q) { El& e = push(El::HEAT, p); e.frac = fr; e.tune = tune; GunnsThermalHeaterConfigData c("htr", &list, tune, &fr); GunnsThermalHeaterInputData i(false, 0, q, false, 0); hold(new GunnsThermalHeater, e)->initialize(c, i, links, &p); return e; }
    El& panel(vector<int> p, vector<double> fr, double tune, double q, double ab, double area) { El& e = push(El::PANEL, p); e.frac = fr; e.tune = tune; e.ab[0] = ab; e.area = area; e.vs[0] = 1; e.in[0] = ab * area > 0 ? q / (ab * area) : 0; GunnsThermalPanelConfigData c("pan", &list, tune, &fr, ab, area); GunnsThermalPanelInputData i(false, 0, q, false, 0); hold(new GunnsThermalPanel, e)->initialize(c, i, links, &p); return e; }
    El& multi(vector<int> p, vector<double> fr, double tune, const double* ab, const double* vs, const double* in, double area) { El& e = push(El::MULTI, p); e.frac = fr; e.tune = tune; e.area = area; e.nf = 5; for (int i = 0; i < 5; i++) { e.ab[i] = ab[i]; e.vs[i] = vs[i]; e.in[i] = in[i]; }
        GunnsThermalMultiPanelConfigData c("mp", &list, tune, &fr, ab[0], ab[1], ab[2], ab[3], ab[4], area); GunnsThermalMultiPanelInputData i(false, 0, 0, false, 0, vs[0], vs[1], vs[2], vs[3], vs[4], in[0], in[1], in[2], in[3], in[4]); hold(new GunnsThermalMultiPanel, e)->initialize(c, i, links, &p); return e; }
    El& ted(int a, int b, const El& t) { El& e = push(El::TED, {a, b}); e.n2 = t.n2; e.geo = t.geo; std::copy(t.rc, t.rc + 2, e.rc); std::copy(t.sc, t.sc + 3, e.sc); std::copy(t.kc, t.kc + 3, e.kc); e.plate = t.plate; e.tmin = t.tmin; e.tmax = t.tmax;
        GunnsThermoelectricDeviceConfigData c("ted", &list, t.n2 / 2, t.geo, t.rc[0], t.rc[1], t.sc[0], t.sc[1], t.sc[2], t.kc[0], t.kc[1], t.kc[2], t.plate, t.tmin, t.tmax); GunnsThermoelectricDeviceInputData i(false, 0, false, 1); hold(new GunnsThermoelectricDevice, e)->initialize(c, i, links, a, b); return e; }
    El& pcb(int a, double m, double T0, double f, double tpc, double hpc, double ch, double cc, double cs) { El& e = push(El::PCB, {a}); e.m = m; e.e = T0; e.f = f; e.tpc = tpc; e.hpc = hpc; e.ch = ch; e.cc = cc; e.cs = cs;
        GunnsThermalPhaseChangeBatteryConfigData c("pcb", &list, tpc, hpc, ch, cc, cs); GunnsThermalPhaseChangeBatteryInputData i(m, T0, f, false, 0); hold(new GunnsThermalPhaseChangeBattery, e)->initialize(c, i, links, a); return e; }
    void start() { GunnsConfigData c("net", 1e-6, 1.0, 5, 5); G->initialize(c, links); T.assign(N + 1, 0); for (auto& e : els) if (e.k == El::CAP || e.k == El::PCB) T[e.p[0]] = e.pin ? e.pinV : e.e; flux.assign(els.size(), 0); pinNew.assign(els.size(), 0); }
    vector<char> pinNew;
    void step(double dt) {
        bool pinned = false, over = false; for (auto& e : els) { pinned |= e.k == El::CAP && e.pin; over |= !e.frac.empty() && e.ovT; } if (pinned && over) mc::prune();   // two links overriding one node: unspecified
        vector<vector<LD>> A(N, vector<LD>(N + 1, 0)); vector<double> g(els.size(), 0), s0(els.size(), 0), s1(els.size(), 0), q(els.size(), 0); double scale = 1;
        for (size_t k = 0; k < els.size(); k++) { El& e = els[k]; int a = e.p[0], b = e.p.size() > 1 ? e.p[1] : N; double sum = 0; for (double x : e.ext) sum += x;
            switch (e.k) {
                case El::CAP: { double t = e.pin ? (pinNew[k] ? e.pinV : T[a]) : T[a]; if (e.v > DBL_EPSILON && !e.pin) t += sum * dt / e.v; g[k] = e.v / dt; s0[k] = g[k] * t; s1[k] = -s0[k]; break; }
                case El::COND: g[k] = e.v * (e.blk ? 1 - e.blkV : 1); break;
                case El::RAD: { double x = T[a], y = T[b]; g[k] = (x == y ? e.v : e.view * e.v * (x * x + y * y) * (x + y)) * (e.blk ? 1 - e.blkV : 1); break; }
                case El::POT: g[k] = e.v * (e.blk ? 1 - e.blkV : 1); s1[k] = g[k] * e.e; s0[k] = -s1[k]; break;
                case El::TED: { TedOut o = tedLaw(e, T[a], T[b]); if (fabs(T[a] - T[b]) < 1e-6 || (T[a] >= e.tmax && T[b] >= e.tmax)) mc::prune();   // the known finding about (nearly) equal temperatures, decided in 'effect'
                    g[k] = o.K * (e.blk ? 1 - e.blkV : 1); s0[k] = o.Qh; s1[k] = o.Qc; break; }
                case El::PCB: { bool mixed = e.f > 0 && e.f < 1; double C = e.cs + 1000 * e.m * (e.f <= 0 ? e.cc : e.ch); g[k] = mixed ? 1e6 : C / dt; s0[k] = mixed ? g[k] * e.tpc + sum : g[k] * (T[a] + sum * dt / C); break; }
                default: { double d = e.demand; if (e.k != El::SRC && e.k != El::HEAT) { d = 0; for (int i = 0; i < e.nf; i++) d += e.ab[i] * e.vs[i] * e.in[i]; d *= e.area; } q[k] = e.ovF ? e.ovV : d * e.tune * (e.blk ? 1 - e.blkV : 1); }
            }
            if (g[k] > 0) { if (a < N) A[a][a] += g[k]; if (b < N) A[b][b] += g[k]; if (a < N && b < N) { A[a][b] -= g[k]; A[b][a] -= g[k]; } }
            if (a < N) A[a][N] += s0[k];
            if (b < N && e.k != El::PCB) A[b][N] += s1[k];
            for (size_t i = 0; i < e.frac.size(); i++) A[e.p[i]][N] += q[k] * e.frac[i];
            if (e.k == El::TED) { flux[k] = 0; }
        }
        G->step(dt); mc::step();
        if (mc::tracing()) for (size_t k = 0; k < els.size(); k++) if (g[k] > 0) mc::trace("  link %zu expected g %.9g s %.9g %.9g q %.9g; actual A %.9g w %.9g T prev %.9g %.9g", k, g[k], s0[k], s1[k], q[k], els[k].l->mAdmittanceMatrix[0], els[k].l->mSourceVector[0], T[0], T[1]);
        vector<vector<LD>> B = A; vector<LD> x(N + 1, 0);
        for (int c = 0; c < N; c++) { int p = c; for (int r = c; r < N; r++) if (fabsl(B[r][c]) > fabsl(B[p][c])) p = r; std::swap(B[p], B[c]); if (fabsl(B[c][c]) < 1e-14L) mc::prune(); for (int r = 0; r < N; r++) if (r != c) { LD f = B[r][c] / B[c][c]; for (int j = c; j <= N; j++) B[r][j] -= f * B[c][j]; } }
        for (int i = 0; i < N; i++) { x[i] = B[i][N] / B[i][i]; scale = max(scale, (double)fabsl(x[i])); }
        vector<double> fix(N + 1, NAN);
        for (auto& e : els) { if (e.k == El::CAP && e.pin) fix[e.p[0]] = e.pinV; if (!e.frac.empty() && e.ovT) for (int p : e.p) fix[p] = e.ovTV; }
        vector<double> Tn(N + 1, 0);
        for (int i = 0; i < N; i++) { Tn[i] = nodes[i].getPotential(); double want = std::isnan(fix[i]) ? (double)x[i] : fix[i];
            MC_CHECK(close(Tn[i], want, scale), "node %d temperature %.12g, the heat balance gives %.12g", i, Tn[i], want); }
        vector<double> net(N, 0);
        for (size_t k = 0; k < els.size(); k++) { El& e = els[k]; int a = e.p[0], b = e.p.size() > 1 ? e.p[1] : N; double fs = g[k] * scale * 1e-3;
            if (e.k == El::COND || e.k == El::RAD || e.k == El::TED) { double w = g[k] * (Tn[a] - Tn[b]); if (fabs(Tn[a] - Tn[b]) < 1e-9 * scale) continue; if (mc::tracing()) mc::trace("flow link %zu g %.9g T %.9g %.9g prev %.9g %.9g", k, g[k], Tn[a], Tn[b], T[a], T[b]); MC_CHECK(fabs(e.l->getFlux() - w) <= 1e-6 * fabs(w) + 1e-9 * fs, "link %zu (kind %d) carries %.12g W, its law gives %.12g", k, e.k, e.l->getFlux(), w); }
            if (!e.frac.empty()) MC_CHECK(close(e.l->getFlux(), q[k], fabs(q[k])), "source link %zu (kind %d) delivers %.12g W instead of %.12g", k, e.k, e.l->getFlux(), q[k]);
            if (e.k == El::CAP) { double t = static_cast<GunnsThermalCapacitor*>(e.l)->getTemperature(); if (t != Tn[a]) { e.l->processOutputs(); t = static_cast<GunnsThermalCapacitor*>(e.l)->getTemperature(); } MC_CHECK(t == Tn[a], "capacitor temperature %.12g is not that of its node %.12g", t, Tn[a]);
                MC_CHECK(close(static_cast<GunnsThermalCapacitor*>(e.l)->getCapacitance(), e.v, 1e-6), "capacitance %.12g instead of %.12g", static_cast<GunnsThermalCapacitor*>(e.l)->getCapacitance(), e.v); }
            if (e.k == El::PCB) pcbAfter(e, Tn[a], g[k], s0[k], dt);
        }
        // heat collected by a node leaves it again
        bool anyFix = false; for (double x : fix) anyFix |= !std::isnan(x);
        for (int i = 0; i < N && !anyFix; i++) { double in = nodes[i].getInflux(), out = nodes[i].getOutflux(), mag = 0; for (int j = 0; j <= N; j++) mag += fabs((double)A[i][j]) * (j < N ? scale : 1); MC_CHECK(fabs(in - out) <= 1e-8 * mag + 1e-6 * max(in, out) + 1e-9, "node %d collected %.12g W in and %.12g W out", i, in, out); }
        T = Tn; for (double x : T) if (x < 0) mc::prune();   // below absolute zero: unphysical inputs
        std::fill(pinNew.begin(), pinNew.end(), 0);
    }
    void pcbAfter(El& e, double T1, double g, double s, double dt) {
        auto* b = static_cast<GunnsThermalPhaseChangeBattery*>(e.l); double sum = 0; for (double x : e.ext) sum += x;
        double f = e.f, fl = g * T1 - s, P = fl + sum, w = f; bool mixed = f > 0 && f < 1;
        if (mixed) { w = f + P * dt / 1000 / e.hpc / e.m; MC_CHECK(fabs(T1 - e.tpc) <= 1.01e-6 * (fabs(fl) + fabs(sum)) + 1e-6, "mixed-phase battery node at %.9g K, phase change is at %.9g K", T1, e.tpc); }
        else if (f <= 0 && T1 > e.tpc) w = e.cc * (T1 - e.tpc) / e.hpc;
        else if (f >= 1 && T1 < e.tpc) w = 1 - e.ch * (e.tpc - T1) / e.hpc;
        double fm = mixed ? 1e-9 * g * T1 * dt / 1000 / e.hpc / e.m : 0, rate = 0;
        if (e.leak && w > 0) { double hot = e.m * w; rate = min(max(0.0, e.leakV), max(0.0, min(hot, e.m)) / dt); if (rate * dt >= hot * (1 - 1e-9)) { hot = 0; e.m = max(e.m - rate * dt, 1e-9); } else { hot -= rate * dt; e.m -= rate * dt; } w = e.m > 1e-8 ? hot / e.m : w; }
        w = min(1.0, max(0.0, w));
        double got = b->getHotPhaseFraction(); MC_CHECK(got >= 0 && got <= 1, "hot phase fraction %.12g", got);
        MC_CHECK(fabs(got - w) <= 1e-8 + fm, "hot phase fraction %.12g, the heat gives %.12g", got, w);
        MC_CHECK(fabs(b->getActualLeakRate() - rate) <= 1e-6 * rate + 1e-9, "leak rate %.12g instead of %.12g", b->getActualLeakRate(), rate);
        MC_CHECK(b->mMass > 0, "battery mass %.12g", b->mMass); if (e.m < 1e-6) { MC_CHECK(b->mMass < 1e-6, "an emptied battery has %.12g kg", b->mMass); mc::prune(); }
        MC_CHECK(close(b->mMass, e.m, 1e-6), "battery mass %.12g, leak leaves %.12g", b->mMass, e.m);
        MC_CHECK(b->getTemperature() == T1, "battery temperature %.12g is not that of its node %.12g", b->getTemperature(), T1);
        if (fabs(got - w) > 0 && (got <= 0 || got >= 1 || w <= 0 || w >= 1) && !(got <= 0 && w <= 0) && !(got >= 1 && w >= 1)) mc::prune();   // which side of a phase boundary is a matter of rounding
        e.f = got; e.m = b->mMass;
    }
    void restart() { G->restart(); for (auto& e : els) { for (double& x : e.ext) x = 0; } }
};

static double among(vector<double> v, const char* l) { return v[choose((int)v.size(), l)]; }
static double dtOf() { static const double d[] = {0.1, 10.0}; double r = d[choose(2, "dt")]; if (mc::tracing()) mc::trace("step %g", r); return r; }
static void evt(const char* s, double v = 0) { mc::trace("%s %g", s, v); }
static void setExt(El& e, int i, double v) { e.ext[i] = v; if (e.k == El::CAP) static_cast<GunnsThermalCapacitor*>(e.l)->setExternalHeatFlux(i, v); else static_cast<GunnsThermalPhaseChangeBattery*>(e.l)->mExternalHeatFlux[i] = v; }
static void setBlk(El& e, bool f, double v) { e.blk = f; e.blkV = v; e.l->setMalfBlockage(f, v); }

static void srcEvents(Rig& r, El& e) {
    auto* s = static_cast<GunnsThermalSource*>(e.l); static const double bv[] = {0.25, 1.0};
    switch (choose(6, "source event")) {
        case 0: { double v = among({0, 350, 20}, "demand"); evt("demand", v); if (e.k == El::SRC) { e.demand = v; s->mDemandedFlux = v; } else if (e.k == El::HEAT) { e.demand = v; static_cast<GunnsThermalHeater*>(s)->setPowerElectrical(v); } else if (e.k == El::PANEL) { e.in[0] = v; static_cast<GunnsThermalPanel*>(s)->mIncidentHeatFluxPerArea = v; } else { int i = choose(6, "field"); if (i == 5) for (i = 4; i > 0; i--) { e.in[i] = v; static_cast<GunnsThermalMultiPanel*>(s)->mIncidentFlux[i] = v; } e.in[i] = v; static_cast<GunnsThermalMultiPanel*>(s)->mIncidentFlux[i] = v; } break; }
        case 1: { double v = bv[choose(2, "blockage")]; evt("blockage", v); setBlk(e, true, v); break; }
        case 2: evt("unblock"); setBlk(e, false, 0); break;
        case 3: { double v = among({0, 77}, "override"); evt("flux override", v); e.ovF = true; e.ovV = v; s->setMalfFluxOverride(true, v); break; }
        case 4: evt("no flux override"); e.ovF = false; s->setMalfFluxOverride(); break;
        case 5: e.ovT = !e.ovT; e.ovTV = 310; evt("temperature override", e.ovT); s->mTemperatureOverrideFlag = e.ovT; s->mTemperatureOverrideValue = 310; break;
    }
}
static void capEvents(Rig& r, El& e) {
    auto* c = static_cast<GunnsThermalCapacitor*>(e.l);
    switch (choose(3, "capacitor event")) {
        case 0: { static const int ix[] = {0, 7, 14}; int i = ix[choose(3, "index")]; double v = among({500, -200, 0}, "external flux"); evt("external flux", v); setExt(e, i, v); break; }
        case 1: { double v = among({800, 0, 1200}, "edit capacitance"); evt("edit capacitance", v); e.v = v; c->editCapacitance(true, v); break; }
        case 2: { size_t k = &e - &r.els[0]; if (!e.pin) { e.pin = true; e.pinV = 333; r.pinNew[k] = 1; c->setPortOverride(0, 333); } else { e.pin = false; c->resetPortOverride(0); } evt("pin temperature", e.pin); break; }
    }
}
static void condEvents(Rig& r, El& e) {
    auto* c = static_cast<GunnsBasicConductor*>(e.l);
    switch (choose(e.k == El::POT || e.k == El::RAD ? 3 : 2, "conductor event")) {
        case 0: { double v = among({0.5, 1.0}, "blockage"); bool f = !e.blk; evt(f ? "blockage" : "unblock", v); setBlk(e, f, f ? v : 0); break; }
        case 1: { if (e.k == El::TED) { e.cur = among({2, -1}, "current"); evt("current", e.cur); static_cast<GunnsThermoelectricDevice*>(e.l)->mThermoelectricEffect.setCurrent(e.cur); break; } double v = (e.k == El::RAD ? 5e-9 : 3) * (1 + choose(2, "conductivity")); evt("conductivity", v); e.v = v; c->setDefaultConductivity(v); break; }
        case 2: if (e.k == El::POT) { e.e = among({250, 400}, "potential"); evt("potential", e.e); static_cast<GunnsThermalPotential*>(e.l)->setSourcePotential(e.e); } else { e.view = among({0, 0.4}, "view"); evt("view", e.view); static_cast<GunnsThermalRadiation*>(e.l)->setViewScalar(e.view); }
    }
}
static void history(Rig& r, int depth, vector<int> who) {
    r.start(); r.step(1.0);
    for (int d = 0; d < depth; d++) {
        int w = choose((int)who.size() + 1, "link");
        if (w == (int)who.size()) { evt("restart"); r.restart(); }
        else { El& e = r.els[who[w]]; if (!e.frac.empty()) srcEvents(r, e); else if (e.k == El::CAP) capEvents(r, e); else condEvents(r, e); }
        r.step(dtOf());
    }
    r.step(1.0); r.step(1.0);
}
static El tedDef(int kind) { El t; t.n2 = kind ? 2 * 127 : 1; t.geo = kind ? 0.00121 : 1; t.rc[0] = kind ? 5e-6 : 0.8; t.rc[1] = kind ? 1e-8 : 0.002; t.sc[0] = kind ? 1e-5 : 0.02; t.sc[1] = kind ? 9e-7 : 1e-4; t.sc[2] = kind ? -9e-10 : 0; t.kc[0] = kind ? 6.0 : 0.9; t.kc[1] = kind ? -0.027 : 0.01; t.kc[2] = kind ? 4e-5 : 0; t.plate = kind ? 40 : 0; if (kind) { t.kc[0] = 2.5; t.kc[1] = 1e-3; t.kc[2] = 1e-6; } t.tmin = 200; t.tmax = 360; return t; }
static void circuit1() { Rig r(3); bool cold = flip("cold start"); r.cap(0, 1500, 290); r.cap(1, 700, cold ? 290 : 340); r.cap(2, flip("massless") ? 0 : 400, 300); r.cond(0, 1, 4); r.rad(1, 2, 6e-9, 0.8); r.rad(2, 3, 4e-9, 1); r.src({0, 1}, {0.3, 0.7}, 1.1, 100); history(r, tierPick(2, 3), {0, 2, 3, 4, 6}); }
static void circuit2() { Rig r(2); r.cap(0, 900, 280); r.cap(1, 300, 280); r.rad(0, 1, 5e-9, 0.5); r.pot(0, 2, 320); r.panel({1}, {1.0}, 0.9, 60, 0.6, 2.5); r.heater({0, 1}, {0.25, 0.75}, 0.95, 0); history(r, tierPick(2, 3), {0, 2, 3, 4, 5}); }
static void circuit3() { Rig r(2); static const double ab[] = {0.2, 0.4, 0.6, 0.8, 1.0}, vs[] = {1, 0.9, 0.5, 0.25, 0}, in[] = {100, 50, 25, 12, 400}; r.cap(0, 500, 300, flip("starts pinned"), 305); r.cap(1, 500, choose(2, "start") ? 300 : 350); r.ted(0, 1, tedDef(choose(2, "device"))); r.multi({1, 0}, {0.995, 0.0}, 1, ab, vs, in, 1.5); r.pot(1, 1, 500); history(r, tierPick(2, 3), {0, 1, 2, 3, 4}); }
static void phaseChange() {
    Rig r(2); static const double f0[] = {0, 0.4, 1}; double f = f0[choose(3, "phase")], T0 = f == 0 ? 268 : f == 1 ? 278 : 273.15; r.cap(0, 2000, 300); r.pcb(1, 0.5, T0, f, 273.15, 334, 4.2, 2.1, 50); r.cond(0, 1, 20); r.pot(0, 10, choose(2, "hot") ? 320 : 240); r.start(); r.step(1.0);
    for (int d = 0; d < tierPick(4, 6); d++) { El& e = r.els[1];
        switch (choose(5, "event")) {
            case 0: { double v = among({20000, -20000, 0}, "external flux"); evt("external flux", v); setExt(e, d % 15, v); break; }
            case 1: { e.leak = !e.leak; e.leakV = 0.01; evt("leak", e.leak); static_cast<GunnsThermalPhaseChangeBattery*>(e.l)->setMalfHotPhaseLeak(e.leak, 0.01); break; }
            case 2: evt("restart"); r.restart(); break;
            case 3: { El& p = r.els[3]; p.e = p.e > 280 ? 240 : 320; evt("potential", p.e); static_cast<GunnsThermalPotential*>(p.l)->setSourcePotential(p.e); break; }
            case 4: break;
        }
        r.step(dtOf());
    }
    for (int i = 0; i < 3; i++) r.step(5.0);
}
// The thermoelectric model over its whole temperature range and beyond, including equal temperatures.
static void effect() {
    El t = tedDef(choose(2, "device")); static const double tt[] = {150, 200, 273, 300, 300.0000000000007, 300.0000001, 345, 360, 400, 500}, cu[] = {0, 1.5, -3}; double h = tt[choose(10, "hot")], c = tt[choose(10, "cold")]; t.cur = cu[choose(3, "current")]; int m = choose(4, "malfunction"); static const double mv[] = {1, 0.5, 0, -1}; t.te = m > 0; t.teV = mv[m];
    GunnsThermoelectricEffectConfigData cd(t.n2 / 2, t.geo, t.rc[0], t.rc[1], t.sc[0], t.sc[1], t.sc[2], t.kc[0], t.kc[1], t.kc[2], t.plate, t.tmin, t.tmax); GunnsThermoelectricEffectInputData id(false, 1, 0, 300, 290); GunnsThermoelectricEffect e; e.initialize(cd, id, "e");
    e.setCurrent(t.cur); e.setTemperatureHot(h); e.setTemperatureCold(c); e.setMalfThermoelectricEffects(t.te, t.teV); e.update(); mc::step();
    TedOut o = tedLaw(t, h, c);
    double dl = min(max(h, t.tmin), t.tmax) - min(max(c, t.tmin), t.tmax), k0 = t.kc[0] * t.n2 * t.geo; if (t.plate > 0) k0 = 1 / (1 / k0 + 2 / t.plate);
    if (dl == 0 && mc::near(e.getThermalConductance(), k0, 1e-12, 0)) { mc::known("ted-equal-temperatures", "the conductance of a thermoelectric device at exactly equal terminal temperatures lacks its temperature terms"); o.K = k0; }
    if (dl != 0 && fabs(dl) < 1e-8 && !mc::near(e.getThermalConductance(), o.K, 1e-6, 1e-9)) { mc::known("ted-nearly-equal-temperatures", "the conductance of a thermoelectric device at terminal temperatures within 1e-8 K is dominated by rounding error"); o.K = e.getThermalConductance(); }
    MC_CHECK(mc::near(e.getThermalConductance(), o.K, 1e-6, 1e-9), "thermal conductance %.12g, mean over %g-%g K is %.12g", e.getThermalConductance(), c, h, o.K);
    MC_CHECK(mc::near(e.getVoltage(), o.V, 1e-6, 1e-9), "voltage %.12g instead of %.12g", e.getVoltage(), o.V);
    MC_CHECK(mc::near(e.getElectricalConductance(), o.Ke, 1e-9, 1e-12), "electrical conductance %.12g instead of %.12g", e.getElectricalConductance(), o.Ke);
    MC_CHECK(mc::near(e.getHeatFluxHot(), o.Qh, 1e-9, 1e-12) && mc::near(e.getHeatFluxCold(), o.Qc, 1e-9, 1e-12), "heats %.12g %.12g instead of %.12g %.12g", e.getHeatFluxHot(), e.getHeatFluxCold(), o.Qh, o.Qc);
    MC_CHECK(mc::near(e.getHeatFluxThru(), o.K * (h - c), 1e-6, 1e-9), "conducted heat %.12g instead of %.12g", e.getHeatFluxThru(), o.K * (h - c));
    if (!t.te) { e.setMalfThermoelectricEffects(true, 0.3); e.update(); e.setMalfThermoelectricEffects(); e.update(); MC_CHECK(mc::near(e.getVoltage(), o.V, 1e-6, 1e-9), "malfunction left a trace"); }
}
// Queued heat reaches the capacitor as the mean of what was queued; empty queues leave the flux alone.
static void queues() {
    Rig r(1); r.cap(0, 100, 300); r.pot(0, 1, 290); GunnsThermalCapacitorHeatQueues q(*static_cast<GunnsThermalCapacitor*>(r.links[0])); GunnsThermalCapacitorHeatQueuesConfigData c("q"); GunnsThermalCapacitorHeatQueuesInputData i; q.initialize(&c, &i); r.start(); double buf[15][3]; for (int n = 0; n < 15; n++) q.mQueues[n].mHeat_queue = buf[n];
    for (int d = 0; d < tierPick(3, 4); d++) { static const int ix[] = {0, 3, 14}; int n = ix[choose(3, "queue")]; int sz = choose(4, "size"); q.mQueues[n].mHeat_queue_size = sz; double sum = 0; for (int j = 0; j < sz; j++) { buf[n][j] = 30.0 * (j + 1) - 10 * d; sum += buf[n][j]; } if (sz) r.els[0].ext[n] = sum / sz; mc::trace("queue %d size %d", n, sz);
        for (int o = 0; o < 15; o++) if (o != n) { double s = 0; int z = q.mQueues[o].mHeat_queue_size; for (int j = 0; j < z; j++) s += buf[o][j]; if (z) r.els[0].ext[o] = s / z; }
        q.stepPreSolver(1.0); r.step(1.0); q.stepPostSolver(1.0); }
}
static void edges() {   // panels and sources at the edge of their configuration range, and refused data
    int w = choose(10, "case"); mc::step();
    if (w < 4) { Rig r(1); r.cap(0, 100, 300); r.pot(0, 1, 290); r.panel({0}, {1.0}, 1, w & 1 ? 40 : 0, w < 2 ? 0 : 0.5, w < 2 ? 2 : 0); r.start(); for (int i = 0; i < 3; i++) r.step(1.0); return; }
    bool thrown = false;
    try { Rig r(2); switch (w) {
        case 4: r.cap(0, -1, 300); break; case 5: r.cap(0, 1, -300); break; case 6: r.src({0, 1}, {0.5, 0.4}, 1, 1); break; case 7: r.src({0, 1}, {1.0}, 1, 1); break;
        case 8: { El& e = r.cap(0, 1, 300); try { static_cast<GunnsThermalCapacitor*>(e.l)->setExternalHeatFlux(15, 1); } catch (TsOutOfBoundsException&) { thrown = true; } break; }
        case 9: r.panel({0}, {1.0}, 1, 1, 1.5, 1); break; } }
    catch (TsInitializationException&) { thrown = true; }
    MC_CHECK(thrown, "invalid data case %d was accepted", w);
}
int main(int argc, char** argv) {
    mc::add("circuit1", circuit1); mc::add("circuit2", circuit2); mc::add("circuit3", circuit3); mc::add("phase", phaseChange); mc::add("effect", effect); mc::add("queues", queues); mc::add("edges", edges);
    mc::assume("overridden temperatures replace the solution of their node after the solve, as documented, so heat is not balanced there; a radiation link between exactly equal temperatures uses its bare conductivity for that step (pinned by a unit test)");
    mc::assume("on entering and leaving the mixed phase of a phase change battery the structure's heat of one step is dropped, as its documentation describes");
    mc::bounds("three circuits of 2-3 nodes with every history of 2 (thorough 3) events on their links, 2 step sizes; phase change battery histories of 4 (6) events; thermoelectric model on a grid of 2 devices, 10x10 temperatures, 3 currents, 4 malfunctions");
    return mc::run(argc, argv, "C30");
}
