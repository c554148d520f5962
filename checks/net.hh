// Rig for small basic networks with an independent reference solution.
#ifndef NET_HH
#define NET_HH
#include "core/Gunns.hh"
#include "core/GunnsBasicConductor.hh"
#include "core/GunnsBasicSource.hh"
#include "core/GunnsBasicPotential.hh"
#include "core/GunnsBasicCapacitor.hh"
#include "core/GunnsBasicNode.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cfloat>
#include <algorithm>
#include <map>
#include <memory>
#include "mc.hh"

enum Kind { COND, SRC, POT, CAP };
static const char* const kindName[] = {"cond", "source", "potential", "capacitor"};

struct RefLink {            // what the harness knows about a link, independently of the link
    Kind kind; int p[2]; double v, e, blkV, init; bool blk;   // v: conductance, flux or capacitance; e: source potential
    double dv;              // capacitor: the potential it holds
    double flux;
    double g(double dt) const {
        if (kind == SRC) return 0;
        if (kind == CAP) return v / (dt < DBL_EPSILON ? DBL_EPSILON : dt);
        double x = v * (blk ? 1.0 - blkV : 1.0); return x < 0 ? 0 : x > 1e15 ? 1e15 : x;
    }
    // flux from port 0 to port 1 is g*(drop) + s
    double s(double dt) const { return kind == SRC ? v * (blk ? 1.0 - blkV : 1.0) : kind == POT ? g(dt) * e : kind == CAP ? -g(dt) * dv : 0.0; }
};

// Reference solution of the balance equations, by elimination with pivoting in long double.
struct RefSolve {
    int n; std::vector<long double> v; std::vector<int> comp; std::vector<char> grounded, fed;   // per node
    bool solve(const std::vector<RefLink>& L, int N, double dt) {
        n = N; v.assign(n, 0); comp.resize(n); for (int i = 0; i < n; i++) comp[i] = i;
        for (int r = 0; r < n; r++) for (auto& l : L) if (l.g(dt) > 0 && l.p[0] < n && l.p[1] < n) { int a = comp[l.p[0]], b = comp[l.p[1]]; if (a != b) for (int i = 0; i < n; i++) if (comp[i] == std::max(a, b)) comp[i] = std::min(a, b); }
        grounded.assign(n, 0); fed.assign(n, 0);
        for (auto& l : L) for (int k = 0; k < 2; k++) if (l.p[k] < n) {
            if (l.g(dt) > 0 && l.p[1-k] == n) grounded[comp[l.p[k]]] = 1;
            if (l.s(dt) != 0) fed[comp[l.p[k]]] = 1; }
        for (int i = 0; i < n; i++) { grounded[i] = grounded[comp[i]]; fed[i] = fed[comp[i]]; }
        std::vector<std::vector<long double>> A(n, std::vector<long double>(n + 1, 0));
        for (auto& l : L) { long double g = l.g(dt), s = l.s(dt); int a = l.p[0], b = l.p[1];
            if (a < n) { A[a][a] += g; A[a][n] -= s; if (b < n) A[a][b] -= g; }
            if (b < n) { A[b][b] += g; A[b][n] += s; if (a < n) A[b][a] -= g; } }
        for (int i = 0; i < n; i++) if (!grounded[i]) { for (int j = 0; j <= n; j++) A[i][j] = 0; for (int j = 0; j < n; j++) A[j][i] = 0; A[i][i] = 1; }
        for (int c = 0; c < n; c++) {
            int p = c; for (int r = c + 1; r < n; r++) if (fabsl(A[r][c]) > fabsl(A[p][c])) p = r;
            if (fabsl(A[p][c]) < 1e-30L) return false;
            std::swap(A[p], A[c]);
            for (int r = 0; r < n; r++) if (r != c) { long double f = A[r][c] / A[c][c]; if (f != 0) for (int j = c; j <= n; j++) A[r][j] -= f * A[c][j]; }
        }
        for (int i = 0; i < n; i++) v[i] = A[i][n] / A[i][i];
        return true;
    }
};

struct NetRig {
    int N; std::unique_ptr<GunnsBasicNode[]> nodes; GunnsNodeList list; std::vector<GunnsBasicLink*> links; std::vector<std::unique_ptr<GunnsBasicLink>> own; std::unique_ptr<Gunns> gunns; Gunns* G; GunnsBasicNode* ND;   // G, ND: the solver and nodes in use, normally the rig's own
    std::vector<RefLink> ref; RefSolve sol;
    int minorLimit, decompLimit; double tol;
    explicit NetRig(int n, int minor = 10, int decomp = 10, double tolerance = 1e-6) : N(n), nodes(new GunnsBasicNode[n + 1]), gunns(new Gunns), minorLimit(minor), decompLimit(decomp), tol(tolerance) {
        static const char* nm[] = {"n0", "n1", "n2", "n3", "n4", "n5"};
        for (int i = 0; i <= N; i++) nodes[i].initialize(i == N ? "Ground" : nm[i], 0.0);
        list.mNodes = nodes.get(); list.mNumNodes = N + 1; G = gunns.get(); ND = nodes.get();
        gunns->initializeNodes(list);
    }
    ~NetRig() { gunns.reset(); own.clear(); nodes.reset(); }
    // Inputs are converted by the real classes; the reference keeps its own copy.
    void addLink(Kind k, int a, int b, double v, double e = 0, bool blk = false, double blkV = 0.5) {
        RefLink r; r.kind = k; r.p[0] = a; r.p[1] = b; r.v = v; r.e = e; r.blk = blk; r.blkV = blkV; r.dv = k == CAP ? e : 0; r.flux = 0; r.init = e;
        if (k == COND) { auto* l = new GunnsBasicConductor; own.emplace_back(l); GunnsBasicConductorConfigData c("l", &list, v); GunnsBasicConductorInputData i(blk, blkV); l->initialize(c, i, links, a, b); }
        if (k == SRC)  { auto* l = new GunnsBasicSource;    own.emplace_back(l); GunnsBasicSourceConfigData c("l", &list); GunnsBasicSourceInputData i(blk, blkV, v); l->initialize(c, i, links, a, b); }
        if (k == POT)  { auto* l = new GunnsBasicPotential; own.emplace_back(l); GunnsBasicPotentialConfigData c("l", &list, v); GunnsBasicPotentialInputData i(blk, blkV, e); l->initialize(c, i, links, a, b); }
        if (k == CAP)  { auto* l = new GunnsBasicCapacitor; own.emplace_back(l); GunnsBasicCapacitorConfigData c("l", &list); GunnsBasicCapacitorInputData i(false, 0, v, e); l->initialize(c, i, links, a, b); r.blk = false; }
        ref.push_back(r);
    }
    void addOther(GunnsBasicLink* l) { own.emplace_back(l); }   // for links initialized by the caller
    void start() {
        GunnsConfigData c("net", tol, 1.0, minorLimit, decompLimit);
        gunns->initialize(c, links);
        // the initial node potentials (last writer) are distributed to the link ports
        std::vector<double> p(N + 1, 0.0);
        for (auto& r : ref) if (r.kind == CAP) p[r.p[0]] = r.init;
        for (size_t k = 0; k < ref.size(); k++) if (ref[k].kind == CAP) ref[k].dv = (ref[k].p[0] == N ? 0 : p[ref[k].p[0]]) - (ref[k].p[1] == N ? 0 : p[ref[k].p[1]]);
    }
    void setValue(int i, double v) {
        ref[i].v = v;
        if (ref[i].kind == COND || ref[i].kind == POT) static_cast<GunnsBasicConductor*>(links[i])->setDefaultConductivity(v);
        if (ref[i].kind == SRC) static_cast<GunnsBasicSource*>(links[i])->setFluxDemand(v);
        if (ref[i].kind == CAP) static_cast<GunnsBasicCapacitor*>(links[i])->editCapacitance(true, v);
    }
    void setBlockage(int i, bool f, double v) { if (ref[i].kind != CAP) { ref[i].blk = f; ref[i].blkV = v; } links[i]->setMalfBlockage(f, v); }
    bool legal(int i, int port, int node) const { return port >= 0 && port < 2 && node >= 0 && node <= N && (node == N || ref[i].p[1 - port] != node); }
    void setPort(int i, int port, int node) {
        bool want = legal(i, port, node), got = links[i]->setPort(port, node, "mc", false);
        MC_CHECK(want == got, "setPort(%d,%d) on %s %d,%d returned %d", port, node, kindName[ref[i].kind], ref[i].p[0], ref[i].p[1], got);
        if (want) ref[i].p[port] = node;
    }
    std::string show(double dt) const {
        std::string s; char b[200];
        for (auto& r : ref) { snprintf(b, sizeof b, "[%s %d->%d v=%g e=%g%s dv=%g] ", kindName[r.kind], r.p[0], r.p[1], r.v, r.e, r.blk ? " blk" : "", r.dv); s += b; }
        snprintf(b, sizeof b, "dt=%g", dt); return s + b;
    }
    std::map<int, double> over;   // node potentials overridden by links
    std::vector<double> forced;   // optional: potentials imposed instead of the solution (slave mode)
    // Advances the reference and compares every observable.
    void compare(double dt, double relTol = 1e-9) {
        const double* x = G->getPotentialVector();
        bool ok = sol.solve(ref, N, dt);
        std::vector<double> v(N + 1, 0.0); double scale = 1e-3;
        for (int i = 0; i < N; i++) { v[i] = x[i]; if (sol.grounded[i]) scale = std::max(scale, (double)fabsl(sol.v[i])); }
        bool strict = dt > DBL_EPSILON;
        // with frozen (infinite) capacitances only nodes without a floating capacitor are decidable in floating point
        if (!strict) for (auto& r : ref) if (r.kind == CAP && r.p[0] < N && r.p[1] < N) ok = false;
        if (forced.empty() && ok) for (int i = 0; i < N; i++) {
            if (over.count(i) && forced.empty()) MC_CHECK(v[i] == over[i], "overridden node %d has potential %g instead of %g: %s", i, v[i], over[i], show(dt).c_str());
            else if (sol.grounded[i]) MC_CHECK(mc::near(v[i], (double)sol.v[i], relTol, relTol * scale), "node %d potential %.12g, balance equations give %.12g: %s", i, v[i], (double)sol.v[i], show(dt).c_str());
            else if (!sol.fed[i]) MC_CHECK(std::fabs(v[i]) < 1e-9, "isolated node %d without source has potential %g: %s", i, v[i], show(dt).c_str());
        }
        for (int i = 0; i < N; i++) if (!forced.empty()) MC_CHECK(v[i] == forced[i], "node %d potential %g is not the imposed %g", i, v[i], forced[i]);
        std::vector<double> in(N + 1, 0), out(N + 1, 0), mag(N + 1, 0);
        for (size_t k = 0; k < ref.size(); k++) { RefLink& r = ref[k]; const double* lp = links[k]->getPotentialVector();
            for (int q = 0; q < 2; q++) { MC_CHECK(links[k]->getNodeMap()[q] == r.p[q], "link %zu port %d maps to %d, expected %d", k, q, links[k]->getNodeMap()[q], r.p[q]);
                MC_CHECK(lp[q] == v[r.p[q]], "link %zu port %d potential %g is not that of node %d (%g): %s", k, q, lp[q], r.p[q], v[r.p[q]], show(dt).c_str()); }
            double d = v[r.p[0]] - v[r.p[1]], m = r.g(dt) * std::max({std::fabs(v[r.p[0]]), std::fabs(v[r.p[1]]), std::fabs(r.dv)}), f = r.g(dt) * d + r.s(dt), tolF = 1e-9 * std::fabs(f) + 1e-12 + 1e-13 * m;
            MC_CHECK(std::fabs(links[k]->getFlux() - f) <= tolF, "%s link %zu flux %.12g, its law gives %.12g: %s", kindName[r.kind], k, links[k]->getFlux(), f, show(dt).c_str());
            r.flux = links[k]->getFlux();
            if (r.flux > 0) { out[r.p[0]] += r.flux; in[r.p[1]] += r.flux; } else { in[r.p[0]] -= r.flux; out[r.p[1]] -= r.flux; }
            for (int q = 0; q < 2; q++) mag[r.p[q]] += std::fabs(f) + 1e-4 * m + (r.kind == SRC ? std::fabs(f) : 0);
            if (r.kind == CAP) r.dv = d;
        }
        for (int i = 0; i <= N; i++) {
            MC_CHECK(ND[i].getPotential() == v[i], "node %d was given %g, solution is %g", i, ND[i].getPotential(), v[i]);
            MC_CHECK(mc::near(ND[i].getInflux(), in[i], 1e-9, 1e-12) && mc::near(ND[i].getOutflux(), out[i], 1e-9, 1e-12), "node %d collected influx %g outflux %g, links carry %g and %g: %s", i, ND[i].getInflux(), ND[i].getOutflux(), in[i], out[i], show(dt).c_str());
            if (i < N && strict && over.empty() && forced.empty() && sol.grounded[i] && ok) MC_CHECK(std::fabs(in[i] - out[i]) <= relTol * mag[i] + 1e-11, "flux does not balance at node %d: in %.12g out %.12g: %s", i, in[i], out[i], show(dt).c_str());
        }
        mc::step();
    }
    void step(double dt, double relTol = 1e-9) { gunns->step(dt); compare(dt, relTol); }
};
#endif
