// mc: hflags=-fno-access-control
// C04: the minor-step protocol, for every sequence of link verdicts and solution movements.
#include "net.hh"
#include <cstdarg>

static const double TOL = 0.01;
struct Log { std::vector<std::string> e; void add(const char* f, ...) { char b[100]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); e.push_back(b); } };
// A link whose verdict and whose movement at each minor step are chosen by the explorer.
struct Scripted : GunnsBasicSource {
    Log* log; int moves, changes; bool nonLinear, resetOk; double flux; std::vector<int> verdicts, motions;
    Scripted() : log(0), moves(1), changes(1), nonLinear(true), resetOk(true), flux(1.0) {}
    double pot() { return mPotentialVector[0]; }
    void move() { int m = moves > 1 ? mc::choose(moves, "movement") : 0; motions.push_back(m); static const double d[] = {0.0, 0.6 * TOL, 7.0 * TOL}; flux += d[m]; mSourceVector[0] = flux; mSourceVector[1] = -flux; }
    void step(const double) override { log->add("step P=%.6g", pot()); move(); if (changes > 1 && mc::flip("admittance")) mAdmittanceUpdate = true; }
    void minorStep(const double, const int n) override { log->add("minor %d P=%.6g", n, pot()); move(); if (changes > 1 && mc::flip("admittance")) mAdmittanceUpdate = true; }
    bool needAdmittanceUpdate() override { bool b = mAdmittanceUpdate; if (b) upd = true; mAdmittanceUpdate = false; return b; }
    bool upd = false;
    bool isNonLinear() override { return nonLinear; }
    SolutionResult confirmSolutionAcceptable(const int c, const int a) override { log->add("confirm %d %d P=%.6g", c, a, pot()); int v = mc::choose(3, "verdict"); verdicts.push_back(v); static const SolutionResult r[] = {CONFIRM, REJECT, DELAY}; return r[v]; }
    bool resetLastMinorStep(const int c, const int a) override { log->add("reset %d %d P=%.6g", c, a, pot()); return resetOk; }
    void computeFlows(const double) override { log->add("flows P=%.6g", pot()); }
    void processInputs() override { log->add("inputs"); }
    void processOutputs() override { log->add("outputs"); }
};
static void protocol(int nScripted, int minorLimit, int majors, int movers, int nMoves, int decompLimit, bool changes, bool withLinear) {
    NetRig r(1, minorLimit, decompLimit, TOL);
    r.addLink(COND, 0, 1, 1.0); r.ref.clear();
    std::vector<Scripted*> L; std::vector<Log> logs(nScripted + 1);
    for (int k = 0; k < nScripted + (withLinear ? 1 : 0); k++) { Scripted* s = new Scripted; r.addOther(s); GunnsBasicSourceConfigData c("s", &r.list); GunnsBasicSourceInputData i(false, 0, 0); s->initialize(c, i, r.links, 0, 1); s->log = &logs[k]; s->nonLinear = k < nScripted; s->moves = k < movers ? nMoves : 1; s->changes = changes && k == 0 ? 2 : 1; s->resetOk = k == 0; L.push_back(s); }
    r.gunns->initialize(GunnsConfigData("net", TOL, 1.0, minorLimit, decompLimit), r.links);
    for (auto& l : logs) l.e.clear();
    double P = 0, minorP = 0, majorP = 0; int failCount = 0, resetFails = 0, minors = 0, decomps = 0, maxMinor = 0; std::string out;
    for (int major = 0; major < majors; major++) {
        for (auto* s : L) { s->verdicts.clear(); s->motions.clear(); s->upd = false; }
        std::vector<double> flux0; for (auto* s : L) flux0.push_back(s->flux);
        int nd0 = r.gunns->getDecompositionCount();
        r.gunns->step(0.1); mc::step();
        // reference run with the same choices
        std::vector<Log> want(logs.size()); std::vector<size_t> vi(L.size(), 0), mi(L.size(), 0); std::vector<double> fl = flux0;
        for (size_t k = 0; k < L.size(); k++) want[k].add("inputs");
        auto all = [&](bool nlOnly, std::function<void(size_t)> f) { for (size_t k = 0; k < L.size(); k++) if (!nlOnly || L[k]->nonLinear) f(k); };
        bool converged = false, delayed = false, failed = false; int conv = 0, used = 0;
        static const double d[] = {0.0, 0.6 * TOL, 7.0 * TOL};
        for (int m = 1; m <= minorLimit && !converged && !failed; m++) {
            used = m;
            if (!delayed) {
                all(m > 1, [&](size_t k) { if (m == 1) want[k].add("step P=%.6g", P); else want[k].add("minor %d P=%.6g", m, P); MC_CHECK(mi[k] < L[k]->motions.size(), "link %zu was not stepped at minor step %d", k, m); fl[k] += d[L[k]->motions[mi[k]++]]; });
                if (!changes) { P = 0; for (double f : fl) P += f; }
                else { if (r.gunns->getDecompositionCount() - nd0 > decompLimit) mc::fail("more than %d decompositions in a step", decompLimit); P = 0; for (double f : fl) P += f; }
            }
            if (delayed || std::fabs(minorP - P) <= TOL) conv++;
            bool rej = false, del = false;
            all(true, [&](size_t k) { want[k].add("confirm %d %d P=%.6g", conv, m, P); MC_CHECK(vi[k] < L[k]->verdicts.size(), "link %zu was not consulted at minor step %d", k, m); int v = L[k]->verdicts[vi[k]++]; if (v == 1) rej = true; if (v == 2 && conv > 0) del = true; });
            delayed = false;
            if (rej) { P = minorP; all(true, [&](size_t k) { want[k].add("reset %d %d P=%.6g", conv, m, P); if (!L[k]->resetOk) resetFails++; }); conv = 0; }
            else { minorP = P; if (del) delayed = true; else if (conv > 0) converged = true; }
        }
        minors += used; maxMinor = std::max(maxMinor, converged ? used : minorLimit);
        if (converged) { for (size_t k = L.size(); k-- > 0;) { want[k].add("flows P=%.6g", P); want[k].add("outputs"); } }
        else { failCount++; P = majorP; }
        majorP = P;
        for (size_t k = 0; k < L.size(); k++) {
            size_t n = std::max(logs[k].e.size(), want[k].e.size());
            for (size_t q = 0; q < n; q++) { std::string a = q < logs[k].e.size() ? logs[k].e[q] : "(nothing)", b = q < want[k].e.size() ? want[k].e[q] : "(nothing)"; mc::trace("link %zu: %s", k, a.c_str()); MC_CHECK(a == b, "major step %d, link %zu, call %zu: got '%s', the protocol says '%s'", major + 1, k, q, a.c_str(), b.c_str()); }
            logs[k].e.clear();
        }
        MC_CHECK(mc::near(r.nodes[0].getPotential(), P, 1e-9) && mc::near(r.gunns->getPotentialVector()[0], P, 1e-9), "node potential %.9g after the step, protocol gives %.9g", r.nodes[0].getPotential(), P);
        for (auto* s : L) MC_CHECK(mc::near(s->pot(), P, 1e-9), "link port potential %.9g, node %.9g", s->pot(), P);
        MC_CHECK(r.gunns->getConvergenceFailCount() == failCount, "failure count %d, expected %d", r.gunns->getConvergenceFailCount(), failCount);
        MC_CHECK(r.gunns->getLinkResetStepFailCount() == resetFails, "reset failure count %d, expected %d", r.gunns->getLinkResetStepFailCount(), resetFails);
        MC_CHECK(r.gunns->getMinorStepCount() == minors, "minor step count %d, expected %d", r.gunns->getMinorStepCount(), minors);
        out += converged ? "C" + std::to_string(used) : "F";
        mc::state(mc::Hash().i(major).d(P).d(minorP).i(failCount).i(used).h);
    }
    MC_CHECK(r.gunns->getMajorStepCount() == majors, "major step count");
    mc::outcome(out);
}
// The number of matrix decompositions is limited: exceeding it fails the step, and only that step.
static void decompLimit(int minorLimit, int limit, int majors) {
    NetRig r(2, minorLimit, limit, TOL);
    struct V : GunnsBasicConductor { int n = 0, rejects = 0; double g = 1; bool isNonLinear() override { return true; }
        void set() { if (mc::flip("conductance")) g = g > 1 ? 1 : 2; mAdmittanceUpdate = mAdmittanceUpdate || mAdmittanceMatrix[0] != g; mAdmittanceMatrix[0] = mAdmittanceMatrix[3] = g; mAdmittanceMatrix[1] = mAdmittanceMatrix[2] = -g; }
        void step(const double) override { n = 0; set(); } void minorStep(const double, const int) override { set(); }
        SolutionResult confirmSolutionAcceptable(const int, const int) override { return n++ < rejects ? REJECT : CONFIRM; }
        bool resetLastMinorStep(const int, const int) override { return true; } };
    V* v = new V; r.addOther(v); v->initialize(GunnsBasicConductorConfigData("v", &r.list, 1.0), GunnsBasicConductorInputData(), r.links, 0, 1);
    GunnsBasicConductor* w = new GunnsBasicConductor; r.addOther(w); w->initialize(GunnsBasicConductorConfigData("w", &r.list, 1.0), GunnsBasicConductorInputData(), r.links, 1, 2);
    GunnsBasicSource* s = new GunnsBasicSource; r.addOther(s); s->initialize(GunnsBasicSourceConfigData("s", &r.list), GunnsBasicSourceInputData(false, 0, 4.0), r.links, 2, 0);
    r.gunns->initialize(GunnsConfigData("net", TOL, 1.0, minorLimit, limit), r.links);
    double last = 0, last1 = 0; int fails = 0;
    for (int m = 0; m < majors; m++) {
        v->rejects = mc::choose(minorLimit, "rejections"); int d0 = r.gunns->getDecompositionCount();
        r.gunns->step(0.1); mc::step();
        int d = r.gunns->getDecompositionCount() - d0; double p = r.nodes[0].getPotential(), p1 = r.nodes[1].getPotential();
        MC_CHECK(d <= limit, "%d decompositions in a step, limit %d", d, limit);
        if (r.gunns->getConvergenceFailCount() == fails) { MC_CHECK(mc::near(p, 4.0 + 4.0 / v->g, 1e-9) && mc::near(p1, 4.0, 1e-9), "major step %d converged to %g %g with conductance %g and source 4", m, p, p1, v->g); MC_CHECK(mc::near(v->getFlux(), 4.0, 1e-9), "flux %g", v->getFlux()); }
        else { MC_CHECK(r.gunns->getConvergenceFailCount() == fails + 1, "failure counted %d times", r.gunns->getConvergenceFailCount() - fails); MC_CHECK(p == last && p1 == last1, "failed step left potential %g, last solution was %g", p, last); fails++; }
        last = p; last1 = p1; mc::state(mc::Hash().d(p).d(v->g).i(d).i(fails).h);
    }
}
int main(int argc, char** argv) {
    mc::bounds("every sequence of verdicts {confirm, reject, delay} of 1-2 non-linear links (plus a linear one) and of solution movements {none, inside tolerance, outside tolerance} over 1-6 minor steps per major step and 1-3 major steps; call-by-call comparison with a reference of the protocol");
    mc::bounds("every sequence of conductance changes and rejections under decomposition limits 1-3 and minor limits 2-4, over 2-3 major steps");
    for (int lim = 1; lim <= 5; lim++) mc::add("one-link-limit-" + std::to_string(lim), [lim] { protocol(1, lim, 1, 1, 3, 100, false, true); });
    mc::add("one-link-limit-6", [] { protocol(1, 6, 1, 1, 3, 100, false, true); }, 1);
    for (int lim = 1; lim <= 3; lim++) mc::add("one-link-2-majors-limit-" + std::to_string(lim), [lim] { protocol(1, lim, 2, 1, 3, 100, false, false); });
    mc::add("one-link-3-majors", [] { protocol(1, 2, 3, 1, 3, 100, false, false); });
    for (int lim = 2; lim <= 3; lim++) mc::add("two-links-limit-" + std::to_string(lim), [lim] { protocol(2, lim, 1, 1, 3, 100, false, true); });
    mc::add("two-links-limit-4", [] { protocol(2, 4, 1, 1, 3, 100, false, true); });
    mc::add("two-links-limit-5", [] { protocol(2, 5, 1, 1, 2, 100, false, true); }, 1);
    mc::add("two-links-2-majors", [] { protocol(2, 2, 2, 1, 2, 100, true, false); });
    for (int lim = 1; lim <= 3; lim++) for (int ml = 2; ml <= 4; ml++) mc::add("decomp-limit-" + std::to_string(lim) + "-" + std::to_string(ml), [lim, ml] { decompLimit(ml, lim, ml > 3 ? 2 : 3); });
    return mc::run(argc, argv, "C04");
}
