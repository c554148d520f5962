// mc: hflags=-fno-access-control
// C91: the Monte Carlo optimizers and their master-slave exchange, for every random draw, cost
// history and order in which results come back.
#include "mc.hh"
#include <cmath>
#include <cfloat>
#include <vector>
#include <memory>
#include <filesystem>
#include <iostream>
#include <unistd.h>
#include "core/GunnsInfraFunctions.hh"
#include "core/optimization/GunnsOptimMonteCarlo.hh"
#include "core/optimization/GunnsOptimParticleSwarm.hh"
#include "core/optimization/GunnsOptimGradientDescent.hh"
#include "core/optimization/GunnsOptimTest.hh"
#include "math/approximation/LinearFit.hh"
using mc::choose; using mc::pick; using mc::flip; using mc::near;
typedef std::vector<double> Vec;

// The random numbers are part of what is enumerated.
static std::vector<int> gDraws; static int gMode, gStep, gOff, gCount;
static double drawn(int k) { static const double V[] = {0.0, 1.0, 0.375}; return V[k % 3]; }
extern "C" int rand() { int v = gMode == 0 ? (gOff + gStep * gCount) % 3 : gOff; ++gCount; gDraws.push_back(v); return (int)(drawn(v) * RAND_MAX); }
extern "C" void srand(unsigned) {}
static void draws(int mode, int off, int step) { gMode = mode; gOff = off; gStep = step; gCount = 0; gDraws.clear(); }

static std::string gDir;
static void scratch() {   // the optimizers write files where they run
    static pid_t at = 0;
    if (at == getpid()) return;
    at = getpid(); const std::string d = gDir + "/" + std::to_string(at);
    std::filesystem::create_directories(d); if (chdir(d.c_str())) mc::fail("scratch directory");
    std::cout.setstate(std::ios::failbit);
}
struct Range { double lo, hi; };
struct Problem {
    int n; double target[2], weight[2], base; std::vector<GunnsOptimMonteCarloInput> in; double var[2];
    Problem() {
        static const Range R[] = {{0, 10}, {-4, -1}, {-2, 3}};
        static const double T[] = {0.25, 1.0, -0.5};   // where in the range the best is
        n = 1 + choose(2, "variables - 1"); const int r = choose(mc::tierPick(2, 3), "range"), t = choose(mc::tierPick(2, 3), "best at");
        base = flip("cost above zero at best") ? 0.4 : 0.0;
        for (int i = 0; i < n; ++i) {
            const Range& q = R[(r + i) % 3]; var[i] = 0.5 * (q.lo + q.hi);
            target[i] = q.lo + T[(t + i) % 3] * (q.hi - q.lo); weight[i] = i ? 0.5 : 2.0;
            GunnsOptimMonteCarloInput x; x.mName = "v" + std::to_string(i); x.mAddress = &var[i]; x.mMinimum = q.lo; x.mMaximum = q.hi; in.push_back(x);
        }
    }
    double cost(const Vec& s) const { double c = base; for (int i = 0; i < n; ++i) c += std::pow(weight[i] * (s[i] - target[i]), 2); return c; }
    void inside(const Vec& s, const char* what) const { MC_CHECK((int)s.size() == n, "%s has %zu variables", what, s.size()); for (int i = 0; i < n; ++i) MC_CHECK(s[i] >= in[i].mMinimum && s[i] <= in[i].mMaximum, "%s is outside the range of variable %d: %.9g", what, i, s[i]); }
};

static void swarm() {
    scratch();
    Problem p; const int N = 1 + choose(mc::tierPick(2, 3), "particles - 1"); const int E = N == 3 ? 2 : mc::tierPick(2, 3);
    GunnsOptimParticleSwarmConfigData cfg; cfg.mNumParticles = N; cfg.mMaxEpoch = 4; cfg.mInertiaWeight = 0.9; cfg.mInertiaWeightEnd = 0.4;
    cfg.mCognitiveCoeff = 0.5; cfg.mSocialCoeff = 1.5; cfg.mMaxVelocity = flip("slow") ? 0.05 : 0.6; cfg.mRandomSeed = 3;
    cfg.mInitDistribution = flip("corners") ? GunnsOptimParticleSwarmConfigData::MIN_MAX_CORNERS : GunnsOptimParticleSwarmConfigData::RANDOM;
    GunnsOptimParticleSwarm o; o.setConfigData(&cfg);
    draws(0, choose(3, "first draw"), choose(3, "next draw"));
    try { o.initialize(&p.in); } catch (std::exception& e) { mc::fail("initialization refused: %s", e.what()); }
    MC_CHECK(o.getNumRuns() == 4u * N, "number of runs");
    auto oneOf = [&](double x, double lo, double hi) { for (int k = 0; k < 3; ++k) if (near(x, lo + (hi-lo)*drawn(k), 1e-8, 1e-8)) return true; return false; };
    std::vector<Vec> vel(N), pos(N), best(N); Vec cost(N), bestCost(N, DBL_MAX); double gCost = DBL_MAX; std::vector<Vec> gBest;
    for (int i = 0; i < N; ++i) {
        pos[i] = o.mParticles[i].mCurrentState.mState; vel[i] = o.mParticles[i].mCurrentState.mVelocity; p.inside(pos[i], "an initial state");
        for (int j = 0; j < p.n; ++j) {
            const double lo = p.in[j].mMinimum, hi = p.in[j].mMaximum, vm = cfg.mMaxVelocity * (hi-lo);
            if (cfg.mInitDistribution == GunnsOptimParticleSwarmConfigData::MIN_MAX_CORNERS) MC_CHECK(pos[i][j] == (i < N/2 ? lo : hi), "corner of particle %d", i);
            else MC_CHECK(oneOf(pos[i][j], lo, hi), "initial state isn't from the draws");
            MC_CHECK(oneOf(vel[i][j], vm, -vm), "initial velocity isn't from the draws");
        }
    }
    int run = 0;
    for (int e = 1; e <= E; ++e) {
        std::vector<int> id(N);
        for (int i = 0; i < N; ++i) {
            if (e > 1 && i == 0) draws(1, choose(3, "draw"), 0);
            try { o.update(); } catch (std::exception& x) { mc::fail("update throws: %s", x.what()); }
            if (e > 1 && i == 0) {   // the swarm has moved
                for (int k = 0; k < N; ++k) {
                    if (cost[k] < bestCost[k]) { bestCost[k] = cost[k]; best[k] = pos[k]; }
                    if (cost[k] < gCost) { gCost = cost[k]; gBest.clear(); }
                    if (cost[k] == gCost) gBest.push_back(pos[k]);
                }
                MC_CHECK(o.mGlobalBestState.mCost == gCost, "epoch %d: best cost is %.9g, %.9g was seen", e, o.mGlobalBestState.mCost, gCost);
                bool known = false; for (const Vec& g : gBest) known |= g == o.mGlobalBestState.mState;
                MC_CHECK(known, "epoch %d: the best state isn't one that had the best cost", e);
                const Vec g = o.mGlobalBestState.mState;
                const double w = cfg.mInertiaWeight + (cfg.mInertiaWeightEnd - cfg.mInertiaWeight) * e / cfg.mMaxEpoch, r = drawn(gOff);
                for (int k = 0; k < N; ++k) {
                    MC_CHECK(o.mParticles[k].mBestState.mCost == bestCost[k], "epoch %d: particle %d's best cost is %.9g, it saw %.9g", e, k, o.mParticles[k].mBestState.mCost, bestCost[k]);
                    MC_CHECK(o.mParticles[k].mBestState.mState == best[k], "epoch %d: particle %d's best state is another", e, k);
                    for (int j = 0; j < p.n; ++j) {
                        const double lo = p.in[j].mMinimum, hi = p.in[j].mMaximum, vm = cfg.mMaxVelocity * (hi-lo);
                        double v = w * vel[k][j] + cfg.mCognitiveCoeff * r * (best[k][j] - pos[k][j]) + cfg.mSocialCoeff * r * (g[j] - pos[k][j]);
                        v = std::max(-vm, std::min(vm, v));
                        double x = pos[k][j] + v;
                        const bool edge = std::fabs(x-lo) < 1e-9 || std::fabs(x-hi) < 1e-9;
                        if (x < lo) { x = lo; v = -v; } else if (x > hi) { x = hi; v = -v; }
                        const double gx = o.mParticles[k].mCurrentState.mState[j], gv = o.mParticles[k].mCurrentState.mVelocity[j];
                        MC_CHECK(near(gx, x, 1e-7, 1e-7), "epoch %d: particle %d variable %d moved to %.9g instead of %.9g", e, k, j, gx, x);
                        MC_CHECK(near(gv, v, 1e-7, 1e-7) || (edge && near(-gv, v, 1e-7, 1e-7)), "epoch %d: particle %d variable %d has velocity %.9g instead of %.9g", e, k, j, gv, v);
                        pos[k][j] = gx; vel[k][j] = gv;
                    }
                }
            }
            const Vec* s = o.getState();
            MC_CHECK(s && *s == pos[i], "epoch %d: run %d isn't particle %d's state", e, run, i);
            p.inside(*s, "a state");
            id[i] = run++; cost[i] = p.cost(pos[i]);
        }
        // The results come back in any order.
        std::vector<int> left; for (int i = 0; i < N; ++i) left.push_back(i);
        while (!left.empty()) {
            const int k = choose(left.size(), "result"); const int i = left[k]; left.erase(left.begin() + k);
            try { o.assignCost(cost[i], run - 1, id[i]); } catch (std::exception& x) { mc::fail("a result is refused: %s", x.what()); }
        }
        bool threw = false; try { o.assignCost(1.0, run, run + 5.0); } catch (std::runtime_error&) { threw = true; }
        MC_CHECK(threw, "a result of no run is taken");
        mc::step();
    }
    draws(1, 1, 0);
    o.update(); o.shutdown();
    // Another swarm continues from the file.
    cfg.mInitDistribution = flip("continuous") ? GunnsOptimParticleSwarmConfigData::FILE_CONTINUOUS : GunnsOptimParticleSwarmConfigData::FILE;
    const bool cont = cfg.mInitDistribution == GunnsOptimParticleSwarmConfigData::FILE_CONTINUOUS;
    GunnsOptimParticleSwarm q; q.setConfigData(&cfg);
    if (!cont) draws(0, 0, 1);
    try { q.initialize(&p.in); } catch (std::exception& e) { mc::fail("the state file is refused: %s", e.what()); }
    for (int i = 0; i < N; ++i) for (int j = 0; j < p.n; ++j) {
        const auto &a = o.mParticles[i], &b = q.mParticles[i];
        MC_CHECK(near(a.mCurrentState.mState[j], b.mCurrentState.mState[j], 1e-4, 1e-4), "particle %d continues at %.9g instead of %.9g", i, b.mCurrentState.mState[j], a.mCurrentState.mState[j]);
        if (cont) {
            MC_CHECK(near(a.mCurrentState.mVelocity[j], b.mCurrentState.mVelocity[j], 1e-4, 1e-4), "particle %d continues with another velocity", i);
            MC_CHECK(near(a.mBestState.mState[j], b.mBestState.mState[j], 1e-4, 1e-4) && near(a.mBestState.mCost, b.mBestState.mCost, 1e-4, 1e-4), "particle %d continues with another best", i);
            MC_CHECK(near(o.mGlobalBestState.mState[j], q.mGlobalBestState.mState[j], 1e-4, 1e-4) && near(o.mGlobalBestState.mCost, q.mGlobalBestState.mCost, 1e-4, 1e-4), "the swarm continues with another best");
        } else MC_CHECK(b.mBestState.mCost == DBL_MAX && q.mGlobalBestState.mCost == DBL_MAX, "a new run keeps old best costs");
    }
    mc::validated(1); mc::state(mc::Hash().i(N).d(o.mParticles[0].mCurrentState.mState[0]).d(o.mGlobalBestState.mCost).h);
}

static void descent() {
    scratch();
    Problem p; const int E = mc::tierPick(4, 6);
    static const double AT[] = {0.0, 0.3, 0.8, 1.0, 1.5, 99};
    double init[2]; const int at = choose(6, "start");
    for (int j = 0; j < p.n; ++j) init[j] = at == 5 ? 0.0 : p.in[j].mMinimum + AT[(at + j) % 5] * (p.in[j].mMaximum - p.in[j].mMinimum);
    GunnsOptimGradientDescentConfigData cfg; cfg.mNumVars = p.n; cfg.mMaxEpoch = E; cfg.mInitialState = init;
    static const double G[] = {0.1, 0.5, 3.0}; cfg.mPropagationGain = pick(G, "gain");
    GunnsOptimGradientDescent o; o.setConfigData(&cfg);
    try { o.initialize(&p.in); } catch (std::exception& e) { mc::fail("initialization refused: %s", e.what()); }
    MC_CHECK(o.getNumRuns() == (unsigned)(E * (2*p.n + 1)), "number of runs");
    Vec x; for (int j = 0; j < p.n; ++j) x.push_back(std::max(p.in[j].mMinimum, std::min(p.in[j].mMaximum, init[j])));
    int run = 0;
    for (int e = 0; e < E; ++e) {
        o.update();
        Vec s = *o.getState(); p.inside(s, "the state");
        for (int j = 0; j < p.n; ++j) MC_CHECK(near(s[j], x[j], 1e-7, 1e-9), "epoch %d: variable %d is at %.9g instead of %.9g", e, j, s[j], x[j]);
        const double c = p.cost(s);
        // A cost of another kind of run may also fail to depend on anything.
        const int odd = e == 1 ? choose(4, "cost of trials") : 0; static const double ODD[4][4] = {{}, {1, 1, 1, 1}, {0.5, 0.8, 0.9, 0.4}, {1.2, 0.7, 1.0, 1.1}};
        o.assignCost(c, run, run); ++run;
        std::vector<Vec> st; Vec co; std::vector<int> id;
        for (int k = 0; k < 2*p.n; ++k) {
            o.update(); st.push_back(*o.getState()); p.inside(st[k], "a trial state");
            co.push_back(odd ? c * ODD[odd][k] : p.cost(st[k])); id.push_back(run++);
        }
        const int order = choose(3, "results");   // the trials may come back in another order
        for (int k = 0; k < 2*p.n; ++k) { const int m = order == 0 ? k : order == 1 ? 2*p.n-1-k : (k+1) % (2*p.n); o.assignCost(co[m], run-1, id[m]); }
        bool threw = false; try { o.assignCost(1.0, run, run + 5.0); } catch (std::runtime_error&) { threw = true; }
        MC_CHECK(threw, "a result of no run is taken");
        for (int j = 0; j < p.n; ++j) {
            const double d = s[j] == 0 ? 0.001 * (p.in[j].mMaximum - p.in[j].mMinimum) : 0.001 * std::fabs(s[j]);
            double up = std::min(p.in[j].mMaximum, s[j]+d), dn = std::max(p.in[j].mMinimum, s[j]-d);
            for (int k = 0; k < 2*p.n; ++k) MC_CHECK(near(st[k][j], k == 2*j ? up : k == 2*j+1 ? dn : s[j], 1e-9, 1e-12), "trial %d has variable %d at %.9g", k, j, st[k][j]);
            const double du = co[2*j] - c, dd = co[2*j+1] - c; double move = 0;
            up = st[2*j][j]; dn = st[2*j+1][j];
            if (dd < 0 && dd < du && s[j] - dn > DBL_EPSILON) move = -c * (dn - s[j]) / dd;
            else if (du < 0 && up - s[j] > DBL_EPSILON) move = -c * (up - s[j]) / du;
            x[j] = std::max(p.in[j].mMinimum, std::min(p.in[j].mMaximum, s[j] + move * cfg.mPropagationGain / p.n));
        }
        mc::step();
    }
    o.update(); Vec s = *o.getState();
    for (int j = 0; j < p.n; ++j) MC_CHECK(near(s[j], x[j], 1e-7, 1e-9), "at the end variable %d is at %.9g instead of %.9g", j, s[j], x[j]);
    o.shutdown();
    mc::validated(1); mc::state(mc::Hash().i(at).d(s[0]).d(cfg.mPropagationGain).h);
}

/// The exchange between the master and slave runs that come back in any order.
static void exchange() {
    scratch();
    const int steps = 3, nd = choose(3, "drivers"), outs = 1 + choose(2, "outputs - 1"), traj = choose(3, "targets");   // scalar, full trajectory, shorter one
    const int window = 1 + choose(3, "slaves - 1"), runs = mc::tierPick(4, 5);
    double m0 = 1, m1 = 2;
    GunnsInfraFunctions::mMcIsSlave = false; GunnsInfraFunctions::mMcRead.clear(); GunnsInfraFunctions::mMcWrite.clear();
    GunnsOptimMonteCarlo master("master");
    master.addInput("a", &m0, -1, 4); master.addInput("b", &m1, 0, 5);
    GunnsOptimParticleSwarmConfigData cfg; cfg.mNumParticles = 3; cfg.mMaxEpoch = 2; cfg.mInertiaWeight = cfg.mInertiaWeightEnd = 1; cfg.mCognitiveCoeff = cfg.mSocialCoeff = 1; cfg.mMaxVelocity = 0.5;
    const bool real = flip("swarm");
    master.addOptimizer(real ? GunnsOptimFactory::PSO : GunnsOptimFactory::TEST);
    GunnsOptimTest* test = real ? 0 : dynamic_cast<GunnsOptimTest*>(master.mOptimizer); GunnsOptimParticleSwarm* pso = real ? dynamic_cast<GunnsOptimParticleSwarm*>(master.mOptimizer) : 0;
    MC_CHECK(real ? pso != 0 : test != 0, "the optimizer made is another type");
    master.mOptimizer->setConfigData(&cfg);
    draws(0, 0, 1);
    bool wrong = false; { GunnsOptimMonteCarlo m("other"); try { m.initSlave(); } catch (std::runtime_error&) { wrong = true; } }
    MC_CHECK(wrong, "a master is initialized as slave");
    master.initMaster();
    mc::Hash order;
    struct Pending { int run; double a, b; }; std::vector<Pending> out; int next = 0, done = 0; const int total = real ? 3 : runs;
    static const double DRV[2][3] = {{1, -2, 0.5}, {0.25, 0, 3}}, TGT[2][3] = {{2, 1, -1}, {0.5, 4, 2}}; static const double W[2] = {1.0, 0.2};
    while (done < total) {
        const bool start = next < total && (int)out.size() < window && (out.empty() || flip("start another"));
        if (start) {
            master.updateMasterPre();
            if (real) { const Vec& s = pso->mParticles[next].mCurrentState.mState; MC_CHECK(m0 == s[0] && m1 == s[1], "the inputs aren't the optimizer's state"); }
            else { m0 = 1 + next; m1 = 2 - 0.5*next; }
            MC_CHECK(master.mRunId == next, "run id");
            out.push_back({next++, m0, m1}); continue;
        }
        const int k = choose(out.size(), "finished run"); const Pending r = out[k]; out.erase(out.begin() + k); order.i(r.run);
        // The slave run.
        GunnsInfraFunctions::mMcIsSlave = true; GunnsInfraFunctions::mMcSlaveId = k; GunnsInfraFunctions::mMcWrite.clear();
        double a = r.a, b = r.b, d[2] = {0.1, 0.2}, y[2] = {0, 0}, expect = 0;
        GunnsOptimMonteCarlo slave("slave"); slave.addInput("a", &a, -1, 4);
        MC_CHECK(slave.mInputs.empty(), "a slave has inputs");
        for (int i = 0; i < nd; ++i) slave.addDriver(&d[i]);
        for (int i = 0; i < outs; ++i) slave.addOutput("y" + std::to_string(i), &y[i], TGT[i][0], W[i]);
        const int drows = nd ? 2 : 0, trows = traj == 0 ? 0 : traj == 1 ? steps : 2;
        for (int t = 0; t < drows; ++t) { std::string l = std::to_string(t); for (int i = 0; i < nd; ++i) l += ", " + std::to_string(DRV[i][t]); slave.addDriverDataRow(l); }
        for (int t = 0; t < trows; ++t) { std::string l = std::to_string(t); for (int i = 0; i < outs; ++i) l += "," + std::to_string(TGT[i][t]); slave.addOutputDataRow(l); }
        slave.mRunId = r.run; slave.initSlave(); MC_CHECK(slave.mSlaveId == k, "slave id");
        wrong = false; { GunnsOptimMonteCarlo m("other"); try { m.initMaster(); } catch (std::runtime_error&) { wrong = true; } }
        MC_CHECK(wrong, "a slave is initialized as master");
        slave.updateSlavePre();
        for (int t = 0; t < steps; ++t) {
            slave.updateSlaveInputs();
            for (int i = 0; i < nd; ++i) MC_CHECK(near(d[i], DRV[i][std::min(t, drows-1)], 1e-6, 1e-6), "driver %d is %.9g at step %d", i, d[i], t);
            y[0] = a + d[0] * (t+1); y[1] = b * d[1] - t;
            slave.updateSlaveOutputs();
            for (int i = 0; i < outs; ++i) if (t < trows) expect += std::pow(W[i] * (y[i] - TGT[i][t]), 2);
        }
        if (trows == 0) for (int i = 0; i < outs; ++i) expect += std::pow(W[i] * (y[i] - TGT[i][0]), 2);
        slave.updateSlavePost();
        const Vec sent = GunnsInfraFunctions::mMcWrite;
        MC_CHECK(sent.size() == 2 && near(sent[0], expect, 1e-6, 1e-6) && sent[1] == r.run, "run %d sends cost %.9g instead of %.9g", r.run, sent.empty() ? NAN : sent[0], expect);
        // Back to the master.
        GunnsInfraFunctions::mMcIsSlave = false; GunnsInfraFunctions::mMcRead.assign(sent.rbegin(), sent.rend());
        try { master.updateMasterPost(); } catch (std::exception& e) { mc::fail("a result is refused: %s", e.what()); }
        MC_CHECK(GunnsInfraFunctions::mMcRead.empty(), "the master leaves data unread");
        if (test) MC_CHECK(test->mCost == sent[0] && test->mRunIdReturned == r.run && test->mRunId == next - 1, "the optimizer gets another result");
        if (pso) for (int i = 0; i < 3; ++i) if (i == r.run) MC_CHECK(pso->mParticles[i].mCurrentState.mCost == sent[0], "run %d's cost goes to another particle", r.run);
        ++done; mc::step();
    }
    if (pso) { double best = DBL_MAX; for (auto& q : pso->mParticles) best = std::min(best, q.mCurrentState.mCost); draws(1, 0, 0); master.updateMasterShutdown(); MC_CHECK(pso->mGlobalBestState.mCost == best, "the last results are lost: best is %.9g, %.9g was seen", pso->mGlobalBestState.mCost, best); }
    else { master.updateMasterShutdown(); MC_CHECK(test->mShutdownCounter == 1 && test->mUpdateCounter == total + 1, "shutdown"); }
    mc::validated(1); mc::state(order.i(window).i(traj).i(nd).i(outs).i(real).h);
}

/// Data that can't be optimized is refused; constraints replace what they constrain.
static void setup() {
    scratch();
    draws(0, 1, 1);
    double v[2] = {1, 2}; std::vector<GunnsOptimMonteCarloInput> in(2);
    for (int i = 0; i < 2; ++i) { in[i].mName = i ? "b" : "a"; in[i].mAddress = &v[i]; in[i].mMinimum = -1; in[i].mMaximum = 4 + i; }
    const int bad = choose(14, "fault"); const bool pso = flip("swarm"); const int which = choose(2, "variable"); bool expect = true;
    GunnsOptimParticleSwarmConfigData c; c.mNumParticles = 2; c.mMaxEpoch = 2; c.mInertiaWeight = c.mInertiaWeightEnd = 1; c.mCognitiveCoeff = c.mSocialCoeff = 1; c.mMaxVelocity = 1.0;
    double init[2] = {0, 1}; GunnsOptimGradientDescentConfigData g; g.mNumVars = 2; g.mMaxEpoch = 2; g.mPropagationGain = 0.5; g.mInitialState = init;
    GunnsOptimParticleSwarm s; GunnsOptimGradientDescent d; GunnsOptimBase* o = pso ? (GunnsOptimBase*)&s : &d;
    bool threw = false; try { o->setConfigData(pso ? (GunnsOptimBaseConfigData*)&g : &c); } catch (std::runtime_error&) { threw = true; }
    MC_CHECK(threw, "configuration of another type is taken");
    switch (bad) {
        case 0: in[which].mMaximum = in[which].mMinimum; break;
        case 1: in[which].mMaximum = in[which].mMinimum - 1; break;
        case 2: in[which].mAddress = 0; break;
        case 3: in[which].mName = ""; break;
        case 4: in.clear(); break;
        case 5: c.mNumParticles = 0; g.mNumVars = 0; break;
        case 6: c.mMaxEpoch = 0; g.mMaxEpoch = 0; break;
        case 7: c.mInertiaWeight = 0; expect = pso; break;
        case 8: c.mInertiaWeightEnd = -1; expect = pso; break;
        case 9: c.mCognitiveCoeff = 0; expect = pso; break;
        case 10: c.mSocialCoeff = 0; expect = pso; break;
        case 11: c.mMaxVelocity = 0; expect = pso; break;
        case 12: c.mMaxVelocity = 1.1; expect = pso; break;
        default: expect = false;
    }
    LinearFit half(0.5, 1.0, -100, 100, "half"); double other = 3; GunnsOptimMonteCarloConstraint k(&half, &other), k2(&half, &other);
    const int nk = bad == 13 ? choose(3, "constraints") : 0;
    if (nk) in[which].addNewConstraint(&k); if (nk == 2) in[which].addNewConstraint(&k2);
    o->setConfigData(pso ? (GunnsOptimBaseConfigData*)&c : &g);
    threw = false; try { o->initialize(&in); } catch (std::exception&) { threw = true; }
    MC_CHECK(threw == expect, "%s data with fault %d is %s", pso ? "swarm" : "descent", bad, threw ? "refused" : "accepted");
    if (!threw && pso) { for (int e = 0; e < 3; ++e) { s.update(); const Vec& x = *s.getState(); if (nk) { MC_CHECK(near(x[which], (0.5 + 1.0*other) * nk, 1e-9, 1e-9) || near(x[which], (0.5*other + 1.0) * nk, 1e-9, 1e-9), "constrained variable is %.9g", x[which]); } MC_CHECK(x[1-which] >= -1 && x[1-which] <= 5, "range"); s.assignCost(1.0 + e, e, e); } }
    mc::validated(1); mc::state(mc::Hash().i(bad).i(pso).i(which).h);
}

int main(int argc, char** argv) {
    char m[] = "/dev/shm/mc_C91_XXXXXX", t[] = "/tmp/mc_C91_XXXXXX";
    if (mkdtemp(m)) gDir = m; else if (mkdtemp(t)) gDir = t; else return 3;
    mc::add("swarm", swarm);
    mc::add("descent", descent);
    mc::add("exchange", exchange);
    mc::add("setup", setup);
    mc::assume("all runs of a swarm epoch, and the state's run before its trial runs, are back before the next are started, as the optimizers document");
    mc::bounds("1-2 variables, 1-3 particles, 2 (3) epochs, 3 random values, every order of results; gradient descents of 4 (6) epochs; up to 3 slaves at a time");
    const int rc = mc::run(argc, argv, "C91");
    std::error_code ec; std::filesystem::current_path("/"); std::filesystem::remove_all(gDir, ec);
    return rc;
}
