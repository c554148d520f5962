// mc: hflags=-fno-access-control
// C40: the two ends of a distributed fluid bus always settle on one supply and one demand end.
#include "mc.hh"
#include "interop/Distributed2WayBusFluid.hh"
#include <deque>
#include <memory>
using namespace mc;
typedef Distributed2WayBusFluid Bus;
typedef Distributed2WayBusFluidInterfaceData Msg;

struct Packet { unsigned fc, fl; bool demand; double e, mf, tc, cap, src; };
static Packet pack(const Msg& m) { return {m.mFrameCount, m.mFrameLoopback, m.mDemandMode, m.mEnergy, m.mMoleFractions[0], m.mTcMoleFractions[0], m.mCapacitance, m.mSource}; }
static void unpack(Msg& m, const Packet& p) {   // by the assignment operator, as the data network would
    Msg t; t.FluidDistributedMixtureData::initialize(1, 1); t.mFrameCount = p.fc; t.mFrameLoopback = p.fl; t.mDemandMode = p.demand; t.mEnergy = p.e; t.mMoleFractions[0] = p.mf; t.mTcMoleFractions[0] = p.tc; t.mCapacitance = p.cap; t.mSource = p.src; m = t; }

struct End {
    Bus bus; double cap; std::deque<Packet> wire; int latency; bool started; bool last; int sinceFlip; int forced; Packet in; bool gotAny; int flips;   // wire: messages to this end
    End() : cap(1), latency(1), started(false), last(false), sinceFlip(0), forced(0), gotAny(false), flips(0) {}
};
struct Pair {
    End e[2]; int frame;
    Pair(int l0, int l1, int master) : frame(0) { e[0].latency = l0; e[1].latency = l1; for (int k = 0; k < 2; k++) { e[k].bus.initialize(k == master, 1, 1); e[k].bus.mInData.mFrameCount = 0; } }
    bool demand(int k) { return e[k].bus.isInDemandRole(); }
    void deliver(int k, bool drop) {   // the newest message that has been under way for the latency
        End& m = e[k];
        while ((int)m.wire.size() >= m.latency) { Packet p = m.wire.front(); m.wire.pop_front(); if (!drop) { unpack(m.bus.mInData, p); m.in = p; m.gotAny = true; } }
    }
    // one frame of end k, in the documented order of operations
    void frameOf(int k) {
        End& m = e[k]; Bus& b = m.bus; bool was = b.isInDemandRole();
        b.processInputs(); mc::step();
        bool valid = m.gotAny && m.in.fc >= 1 && m.in.e > 0 && m.in.cap >= 0 && (m.in.src >= 0 || m.in.demand) && m.in.mf >= 0 && m.in.tc >= 0;
        if (m.forced == 1) MC_CHECK(b.isInDemandRole(), "end %d is forced to demand but supplies", k);
        if (m.forced == 2) MC_CHECK(!b.isInDemandRole(), "end %d is forced to supply but demands", k);
        Distributed2WayBusFluidFluidState fs; fs.initialize(1, 1); fs.mPressure = -5; Distributed2WayBusFluidFlowState ff; ff.initialize(1, 1); ff.mFlowRate = -5;
        bool gf = b.getFluidState(fs), gq = b.getFlowState(ff);
        MC_CHECK(gf == (b.isInDemandRole() && valid && !m.in.demand), "end %d: fluid state %s though demand role %d, data valid %d, remote demand %d", k, gf ? "given" : "withheld", b.isInDemandRole(), valid, m.in.demand);
        MC_CHECK(gq == (!b.isInDemandRole() && valid && m.in.demand), "end %d: flow state %s though demand role %d, data valid %d, remote demand %d", k, gq ? "given" : "withheld", b.isInDemandRole(), valid, m.in.demand);
        if (gf) MC_CHECK(fs.mPressure == m.in.src && fs.mEnergy == m.in.e && fs.mMoleFractions[0] == m.in.mf && fs.mTcMoleFractions[0] == m.in.tc, "end %d: fluid state differs from what the remote end sent", k);
        if (gq) MC_CHECK(ff.mFlowRate == m.in.src && ff.mEnergy == m.in.e && ff.mMoleFractions[0] == m.in.mf && ff.mTcMoleFractions[0] == m.in.tc, "end %d: flow state differs from what the remote end sent", k);
        if (!gf) MC_CHECK(fs.mPressure == -5, "withheld state written"); if (!gq) MC_CHECK(ff.mFlowRate == -5, "withheld state written");
        double p = 90.0, lim = b.computeDemandLimit(0.1, p), cd = b.mOutData.mCapacitance, cs = b.mInData.mCapacitance;
        MC_CHECK(lim >= 0 && std::isfinite(lim), "end %d: demand limit %g", k, lim);
        MC_CHECK(b.getDemandLimitGain() >= 0 && b.getDemandLimitGain() <= 1.0 + 1e-12, "end %d: demand limit gain %g", k, b.getDemandLimitGain());
        if (!b.isInDemandRole() || b.mInData.mDemandMode || cd <= 0 || cs <= 0) MC_CHECK(lim == 0.0, "end %d: demand limit %g outside the demand role", k, lim);
        else { MC_CHECK(lim * 0.1 * (1 / cd + 1 / cs) <= fabs(p - b.mInData.mSource) * (1 + 1e-12), "end %d: demand limit %g moves more than equalises the pressures", k, lim);
            if (p != b.mInData.mSource) MC_CHECK(lim > 0, "end %d: demand limit is zero at a pressure difference", k); }
        double before = b.mOutData.mSource;   // states offered in the wrong role are refused
        if (b.isInDemandRole()) { b.setFluidState(fs); MC_CHECK(b.mOutData.mSource == before, "fluid state accepted in the demand role"); ff.mFlowRate = -1.0 - k; ff.mEnergy = 300 + k; ff.mMoleFractions[0] = 0.25 + 0.5 * k; ff.mTcMoleFractions[0] = 1e-3; b.setFlowState(ff); }
        else { b.setFlowState(ff); MC_CHECK(b.mOutData.mSource == before, "flow state accepted in the supply role"); fs.mPressure = 100 + k; fs.mEnergy = 290 + k; fs.mMoleFractions[0] = 0.5 + 0.25 * k; fs.mTcMoleFractions[0] = 2e-3; b.setFluidState(fs); }
        b.processOutputs(m.cap);
        if (!b.isInDemandRole()) MC_CHECK(b.mOutData.mSource == 100 + k && b.mOutData.mEnergy == 290 + k, "end %d supplies but sends %g instead of its pressure", k, b.mOutData.mSource);
        else MC_CHECK(b.mOutData.mSource <= 0.0, "end %d demands but sends %g", k, b.mOutData.mSource);
        if (m.forced == 2) MC_CHECK(!b.isInDemandRole(), "end %d is forced to supply but demands", k);
        MC_CHECK(b.mOutData.mCapacitance == m.cap, "capacitance sent");
        Distributed2WayBusNotification n; int guard = 0; while (b.popNotification(n) > 0) MC_CHECK(++guard < 50, "notifications never end"); b.popNotification(n); MC_CHECK(n.mLevel == Distributed2WayBusNotification::NONE, "popping an empty list");
        bool now = b.isInDemandRole(); if (now != was) { m.flips++; m.sinceFlip = 0; } else m.sinceFlip++;
        Packet out = pack(b.mOutData); e[1 - k].wire.push_back(out);
        mc::trace("frame %d end %d: %s cap %g (remote %g) loop latency %d", frame, k, now ? "DEMAND" : "SUPPLY", m.cap, b.mInData.mCapacitance, b.mLoopLatency);
    }
    uint64_t hash() {
        Hash h;
        for (int k = 0; k < 2; k++) { End& m = e[k]; Bus& b = m.bus; unsigned f = b.mOutData.mFrameCount, g = e[1 - k].bus.mOutData.mFrameCount;
            h.i(m.started).i(b.mOutData.mDemandMode).i(b.mInData.mDemandMode).i(b.mInDataLastDemandMode).i(std::min(b.mFramesSinceFlip, 12)).i(b.mLoopLatency > 40 ? 41 : b.mLoopLatency).i(b.mForcedRole).d(m.cap).d(b.mOutData.mCapacitance).d(b.mInData.mCapacitance).d(b.mInData.mEnergy).d(b.mInData.mSource).d(b.mOutData.mSource);
            h.i((int)(f - b.mInData.mFrameLoopback) > 40 ? 41 : f - b.mInData.mFrameLoopback).i(std::min<int>(g - b.mInData.mFrameCount, 40)).i(b.mInData.mFrameCount > 0).i(m.latency);
            for (auto& p : m.wire) h.i(p.demand).d(p.cap).d(p.e).d(p.src).i(std::min<int>(g - p.fc, 40)).i((int)(f - p.fl) > 40 ? 41 : f - p.fl); h.i(m.wire.size()); }
        return h.h;
    }
};
static void settle(Pair& p, const char* what) {
    int n = 60, quiet = 25;
    for (int k = 0; k < 2; k++) p.e[k].flips = 0;
    for (int f = 0; f < n + quiet; f++) {
        if (f == n) { MC_CHECK(p.demand(0) != p.demand(1), "%s: %d frames after the last change both ends are in the %s role", what, n, p.demand(0) ? "demand" : "supply");
            int s = p.demand(0) ? 1 : 0; MC_CHECK(p.e[s].cap * 1.25 >= p.e[1 - s].cap * (1 - 1e-12), "%s: settled with the supply at the end of capacitance %g and demand at %g", what, p.e[s].cap, p.e[1 - s].cap);
            p.e[0].flips = p.e[1].flips = 0; }
        for (int k = 0; k < 2; k++) { p.deliver(k, false); p.frameOf(k); }
        p.frame++;
    }
    MC_CHECK(p.e[0].flips + p.e[1].flips == 0, "%s: roles keep flipping (%d flips in the last %d frames) although nothing changes", what, p.e[0].flips + p.e[1].flips, quiet);
    int s = p.demand(0) ? 1 : 0; for (int k = 0; k < 2; k++) MC_CHECK(p.e[k].bus.mInData.mDemandMode == p.demand(1 - k), "view of the remote role");
    MC_CHECK(p.e[s].bus.mInData.mSource == -1.0 - (1 - s) && p.e[1 - s].bus.mInData.mSource == 100 + s, "%s: settled ends exchange %g and %g", what, p.e[s].bus.mInData.mSource, p.e[1 - s].bus.mInData.mSource);
    MC_CHECK(p.e[0].bus.mLoopLatency == p.e[0].latency + p.e[1].latency - 1, "%s: loop latency %d for latencies %d and %d", what, p.e[0].bus.mLoopLatency, p.e[0].latency, p.e[1].latency);
    mc::outcome(p.demand(0) ? "first demands" : "first supplies");
}
static void explore(int depth, bool force, bool drop, int maxLat) {
    static const double CAP[] = {1.0, 1.2, 1.5, 4.0}; int nc = tierPick(3, 4);
    int l0 = 1 + mc::choose(maxLat, "latency to 0"), l1 = 1 + mc::choose(maxLat, "latency to 1"), master = mc::choose(3, "pair master");
    if (master == 2) mc::prune();
    Pair p(l0, l1, master);
    p.e[0].cap = CAP[mc::choose(nc, "capacitance 0")]; p.e[1].cap = CAP[mc::choose(nc, "capacitance 1")];
    int late = mc::choose(3, "late start of end 1"); int gap = mc::choose(2, "frames before the first event");
    for (int f = 0; f < late * 2; f++) { p.deliver(0, false); p.frameOf(0); p.e[1].wire.clear(); p.frame++; }
    if (gap) for (int f = 0; f < 14; f++) { for (int k = 0; k < 2; k++) { p.deliver(k, false); p.frameOf(k); } p.frame++; }
    for (int d = 0; d < depth; d++) {
        if (mc::cut(Hash().i(p.hash()).h, depth - d)) return;
        int k = mc::choose(2, "end"), ops = 1 + nc + (force ? 3 : 0) + (drop ? 1 : 0), o = mc::choose(ops, "event"); End& m = p.e[k]; bool dropped = false;
        if (o == 0) { if (k) mc::prune(); }
        else if (o <= nc) { if (m.cap == CAP[o - 1]) mc::prune(); m.cap = CAP[o - 1]; mc::trace("capacitance of end %d becomes %g", k, m.cap); }
        else if (force && o <= nc + 3) { int v = o - nc - 1; if (m.forced == v) mc::prune(); if (v == 1 && p.e[1 - k].forced == 1) mc::prune(); m.forced = v; if (v == 1) m.bus.forceDemandRole(); else if (v == 2) m.bus.forceSupplyRole(); else m.bus.resetForceRole(); mc::trace("end %d forced %d", k, v); }
        else { dropped = true; mc::trace("message to end %d lost", k); }
        for (int j = 0; j < 2; j++) { p.deliver(j, dropped && j == k); p.frameOf(j); }
        p.frame++;
    }
    for (int k = 0; k < 2; k++) if (p.e[k].forced) { p.e[k].forced = 0; p.e[k].bus.resetForceRole(); }
    settle(p, force ? "after forced roles" : drop ? "after lost messages" : "after capacitance changes");
}
int main(int argc, char** argv) {
    mc::add("capacitance changes", [] { explore(tierPick(4, 6), false, false, tierPick(2, 3)); });
    mc::add("capacitance changes and forced roles", [] { explore(tierPick(3, 4), true, false, tierPick(2, 3)); });
    mc::add("capacitance changes and lost messages", [] { explore(tierPick(3, 5), false, true, tierPick(2, 3)); });
    return mc::run(argc, argv, "C40");
}
