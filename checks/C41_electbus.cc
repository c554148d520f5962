// mc: hflags=-fno-access-control
// C41: the two ends of a distributed electrical bus always settle on one supply, where the higher voltage is.
#include "mc.hh"
#include "interop/Distributed2WayBusElect.hh"
#include <deque>
#include <memory>
using namespace mc;
typedef Distributed2WayBusElect Bus;
typedef Distributed2WayBusElectInterfaceData Msg;
struct Packet { unsigned fc, fl; bool demand; float p, v; };
static Packet pack(const Msg& m) { return {m.mFrameCount, m.mFrameLoopback, m.mDemandMode, m.mDemandPower, m.mSupplyVoltage}; }
static void unpack(Msg& m, const Packet& p) { Msg t; t.mFrameCount = p.fc; t.mFrameLoopback = p.fl; t.mDemandMode = p.demand; t.mDemandPower = p.p; t.mSupplyVoltage = p.v; m = t; }
struct End { Bus bus; Distributed2WayBusElectSupplyData* s[2]; std::deque<Packet> wire; int latency, forced, flips; Packet in; bool got;
    End() : latency(1), forced(0), flips(0), got(false) { for (int k = 0; k < 2; k++) { s[k] = bus.createSupplyData(); s[k]->mAvailable = false; s[k]->mMaximumVoltage = 0; } }
    float avail() { float v = 0; for (int k = 0; k < 2; k++) if (s[k]->mAvailable && s[k]->mMaximumVoltage > v) v = s[k]->mMaximumVoltage; return v; } };
static const float VOLT[] = {0.f, 110.f, 120.f, 124.f};
struct Pair {
    End e[2]; int frame; float drop;
    Pair(int l0, int l1, int primary) : frame(0), drop(1.0f) { e[0].latency = l0; e[1].latency = l1;
        for (int k = 0; k < 2; k++) { e[k].bus.initialize(k == primary, 120.f); MC_CHECK(e[k].bus.isInDemandRole() == (k != primary), "initial role of end %d", k); } }
    void volts(int k, int o) { End& m = e[k]; m.s[0]->mAvailable = o != 0; m.s[0]->mMaximumVoltage = VOLT[o]; m.s[1]->mAvailable = o == 2; m.s[1]->mMaximumVoltage = o == 1 ? 124.f : o == 2 ? 60.f : 0.f; }
    void deliver(int k, bool drop) { End& m = e[k]; while ((int)m.wire.size() >= m.latency) { Packet p = m.wire.front(); m.wire.pop_front(); if (!drop) { unpack(m.bus.mInData, p); m.in = p; m.got = true; } } }
    void frameOf(int k) {
        End& m = e[k]; Bus& b = m.bus; bool was = b.isInDemandRole();
        b.processInputs(); mc::step();
        MC_CHECK(b.isInDemandRole() == was, "processInputs changes the role");
        float local = was ? b.getRemoteSupply() : m.avail() * drop, load = was ? 500.f + k : 0.f;
        if (m.got) { MC_CHECK(b.getRemoteSupply() == m.in.v, "remote supply voltage %g, sent %g", b.getRemoteSupply(), m.in.v); MC_CHECK(b.getRemoteLoad() == (was ? 0.f : m.in.p), "remote load %g in the %s role, sent %g", b.getRemoteLoad(), was ? "demand" : "supply", m.in.p); }
        MC_CHECK(b.mInData.hasValidData() == (m.got && m.in.fc > 1), "data valid");
        b.update(local, load);
        bool now = b.isInDemandRole();
        if (m.forced) MC_CHECK(now == (m.forced == 1), "end %d does not take its forced role", k);
        else if (now && !was) MC_CHECK(m.got && (m.avail() < m.in.v || !m.in.demand), "end %d gives up supply at %g V to a remote voltage of %g", k, m.avail(), m.in.v);
        else if (!now && was) MC_CHECK(m.got && m.in.demand, "end %d takes over supply from a remote that still supplies", k);
        MC_CHECK(b.mOutData.mSupplyVoltage == (now ? m.avail() : local), "end %d sends voltage %g in the %s role, available %g local %g", k, b.mOutData.mSupplyVoltage, now ? "demand" : "supply", m.avail(), local);
        MC_CHECK(b.mOutData.mDemandPower == (now ? load : 0.f), "end %d sends load %g in the %s role", k, b.mOutData.mDemandPower, now ? "demand" : "supply");
        Distributed2WayBusNotification n; int guard = 0; while (b.popNotification(n) > 0) MC_CHECK(++guard < 50, "notifications never end"); b.popNotification(n);
        if (now != was) m.flips++;
        e[1 - k].wire.push_back(pack(b.mOutData));
        mc::trace("frame %d end %d: %s available %g local %g, remote %s %g V, latency %d", frame, k, now ? "DEMAND" : "SUPPLY", m.avail(), local, b.mInData.mDemandMode ? "demands" : "supplies", b.mInData.mSupplyVoltage, b.mLoopLatency);
    }
    void run(int n) { for (int f = 0; f < n; f++, frame++) for (int k = 0; k < 2; k++) { deliver(k, false); frameOf(k); } }
    uint64_t hash() { Hash h; h.d(drop);
        for (int k = 0; k < 2; k++) { End& m = e[k]; Bus& b = m.bus; unsigned f = b.mOutData.mFrameCount, g = e[1 - k].bus.mOutData.mFrameCount;
            h.i(b.mOutData.mDemandMode).i(b.mInData.mDemandMode).i(std::min(b.mFramesSinceFlip, 12)).i(std::min(b.mLoopLatency, 41)).i(b.mForcedRole).d(m.avail()).d(b.mOutData.mSupplyVoltage).d(b.mInData.mSupplyVoltage).d(b.mInData.mDemandPower).d(b.mOutData.mDemandPower);
            h.i(std::min<int>(f - b.mInData.mFrameLoopback, 41)).i(std::min<int>(g - b.mInData.mFrameCount, 41)).i(b.mInData.mFrameLoopback > 0).i(m.got).i(m.latency);
            for (auto& p : m.wire) h.i(p.demand).d(p.v).d(p.p).i(std::min<int>(g - p.fc, 41)).i(p.fl > 0).i(std::min<int>(f - p.fl, 41)); h.i(m.wire.size()); }
        return h.h; }
};
static void settle(Pair& p, const char* what) {
    p.run(60);
    MC_CHECK(p.e[0].bus.isInDemandRole() != p.e[1].bus.isInDemandRole(), "%s: 60 frames after the last change both ends are in the %s role", what, p.e[0].bus.isInDemandRole() ? "demand" : "supply");
    int s = p.e[0].bus.isInDemandRole() ? 1 : 0;
    MC_CHECK(p.e[s].avail() >= p.e[1 - s].avail(), "%s: settled with supply at the end with %g V and demand at %g V", what, p.e[s].avail(), p.e[1 - s].avail());
    p.e[0].flips = p.e[1].flips = 0; p.run(25);
    MC_CHECK(p.e[0].flips + p.e[1].flips == 0, "%s: roles keep flipping although nothing changes", what);
    MC_CHECK(p.e[s].bus.getRemoteLoad() == 500.f + (1 - s) && p.e[1 - s].bus.getRemoteSupply() == p.e[s].avail() * p.drop, "%s: settled ends exchange load %g and voltage %g", what, p.e[s].bus.getRemoteLoad(), p.e[1 - s].bus.getRemoteSupply());
    mc::outcome(s ? "second supplies" : "first supplies");
}
static void explore(int depth, bool force, bool lose, int maxLat) {
    int nv = 4; int l0 = 1 + mc::choose(maxLat, "latency to 0"), l1 = 1 + mc::choose(maxLat, "latency to 1"), primary = mc::choose(2, "primary");
    Pair p(l0, l1, primary); p.drop = mc::flip("voltage drop") ? 0.98f : 1.0f;
    int v[2]; for (int k = 0; k < 2; k++) { v[k] = mc::choose(nv, "voltage"); p.volts(k, v[k]); }
    int late = mc::choose(3, "late start of end 1");
    for (int f = 0; f < late * 2; f++, p.frame++) { p.deliver(0, false); p.frameOf(0); p.e[1].wire.clear(); }
    if (mc::flip("settled before the first event")) p.run(14);
    for (int d = 0; d < depth; d++) {
        if (mc::cut(p.hash(), depth - d)) return;
        int k = mc::choose(2, "end"), o = mc::choose(1 + nv + (force ? 3 : 0) + (lose ? 1 : 0), "event"); End& m = p.e[k]; bool lost = false;
        if (o == 0) { if (k) mc::prune(); }
        else if (o <= nv) { if (v[k] == o - 1) mc::prune(); v[k] = o - 1; p.volts(k, v[k]); mc::trace("available voltage of end %d becomes %g", k, VOLT[v[k]]); }
        else if (force && o <= nv + 3) { int x = o - nv - 1; if (m.forced == x) mc::prune(); m.forced = x; if (x == 1) m.bus.forceDemandRole(); else if (x == 2) m.bus.forceSupplyRole(); else m.bus.resetForceRole(); mc::trace("end %d forced %d", k, x); }
        else { lost = true; mc::trace("message to end %d lost", k); }
        for (int j = 0; j < 2; j++) { p.deliver(j, lost && j == k); p.frameOf(j); } p.frame++;
    }
    for (int k = 0; k < 2; k++) if (p.e[k].forced) { p.e[k].forced = 0; p.e[k].bus.resetForceRole(); }
    settle(p, force ? "after forced roles" : lose ? "after lost messages" : "after voltage changes");
}
int main(int argc, char** argv) {
    mc::add("voltage changes", [] { explore(tierPick(4, 6), false, false, tierPick(2, 3)); });
    mc::add("voltage changes and forced roles", [] { explore(tierPick(3, 4), true, false, tierPick(2, 3)); });
    mc::add("voltage changes and lost messages", [] { explore(tierPick(3, 5), false, true, tierPick(2, 3)); });
    return mc::run(argc, argv, "C41");
}
