exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), 'seeds1.py')).read().split("'''\nS(")[0] + "'''\n")
FLUID = '''#include "core/Gunns.hh"
#include "core/GunnsFluidNode.hh"
#include "core/GunnsFluidPotential.hh"
#include "core/GunnsFluidCapacitor.hh"
#include "core/GunnsFluidUtils.hh"
#include "aspects/fluid/fluid/PolyFluid.hh"
#include <cmath>
#include <cstdio>
#include <vector>
#define NEED(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
static DefinedFluidProperties P; static FluidProperties::FluidType T2[] = {FluidProperties::GUNNS_N2, FluidProperties::GUNNS_O2};
static PolyFluidConfigData& FC() { static PolyFluidConfigData c(&P, T2, 2); return c; }
template <int N> struct FNet { GunnsFluidNode n[N + 1]; GunnsNodeList list; std::vector<GunnsBasicLink*> links; Gunns g;
  FNet() { list.mNodes = n; list.mNumNodes = N + 1; for (int i = 0; i <= N; i++) n[i].initialize(i == N ? "Ground" : "n", &FC()); g.initializeFluidNodes(list); }
  void fill(int i, double t, double p, double x) { double f[2] = {x, 1 - x}; PolyFluidInputData in(t, p, 0, 0, f); n[i].getContent()->initialize(FC(), in); n[i].mOutflow.initialize(FC(), in); n[i].setPotential(p); }
  void start(int minor = 10) { g.initialize(GunnsConfigData("net", 1e-8, 1e-5, minor, minor), links); }
};
'''
S('leak_relatch', 'C42', 'aspects/fluid/hi-fi/GunnsFluidHiFiValve.cpp', ('''        mLastLeakRate      = 0.0;
        mLeakArea          = 0.0;''', '''        mLeakArea          = 0.0;'''),
 'a leak-through malfunction that is cleared and later set again with the same rate', 'the closed valve does not leak the second time',
 FLUID + '''#include "aspects/fluid/hi-fi/GunnsFluidHiFiValve.hh"
int main() { FNet<2> n; n.fill(0, 300, 300, 0.7); n.fill(1, 290, 100, 0.7); n.fill(2, 290, 100, 0.7); GunnsFluidPotential a, b; GunnsFluidHiFiValve v;
 a.initialize(GunnsFluidPotentialConfigData("a", &n.list, 0.05, 0.0), GunnsFluidPotentialInputData(false, 0, 300), n.links, 2, 0); b.initialize(GunnsFluidPotentialConfigData("b", &n.list, 0.05, 0.0), GunnsFluidPotentialInputData(false, 0, 100), n.links, 2, 1);
 v.initialize(GunnsFluidHiFiValveConfigData("v", &n.list, GunnsFluidHiFiOrificeConfigData::DISCHARGE_COEFF, 0.6, 0.01), GunnsFluidHiFiValveInputData(false, 0, 0), n.links, 0, 1); n.start();
 for (int k = 0; k < 5; k++) n.g.step(0.1); NEED(std::fabs(v.getFlowRate()) < 1e-9);
 for (int r = 0; r < 2; r++) { v.setMalfLeakThru(true, 0.002); for (int k = 0; k < 4; k++) n.g.step(0.1); NEED(v.getFlowRate() > 1e-3); v.setMalfLeakThru(); for (int k = 0; k < 4; k++) n.g.step(0.1); NEED(std::fabs(v.getFlowRate()) < 1e-9); }
 return 0; }
''')
S('runaway_left_on', 'C52', 'aspects/electrical/Batt/GunnsElectBattery.cpp', ('''        mThermalRunawayTimer = 0.0;
        mThermalRunawayCell  = 0;''', '''        mThermalRunawayCell  = 0;'''),
 'the battery thermal runaway malfunction ended part way through an interval, then activated again or a single cell malfunctioned', 'the leftover timer moves the next sequence early and keeps clearing the malfunctions of single cells',
 BASIC + '''#include "aspects/electrical/Batt/GunnsElectBattery.hh"
#include "math/approximation/TsLinearInterpolator.hh"
int main() { static double X[] = {0, 1}, Y[] = {3, 4.2}; TsLinearInterpolator t; t.init(X, Y, 2, 0, 1, "t");
 for (int steps = 1; steps < 6; steps++) { Net<1> n; GunnsBasicConductor l; n.cond(l, 0.1, 0, 1); GunnsElectBattery b; GunnsElectBatteryConfigData c("b", &n.list, 3, true, 0.1, 0.01, 30.0, &t); GunnsElectBatteryInputData i(false, 0, 0.9); b.initialize(c, i, n.links, 1, 0); n.start();
  for (int k = 0; k < 3; k++) n.g.step(0.5); b.setMalfThermalRunaway(true, 900, 1.0); for (int k = 0; k < steps; k++) n.g.step(0.5); b.setMalfThermalRunaway(); n.g.step(0.5); for (int k = 0; k < 3; k++) NEED(!b.mCells[k].mMalfThermalRunawayFlag);
  b.mCells[1].setMalfThermalRunaway(true, 900); for (int k = 0; k < 3; k++) { n.g.step(0.5); NEED(b.mCells[1].mMalfThermalRunawayFlag); } }
 return 0; }
''')
S('output_fail_break', 'C71', 'ms-utils/simulation/hs/TsHsOutputPlugin.cpp', ('''            if (!plugins[i]->msg(file, line, function, type, subsys, met, timestamp, mtext))
            {
                plugins[i]->setEnabled(false);
            }''', '''            if (!plugins[i]->msg(file, line, function, type, subsys, met, timestamp, mtext))
            {
                plugins[i]->setEnabled(false);
                break;
            }'''),
 'an output that fails on a message while another output is registered after it', 'the outputs after the failed one never get that message',
 '''#include "simulation/hs/TsHsOutputPlugin.hh"
#include <cstdio>
#include <cstring>
struct P : TsHsOutputPlugin { int n, bad; P(int id, int b) : TsHsOutputPlugin(id), n(0), bad(b) {} bool msg(const std::string&, const int, const std::string&, TS_HS_MSG_TYPE, const std::string&, const TS_TIMER_TYPE&, unsigned long, const std::string&) { return ++n != bad; } };
int main() { TsHsOutputPluginMngr m; P* a = new P(0, 2); P* b = new P(1, 0); m.add(a); m.add(b); TS_TIMER_TYPE t; memset(&t, 0, sizeof t); for (int k = 0; k < 4; k++) m.msg("f", 1, "g", TS_HS_ERROR, "s", t, 0, "x");
 if (a->n != 2 || b->n != 4) { printf("%d %d messages\\n", a->n, b->n); return 1; } return 0; }
''')
