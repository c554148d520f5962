exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), 'seeds1.py')).read().split("'''\nS(")[0] + "'''\n")
S('battery_early_hot', 'C30', 'aspects/thermal/GunnsThermalPhaseChangeBattery.cpp', ('} else if (1.0 == mHotPhaseFraction) {', '} else if (1.0 <= mHotPhaseFraction + 1.0e-3) {'),
 'a battery that is less than a thousandth of its mass away from fully hot', 'it leaves the phase change temperature while some of it is still cold',
 BASIC + '''#include "aspects/thermal/GunnsThermalPhaseChangeBattery.hh"
int main() { for (int k = 1; k < 100; k++) { Net<1> n; double f = k / 100.0 + 0.0095; if (f >= 1) f = 0.99995; GunnsBasicPotential p; n.pot(p, 5.0, 310.0, 1, 0); GunnsThermalPhaseChangeBattery b; GunnsThermalPhaseChangeBatteryConfigData c("b", &n.list, 300.0, 200.0, 3.0, 2.0, 100.0); GunnsThermalPhaseChangeBatteryInputData i(10.0, 300.0, f); b.initialize(c, i, n.links, 0); n.start();
  for (int s = 0; s < 20; s++) { double was = b.mHotPhaseFraction; n.g.step(0.1); if (was < 1.0) NEED(std::fabs(n.n[0].getPotential() - 300.0) < 1e-3); } }
 return 0; }
''')
