NA = {}
prop('C01', 'Converged network solutions balance flux at every node',
 'After every converged network step, the potentials delivered to the nodes satisfy the assembled balance equations: at every non-ground node the flux into the node from all links connected to it sums to zero, where each link type contributes by its own law (conductance times potential difference, source, potential source, capacitance discharging at its rate over the step). This holds for every topology, every mapping of link ports to nodes and ground, and every sequence of steps in which conductances, sources, capacitances, blockages, port mappings and time step change.',
 'configurations histories inputs', 'All small networks (up to 4 nodes, all port maps, link kinds and parameter values from an alphabet including zero, blocked and reversed) and all step sequences up to a depth.',
 'Unit tests solve a few fixed networks with fixed values; the balance must hold for every topology and after every history of changes, because the decomposition is cached between steps.',
 'core/Gunns.cpp core/GunnsBasicConductor.cpp core/GunnsBasicSource.cpp core/GunnsBasicPotential.cpp core/GunnsBasicCapacitor.cpp core/GunnsBasicLink.cpp core/GunnsBasicNode.cpp core/GunnsBasicFlowOrchestrator.cpp',
 [('system assembly, cached decomposition and solution', 'core/Gunns.cpp'), ('link admittance and source contributions', 'core/GunnsBasic*.cpp')],
 ['node potential', 'link flux', 'node flux in and out'])
prop('C02', 'Island solving agrees with whole-network solving and finds true islands',
 'With island finding on, the islands reported to nodes are exactly the connected components of the network under nonzero conductance at that step, with ground never joining two components. Solving by islands, finding islands without using them, and solving the whole network at once give the same node potentials and link fluxes to within rounding, for every topology and every history of conductances switching on and off and of island modes changing between steps.',
 'configurations histories', 'All graphs up to 5 nodes and all histories of edge switching and island mode changes up to a depth.',
 'Tests check a handful of fixed graphs; the search over nodes must be right for every graph, including ones whose node numbering makes components interleave.',
 'core/Gunns.cpp core/GunnsBasicIslandAnalyzer.cpp', [('island search and per-island decomposition', 'core/Gunns.cpp')], ['node island vectors', 'node potentials'])
prop('C04', 'Non-linear steps converge only when every link confirms and all settle',
 'A non-linear network step ends converged exactly when the solution has settled within tolerance and no link rejects or delays it, within the configured limit of minor steps; a rejection always forces another solution starting from the last accepted minor solution, and a delay keeps the present solution while the confirmed count keeps rising. Links are always consulted with the number of minor steps taken so far and the number of consecutive settled ones, and if the limit is reached without convergence, the step counts a failure and the last major solution is restored.',
 'histories inputs', 'All sequences of link verdicts (confirm, delay, reject) from up to 2 scripted links over up to 6 minor steps, for all minor-step limits up to 6 and over several major steps.',
 'The tests script two or three verdict sequences; the protocol must hold for every sequence of verdicts of every set of links.',
 'core/Gunns.cpp', [('minor step loop', 'core/Gunns.cpp')], ['link callbacks', 'node potentials', 'convergence failure counts'])
prop('C05', 'Mode changes, overrides and restarts never corrupt later solutions',
 'Whatever sequence of solver modes (normal, slave, dummy), run modes (run, steady state, pause, reset), island and decomposition-sharing settings, iterative-solver use, time-step changes and restarts precedes it, a network step in normal mode delivers the same potentials as a network that had never left normal mode but holds the same link and node state. A paused step changes nothing, a slave step delivers exactly the imposed potentials, and node overrides hold a node at its override potential for exactly the steps they are commanded.',
 'histories', 'All sequences of mode, override, restart and setting commands up to a depth interleaved with network steps and link changes.',
 'Tests visit each mode once from a fresh network; what breaks is what a mode leaves behind in the cached matrix and decomposition.',
 'core/Gunns.cpp core/GunnsBasicNode.cpp', [('solver mode, run mode and cached decomposition handling', 'core/Gunns.cpp')], ['node potentials', 'link fluxes'])
prop('C07', 'Network capacitance requests return the true response and leave no trace',
 'When a link asks a node for the network capacitance, the node returns the time step times the test flux over the change of potential that this flux causes in the assembled network, and the array of potential changes it causes at every node, for every topology, state and set of requesting nodes. The request is answered once and cleared, and the solution of the network is the same as without requests.',
 'configurations histories', 'All small networks, requesting node sets and step histories up to a depth.',
 'Tests ask one node of one fixed network; the answer must be right for every topology, with requests and conductances changing between steps.',
 'core/Gunns.cpp core/GunnsBasicNode.cpp', [('network capacitance computation', 'core/Gunns.cpp')], ['network capacitance', 'potential response array', 'node potentials'])
prop('C06', 'Port maps stay legal under every sequence of port changes',
 'After any sequence of port assignments and user port commands, accepted or refused, every port of a link maps to an existing node or ground, no two ports of a link share a non-ground node, type-specific port rules hold, and the node a link reads and drives is the one its map names. A refused request changes nothing, a user command always resolves to ready with its outcome and never repeats, commands are never obeyed on a locked link, and restart restores the default mapping.',
 'histories inputs', 'All sequences up to a depth of port assignments and user commands with every port and node number including ones out of range, on 1-, 2-, 3- and 4-port links, locked and unlocked.',
 'Tests try single requests; the invariant is about every sequence of legal and illegal requests.',
 'core/GunnsBasicLink.cpp core/GunnsFluidLink.cpp', [('port rules and user port command state machine', 'core/GunnsBasicLink.cpp')], ['node map', 'user port command result'])
prop('C70', 'The message queue is a bounded FIFO under every thread interleaving',
 'Whatever threads insert and remove concurrently, every removed message is one that was inserted, whole, once, and in order; nothing is lost except the oldest messages on overflow and non-blocking inserts that met a lock, each counted exactly. Sizes stay within capacity, resizing keeps the newest messages, no thread is ever stuck, and an empty queue yields nothing.',
 'schedules histories', 'Every interleaving, at memory-access granularity up to a preemption bound, of 2-3 threads with 1-3 operations each; every sequential operation sequence up to a depth.',
 'The queue is shared by the simulation threads, a helper thread and freeze and shutdown jobs; unit tests are single-threaded and cannot choose the schedule.',
 'ms-utils/simulation/hs/TsHsMsgQueue.cpp ms-utils/simulation/hs/TsHsMsgQueue.hh ms-utils/simulation/hs/TsHsStdMngr.cpp', [('mutex around the ring buffer', 'ms-utils/simulation/hs/TsHsMsgQueue.cpp')], ['removed messages', 'counters'],
 note='@stateless exploration of every interleaving of the real code under a controlled scheduler, with brute-force linearizability checking@Every schedule up to the preemption bound at memory-access granularity, on the real class, sequentially consistent memory; beyond the bound and weak memory orderings are not covered.')
prop('C71', 'Messages reach every working output once or are held back as filters state',
 'Every health and status message, however it is sent, is given once, whole and in the order it was sent, to every output that is enabled and has not failed, or is held back for exactly one stated reason: its type is filtered, the same message was passed on as often as allowed within the interval (remembering the messages passed on most recently), or a queue overflow or a lock conflict that is counted. Freeze, unfreeze and shutdown lose nothing, an output that fails is switched off without harm to the others, log lines show the fields of their message, mission time is split right before and after launch, listed subsystems and only those end the simulation, and configuration files set what they say.',
 'schedules histories', 'Every sequence of messages, times, setting changes and mode changes up to a depth, and every interleaving at mutex operations up to a preemption bound of model, helper, freeze and shutdown threads.',
 'These classes need the simulation executive, so no test of the project runs in its trick-less build; and which message a full filter forgets or which thread drains the queue depends on history and schedule.',
 'ms-utils/simulation/hs/TsHsStdMngr.cpp ms-utils/simulation/hs/TsHsMsgStdFilter.cpp ms-utils/simulation/hs/TsHsMsgFilter.cpp ms-utils/simulation/hs/TsHsOutputPlugin.cpp ms-utils/simulation/hs/TsHsTextPlugin.cpp ms-utils/simulation/hs/TsHsConsolePlugin.cpp ms-utils/simulation/hs/TsHsMsg.cpp ms-utils/simulation/hs/TsHsMsgWrapper.cpp ms-utils/simulation/hs/TsHsTermination.cpp ms-utils/simulation/hs/TsHsConfig.cpp ms-utils/simulation/timer/TS_timer.c', [('redundancy filter with bounded memory', 'ms-utils/simulation/hs/TsHsMsgStdFilter.cpp'), ('queue drained by helper, freeze and shutdown', 'ms-utils/simulation/hs/TsHsStdMngr.cpp')], ['delivered messages', 'filter and queue counters', 'log files'],
 note='@explicit-state exploration of message histories against a nondeterministic reference filter, and stateless exploration of thread schedules of the real manager@Histories of 4-7 events and schedules of up to 4 threads with 3-4 preemptions at mutex operations, on the real classes; the executive that starts the jobs is replaced by a stand-in.')
prop('C08', 'Super-networks solve as one network with all sub-network links',
 'A super-network gathers the nodes and links of its sub-networks, in the order they are added, into one network that solves exactly as if all links had been built in a single network, with ground shared. Joints created between sub-networks connect the same nodes whatever the order of gathering, merging one super-network into another loses no link or node, each sub-network is initialized once and its spotters step exactly once before and once after every solution, updating a sub-network by itself has no effect, and restart leaves the joined topology as it was.',
 'configurations histories', 'All orders and subsets of sub-networks, all joint placements and types, merges of super-networks and step and restart sequences up to a depth.',
 'Tests build one super-network from two trivial sub-networks; node offsets, joints, merging and restart must be right for every composition.',
 'core/network/GunnsBasicSuperNetwork.cpp core/network/GunnsNetworkBase.cpp core/network/GunnsMultiLinkConnector.cpp', [('gathering of nodes, links and joints', 'core/network/GunnsBasicSuperNetwork.cpp')], ['node potentials', 'link fluxes', 'node offsets', 'spotter calls'])
prop('C09', 'Jumper plugs and sockets stay paired under every connection sequence',
 'After any sequence of direct connections, connection and disconnection requests, disabling and restarts, every socket is held by at most one plug, a plug and its socket agree on whether they are connected, and a jumper port is mapped to the socket node while plugged and to the ambient node of the last socket otherwise. The jumper conducts only as its plugs and seals allow and its response to the network follows from its ports in the same step.',
 'histories', 'All sequences up to a depth of connection and disconnection requests on up to 2 jumpers and 3 sockets, for the basic and the fluid jumper.',
 'Tests connect one plug to one socket in a scripted order; races of plugs for sockets and interrupted changes need every order.',
 'core/GunnsBasicJumper.cpp core/GunnsBasicJumperPlug.cpp core/GunnsBasicSocket.cpp core/GunnsFluidJumper.cpp core/GunnsFluidJumperPlug.cpp core/GunnsFluidSocket.cpp', [('plug and socket handshake', 'core/GunnsBasicJumperPlug.cpp'), ('jumper conductance', 'core/GunnsBasicJumper.cpp')], ['socket owner', 'plug active connection', 'jumper ports', 'jumper conductance'])
prop('C12', 'Network updates hold the mutex exclusively and always give it back',
 'With the network mutex enabled, network updates and code holding a GunnsMutexLock exclude each other under every interleaving of threads, and nothing is lost or stuck: the mutex is given back when an update or a holder ends, by returning or by an exception, locking or unlocking the same lock object twice neither deadlocks nor releases a lock held by another thread, and each update happens exactly once. With the mutex disabled updates take no lock.',
 'schedules histories', 'All interleavings of 2-3 threads up to a preemption bound, with every kind of holder and of exception.',
 'Tests run single-threaded and cannot choose the schedule in which an update and a reader meet.',
 'core/network/GunnsNetworkBase.cpp core/network/GunnsMutexLock.hh core/network/GunnsBasicSuperNetwork.cpp core/Gunns.cpp', [('mutex around the update', 'core/network/GunnsNetworkBase.cpp'), ('lock object', 'core/network/GunnsMutexLock.hh')], ['threads in the network', 'mutex state'],
 note='@stateless exploration of every interleaving of the real code under a controlled scheduler@Every schedule up to the preemption bound at mutex and shared-access granularity, on the real classes, sequentially consistent memory.')
prop('C20', 'Fluid networks conserve every constituent, trace compound and energy',
 'In every step of a fluid network, the mass of each fluid constituent and of each trace compound held at a node, and its enthalpy when no link expands the fluid, change by exactly what the links carry into and out of it at their reported flow rates with the state of the node the flow comes from. Nodes without volume pass on exactly what they receive, including the mixture, when more flows through a node than it holds. Fractions stay non-negative and sum to one, masses never go negative, and without expansion temperatures stay within the range of the temperatures mixed.',
 'configurations histories inputs', 'All small networks of conductors, pressure and flow sources over nodes with and without volume, in several mixtures, and all step histories up to a depth.',
 'Unit tests check one node or one link with fixed flows; conservation is a property of every network and history, where nodes overflow and links must transport in the right order.',
 'core/GunnsFluidNode.cpp core/GunnsFluidFlowOrchestrator.cpp core/GunnsFluidLink.cpp core/GunnsFluidConductor.cpp core/GunnsFluidSource.cpp core/GunnsFluidPotential.cpp core/GunnsFluidCapacitor.cpp core/GunnsFluidUtils.cpp aspects/fluid/fluid/PolyFluid.cpp aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp',
 [('integration of flows into node contents', 'core/GunnsFluidNode.cpp'), ('transport order with overflowing nodes', 'core/GunnsFluidFlowOrchestrator.cpp'), ('mixing', 'aspects/fluid/fluid/PolyFluid.cpp')], ['node content', 'link flow rates'])
prop('C11', 'Linear solvers solve every symmetric positive-definite system',
 'The Cholesky solver decomposes every symmetric positive-definite matrix, whatever the sign and magnitude of its elements, into factors whose product is the matrix, and gives its solution and inverse; a matrix that is not positive definite is refused by an exception in decomposition or solution or else solved, but never answered with a non-finite result. Decomposing one partition of rows of a larger matrix equals decomposing that sub-matrix alone and leaves all other elements untouched. The iterative (SOR) solver reports convergence only when the equations hold to its tolerance, converges on positive-definite systems given enough iterations, and otherwise reports failure within its iteration limit.',
 'inputs', 'All symmetric matrices of size 1-3 (4, 5) with elements from an alphabet of signs and magnitudes, several right-hand sides, all row partitions, and all weights, tolerances, iteration limits and starts from an alphabet.',
 'Tests solve five fixed systems that all have negative off-diagonals.',
 'ms-utils/math/linear_algebra/CholeskyLdu.cpp ms-utils/math/linear_algebra/Sor.cpp core/Gunns.cpp', [('decomposition and solution', 'ms-utils/math/linear_algebra/CholeskyLdu.cpp'), ('successive over-relaxation', 'ms-utils/math/linear_algebra/Sor.cpp')], ['solution vector', 'factors', 'exceptions', 'iteration count'],
 note='@exhaustive enumeration of small systems on the real code against extended-precision elimination@Every system over the stated alphabets; larger systems and other magnitudes are not covered.')
prop('C40', 'Distributed fluid bus ends settle on one supply and one demand role',
 'Two ends of a distributed fluid bus exchanging data over any transport latency settle, after any sequence of capacitance changes, forced roles and lost messages, on exactly one supply and one demand end, the supply being the end whose capacitance is not below the moding ratio of the other, and then never flip again while nothing changes. Forced roles hold at once. A fluid or flow state is passed on exactly when the roles are complementary and the data valid, as it was sent; states offered in the wrong role are refused. The demand flow limit is zero outside the demand role and never moves more than equalises the pressures.',
 'histories schedules', 'All sequences of capacitance changes, forced roles and message losses up to a depth over all latencies of 1-3 frames each way, start offsets and pair masters, each continued until settled.',
 'Tests drive one end with hand-written input data; the handshake is a protocol between two ends with delayed views of each other.',
 'ms-utils/interop/Distributed2WayBusFluid.cpp ms-utils/interop/Distributed2WayBusFluid.hh ms-utils/interop/Distributed2WayBusBase.cpp ms-utils/interop/Distributed2WayBusBase.hh', [('role handshake', 'ms-utils/interop/Distributed2WayBusFluid.cpp'), ('frame and latency counting', 'ms-utils/interop/Distributed2WayBusBase.cpp')], ['roles', 'states passed on', 'demand limit', 'notifications'],
 note='@explicit-state exploration of two real bus ends over a modelled network with state hashing@Every event history up to the depth with latencies up to the bound; latency is constant within a history apart from losses.')
prop('C41', 'Distributed electrical bus ends settle on one supply, the higher voltage',
 'Two ends of a distributed electrical bus exchanging data over any transport latency settle, after any sequence of changes of available voltages, forced roles and lost messages, on exactly one supply and one demand end, with the supply at an end whose available voltage is not lower, and then never flip again while nothing changes. Forced roles hold at once; without forcing an end gives up supply only to a higher remote voltage or to end a conflict of two supplies, and takes it only when the remote end has given it up. Voltages and loads sent always match the role.',
 'histories schedules', 'All sequences of available-voltage changes, forced roles and message losses up to a depth over all latencies of 1-3 frames each way, start offsets, primaries and voltage drops, each continued until settled.',
 'Tests drive one end with hand-written input data; the handshake is a protocol between two ends with delayed views of each other.',
 'ms-utils/interop/Distributed2WayBusElect.cpp ms-utils/interop/Distributed2WayBusElect.hh ms-utils/interop/Distributed2WayBusBase.cpp ms-utils/interop/Distributed2WayBusBase.hh', [('role handshake', 'ms-utils/interop/Distributed2WayBusElect.cpp')], ['roles', 'voltages and loads sent', 'notifications'],
 note='@explicit-state exploration of two real bus ends over a modelled network with state hashing@Every event history up to the depth with latencies up to the bound; latency is constant within a history apart from losses.')
prop('C50', 'Electrical protection trips, latches and resets exactly as specified',
 'A protected switch opens exactly when its under- or over-voltage or over-current condition holds in a converged network solution at its trip priority, or a trip is forced, and stays open until the trips are reset by command, by commanding it open, or by the voltage returning within the reset limit with no other trip active. No converged network step leaves a protected switch closed outside its limits or open though commanded closed without a trip, and in cascades of switches the lowest priority number trips first and the others only if the new solution still violates their limits. Fail-open, fail-closed, inhibit and force malfunctions hold while set and leave no trace when cleared.',
 'histories configurations', 'All sequences of commands, resets, malfunctions and voltage and current levels up to a depth, for all priorities and limit sets, on the switch object and on networks of up to 3 switches with changing loads, source and commands.',
 'Tests walk one trip at a time; the protection is a state machine interacting with the minor-step protocol and with other switches.',
 'aspects/electrical/TripLogic/GunnsTripLogic.cpp aspects/electrical/TripLogic/GunnsTripLogic.hh aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp', [('trip decision', 'aspects/electrical/TripLogic/GunnsTripLogic.cpp'), ('switch state', 'aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp'), ('solution confirmation', 'aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp')], ['switch position', 'trip flags', 'currents and voltages'])
prop('C60', 'Valve controllers move, hold and fail exactly by command and malfunction',
 'A powered and enabled valve controller moves its valve at the rated speed in the commanded direction and never beyond its travel; unpowered or disabled it holds, or latches to its normally open or closed position. Stuck and fail-to malfunctions, the manual handle, drive and power malfunctions take effect in the documented order and leave no trace when cleared; end-of-travel sensors interrupt motion. Fluid position, limit and stuck flags, power and resistance always match the position and motion. Toggle, dual solenoid, T-valve and assembly variants follow their command protocols. Invalid configurations and inputs are refused.',
 'histories inputs', 'All sequences up to a depth of commands, supply and enable changes, handle and malfunction settings and time steps, for every controller type, travel and latch type.',
 'Tests set one malfunction or one command at a time from a fresh object; precedence and recovery are properties of histories and combinations.',
 'gunns-ts-models/common/controllers/fluid/TsValveController.cpp gunns-ts-models/common/controllers/fluid/TsPoweredValveController.cpp gunns-ts-models/common/controllers/fluid/TsOpenCloseValveController.cpp gunns-ts-models/common/controllers/fluid/TsToggleValveController.cpp gunns-ts-models/common/controllers/fluid/TsDualSolenoidValveController.cpp gunns-ts-models/common/controllers/fluid/TsSpeedValveController.cpp gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp gunns-ts-models/common/controllers/fluid/TsTValveController.cpp gunns-ts-models/common/controllers/valveAssemblies/TsOpenCloseValveAssembly.cpp',
 [('valve position and malfunctions', 'gunns-ts-models/common/controllers/fluid/TsValveController.cpp'), ('drive and power', 'gunns-ts-models/common/controllers/fluid/TsPoweredValveController.cpp')], ['position', 'limit flags', 'power', 'resistance'])
prop('C61', 'Sensors report truth through their documented malfunctions and limits',
 'An analog sensor outputs the truth, converted to its unit, with scale, bias, drift and noise terms in the documented order, rounded to its resolution and always limited to its range. It gives its off value without power unless power is ignored, its fail-to value or its last output under those malfunctions, and the exact truth as a perfect sensor; clearing every malfunction restores the nominal output in the next step with no residue. Boolean, valve open/close, limit switch, fan speed and smoke sensors report their state by the same kind of rules in every history.',
 'histories inputs', 'All sequences up to a depth of true values, power and malfunction changes, for resolutions, ranges and units from an alphabet, including extreme magnitudes; the noise source is an enumerated choice.',
 'Tests check one malfunction at a time with fixed noise; the order of the error terms, priorities and recovery matter for combinations and histories.',
 'gunns-ts-models/common/sensors/SensorAnalog.cpp gunns-ts-models/common/sensors/SensorBooleanAi.cpp gunns-ts-models/common/sensors/SensorBooleanBi.cpp gunns-ts-models/common/sensors/SensorVlvOpenClose.cpp gunns-ts-models/common/sensors/TsLimitSwitch.cpp gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp gunns-ts-models/common/sensors/TsFanSpeedSensors.cpp gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp',
 [('error chain', 'gunns-ts-models/common/sensors/SensorAnalog.cpp')], ['sensed output', 'detector state'])
prop('C63', 'Thermostats, PID and pump motor controllers obey their control laws',
 'A thermostat commands heat by hysteresis between its setpoints, shifted by its bias, combining its sensors by AND or OR logic; setpoint malfunctions replace the setpoints, and off, on and kill commands override in that order and leave the nominal hysteresis intact. A PID controller updates its output once per interval from proportional, integral and derivative error, within its limits. A pump motor controller powers its motor only when enabled, in its voltage range and not tripped on temperature, latches and resets the trip at their limits, controls the pulse width within 0 to 1 with limited startup current, and reports loads, currents and heat that add up. Invalid configurations are refused.',
 'histories inputs', 'All sequences up to a depth of sensor, setpoint, command, supply and malfunction changes and time steps.',
 'Tests take one update from a prepared state; hysteresis, latches and integrators are about histories.',
 'gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp gunns-ts-models/common/controllers/generic/TsPidController.cpp gunns-ts-models/common/controllers/fluid/TsPumpMotorController.cpp', [('hysteresis and malfunction priority', 'gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp'), ('control filter and power', 'gunns-ts-models/common/controllers/fluid/TsPumpMotorController.cpp')], ['heater command', 'controller output', 'pulse width', 'trip flag', 'loads'])
prop('C64', 'Motor models obey their torque, electrical and heat balance',
 'In every step of the DC motor models the speed changes by the net of drive, load, jam and friction torque over the inertia and never goes negative, the current follows from voltage, pulse width, back EMF and winding resistance within its limit and never goes negative, power is voltage times current, resistance is voltage over current, and the power not delivered to the load becomes heat that is never negative. Degradation, jam, speed override and heat bias malfunctions act as documented and leave no trace when cleared. Invalid configurations are refused.',
 'histories inputs', 'All sequences up to a depth of voltage, pulse width, load and malfunction changes and time steps on two motor sizes of each model.',
 'Tests take a single step at one operating point per malfunction; combinations, limits and speed history are not covered.',
 'gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.cpp', [('motor step', 'gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp'), ('motor step', 'gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.cpp')], ['speed', 'current', 'waste heat'])
prop('C21', 'Fluid valves and conductors pass exactly what position and pressures allow',
 'After every step the flow through a fluid conductor, pipe, leak, quick disconnect, valve, check valve, relief or regulator valve, three-way valve or three-way check valve is the pressure drop times the conductance that its maximum conductivity, its position, blockage, leak-through and flow tuning give for the fluids at its ends, never against the pressure drop. Check valves follow their pressure drop within their rate limit. Relief and regulator valves hold their position between their opening and closing curves of control pressure. The two paths of a three-way valve open as its position and non-mixing band say. Stuck and fail-to malfunctions hold positions; malfunctions that end leave no trace. The pressure reducing valve regulates its exit to set point plus reference, cuts off back flow until the exit falls below that pressure, and takes from its inlet exactly what it delivered. Heat exchanged with walls is the heat the fluid gains; mass and energy are otherwise conserved.',
 'histories inputs configurations', 'All sequences of changes of driving pressures, commands, malfunctions, tunings and time step up to a depth, per kind of link and configuration.',
 'Unit tests step one link a few times with hand-set pressures; hysteresis, rate limits and overlapping malfunctions show only over sequences in a network.',
 'core/GunnsFluidConductor.cpp core/GunnsFluidUtils.cpp aspects/fluid/conductor/GunnsFluidValve.cpp aspects/fluid/conductor/GunnsFluidCheckValve.cpp aspects/fluid/conductor/GunnsFluidLeak.cpp aspects/fluid/conductor/GunnsFluidPipe.cpp aspects/fluid/conductor/GunnsFluidSimpleQd.cpp aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.cpp aspects/fluid/conductor/GunnsFluidReliefValve.cpp aspects/fluid/conductor/GunnsFluidRegulatorValve.cpp aspects/fluid/conductor/GunnsFluid3WayValve.cpp aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp',
 [('flow law and tuning', 'core/GunnsFluidConductor.cpp'), ('valve position and malfunctions', 'aspects/fluid/conductor/GunnsFluidValve.cpp'), ('hysteresis of relief and regulator valves', 'aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.cpp'), ('leak malfunctions', 'aspects/fluid/conductor/GunnsFluidLeak.cpp')], ['link flux and flow rates', 'positions', 'node content'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth over the stated alphabets of pressures, positions and malfunctions.')
prop('C51', 'Electrical converters regulate, limit, protect and balance their power',
 'In every converged step a converter holds its output at its set point of voltage, transformed voltage, current or power, less the drop over its output conductance, or at its limit of current, over-voltage or under-voltage when limiting is enabled and the load demands more, and never passes reverse current. It draws from its input the power its output delivers divided by the efficiencies. Outside a trip limit it is off: input and output trips and disables stop the flow on their side, hold until reset, and never leave the converter on out of limits. Once the circuit stops changing the converter stays in its state, and networks converge except where the source cannot supply the load.',
 'histories configurations', 'All sequences up to a depth, and repeated cycles, of load, source, back-feed, set point, enable, reset and blockage changes for every regulator type, limiting, link order, input protection and efficiency table.',
 'Unit tests call the methods of one link with hand-set potentials; the converter is a pair of state machines negotiating with the solver over rejected and repeated minor steps.',
 'aspects/electrical/Converter/GunnsElectConverterInput.cpp aspects/electrical/Converter/GunnsElectConverterInput.hh aspects/electrical/Converter/GunnsElectConverterOutput.cpp aspects/electrical/Converter/GunnsElectConverterOutput.hh',
 [('regulation, limiting, trips and bias', 'aspects/electrical/Converter/GunnsElectConverterOutput.cpp'), ('input load and protection', 'aspects/electrical/Converter/GunnsElectConverterInput.cpp')], ['currents and voltages', 'limit state', 'trip flags'],
 note='@exhaustive exploration of event sequences on the real links in a real network against an independent step oracle@Every event sequence up to the depth on one circuit; the power limit state entered at over-current by a power regulator is only range-checked.')
prop('C52', 'Batteries conserve charge and follow their cells through malfunctions',
 'In every step the charge held by the cells of a battery changes by exactly the charge that passed, shared equally by the cells that carry it, each cell staying within empty and full; an empty cell can be charged again. Terminal voltage and current follow from the open-circuit voltages and resistances of the working cells in series or parallel, the interconnect and the blockage, and the heat is that of the current plus cells in thermal runaway. Open, short, capacity and runaway malfunctions act on their cells only, in sequence for the battery, and leave nothing behind but the charge they removed.',
 'histories inputs', 'All sequences up to a depth of load, charger, blockage, cell and battery malfunction changes and time steps for 1-3 cells in series and parallel, resistances and starting charges.',
 'Tests step one battery with one malfunction each; charge accounting over histories with empty, failed and recovering cells is not covered.',
 'aspects/electrical/Batt/GunnsElectBattery.cpp aspects/electrical/Batt/GunnsElectBatteryCell.cpp', [('sharing of charge and runaway sequence', 'aspects/electrical/Batt/GunnsElectBattery.cpp'), ('cell charge', 'aspects/electrical/Batt/GunnsElectBatteryCell.cpp')], ['state of charge', 'terminal voltage', 'current', 'heat'])
prop('C53', 'User loads, fuses and load switches draw, blow, trip and latch as specified',
 'A user load draws the conductance its mode, supply voltage, limits, duty cycle, malfunctions and overrides imply, nothing outside its voltage range. A fuse blows exactly when the current of the converged solution exceeds its limit, ahead of its switch, stays blown until replaced, and a blown or open load path carries no current. Switches of every generation open on over-current in a converged solution at their trip priority, stay open until reset, and inhibit, fail-open, fail-closed and override settings hold while set and leave nothing behind. Shorts latch the conductance their initial power or current gives. Loads of one switch add up to its current.',
 'histories configurations', 'All sequences up to a depth of supply voltage, switch command, trip reset, malfunction, override and load mode changes for every load type, fuse and switch generation in a real network.',
 'Tests call one load or switch with hand-set voltages; fuses, switches and overrides interact through rejected minor steps and over histories.',
 'aspects/electrical/UserLoad/UserLoadBase.cpp aspects/electrical/UserLoad/ResistiveLoad.cpp aspects/electrical/UserLoad/ConstantPowerLoad.cpp aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp aspects/electrical/Switch/GunnsElectSwitchUtil.cpp aspects/electrical/Switch/Switch.cpp aspects/electrical/resistive/GunnsShortUtil.cpp',
 [('load conductance and fuses', 'aspects/electrical/UserLoad/UserLoadBase.cpp'), ('switch and load sequencing', 'aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp'), ('trip state', 'aspects/electrical/Switch/GunnsElectSwitchUtil.cpp')], ['load currents and powers', 'fuse state', 'switch position and trip flags'])
prop('C54', 'Selectors, diodes, switches, resistors and power loads obey their laws',
 'In a converged circuit every selector, diode, switch, resistor, resistive load, power function resistor, short and constant power load carries exactly the current its law gives for the final potentials, Kirchhoff balances hold at every node, and nodes collect each link flux once. A selector connects its first port to the selected port only. A diode conducts beyond its junction drop only. Switches follow their commands, trip by priority on over-current of the final solution, latch until reset or commanded open, and report what they carry and dissipate. Initial-load shorts hold the resistance of their activation. A constant power load draws its power above its minimum voltage.',
 'histories configurations', 'All sequences up to a depth of command, supply voltage and polarity, load, malfunction, trip and reset changes for every device in a real network.',
 'Tests set link potentials by hand and look at one step; minor steps, repeated confirmation, reversal and disconnection are never run in a solved network.',
 'aspects/electrical/Switch/GunnsElectSelector.cpp aspects/electrical/Switch/SwitchElect.cpp aspects/electrical/Switch/GunnsElectSwitchUtil.cpp aspects/electrical/Diode/GunnsElectRealDiode.cpp aspects/electrical/resistive/GunnsElectricalResistor.cpp aspects/electrical/resistive/GunnsResistiveLoad.cpp aspects/electrical/resistive/GunnsResistorPowerFunction.cpp aspects/electrical/resistive/GunnsElectShort.cpp aspects/electrical/resistive/GunnsShortUtil.cpp aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp',
 [('connection and law of the selector', 'aspects/electrical/Switch/GunnsElectSelector.cpp'), ('trips in the solution', 'aspects/electrical/Switch/SwitchElect.cpp'), ('bias', 'aspects/electrical/Diode/GunnsElectRealDiode.cpp'), ('power law', 'aspects/electrical/resistive/GunnsResistorPowerFunction.cpp')], ['node potentials and collected fluxes', 'link currents and powers', 'switch position and trip flags'],
 note='@explicit-state exploration of the real links in solved networks against their laws@bounded exhaustive over change sequences')
prop('C30', 'Thermal networks balance heat and obey their conduction and radiation laws',
 'In every step of a thermal network the temperatures are those for which the heat stored by capacitors and phase change batteries equals the heat conducted, radiated, pumped and supplied to their nodes. Radiation follows the fourth-power law scaled by its view. Sources, heaters and panels deliver their demand, absorbed radiation or power, scaled by tuning and blockage or overridden, in their configured fractions. External and queued heat raises its capacitor by exactly that heat. A battery in mixed phase holds its phase change temperature while heat moves its phase fraction, which stays within 0 and 1, and a leak removes hot phase only. Thermoelectric devices follow their Seebeck, Peltier and Joule laws at all temperatures. Temperature overrides hold exactly and end without trace.',
 'histories configurations', 'All sequences of events on the links of small networks up to a depth with two step sizes, and the thermoelectric model on a grid of temperatures, currents and malfunctions.',
 'Tests call one link with hand-set temperatures; equal temperatures, zero areas, overrides at start and phase transitions under changing heat are not sampled.',
 'aspects/thermal/GunnsThermalCapacitor.cpp aspects/thermal/GunnsThermalRadiation.cpp aspects/thermal/GunnsThermalSource.cpp aspects/thermal/GunnsThermalHeater.cpp aspects/thermal/GunnsThermalPanel.cpp aspects/thermal/GunnsThermalMultiPanel.cpp aspects/thermal/GunnsThermalPotential.cpp aspects/thermal/GunnsThermalPhaseChangeBattery.cpp aspects/thermal/GunnsThermoelectricEffect.cpp aspects/thermal/GunnsThermoelectricDevice.cpp aspects/thermal/GunnsThermalCapacitorHeatQueues.cpp',
 [('radiation law', 'aspects/thermal/GunnsThermalRadiation.cpp'), ('heat sources', 'aspects/thermal/GunnsThermalSource.cpp'), ('phase change', 'aspects/thermal/GunnsThermalPhaseChangeBattery.cpp'), ('thermoelectric laws', 'aspects/thermal/GunnsThermoelectricEffect.cpp')], ['node temperatures', 'link heat', 'phase fraction'])
prop('C27', 'Linked fluid networks exchange exactly what their messages say and settle',
 'Fluid networks joined by a pair of distributed interface links exchange fluid without creating or losing any: in every frame the demand side gains or loses exactly the moles of each constituent and trace compound, and the enthalpy, that it reports, and the supply side loses or gains exactly what the report it received says, whatever the message delay, interface array sizes and energy option. The demand node takes the pressure, energy and mixture the supply reports. Demand flow is limited as the interface standard says, a forced role still reports its true state, roles and node volumes swap and return intact, and joined pressures settle.',
 'histories schedules configurations', 'All sequences of volume, conductance, blockage and source changes at fixed frames over all message delays, roles, mixtures, array sizes and energy options of two real networks.',
 'Tests feed one link hand-made data; conservation across two networks with delayed messages and both flow directions is not covered.',
 'core/GunnsFluidDistributedIf.cpp ms-utils/interop/Distributed2WayBusFluid.cpp ms-utils/interop/Distributed2WayBusBase.cpp core/GunnsFluidNode.cpp aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp',
 [('conversion of messages to fluid and back', 'core/GunnsFluidDistributedIf.cpp'), ('roles and demand limit', 'ms-utils/interop/Distributed2WayBusFluid.cpp')], ['node contents', 'interface messages'])
prop('C22', 'Heat exchangers, hatches and phase changing links transfer what their laws say',
 'A heat exchanger moves its fluid segment by segment, in the order of the flow, towards each wall temperature by the conductance its configuration, dynamic law, degradation and overrides give; the wall gains exactly the heat the fluid loses. A hatch adds diffusion of constituents along their own concentration differences and heat conduction between nodes with volume, never against bulk flow, and exactly what one side loses the other gains. Type change and phase change links deliver the flow they take as the other fluid type with the documented energy. Condensing heat exchangers take out of the stream exactly the water they report, leave no supersaturated outlet, and their separator pool, slurper and drum account for every gram of it.',
 'histories configurations', 'All sequences up to a depth of wall, degradation, blockage, override, flow direction, motor, transfer and malfunction changes for each link, mixture and segment count in a real network.',
 'Tests call updateFluid of one link once with hand-set nodes; mass and energy balance over histories and reversed flow is not covered.',
 'aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp aspects/fluid/conductor/GunnsFluidHxDynHtc.cpp aspects/fluid/conductor/GunnsFluidHatch.cpp aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp aspects/fluid/conductor/GunnsFluidPhaseChangeConductor.cpp aspects/fluid/conductor/GunnsFluidCondensingHx.cpp aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.cpp core/GunnsFluidUtils.cpp',
 [('segment heat', 'aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp'), ('diffusion and conduction', 'aspects/fluid/conductor/GunnsFluidHatch.cpp'), ('condensation and separator', 'aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.cpp')], ['node contents', 'wall heat', 'condensate pools'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; diffusion is compared within the tolerance its last-state dependence needs.')
prop('C26', 'Fluid processing links account for every gram and joule they take or make',
 'Adsorbers, separators, reactors, fuel-cell redox links, heaters and selective membranes change the flow they treat only by what they report: the constituents, trace compounds and enthalpy that leave one port are exactly what enters the others, is stored in or released from the bed or collector, or is converted by the stated reaction. Removal follows efficiency, partial pressures and capacity; bed loads, offgas, separated water and fuel trips follow their laws; heat of reaction, adsorption and phase change goes to the wall or fluid that the documentation names. Reversed, zero and blocked flow, malfunctions and their removal leave nothing behind.',
 'histories configurations', 'All sequences up to a depth of demand, flow direction, blockage, bed, power, malfunction and wall changes for each link, mixture and port arrangement in a real network.',
 'Tests call updateFluid of one link once with hand-set nodes; reversed flow, stale sources and mass balance over histories are not covered.',
 'aspects/fluid/source/GunnsFluidAdsorber.cpp aspects/fluid/source/GunnsFluidHotAdsorber.cpp aspects/fluid/source/GunnsFluidMultiAdsorber.cpp aspects/fluid/source/GunnsFluidSeparatorGas.cpp aspects/fluid/source/GunnsFluidSeparatorLiquid.cpp aspects/fluid/source/GunnsFluidMultiSeparator.cpp aspects/fluid/source/GunnsFluidReactor.cpp aspects/fluid/source/GunnsFluidHotReactor.cpp aspects/fluid/source/GunnsFluidSimpleH2Redox.cpp aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp aspects/fluid/source/GunnsFluidHeater.cpp',
 [('adsorption', 'aspects/fluid/source/GunnsFluidAdsorber.cpp'), ('separation', 'aspects/fluid/source/GunnsFluidMultiSeparator.cpp'), ('reaction', 'aspects/fluid/source/GunnsFluidReactor.cpp')], ['node contents', 'bed loads and rates', 'wall heat'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; trace adsorption is not limited to capacity, as documented.')
prop('C29', 'Crews, fires, evaporation, phase change and boundary sources balance',
 'The people, fires, pools and boundary sources attached to a node add to it and take from it exactly what their rates say: each crew member in each activity state consumes oxygen and gives off carbon dioxide, water, trace gases and heat at that state\'s rates, all together never more oxygen than there is, and moving crew between states neither makes nor loses anyone. A fire burns by its heat and goes out for good below its oxygen limit, leaving no flow behind. A boundary source delivers its mixture, trace compounds, temperature and heat, or their overrides, with its sign and blockage. Phase change turns exactly the mass its power pays for; evaporation follows the vapor potential and pool mass, never takes more than the pool has, and the pool loses what the gas gains.',
 'histories configurations', 'All sequences up to a depth of state transitions, bias, blockage, fire, override, demand, power and step size events for each kind of source, network mixture and set of trace compounds.',
 'Tests call single methods of one link with hand-set nodes; what a network with these sources gains over histories is not covered.',
 'aspects/fluid/source/GunnsFluidMetabolic.cpp aspects/fluid/source/GunnsFluidMetabolic2.cpp aspects/fluid/source/GunnsFluidMetabolic3.cpp aspects/fluid/source/GunnsFluidFireSource.cpp aspects/fluid/source/GunnsFluidSourceBoundary.cpp aspects/fluid/source/GunnsFluidPhaseChangeSource.cpp aspects/fluid/source/GunnsFluidEvaporation.cpp core/GunnsFluidSource.cpp',
 [('crew rates', 'aspects/fluid/source/GunnsFluidMetabolic2.cpp'), ('fire', 'aspects/fluid/source/GunnsFluidFireSource.cpp'), ('evaporation', 'aspects/fluid/source/GunnsFluidEvaporation.cpp')], ['node contents', 'reported rates', 'pool mass'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; a crew that consumes more mass than it gives off is outside the model.')
prop('C23', 'Fluid links and nodes follow their flow and thermodynamic laws in every step',
 'Every conductor passes the molar flow its conductivity, exponent, blockage and the pressures at its ends give; sources and potentials deliver their demand and pressure; tuning makes the conductance that gives the tuned mass or volume flow. Volumes change pressure by exactly what net flow, compression of their volume and change of temperature make, corrected until pressure and mass agree, and report the flows their links carry. Fluid that expands through a link or within a node cools isentropically as scaled. Thermal damping slows only the temperature and stores the heat; an edited volume takes on mass at its density. Nothing depends on the step size beyond the integration.',
 'histories inputs', 'All sequences up to a depth of tuning, blockage, conductivity, source, volume, edit and heat events for gas and liquid, expansion, damping, junction, exponent and second-link choices, with two step sizes.',
 'Tests check one link or node for one state; laws over histories of a solved network, with tuning and volume changes combined, are not covered.',
 'core/GunnsFluidConductor.cpp core/GunnsFluidCapacitor.cpp core/GunnsFluidPotential.cpp core/GunnsFluidSource.cpp core/GunnsFluidNode.cpp core/GunnsFluidLink.cpp core/GunnsFluidUtils.cpp',
 [('flow law', 'core/GunnsFluidUtils.cpp'), ('pressure and compression', 'core/GunnsFluidCapacitor.cpp'), ('mixing, expansion, damping', 'core/GunnsFluidNode.cpp')], ['link flows', 'node pressure and temperature', 'node flow reports'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; liquids are compared within the tolerance of their local compressibility.')
prop('C24', 'Fluid states, mixtures and streams stay consistent under every operation',
 'After any sequence of setters, edits, copies, stream additions and vessel mixing a fluid has mass and mole fractions that add to one and agree with its molecular weight, mass and moles, and once its temperature is set density, heat capacity, enthalpy, viscosity, conductivity, Prandtl number and adiabatic index are the weighted ones of its constituents at its temperature and pressure; fractions far from adding to one are refused. Added streams and mixed masses conserve mass, constituents, trace compounds and heat in any order. State functions of pure fluids are inverses of each other and monotonic. Flow admittance, capacitance, isentropic expansion, conduction, humidity, friction and convection laws hold and conversions between mixtures invert each other.',
 'histories inputs', 'All sequences up to a depth of state operations on a mixture, sums of streams of every temperature, composition and sign, vessel operations with trace compounds, and all pairs of states on a grid for the derived laws.',
 'Tests compare single calls with stored numbers; orders of operations and the identities between the functions are not covered.',
 'aspects/fluid/fluid/PolyFluid.cpp aspects/fluid/fluid/MonoFluid.cpp aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp core/GunnsFluidUtils.cpp ms-utils/properties/FluidProperties.cpp',
 [('mixing and fractions', 'aspects/fluid/fluid/PolyFluid.cpp'), ('trace compounds', 'aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp'), ('flow, expansion and heat laws', 'core/GunnsFluidUtils.cpp')], ['fluid state and composition', 'trace compound amounts', 'admittance, temperature and heat flux'],
 note='@exhaustive exploration of operation sequences on the real fluid objects against an independent mixture model@Every sequence up to the depth on a grid of states; liquids within the accuracy of their property fits; the turbulent friction factor has a known finding.')
prop('C28', 'Tanks, balloons and accumulators hold what they are given and edited to',
 'A tank goes to every commanded temperature, total and partial pressure at the commanded rate, holds it for the hold time and stops, with the mixture its partial pressures give and its shell exchanging only the heat its conductance gives. A balloon inflates and deflates with its content between empty and full, holds the ambient pressure in between, takes no volume beyond its limits, and edits only its own content. An accumulator keeps its two sides in balance over its spring or gas: the bellows move by exactly the volume that flowed, inside their stroke; stick, rupture and edit commands move bellows and pressure at the commanded rates to the commanded values; mass is kept, created only by edits.',
 'histories configurations', 'All sequences up to a depth of edits, holds, malfunctions, demand changes, heat and valve changes for tank, balloon, spring and gas accumulators in a real network.',
 'Tests set state and call one update method; competing edits, edits during malfunctions and conservation over histories are not covered.',
 'aspects/fluid/capacitor/GunnsFluidTank.cpp aspects/fluid/capacitor/GunnsFluidBalloon.cpp aspects/fluid/capacitor/GunnsFluidAccum.cpp aspects/fluid/capacitor/GunnsFluidAccumGas.cpp',
 [('edit groups', 'aspects/fluid/capacitor/GunnsFluidTank.cpp'), ('inflation', 'aspects/fluid/capacitor/GunnsFluidBalloon.cpp'), ('bellows and chamber', 'aspects/fluid/capacitor/GunnsFluidAccum.cpp')], ['node contents', 'bellows position', 'chamber pressures'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; edit hold timers are bounded, not exact, when edits follow each other at once.')
prop('C56', 'Solar cells, arrays and their regulators follow their I-V laws and lose no power',
 'For every history of light, shade, angle, temperature, degradation, failed groups, load, back voltage, enable, bias and trip events, cells and strings have the open-circuit, short-circuit and maximum-power points of their cell model and every load puts them on their current-voltage line, a string loaded at a power gives that power on the chosen side of its maximum; sections give strings the light of their angle, shade and malfunction and sum their power; an array in a network gives exactly the current of its line at the bus voltage (or of its strings); the converter regulator takes from the array what it gives to the bus over its efficiency, regulates when it can, sags along the array line when it cannot and is off without power, enable or after a trip; the shunt regulator loads strings in its order, shunts the rest and turns all lost power into heat; malfunctions ramp in and out and end.',
 'histories configurations', 'All sequences up to a depth of events on real strings, sections, arrays and regulators in real solved networks, for both cell models.',
 'Tests set state and call one method at one load; sequences of events, off-design loads and the coupled network solution are not covered.',
 'aspects/electrical/SolarArray/GunnsElectPvString.cpp aspects/electrical/SolarArray/GunnsElectPvString2.cpp aspects/electrical/SolarArray/GunnsElectPvSection.cpp aspects/electrical/SolarArray/GunnsElectPvArray.cpp aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp',
 [('string laws', 'aspects/electrical/SolarArray/GunnsElectPvString.cpp'), ('regulator states', 'aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp'), ('string loading order', 'aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp')], ['terminal voltage, current and power', 'bus voltage', 'regulator state and heat'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent oracle of the lines@Every event sequence up to the depth; steps whose minor steps do not settle are pruned; version-2 currents within the documented 3 % of the Lambert W approximation.')
prop('C25', 'Fans, pumps, turbines, shafts and rockets follow their performance laws',
 'Fans and centrifugal pumps give in every step the pressure at which their curve, scaled by speed and density, meets the filtered system curve, and settle on that curve; displacement pumps move exactly their cycle volume; turbines pass the flow and take the power of their maps between the two configured speeds; rockets pass the flow, thrust, exit state and Mach number of an ideal nozzle of their area ratio, burning only when fed and lit. Impellers turn at motor speed over gear ratio, torque times speed is the power, walls get only the heat their film carries, check valves, blockage and cavitation act as commanded and leave nothing behind, and a drive shaft changes speed by exactly the sum of torques over its inertia. Pressure heads follow column, density and acceleration.',
 'histories configurations', 'All sequences up to a depth of speed, wall, area, check valve, blockage, load, pressure, cavitation, ignition, jam and override events for each machine, curve, gear and filter in a real network.',
 'Tests call one machine once with hand-set nodes; the feedback between machine, system and filter over a history of changes is not covered.',
 'aspects/fluid/potential/GunnsGasFan.cpp aspects/fluid/potential/GunnsGasFanCurve.cpp aspects/fluid/potential/GunnsLiquidCentrifugalPump.cpp aspects/fluid/potential/GunnsPumpCavitation.cpp aspects/fluid/potential/GunnsFluidPressureHead.cpp aspects/fluid/conductor/GunnsGasTurbine.cpp aspects/fluid/conductor/GunnsDriveShaftSpotter.cpp aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp aspects/fluid/source/GunnsGasDisplacementPump.cpp aspects/fluid/source/GunnsLiquidDisplacementPump.cpp',
 [('fan curve and affinity', 'aspects/fluid/potential/GunnsGasFan.cpp'), ('turbine map', 'aspects/fluid/conductor/GunnsGasTurbine.cpp'), ('shaft torques', 'aspects/fluid/conductor/GunnsDriveShaftSpotter.cpp'), ('nozzle', 'aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp')], ['source pressure', 'link flows', 'torque, power and thrust', 'shaft speed'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; steps whose cavitation adds random noise are only range-checked.')
prop('C80', 'Tables, fits, root finders and conversions return what they define',
 'A linear or bilinear table, forward or reversed, ascending or descending, of any size, returns the interpolation of its cell for every query inside it and its edge outside, whatever was asked or loaded before; bad data is refused and leaves a usable object. Every curve fit returns its formula inside its range, refuses what is outside, has the limits it was given and is refused when its range holds a pole. Brent and Laguerre find roots to the tolerance asked for within their iteration limits or say they did not, Lambert W inverts w*exp(w) on each branch, ranges, limits, dead bands, roundings and unit conversions invert each other and honour their limits.',
 'histories inputs', 'All sequences up to a depth of queries and re-initializations over tables of every small size and direction, every fit over a grid of coefficients and ranges, every root finder over polynomials with enumerated roots.',
 'Tests query a few points of one table; the cached cell across queries, re-initialization, reversed and descending tables and pole checks are not covered.',
 'ms-utils/math/approximation/TsLinearInterpolator.cpp ms-utils/math/approximation/TsBilinearInterpolator.cpp ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp ms-utils/math/approximation/QuadraticRootFit.cpp ms-utils/math/root_finding/BrentMethod.cpp ms-utils/math/root_finding/LaguerreMethod.cpp ms-utils/math/elementary_functions/LambertW.cpp ms-utils/math/MsMath.cpp ms-utils/math/UnitConversion.cpp',
 [('cell lookup', 'ms-utils/math/approximation/TsLinearInterpolator.cpp'), ('reordering of tables', 'ms-utils/math/approximation/TsBilinearInterpolator.cpp'), ('bracketing', 'ms-utils/math/root_finding/BrentMethod.cpp')], ['returned value', 'refusal of data'],
 note='@exhaustive exploration of query and re-initialization sequences on the real objects against direct definitions@Every sequence up to the depth over enumerated tables, coefficients and roots; two fits have known findings in their pole checks.')
prop('C90', 'Attitudes, rotations and the rigid body obey rotation algebra and Newton-Euler',
 'Every Euler sequence gives the quaternion and matrix of its three rotations, and returns from any proper attitude, after any history and at its singular attitudes, angles of that same rotation; normalizing changes only the length; vector and matrix operations equal their definitions also when result and arguments are the same object. A rigid body accelerates as Newton and Euler give for its present mass, inertia, center of mass, angular velocity and the active loads, through any history of changes of them and restarts; what is handed to the integrator is the derivative of the state and after each step quaternion, matrix, Euler angles and speeds are those of one attitude. Impossible mass properties are refused at any time.',
 'histories inputs', 'All six sequences over a grid of attitudes with the singular ones and their neighbours and all paths of turns up to a depth; all histories up to a depth of load, mass property and restart events; all short integrated motions.',
 'The tests run one motion and assert nothing about the accelerations; offset centers of mass are not tested at all.',
 'aspects/dynamics/GunnsDynUtils.cpp aspects/dynamics/GunnsDynEulerBase.cpp aspects/dynamics/GunnsDynEuler123.cpp aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp aspects/dynamics/GunnsDynSingleRigidEom.cpp aspects/dynamics/GunnsDynSingleRigidMassProps.cpp',
 [('sequence angles', 'aspects/dynamics/GunnsDynEulerBase.cpp'), ('mass matrix and loads', 'aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp'), ('state after a step', 'aspects/dynamics/GunnsDynSingleRigidEom.cpp')], ['Euler angles, quaternion, matrix', 'accelerations', 'integrated state'],
 note='@exhaustive exploration of attitudes, turns and load histories on the real objects against independent rotation matrices and Newton-Euler equations about the center of mass@Every history up to the depth; within 1e-6 rad of a singular attitude the angles are those of the singular one.')
prop('C91', 'Monte Carlo optimizers search inside their ranges and lose no result',
 'For every random draw, cost function and order in which results come back, each run of the particle swarm or gradient descent gets a state inside the ranges of its variables; every cost goes to the particle or trial whose run it came from and to no other, a result of no run is refused; personal and global bests are the best costs seen with the states that had them; velocities and moves are those of the configured weights, limited to the maximum velocity and reflected at the range; a gradient step follows the steepest improving trial. The slave\'s cost is the weighted squared distance of all outputs from their targets over the run, its drivers follow their data, and it reaches the master with its run; a swarm saved to file continues where it was. Impossible configurations are refused.',
 'schedules inputs', 'All draws of a small alphabet, cost functions, swarm sizes and orders of results over several epochs; all interleavings of started and finished slave runs; every single fault in the configuration.',
 'Tests run one fixed seed in order; results that come back in another order and states at the range are not covered.',
 'core/optimization/GunnsOptimMonteCarlo.cpp core/optimization/GunnsOptimParticleSwarm.cpp core/optimization/GunnsOptimGradientDescent.cpp core/optimization/GunnsOptimFactory.cpp core/optimization/GunnsOptimBase.cpp',
 [('swarm moves and bests', 'core/optimization/GunnsOptimParticleSwarm.cpp'), ('trials and step', 'core/optimization/GunnsOptimGradientDescent.cpp'), ('exchange with slaves', 'core/optimization/GunnsOptimMonteCarlo.cpp')], ['states of the runs', 'best state and cost', 'cost sent by a slave'],
 note='@exhaustive exploration of draws, costs and result orders on the real optimizers against an independent model@Every order within the bounds; epochs complete before the next starts, as documented.')
prop('C42', 'Orifices, flow controllers, equivalent networks and monitors tell the truth',
 'An orifice or detailed valve passes in every step the choked or unchoked ideal flow of its open throat area, discharge coefficient and Reynolds number, nothing when closed and its leak when told to leak. A flow controller passes the commanded flow, or its malfunction value, whenever the pressures allow it and never lets flow back that it may not control. A conductor that stands for another network passes the average of the demanded flows at the drop they were demanded for, takes the rest out as leak, and carries its source\'s mixture at the temperature the other network returns; all masses balance. Sensors, humidity sensors and volume monitors show the state of their node, and integrated flows are, for each constituent, exactly the masses carried.',
 'histories configurations', 'All sequences up to a depth of position, blockage, leak, command, demand, pressure and port events for each kind of link, phase, coefficient type and direction of flow in real networks.',
 'Tests call one link once with hand-set nodes; mass balance of the coupled network and histories of malfunctions are not covered.',
 'aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.cpp aspects/fluid/hi-fi/GunnsFluidHiFiValve.cpp aspects/fluid/conductor/GunnsFluidEqConductor.cpp core/GunnsFluidFlowController.cpp core/GunnsBasicFlowController.cpp core/GunnsFluidFlowIntegrator.cpp core/GunnsFluidVolumeMonitor.cpp aspects/fluid/conductor/GunnsFluidSensor.cpp aspects/fluid/conductor/GunnsFluidLiquidWaterSensor.cpp',
 [('throat flow', 'aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.cpp'), ('equivalent conductance and leaks', 'aspects/fluid/conductor/GunnsFluidEqConductor.cpp'), ('controlled flow', 'core/GunnsFluidFlowController.cpp')], ['link flows', 'node contents', 'sensed and integrated values'],
 note='@exhaustive exploration of event sequences on the real links in real networks against an independent step oracle@Every event sequence up to the depth; an equivalent network that returns more than it takes is outside the documented assumptions.')
