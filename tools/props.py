#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property:
P(id, title, statement, over, text, why, files, mechanism, observe, state)"""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                "anchors": {"files": files.split(),
                            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                            "observe_at": observe if isinstance(observe, list) else [observe], "hook_needed": None}})

# ------------------------------------------------------------------------------------------- core solver
P("C01", "Every network solution balances flux at every node",
  "After every major step of a linear network, the flux that each link reports into and out of every non-ground node sums to zero (storage in capacitors included), and the node potentials equal the solution of the same circuit obtained independently. The result does not depend on the order in which links or nodes are listed. Each node's and link's reported in, out, net and through flow totals agree with the link fluxes.",
  "configurations histories",
  "all networks of conductors, capacitors, potential sources, flow sources and flow controllers on 1-12 nodes with any topology (including links to ground, parallel links and blocked links), any parameters over many decades, changed between steps, over multi-step histories",
  "the existing tests step each link alone or one or two fixed networks and compare with stored numbers; they never vary topology, order or parameter history",
  "core/Gunns.cpp core/GunnsBasicConductor.cpp core/GunnsBasicCapacitor.cpp core/GunnsBasicPotential.cpp core/GunnsBasicSource.cpp core/GunnsBasicFlowController.cpp core/GunnsBasicNode.cpp core/GunnsBasicFlowOrchestrator.cpp core/GunnsBasicLink.cpp core/GunnsBasicLink.hh",
  [("admittance matrix and source vector assembly", "Gunns::buildAdmittanceMatrix, buildSourceVector"), ("link rows", "buildConductance / buildCapacitance / buildSource of the basic links"), ("flow transport and bookkeeping", "transportFlux, GunnsBasicNode::collectFlux/integrateFlows, GunnsBasicFlowOrchestrator::update")],
  ["node potentials and fluxes", "link flux and delta potential"],
  [("mAdmittanceMatrix", "system of equations", "Gunns"), ("mPotentialVector", "node potentials", "Gunns")])
P("C02", "Network islands never change the answer",
  "The node potentials and link fluxes of a network are the same whether island handling is off, only finding islands, or solving each island on its own. When islands are determined, two nodes are in the same island exactly when links currently couple them.",
  "configurations histories", "all networks made of several possibly disconnected parts whose couplings open and close between steps, in every island mode, switching mode mid-run",
  "tests use one fixed network per mode; partition correctness depends on the graph and on its history",
  "core/Gunns.cpp core/GunnsBasicIslandAnalyzer.cpp core/GunnsFluidIslandAnalyzer.cpp ms-utils/math/linear_algebra/CholeskyLdu.cpp",
  [("island search and merge", "Gunns::buildIslands, mergeIslands"), ("per-island decomposition", "Gunns::solveCholesky, CholeskyLdu partition functions")],
  ["node potentials", "node island vectors"])
P("C03", "Minor-step iteration follows the convergence protocol",
  "Within a major step the solver re-steps non-linear links until every node has converged and every link confirms, honours each link's reject, delay and confirm answers, and never exceeds the configured minor-step and decomposition limits. When the network does not converge, the node potentials are those of the previous major step and the failure is counted; when it does, link flows are computed exactly once.",
  "schedules histories configurations", "all scripts of link answers (confirm, delay, reject at any minor step) and of admittance changes, for several links, with all small limits, over several major steps",
  "tests drive a handful of fixed scripts; the protocol is a function of the whole answer history of all links",
  "core/Gunns.cpp core/GunnsBasicLink.hh",
  [("minor step loop", "Gunns::iterateMinorSteps"), ("solution acceptance", "Gunns::confirmSolutionAcceptance, resetLinksToMinorStep, checkSystemConvergence")],
  ["calls received by links", "step counters", "node potentials"])
P("C04", "Run modes and life-cycle calls behave as documented",
  "A paused network changes nothing; a slave network takes exactly the potentials it is given; a dummy network takes them from its links; a network or link refuses to step before initialisation, to initialise twice or to initialise from invalid data, by raising its documented exception and staying uninitialised. Switching modes takes effect on the next step and leaves later solutions as if the mode had always been set.",
  "histories inputs", "all sequences of mode changes, steps, restarts and illegal calls, and all single-field corruptions of valid configuration data",
  "tests check each mode once, from a fresh object; mode sequences and restarts are unbounded",
  "core/Gunns.cpp core/GunnsBasicLink.cpp core/GunnsBasicConductor.cpp core/GunnsBasicCapacitor.cpp core/GunnsBasicPotential.cpp core/GunnsBasicSource.cpp",
  [("mode checks", "Gunns::checkStepInputs, step, solve mode switch"), ("validation", "Gunns::initialize, GunnsBasicLink::initialize and validate functions")],
  ["exceptions", "initialisation flags", "node potentials"])
P("C05", "Network capacitance is the response to a unit flow",
  "When a node asks for its network capacitance, the value reported equals the time step times added flow over the potential change that the same network would show if that flow were really added at that node. Asking does not change the solution.",
  "configurations inputs", "all linear networks, all subsets of nodes asking with any flux (including zero and negative), all island modes",
  "tests check one node of one network; the value couples the whole matrix",
  "core/Gunns.cpp core/GunnsBasicNode.cpp core/GunnsBasicNode.hh core/CholeskyLdu.cpp".replace("core/CholeskyLdu.cpp", "ms-utils/math/linear_algebra/CholeskyLdu.cpp"),
  [("perturbation solve", "Gunns::perturbNetworkCapacitances, computeNetworkCapacitances"), ("request", "GunnsBasicNode::setNetworkCapacitanceRequest")],
  ["node network capacitance and delta potential"])
P("C06", "Re-mapping link ports gives the network that the new map describes",
  "After any accepted sequence of run-time port changes the network solves as a freshly built network with the final port map, and a rejected change leaves the map unchanged and is reported as failed. A restart returns every port to its default node.",
  "histories inputs", "all sequences of valid and invalid port commands (direct calls and user commands) interleaved with steps",
  "tests move one port once; stale rows or maps appear only after particular sequences",
  "core/GunnsBasicLink.cpp core/GunnsBasicLink.hh core/GunnsFluidLink.cpp core/Gunns.cpp",
  [("port command processing", "GunnsBasicLink::processUserPortCommand, setPort, restart"), ("admittance map", "GunnsBasicLink::createAdmittanceMap")],
  ["node map", "port command feedback", "node potentials"])
# ------------------------------------------------------------------------------------------- fluid core
P("C07", "Fluid networks conserve the mass of every compound",
  "Over any step, the change of the mass of each fluid constituent stored in a fluid network's nodes equals the mass that sources and boundary links brought in minus what they took out. No compound appears or disappears inside the network, whatever the flow pattern that draws no more than the nodes hold, and trace compounds obey the same balance.",
  "configurations histories", "all networks of gas or liquid nodes with conductors, potentials, sources, flow controllers, check valves and capacitors to ground or boundary, all mixtures, trace compounds, time steps and parameter changes, over multi-step histories",
  "tests look at single links or one fixed network against stored values; conservation is a statement about every topology and history",
  "core/GunnsFluidNode.cpp core/GunnsFluidLink.cpp core/GunnsFluidConductor.cpp core/GunnsFluidCapacitor.cpp core/GunnsFluidPotential.cpp core/GunnsFluidSource.cpp core/GunnsFluidFlowOrchestrator.cpp core/GunnsFluidFlowController.cpp aspects/fluid/fluid/PolyFluid.cpp aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp",
  [("node mass integration", "GunnsFluidNode::integrateFlows"), ("flow mixing", "GunnsFluidNode::collectInflux, PolyFluid::addState"), ("transport order", "GunnsFluidFlowOrchestrator::update")],
  ["node content masses per compound", "link flow rates"],
  [("mMass", "node contents mass", "PolyFluid"), ("mMassFraction", "mixture", "PolyFluid")])
P("C08", "Fluid networks conserve energy",
  "Over any step, the change of total enthalpy of the contents of a closed fluid network equals the enthalpy carried in by sources and boundaries, plus heat added to nodes, plus the work terms the model documents; mixing flows never creates a temperature outside the range of the streams being mixed. Heat applied to a node appears as the corresponding enthalpy change of its contents.",
  "configurations histories", "all fluid networks as in mass conservation, with heat fluxes, and with gas expansion effects disabled where an exact balance is asserted",
  "tests compare single numbers; the balance must hold for every mixture, topology and history",
  "core/GunnsFluidNode.cpp core/GunnsFluidConductor.cpp core/GunnsFluidFlowOrchestrator.cpp aspects/fluid/fluid/PolyFluid.cpp",
  [("node energy integration", "GunnsFluidNode::integrateFlows, updateThermalCapacitance/damping"), ("mixture enthalpy", "PolyFluid::addState, setSpecificEnthalpy")],
  ["node temperature, mass and specific enthalpy"])
P("C09", "Fluid states always stay physically valid",
  "At every step of every fluid network run, each node's temperature, pressure, density, mass and mixture fractions are finite, temperature and density are positive, mass is never negative, and the mass and mole fractions each lie in [0,1] and sum to one and agree with each other. Node pressure, density, volume and mass are mutually consistent after the node updates.",
  "configurations histories inputs", "all fluid networks including draining nodes, zero-volume nodes, large steps, extreme boundary pressures, overflow and volume changes",
  "tests sample nominal states; invalid states come from unusual combinations such as a node drained in one step",
  "core/GunnsFluidNode.cpp core/GunnsFluidNode.hh aspects/fluid/fluid/PolyFluid.cpp core/GunnsFluidFlowOrchestrator.cpp",
  [("overflow protection", "GunnsFluidNode::integrateFlows, outflux scaling"), ("mixture normalisation", "PolyFluid::setMassAndMassFractions")],
  ["node contents"])
P("C10", "Flow orchestration serves every node and link, in dependency order",
  "In each step every link computes its flows once before any transport, every link's flow is transported exactly once and every node but ground is integrated exactly once, after all links that flow into it. A link flowing out of a node whose scheduled outflow exceeds its contents waits until that node has been integrated, so what it carries is the mixture after the node's inflows; only a cycle of such nodes, where nothing else can proceed, makes a link transport early. Results do not depend on the order in which links were added.",
  "configurations schedules", "all directed flow graphs of links and nodes including chains of empty-volume nodes, loops and flows reversing between steps",
  "tests use three nodes and fixed directions; the order depends on the whole flow graph",
  "core/GunnsFluidFlowOrchestrator.cpp core/GunnsBasicFlowOrchestrator.cpp core/GunnsFluidNode.cpp core/GunnsFluidLink.cpp core/GunnsBasicLink.hh",
  [("state machine of links and nodes", "GunnsFluidFlowOrchestrator::update, continueUpdate, computeNodesFlows")],
  ["transport calls", "node outflow mixture and temperature"])
P("C11", "Fluid mixture objects keep their properties mutually consistent",
  "For any mixture, temperature and pressure, the mass and mole fractions convert back and forth, temperature and specific enthalpy invert each other, molecular weight, density and specific heat equal the documented mixing rules of the constituents, and adding two streams conserves mass of each compound and enthalpy. Copying or resetting state from another mixture reproduces it exactly.",
  "inputs histories", "all subsets of supported compounds of a phase, all fractions including zero and one, all temperatures and pressures in the supported range, all sequences of state updates",
  "tests use two or three mixtures at one state; rules must hold over the whole state space and after any update sequence",
  "aspects/fluid/fluid/PolyFluid.cpp aspects/fluid/fluid/PolyFluid.hh aspects/fluid/fluid/MonoFluid.cpp",
  [("mixture updates", "PolyFluid::updateMoleFraction, setMassFraction, addState, setState"), ("enthalpy inversion", "PolyFluid::computeTemperature, computeSpecificEnthalpy")],
  ["mixture getters"])
P("C12", "Trace compounds ride with the bulk fluid and are conserved",
  "Trace compound masses and mole fractions stay mutually consistent and non-negative; mixing, flowing and removing trace compounds conserves the mass of each; and changing the bulk mass updates trace fractions without changing trace masses.",
  "inputs histories", "all sets of trace compounds and all sequences of set, add, limit and flow operations",
  "tests exercise two compounds and single calls",
  "aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp aspects/fluid/fluid/PolyFluid.cpp core/GunnsFluidNode.cpp",
  [("mass / fraction conversion", "GunnsFluidTraceCompounds::setMass, setMoleFraction, updateMass, updateMoleFractions, flowIn/flowOut")],
  ["trace compound masses and mole fractions"])
P("C13", "Fluid path resistance is passive, monotonic and blockable",
  "Flow through any passive fluid path (conductors, pipes, bends, valves, leaks and diffusion paths) goes from higher to lower pressure, or partial pressure for diffusion, is zero when it is closed, fully blocked or has no pressure difference, and grows (never shrinks) with pressure difference and with opening. Blockage, stuck and leak malfunctions have exactly their stated effect and none once cleared.",
  "inputs histories", "all conductors, pipes, valves, hatches, leaks, check valves and quick disconnects, all states, positions, malfunction values and pressures",
  "tests check a few numbers per link",
  "core/GunnsFluidConductor.cpp core/GunnsFluidUtils.cpp aspects/fluid/conductor/GunnsFluidValve.cpp aspects/fluid/conductor/GunnsFluidCheckValve.cpp aspects/fluid/conductor/GunnsFluidPipe.cpp aspects/fluid/conductor/GunnsFluidLeak.cpp aspects/fluid/conductor/GunnsFluidHatch.cpp aspects/fluid/conductor/GunnsFluidSimpleQd.cpp aspects/fluid/conductor/GunnsFluid3WayValve.cpp",
  [("linearised admittance", "GunnsFluidUtils::computeAdmittance, predictConductivity"), ("valve position", "GunnsFluidValve::updateState")],
  ["link flow rate and effective conductivity"])
P("C14", "Fluid properties are self-consistent over their supported range",
  "For every supported compound, density and pressure are inverse functions of each other at fixed temperature (for tabulated water and liquid oxygen, the density at the pressure of a density is that density), properties are finite, positive and continuous over the supported range, real gases tend to ideal ones at low pressure, saturation temperature and pressure invert each other, and every defined compound is registered with a consistent identity and molecular weight.",
  "inputs", "every compound in the database, all temperatures and pressures in its supported range",
  "tests check one point per compound",
  "ms-utils/properties/FluidProperties.cpp ms-utils/properties/FluidProperties.hh ms-utils/properties/FluidPropertiesDataWaterPvt.cpp ms-utils/properties/ChemicalCompound.cpp ms-utils/properties/FluidTsatFit.cpp ms-utils/properties/FluidHvapFit.cpp",
  [("property fits", "FluidProperties::getDensity, getPressure, getSaturationTemperature"), ("registry", "DefinedFluidProperties, DefinedChemicalCompounds")],
  ["property getters"])
P("C15", "Fluid utility conversions and mixing invert and normalise exactly",
  "Flow-law helpers invert each other: predicting the conductivity for a flow and computing the flow for that conductivity agree, in both flow directions, and friction and Nusselt correlations equal their published formulas. Heat exchange helpers never move heat against a temperature difference or overshoot equilibrium, mixing helpers return averages bounded by their inputs, and limiting, normalising and partial-pressure helpers meet their stated bounds.",
  "inputs", "all physically meaningful arguments of each helper, including zeros and equal pressures",
  "tests check a couple of numbers per helper",
  "core/GunnsFluidUtils.cpp core/GunnsFluidUtils.hh ms-utils/math/MsMath.hh",
  [("helpers", "GunnsFluidUtils")], ["return values"])
P("C16", "Editable fluid volumes honour edits and conserve everything else",
  "Setting a tank's temperature, pressure, mixture or volume, or ramping constituents' partial pressures at given rates, gives a node that has exactly the requested state, changes nothing that was not asked for, moves each constituent by its rate until its target and no further, and leaves the node valid. Accumulators keep liquid and gas volumes summing to the total, bellows position within its stops, flow throttled near the stops, liquid and gas mass, heat and mixture conserved, pressure following the gas and spring laws, and edits and stuck-bellows malfunctions moving the bellows at the limited rate. Balloons keep their volume on the wall law between empty and full.",
  "inputs histories", "all sequences of edits, volume changes, flows and malfunctions for capacitors, tanks, accumulators and balloons",
  "tests apply one edit at a time from one state",
  "core/GunnsFluidCapacitor.cpp aspects/fluid/capacitor/GunnsFluidTank.cpp aspects/fluid/capacitor/GunnsFluidAccum.cpp aspects/fluid/capacitor/GunnsFluidAccumGas.cpp aspects/fluid/capacitor/GunnsFluidBalloon.cpp",
  [("edits", "GunnsFluidTank::processInputs, editing functions; GunnsFluidCapacitor::editVolume"), ("accumulator state", "GunnsFluidAccum::updateState")],
  ["node contents", "accumulator volumes and pressure"])
P("C17", "Self-acting valves follow their pressure characteristic",
  "Relief and regulator valves move only within the band between their opening curve (from the crack pressure) and closing curve (from the reseat pressure), on the sensed control pressure including bias and compensation, never faster than the rate limit, never outside [0,1], holding inside the hysteresis band; stuck, fail-to, leak-through, blockage and bias malfunctions act as stated and vanish when cleared. A check valve's position follows the last pressure drop between its closing and opening drops and passes nothing below the closing drop, and the three-way check valve positions itself from the difference of its path pressure drops and dead band, fully to the path that leads by its own opening pressure, and its paths always sum to one. The balanced pressure-reducing valve holds the exit at the regulated pressure less droop, never passes backward flow, cuts off on back pressure until the exit falls below the set point, and takes from the inlet exactly what it has let out; wrong configurations are refused.",
  "histories inputs", "all pressure histories, configurations and malfunction sequences",
  "tests step each valve through a few fixed pressures",
  "aspects/fluid/conductor/GunnsFluidCheckValve.cpp aspects/fluid/conductor/GunnsFluidReliefValve.cpp aspects/fluid/conductor/GunnsFluidRegulatorValve.cpp aspects/fluid/conductor/GunnsFluidPressureSensitiveValve.cpp aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp aspects/fluid/conductor/GunnsFluid3WayValve.cpp aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp",
  [("valve state", "updateState of each valve")], ["valve position", "flow"])
P("C18", "Processing links move, store and convert matter by their stated laws",
  "Adsorbers (simple, heated, multi-compound), reactors, gas and multi-way separators, the detailed crew metabolism and boundary sources add to, remove from and exchange with the network exactly the compounds they report, including trace compounds and in either flow direction, and keep their stored inventories equal to the running balance of what they took and released, within their capacities. Each follows its stated rate law (efficiency, capacity, rate and partial-pressure limits, taper, dependence, saturation, stoichiometry, blockage and malfunctions), and reports the heat of its process with the right sign. Steps that draw more than a node holds, or leave no bulk carrier for the trace compounds, are outside the property.",
  "histories inputs", "all inlet mixtures, flow rates and directions, efficiencies, malfunctions and step histories for each device",
  "tests drive one mixture and a few steps",
  "aspects/fluid/source/GunnsFluidAdsorber.cpp aspects/fluid/source/GunnsFluidHotAdsorber.cpp aspects/fluid/source/GunnsFluidMultiAdsorber.cpp aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp aspects/fluid/source/GunnsFluidReactor.cpp aspects/fluid/source/GunnsFluidHotReactor.cpp aspects/fluid/source/GunnsFluidSeparatorGas.cpp aspects/fluid/source/GunnsFluidMultiSeparator.cpp aspects/fluid/source/GunnsFluidMetabolic3.cpp aspects/fluid/source/GunnsFluidSourceBoundary.cpp",
  [("transport", "transportFlows / updateFluid of each link")], ["node masses per compound", "device inventories"])
P("C19", "Heat exchange never violates the second law or creates energy",
  "Pipes, heat exchangers, condensers, phase-change conductors and fluid heaters move heat only from hot to cold, never past equilibrium, and the heat they report to their thermal side is exactly the heat taken from or given to the fluid. Blocked or dry paths exchange none.",
  "inputs histories", "all fluid states, flow rates, wall temperatures, segment counts and malfunctions",
  "tests check one temperature pair per device",
  "aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp aspects/fluid/conductor/GunnsFluidHxDynHtc.cpp aspects/fluid/conductor/GunnsFluidCondensingHx.cpp aspects/fluid/conductor/GunnsFluidPipe.cpp aspects/fluid/source/GunnsFluidHeater.cpp core/GunnsFluidUtils.cpp",
  [("segment heat transfer", "GunnsFluidHeatExchanger::updateFluid, segment loop"), ("convection", "GunnsFluidUtils::computeConvectiveHeatFlux")],
  ["heat fluxes", "outlet temperature"])
P("C20", "Fans and pumps obey their curves, affinity laws and power balance",
  "A fan or pump at any speed produces the pressure and flow of its reference curve scaled by the affinity laws, gives no pressure and no flow of its own at zero speed, and the shaft power it absorbs equals the fluid power plus losses it reports. Turbines and shafts balance torque the same way.",
  "inputs histories", "all valid curves, speeds, densities, system resistances and histories",
  "tests evaluate one curve at a few speeds",
  "aspects/fluid/potential/GunnsGasFan.cpp aspects/fluid/potential/GunnsGasFanCurve.cpp aspects/fluid/potential/GunnsLiquidCentrifugalPump.cpp aspects/fluid/potential/GunnsPumpCavitation.cpp aspects/fluid/source/GunnsGasDisplacementPump.cpp aspects/fluid/source/GunnsLiquidDisplacementPump.cpp aspects/fluid/conductor/GunnsGasTurbine.cpp aspects/fluid/conductor/GunnsDriveShaftSpotter.cpp aspects/fluid/potential/GunnsFluidPressureHead.cpp",
  [("curve evaluation", "GunnsGasFan::step, GunnsGasFanCurve")], ["pressure, flow, torque, power"])
P("C21", "Distributed interfaces agree on roles and neither lose nor create flow",
  "Two sides of a distributed fluid or electrical interface that exchange data with any fixed delay never settle both in the supply role or both in the demand role, hand over roles only in the documented way, and what one side reports leaving arrives at the other. Corrupted or stopped data is detected and does not corrupt the local side.",
  "schedules fault_sequences histories", "all transport delays, frame rates, capacitance histories, forced roles, start orders and dropouts",
  "tests exercise single calls with hand-set data; the handshake is a protocol over message histories",
  "ms-utils/interop/Distributed2WayBusBase.cpp ms-utils/interop/Distributed2WayBusElect.cpp ms-utils/interop/Distributed2WayBusFluid.cpp core/GunnsFluidDistributedIf.cpp aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp",
  [("role handshake", "Distributed2WayBusFluid::update, Distributed2WayBusElect::update")], ["roles", "interface data", "flows"])
P("C22", "Sockets, jumpers and multi-link connectors connect exactly what was asked",
  "A jumper is attached to the node of the socket it is plugged into and to no other, one socket never accepts two jumpers, and unplugging returns both to their unconnected state. A connector that gangs several links moves every one of them to its own node.",
  "histories inputs", "all sequences of plug, unplug and move commands for several jumpers and sockets",
  "tests plug and unplug once",
  "core/GunnsBasicSocket.cpp core/GunnsBasicJumper.cpp core/GunnsBasicJumperPlug.cpp core/GunnsFluidSocket.cpp core/GunnsFluidJumper.cpp core/network/GunnsMultiLinkConnector.cpp",
  [("access control", "GunnsBasicSocket::accessSocket, GunnsBasicJumperPlug::updatePort")], ["port maps", "plug state"])
P("C23", "External supply and demand pairs join networks as one",
  "What the demand side of an external supply and demand pair takes from or returns to its network, in mass, mixture, trace compounds and energy, is what the supply side gives or receives one exchange later, and two networks so joined settle to the state of one network in which the pair is a conductor. A super network behaves at every step and after restarts as one network made of its sub-networks and their joints. An active shadow link holds its node at its source's state and an inactive one leaves it alone.",
  "configurations histories", "all pairs of networks, exchange orders and histories",
  "tests check each half on its own",
  "core/GunnsFluidExternalDemand.cpp core/GunnsFluidExternalSupply.cpp core/GunnsBasicExternalDemand.cpp core/GunnsBasicExternalSupply.cpp core/network/GunnsSuperNetworkBase.cpp core/network/GunnsFluidSuperNetwork.cpp core/network/GunnsBasicSuperNetwork.cpp core/GunnsFluidShadow.cpp",
  [("super network assembly", "GunnsSuperNetworkBase::initialize, combine functions")], ["node states of joined networks"])
# ------------------------------------------------------------------------------------------- electrical
P("C24", "Switches and trip logic follow their truth table for every history",
  "A switch conducts exactly when it is commanded closed, not tripped and not failed open (or is failed closed); a trip occurs exactly when its limit is exceeded on the converged minor step of its trip priority (lower numbers first) while trips are allowed, latches until reset (under- and over-voltage trips may reset themselves), and is not caused by a value within limits. Reported position, voltage, current and power agree with the circuit.",
  "histories inputs", "all sequences of commands, sensed values, trip limits, malfunctions, resets and minor-step rewinds",
  "tests walk a few transitions",
  "aspects/electrical/Switch/GunnsElectSwitchUtil.cpp aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp aspects/electrical/TripLogic/GunnsTripLogic.cpp aspects/electrical/Switch/Switch.cpp aspects/electrical/Switch/GunnsElectSelector.cpp",
  [("trip logic", "GunnsTripLogic::checkForTrip"), ("switch state", "GunnsElectSwitchUtil::updateState")],
  ["switch position", "trip flags", "conductance"])
P("C25", "Power converters and loads balance power",
  "For every converter, user load and power supply, input power equals output power plus the losses it reports; a constant power load draws its set power and a resistive load V squared over R; outputs hold the regulated set point within limits or report the limit or trip; powering off or tripping removes both output and input load; and a power bus draws and reports the sum of its loads.",
  "configurations histories", "all regulator types, set points, source networks, loads, efficiencies, limits, malfunctions and command sequences",
  "tests check hand-set states of a single link",
  "aspects/electrical/Converter/GunnsElectConverterInput.cpp aspects/electrical/Converter/GunnsElectConverterOutput.cpp aspects/electrical/UserLoad/GunnsElectConstantPowerUserLoad.cpp aspects/electrical/UserLoad/GunnsElectResistiveUserLoad.cpp aspects/electrical/UserLoad/ConstantPowerLoad.cpp aspects/electrical/UserLoad/ResistiveLoad.cpp aspects/electrical/UserLoad/UserLoadBase.cpp aspects/electrical/IPS/GunnsElectIps.cpp aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp aspects/electrical/Diode/GunnsElectRealDiode.cpp aspects/electrical/PowerBus/PowerBusElect.cpp aspects/electrical/resistive/GunnsResistiveLoad.cpp",
  [("input power", "GunnsElectConverterOutput::computeInputPower, GunnsElectConverterInput"), ("loads", "UserLoadBase and subclasses")],
  ["currents, voltages, powers, waste heat"])
P("C26", "Batteries count charge exactly and keep state of charge in range",
  "A battery's state of charge changes by exactly the charge passed through it over its capacity, never leaves [0,1], and its open-circuit voltage follows its table; charging and then discharging the same charge restores it. Live cells share current equally, cell malfunctions change only what they state, and the power delivered plus waste heat (runaway included) equals the chemical power.",
  "histories inputs", "all tables, cell counts and wiring, load histories and cell malfunctions",
  "tests do a few steps of one battery",
  "aspects/electrical/Batt/GunnsElectBattery.cpp aspects/electrical/Batt/GunnsElectBatteryCell.cpp",
  [("state of charge", "GunnsElectBatteryCell::updateSoc"), ("terminal law", "GunnsElectBattery::step, computeFlows")],
  ["state of charge, voltage, current"])
P("C27", "Photovoltaic arrays obey their current-voltage curve and shading rules",
  "Each string's current falls monotonically from short-circuit to open-circuit, with no current in darkness, no power beyond the maximum power point, and sections see exactly their share of light; shunt regulators deliver, shunt and waste never more than the array's power and leave unused less than one string's, converting regulators pass on what they take. Shading and cell malfunctions never increase output.",
  "inputs histories", "all array configurations, light, angle, temperature, loads and malfunctions",
  "tests check a few operating points of one array",
  "aspects/electrical/SolarArray/GunnsElectPvString.cpp aspects/electrical/SolarArray/GunnsElectPvString2.cpp aspects/electrical/SolarArray/GunnsElectPvSection.cpp aspects/electrical/SolarArray/GunnsElectPvArray.cpp aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp",
  [("string circuit", "GunnsElectPvString::loadAtVoltage/Current/Conductance"), ("section", "GunnsElectPvSection::step")],
  ["string currents, voltages and power"])
# ------------------------------------------------------------------------------------------- thermal / dynamics
P("C28", "Thermal networks conserve heat and cool toward equilibrium",
  "Heat leaving one thermal node arrives in others: stored energy changes by exactly the heat sources, heaters, panels and boundaries put in. Conduction and radiation always flow from hot to cold, an isolated network settles to a common temperature, and phase-change storage accounts for its heat of fusion.",
  "configurations histories", "all networks of thermal capacitors, conductors, radiation, heaters, panels, sources, potentials and phase-change batteries, with malfunctions and edits",
  "tests step single links or one fixed XML network",
  "aspects/thermal/GunnsThermalCapacitor.cpp aspects/thermal/GunnsThermalRadiation.cpp aspects/thermal/GunnsThermalHeater.cpp aspects/thermal/GunnsThermalPanel.cpp aspects/thermal/GunnsThermalMultiPanel.cpp aspects/thermal/GunnsThermalSource.cpp aspects/thermal/GunnsThermalPotential.cpp aspects/thermal/GunnsThermalPhaseChangeBattery.cpp aspects/thermal/GunnsThermalCapacitorHeatQueues.cpp",
  [("heat storage", "GunnsThermalCapacitor"), ("radiation linearisation", "GunnsThermalRadiation"), ("latent heat", "GunnsThermalPhaseChangeBattery")],
  ["node temperatures", "heat fluxes"])
P("C29", "A thermal network file builds exactly the network it describes",
  "Parsing a thermal network description yields every node, link and parameter it contains, with defaults where omitted, and no other; entries that lack data or name unknown nodes are left out alone, unreadable files and files without their data are rejected with an error, and nothing in a description crashes the parser. The built network steps as the same network built by hand, through heater power, miswired heaters, capacitance group scaling and checkpoint loads.",
  "inputs", "all generated descriptions with any sets of nodes, conductions, radiations, heaters, panels, potentials and sources, and random corruptions of them",
  "tests parse a few fixed files",
  "aspects/thermal/network/ThermFileParser.cpp aspects/thermal/network/ThermalNetwork.cpp ms-utils/parsing/tinyxml/tinyxmlparser.cpp",
  [("parsing", "ThermFileParser::initialize"), ("building", "ThermalNetwork::initialize")],
  ["parsed vectors", "node temperatures"])
P("C30", "Rigid body dynamics obey Newton-Euler and rotations stay consistent",
  "The accelerations computed for a rigid body satisfy Newton's and Euler's equations about its actual centre of mass for any valid mass properties, rates and loads; quaternions, matrices and Euler angles of every sequence convert to each other and back to the same rotation; free motion conserves momentum.",
  "inputs histories", "all mass properties, offsets, rates, applied forces and torques, all rotations including near-singular ones, all six Euler sequences",
  "tests use a few states",
  "aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp aspects/dynamics/GunnsDynSingleRigidEom.cpp aspects/dynamics/GunnsDynSingleRigidMassProps.cpp aspects/dynamics/GunnsDynUtils.cpp aspects/dynamics/GunnsDynEulerBase.cpp aspects/dynamics/GunnsDynEuler123.cpp aspects/dynamics/GunnsDynEuler321.cpp",
  [("equations of motion", "GunnsDynSingleRigidStateDeriv::update"), ("conversions", "GunnsDynUtils, GunnsDynEuler*")],
  ["accelerations", "quaternions, angles"])
# ------------------------------------------------------------------------------------------- ms-utils
P("C31", "Linear solvers solve the system they are given",
  "For every symmetric, diagonally dominant, positive-definite system (couplings of either sign), decomposition followed by solution returns the vector that satisfies the original system, partitioned solutions and the inverse agree with it, and a system that cannot be decomposed is refused. The iterative solver converges to the same vector or reports that it did not.",
  "inputs", "all sizes to 30, sparsity patterns, scales and partitions",
  "tests solve a few fixed matrices",
  "ms-utils/math/linear_algebra/CholeskyLdu.cpp ms-utils/math/linear_algebra/Sor.cpp",
  [("decomposition", "CholeskyLdu::Decompose, Solve, Invert; choleski_ldu.c"), ("iteration", "Sor::Update")], ["solution vectors"])
P("C32", "Root finders and special functions return true roots",
  "Every root returned satisfies its equation within tolerance and, where a bracket is given, lies in the bracket; failure to find one is reported. The product-log function satisfies its defining equation on both real branches, and its domain limits are enforced.",
  "inputs", "all polynomials and monotonic functions with known roots, all arguments in domain",
  "tests check a few polynomials",
  "ms-utils/math/root_finding/BrentMethod.cpp ms-utils/math/root_finding/LaguerreMethod.cpp ms-utils/math/elementary_functions/LambertW.cpp ms-utils/math/root_finding/BrentMethod.hh",
  [("solve loops", "BrentMethod::solve, LaguerreMethod::solve, LambertW")], ["returned roots"])
P("C33", "Approximations reproduce their data and stay inside their range",
  "Table interpolators return the table value at every table point, stay between neighbouring values in between, and are continuous; curve fits pass through the points they were built from and equal their formula; inputs outside the valid range are clamped to it; reverse interpolation inverts forward interpolation.",
  "inputs", "all tables, coefficients and points, inside and outside the range",
  "tests check a few points per fit",
  "ms-utils/math/approximation/TsApproximation.cpp ms-utils/math/approximation/TsLinearInterpolator.cpp ms-utils/math/approximation/TsBilinearInterpolator.cpp ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp ms-utils/math/approximation/QuadraticFit.cpp ms-utils/math/approximation/LinearFit.cpp ms-utils/math/MsMath.hh",
  [("evaluation and clamping", "TsApproximation::get, evaluate"), ("interpolation", "TsLinearInterpolator, TsBilinearInterpolator")], ["returned values"])
P("C34", "Unit conversions, time, random and queue helpers are exact and bounded",
  "Every pair of unit conversions inverts and matches the defining factor; random generators stay within their stated range, repeat for a given seed and have the stated distribution; geometric intersection agrees with exact arithmetic; queue helpers pick the documented element.",
  "inputs", "all values, units, seeds, ranges and segments",
  "tests check one value per unit",
  "ms-utils/math/UnitConversion.cpp ms-utils/math/UnitConversion.hh ms-utils/math/TS_random.cpp ms-utils/math/time/Time.cpp ms-utils/math/MsMath.hh ms-utils/math/intersect/LineSegmentIntersect.cpp ms-utils/software/SimBus/SimBusQutils.cpp",
  [("factors", "UnitConversion"), ("generators", "TS_random")], ["returned values"])
P("C35", "XML documents survive a parse, print and re-parse unchanged",
  "Any document built through the XML interface prints to text that parses back to the same elements, attributes and text (white space condensed, blank text dropped); parsing arbitrary bytes either succeeds or reports an error without crashing, hanging or touching memory it does not own; and parsing what was printed prints the same again.",
  "inputs", "all document trees with any attribute and text content, and arbitrary byte strings",
  "tests parse a few fixed files",
  "ms-utils/parsing/tinyxml/tinyxml.cpp ms-utils/parsing/tinyxml/tinyxmlparser.cpp ms-utils/parsing/tinyxml/tinystr.cpp",
  [("parser", "TiXmlDocument::Parse and node Parse functions"), ("printer", "TiXmlPrinter, Print")], ["document tree", "printed text"])
P("C36", "Text and file helpers extract exactly the requested values",
  "ParseTool trims, splits, converts numbers and reads lines exactly as documented (removed characters, comments, blank lines, over-long lines, unreadable files reported), and XmlFileSearch returns exactly the non-hidden regular *.xml files of the directory, or reports that there are none or too many.",
  "inputs", "all generated texts, numbers, line lists and directories",
  "tests check a few fixed documents",
  "ms-utils/parsing/ParseTool.cpp ms-utils/parsing/ParseTool.hh ms-utils/fileSearch/XmlFileSearch.cpp",
  [("tag access", "ParseTool"), ("search", "XmlFileSearch")], ["returned values", "exceptions"])
P("C37", "Chemical reactions and combustion conserve mass and atoms",
  "Every defined reaction balances in atoms and mass, equilibrium combustion products carry the same atoms as the reactants with non-negative fractions summing to one, and no reaction consumes more reactant than there is.",
  "inputs", "all defined reactions and all reactant mixtures, temperatures and pressures in the supported range",
  "tests check one mixture per reaction",
  "ms-utils/properties/ChemicalReaction.cpp ms-utils/properties/ChemicalCompound.cpp ms-utils/properties/Combust.cpp ms-utils/properties/CombustCH4.cpp ms-utils/properties/SorbantProperties.cpp ms-utils/properties/CombustFactory.cpp",
  [("stoichiometry", "DefinedChemicalReactions"), ("equilibrium", "Combust::updateX, Newton iteration")], ["products and masses"])
P("C38", "Message queue, filter and log deliver messages once, in order, bounded and timed",
  "Messages come out of the health and status queue in the order they went in, each once, only the oldest being dropped (and counted) when it overflows or shrinks, also with several threads; the standard filter suppresses exactly the messages of disabled types and the repeats (same file, line, function, subsystem and text, whatever their type) beyond the configured count within the interval, forgetting only the oldest message when its history is full; the manager and the text log write every message that passes exactly once; the configuration file and the termination list act as written; the mission clock's days, hours, minutes and seconds add up to its time, before launch too. Texts with '|' are excluded.",
  "histories schedules", "all sequences of inserts, removals, resizes, times, filter settings and threads",
  "tests do a few inserts",
  "ms-utils/simulation/hs/TsHsMsgQueue.cpp ms-utils/simulation/hs/TsHsMsgStdFilter.cpp ms-utils/simulation/hs/TsHsMsgFilter.cpp ms-utils/simulation/hs/TsHsStdMngr.cpp ms-utils/simulation/hs/TsHsTextPlugin.cpp ms-utils/simulation/hs/TsHsConfig.cpp ms-utils/simulation/hs/TsHsTermination.cpp ms-utils/simulation/timer/TS_timer.c",
  [("ring buffer", "TsHsMsgQueue"), ("redundancy filter", "TsHsMsgStdFilter"), ("clock", "TS_timer_update")], ["messages out", "clock fields"])
# ------------------------------------------------------------------------------------------- ts-models
P("C39", "Sensors report truth plus exactly the commanded errors, within range",
  "An analog sensor reports its truth input, converted, scaled, biased, drifted, disturbed by its noise and quantised as configured and limited to its range; each malfunction has exactly its stated effect, with the precedence perfect, then unpowered or failed off, then fail-to-value, then stuck, and none after it is cleared; an unpowered sensor reports its off value. Boolean sensors, valve open/close pairs and limit switches trigger exactly within their tolerance of (or beyond) their target; a fan reports the average of its three sensors; a smoke detector follows its smoke level, built-in test and configured voltage conversion; sensor noise is bounded, unbiased, reproducible and bell-shaped; the network wrapper updates its sensor once per step; fluid sensors report the state of the node they read, and the water sensor its humidity and dew point. Degenerate configurations are rejected.",
  "histories inputs", "all configurations, truth histories, malfunction combinations and timings for analog, boolean, fan-speed, limit-switch, smoke and fluid sensors",
  "tests check each malfunction on its own",
  "gunns-ts-models/common/sensors/SensorAnalog.cpp gunns-ts-models/common/sensors/SensorBase.cpp gunns-ts-models/common/sensors/SensorBooleanAi.cpp gunns-ts-models/common/sensors/SensorBooleanBi.cpp gunns-ts-models/common/sensors/SensorVlvOpenClose.cpp gunns-ts-models/common/sensors/TsLimitSwitch.cpp gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp gunns-ts-models/common/sensors/TsFanSpeedSensors.cpp gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp gunns-ts-models/common/sensors/TsNoise.cpp core/GunnsSensorAnalogWrapper.cpp aspects/fluid/conductor/GunnsFluidSensor.cpp aspects/fluid/conductor/GunnsFluidLiquidWaterSensor.cpp",
  [("sensor update", "SensorBase::sense, SensorAnalog::processOutput")], ["sensed output"])
P("C40", "Valve, motor and loop controllers move only as commanded and stay in range",
  "Plain, powered, open-close, speed, position, toggle, dual-solenoid and T valve controllers and the valve assemblies keep positions within [0,1], move only when enabled and powered, at no more than the configured rate and toward the command, and stop at the sensed end of travel (minimum and maximum commands distinct); the PID loop controller's output equals its control law clamped to its limits; thermostats switch only across their set points; DC and pump motors and the pump motor controller follow their supply and command; stuck and fail-to malfunctions hold exactly the stated position.",
  "histories inputs", "all command, power, sensor and malfunction histories and configurations",
  "tests do a few updates per controller",
  "gunns-ts-models/common/controllers/fluid/TsValveController.cpp gunns-ts-models/common/controllers/fluid/TsPoweredValveController.cpp gunns-ts-models/common/controllers/fluid/TsOpenCloseValveController.cpp gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp gunns-ts-models/common/controllers/fluid/TsSpeedValveController.cpp gunns-ts-models/common/controllers/fluid/TsToggleValveController.cpp gunns-ts-models/common/controllers/fluid/TsDualSolenoidValveController.cpp gunns-ts-models/common/controllers/fluid/TsTValveController.cpp gunns-ts-models/common/controllers/generic/TsPidController.cpp gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp",
  [("update", "update functions of each controller")], ["positions, outputs"])
P("C41", "Optimisers evaluate points in bounds and report the best one evaluated",
  "Each optimiser evaluates only points inside the configured bounds, with every constrained input equal to its constraint function of that same point, in the configured number of runs, whatever order the costs of a round of runs come back in. The particle swarm reports as global and personal best the lowest-cost state evaluated with that state's cost, moves each particle by its limited inertia, cognitive and social velocity and bounces it off the bounds, gives the same run for the same seed, and resumes from its state file; the gradient descent perturbs each variable by 0.1% and steps down the better gradient; its state file holds the state propagated last. Monte Carlo slave runs follow their driver data and return the weighted squared error against scalar or trajectory targets; wrong configurations are refused.",
  "histories configurations", "all configurations, bounds and cost landscapes of each optimiser",
  "tests walk one fixed landscape",
  "core/optimization/GunnsOptimGradientDescent.cpp core/optimization/GunnsOptimParticleSwarm.cpp core/optimization/GunnsOptimMonteCarlo.cpp core/optimization/GunnsOptimBase.cpp",
  [("search loops", "update functions of each optimiser")], ["states evaluated", "reported best"])
P("C42", "Drawings export to the network they depict",
  "Exporting a network drawing yields code that contains every link, spotter, socket list, data table, fluid and node of the drawing exactly once with its data, each link port on the node it is drawn to (unconnected optional ports on ground), nodes numbered consecutively with ground last, reference nodes following, jumpers after the other links, whatever the order and layout of shapes. Shape data missing, renumbered or obsolete against the shape libraries is brought up to date keeping drawn values, sub-network interface boxes record their connections, and exporting the saved drawing again changes neither code nor drawing. Bare, plain and compressed files export alike, compression round-trips, and a drawing with a fault is refused with a message before any code is written.",
  "inputs configurations", "all generated drawings of nodes, links, spotters and connections, and single corruptions of them",
  "there are no tests for the drawing scripts at all",
  "draw/netexport.py draw/modules/compression.py draw/modules/shapeLibs.py draw/modules/xmlUtils.py draw/templates/BasicNetworkHeaderTemplate.py draw/templates/BasicNetworkBodyTemplate.py draw/templates/FluidNetworkBodyTemplate.py draw/templates/FluidNetworkHeaderTemplate.py",
  [("node numbering and link ports", "draw/netexport.py"), ("compression", "draw/modules/compression.py")], ["exported source files"])
P("C43", "Debug step logs and spotters observe without disturbing",
  "A minor-step log file holds, oldest first, exactly the last configured number of minor steps recorded since recording began, each with its counters, solver result (SUCCESS, CONFIRM, REJECT, DELAY or the limit exceeded), potentials, node convergences and every link's answer and contributions; files are written on command, and in automatic mode after each step that is not a success, and only then. Flow integrators hold the running totals, per fluid, of flow through their link with the mixture of the upstream node, volume monitors report the watched node's present contents, and wrapped sensors read as a bare sensor updated before or after the solution as flagged. A network with logs and spotters runs bit for bit like one without.",
  "histories configurations", "all networks, log modes, sizes and step sequences",
  "tests check one log of a fixed network",
  "core/GunnsMinorStepLog.cpp core/Gunns.cpp core/GunnsFluidFlowIntegrator.cpp core/GunnsFluidVolumeMonitor.cpp core/GunnsNetworkSpotter.cpp core/GunnsSensorAnalogWrapper.cpp",
  [("logging", "Gunns::iterateMinorSteps, GunnsMinorStepLog::beginMajorStep"), ("totals", "GunnsFluidFlowIntegrator::stepPostSolver")], ["log file text", "totals"])
P("C44", "Crew, fire, fuel-cell, membrane and vapour links exchange as stated",
  "The simple and the trace-compound crew metabolism, the fire source, the hydrogen redox cell, the selective membrane, the phase-change source and the evaporation link change each fluid and trace compound of each node by exactly their stated rates, whatever the mixtures in the nodes and in the boundary node, and leave other nodes alone. Oxygen use never exceeds what the node holds, a fire goes out below its oxygen pressure, the cell trips without reactants, the membrane passes vapour only down its partial-pressure difference and within the flow that carries it, and evaporation stops at saturation or when the pool is empty. Crew transitions, malfunctions, blockage, heat and voltage follow the same laws; steps that draw more than a node holds are outside the property.",
  "histories inputs", "all mixtures, crew populations and transitions, currents, powers, pressures, malfunctions and step histories",
  "tests drive one mixture and a few steps, with mocked nodes",
  "aspects/fluid/source/GunnsFluidMetabolic.cpp aspects/fluid/source/GunnsFluidMetabolic2.cpp aspects/fluid/source/GunnsFluidFireSource.cpp aspects/fluid/source/GunnsFluidSimpleH2Redox.cpp aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp aspects/fluid/source/GunnsFluidPhaseChangeSource.cpp aspects/fluid/source/GunnsFluidEvaporation.cpp core/GunnsFluidSource.cpp",
  [("exchange", "step / updateFluid / transportFlows of each link")], ["node masses per compound", "heat collected by nodes"])

P("C45", "Sorption beds, sublimators, type changers and island reports account for matter",
  "A sorption bed adsorbs and desorbs by its stated isotherm, rate, interaction and heat laws; what each segment gains the fluid loses and the reverse, released compounds included, for every fluid and trace compound and for custom and defined sorbants alike, and its reports add up. A sublimator's ice, feed, breakthrough, vapour and heat conduction, and a type-changing conductor's conversion of the fluids and passage of the trace compounds in both directions, change each node by exactly their stated rates under blockage and malfunctions, and wrong sublimator data are refused. The fluid island analyzer reports exactly the size, volume, mass, energy, contents and extremes of the island its node is in.",
  "histories inputs", "all mixtures, sorbants, interactions, heat loads, malfunctions, island layouts and step histories",
  "tests drive one bed, sublimator or network for a few steps with fixed mixtures",
  "aspects/fluid/source/GunnsFluidSorptionBed.cpp aspects/fluid/source/GunnsFluidSublimator.cpp aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp core/GunnsFluidIslandAnalyzer.cpp",
  [("exchange", "GunnsFluidSorptionBed, GunnsFluidSublimator::step, GunnsFluidTypeChangeConductor::transportFluid"), ("report", "GunnsFluidIslandAnalyzer::analyze")], ["node masses per compound", "reports"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for e in OUT:
        for f in e["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("missing anchor", e["id"], f)
        n = e["statement"].count(". ") + 1
        if n > 3: print("too many sentences", e["id"], n)
    with open(path, "w") as o:
        for e in OUT:
            o.write(json.dumps(e) + "\n")
    print(len(OUT), "properties")
