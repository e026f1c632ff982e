#!/usr/bin/env python3
"""Composes DESIGN.md from the texts below, the facets' own rules, known_findings.jsonl and seeded/*/meta.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """# Deciding the semantic properties of nasa/gunns by property-based testing

Generated by `tools/design.py` from the texts in it, the harnesses, `known_findings.jsonl` and `seeded/*/meta.json`.

## Approach

Every property is decided by generated-input search against an explicit oracle. One harness per property
(`harness/Cxx.cc`, Python for C42) holds one or more *facets*; a facet generates a case (a configuration and usually a
history of operations), runs the real code of /repo on it and compares with a reference model, a conservation law, an
inverse, or a second run of the same code built differently.

* **Engine** `harness/vpt.{hh,cc}`: a case is a sequence of recorded choices. Generators draw from the choices
  (boundary-biased reals, log-uniform magnitudes, weighted picks, shuffles); a failure is shrunk by deleting and lowering
  choices (Hypothesis style), so every generator shrinks with no code of its own. The minimal choice sequence is the
  replay file (`replays/`, git-ignored; `python3 run_check.py Cxx --replay FILE`). rapidcheck was considered; its
  typed shrinking does not survive dependent histories as well, and a recorded-choice engine also gives replay files
  independent of the seed.
* **Isolation**: facets run over forked workers (8 cores). A crash, sanitizer report, uncaught exception or a case
  over its CPU budget is a violation with the case that caused it. All files are written in scratch directories.
* **Runner** `run_check.py`: builds what a harness includes from /repo's current working tree (content-hash cached in
  `build/`), runs the facets, writes `evidence/Cxx.json` (cases, distinct non-trivial cases by the rule quoted below,
  discards, samples), prints VIOLATION or KNOWN-FINDING lines. `--setup` builds everything ahead.
* **Non-trivial** is counted on distinct choice sequences and has a stated rule per facet, listed below.
* **Sanitizers**: harnesses that parse or manage memory run under ASan+UBSan (marked in MANIFEST).
* **Seeds and tiers**: VERIF_SEED picks the random stream; the thorough tier runs about twenty times the cases
  (the two numbers after each facet). Quick checks take 2 to 90 s each on 8 cores.
* **Why this reaches what the tests cannot**: the tests of this project fix one configuration per class, set the private
  state by hand and compare with numbers computed from the same formulas. The facets sample the whole configuration space
  and multi-step histories, and the oracle never shares code with the implementation.
* **Tolerances** are relative to the magnitudes that were summed to get a value, so that ill-conditioned but correct cases are
  quiet. Cases in which the outcome is decided by rounding (a limit hit within 1e-9 of its threshold) are discarded and
  counted as such.
* **Hooks**: none in /repo. The classes declare a friend through the project's own TS_MAKE_SIM_COMPATIBLE macro
  (`SIM_FRIEND_CLASS`), which harnesses define as `VptFriend`, only to set parameters that are configured by hand in a
  simulation and to read link outputs.
* **False alarms met while building** were corrected in the oracle or the generator (exclusions are listed under each
  property as *Bounds*); genuine defects were repaired (`fix:` commits) or listed as known findings.

## What is not built

Classes that need Trick or other packages absent here: GunnsGasCooledTurbine, TsHsMsgStdFilter's Trick twin, TsHsStdMngr
and the HS plug-ins, TsMemoryManager, TS_hs_msg, FetSwitch*. Their code is outside every property. The Trick-only scripts
of /repo/draw (supexport, supcreate, gsmigrate) are not covered either.

"""
T = {}
def D(i, oracle, bounds="", beyond=""): T[i] = (oracle, bounds, beyond)
D("C01", "A dense long-double solution of the same circuit with exact stamps for each link type; Kirchhoff sums of reported fluxes with capacitor storage; a twin network with permuted links and nodes.", "Links with diagonally dominant stamps; conductances 1e-9 to 1e9; singular networks get one anchor to ground.", "order dependence, stale decomposition after edits and totals kept by nodes need histories.")
D("C02", "Graph reachability over currently conducting links (union-find in the harness); the answers of the three island modes compared with each other and with the dense reference; each island analyzer against the reference.", "Answers agree to solver tolerance, not bit for bit.", "the tests have one fixed partition; islands that merge and split over time are the interesting part.")
D("C03", "An executable model of the documented protocol (harness/script.hh) predicts every call that each scripted link receives, every counter, potentials and recorded convergence.", "Cases whose convergence test is decided within 1e-9 of tolerance are discarded. Basic, not fluid, networks.", "link answers form an unbounded space of histories.")
D("C04", "A reference that always solves the present circuit, the state each mode documents, and a corrupted-field generator: exactly the corrupted initialisations throw.", "Gunns::restart() on a solver never initialised is not claimed.", "sequences of mode switches and restarts.")
D("C05", "The same network really given the flux: difference of potentials; a twin without requests must agree exactly.", "Linear response: the non-linear facet uses the final linearised system.", "several requests at once, in any island mode.")
D("C06", "A model of the port map (locks, duplicates, ground, user and direct commands), and the dense solution of the resulting circuit.", "", "sequences of moves including swaps, locks and restarts.")
D("C07", "An account of each step from the links' reported flows and the nodes' mixtures before the step: each compound, each trace compound, each node. Closed networks keep totals exactly.", "Steps in which links take more than a node holds (source demands) are discarded; isolated mass correction (deliberate mass error leveling) is accounted for.", "overflow, zero-volume nodes, reversals and mixtures in combination.")
D("C08", "Enthalpy account per node, heat as given by the harness's own capacitors, convex-hull bound on mixed temperatures, expansion work equal to the documented formula.", "Demands beyond contents are outside; expansion only for gases; temperature clamps excluded.", "balance over arbitrary multi-stream mixing.")
D("C09", "State invariants after every step, ideal and real equations of state linking P, V, T, m; maximum principle for passive isothermal networks; settled pressures.", "Known finding C11 copy-partial-pressure affects no check here.", "the facet 'wild' goes beyond anything reasonable on purpose.")
D("C10", "A scheduler model over scripted links (which link computes, transports and when, which node integrates); twin networks with permuted links.", "Nodes that form a cycle of overflows may transport early, in the documented order.", "dependency graphs of arbitrary shape.")
D("C11", "Mixing rules re-derived in the harness from the property tables; inverses; equality of copies.", "Supported temperatures and pressures of each compound. Copies' partial pressures are a known finding.", "up to 20 operations on mixtures of up to 6 compounds.")
D("C12", "A ledger of each trace compound's mass.", "PolyFluid's mass setter holds trace fractions and so rescales trace masses; flowing more bulk than is held is outside.", "mixing order, negative flows and restarts.")
D("C13", "Sign, zero and monotonicity of flow in a probe network of two nodes, with closed forms where documented; malfunctions compared with a twin.", "Monotonicity is checked with fixed upstream state; tuned (mTune) paths, leaks to vacuum and diffusion have gates; the high-fidelity orifice against choked and unchoked formulas.", "all path classes under one generator.")
D("C14", "Inverses, finiteness, positivity, continuity across table seams, saturation against vapour pressure, ids and molecular weights against a table of elements, handbook densities.", "WATER_PVT and near-incompressible liquid oxygen are checked only as density(T, pressure(T, rho)) = rho; real gases approach ideal within 12% at low pressure; heat of vaporisation at the critical temperature only for fluids before NTO.", "tests check each fluid at a handful of points.")
D("C15", "Inverse relations, exact formulas in long double, Colebrook equation, bounds.", "The laminar-to-turbulent bridge is only checked for continuity.", "all flow regimes and both directions.")
D("C16", "Requested state, ledger per constituent, gas and spring laws, bellows geometry, wall law.", "Balloon pressure-correction gain (a transient) is not checked; clearing a stuck wall or changing inflatability with a large implied jump ends the case, as do nodes under 1 kPa.", "several edits active together with flow.")
D("C17", "A hysteresis-band model for each valve, exact flow formulas in a probe network, twin without malfunctions.", "prv-backflow is a known finding.", "histories of pressures across the band edges.")
D("C18", "Balance of every compound between network, link inventory and boundary per step; rate laws re-derived.", "SeparatorLiquid and SimpleRocket are not covered; see C44 and C45 for others. Override of trace-compound rates under blockage not checked; full separation leaving no carrier is gated.", "flow reversal, limits and malfunctions in combination.")
D("C19", "Second-law bound and effectiveness formulas, heat reported equals enthalpy change of the stream, twin exchangers for symmetry.", "Inlet stream is the source node's outflow after the step; CondensingHxSeparator not covered; condenser-sensible is a known finding; outlet temperature within 1 K when condensing.", "dry, blocked, reversed and condensing regimes.")
D("C20", "Affinity-scaled reference curve solved against the system with an independent root finder; torque balance.", "Intersection tolerance follows Brent's absolute 1.2e-7 m3/s; turbine flow-follows-curve only for near-equal molecular weights; pressure-head accumulators not covered.", "any speed, density and system curve.")
D("C21", "Two real networks exchanging data through a channel of chosen delay; role state machine; mass and energy ledger across the channel; settled state equals one network with the interface as a conductor; frames corrupted at random.", "Takes larger than half of a node's holdings are excluded; network-capacitance dV criterion near-equivalent. No facet for GunnsElectDistributed EqConductor.", "delays and lost or corrupted data are histories, not inputs.")
D("C22", "A model of sockets and plugs, node maps after each command.", "Invalid plug indices excluded; leak-rate malfunction conductivity tuned only when the value changes.", "arbitrary plug, unplug, restart sequences.")
D("C23", "Filter and queue models for the exchange, flat reference network for super networks, dense solution for the settled state.", "Pairs whose capacitance estimate makes them unstable are discarded.", "long exchanges with restarts.")
D("C24", "A truth-table state machine per switch step and minor step; trips with priority; circuit reference.", "selector-off is a known finding.", "histories across trip, reset, malfunction.")
D("C25", "Power balance in a dense circuit, regulator state machines, limits and trips; a power bus against the sum of its loads; a switched resistive load link.", "Overload-flag resets and hysteresis of tolerance in the IPS are not caught; tangent option has a convergence caution; constant-power loads near maximum power are discarded; under-voltage chatter margins.", "interacting limits, trips and malfunctions.")
D("C26", "Coulomb counter, per-cell model, table interpolation, power and heat sums.", "", "cycles with malfunctions in any order.")
D("C27", "String I-V model, section light share, regulator power sums.", "String2 accurate to 5%; dim, lossy and low-efficiency regimes gated; the shunt regulator's trip priority not caught; converter allows one upward state change per step; array-short-side and conv-reverse-sag known.", "any mix of shadows, malfunctions and loads.")
D("C28", "Energy ledger, sign of heat flow, settled temperature, battery enthalpy.", "Massless nodes tied only by radiation and neighbours of overridden nodes excluded; radiation linearised on previous temperatures; two known findings at exactly equal temperatures.", "histories of heaters, overrides and melting.")
D("C29", "The generated description itself is the model: parsed vectors and a hand-built network; random corruption must throw or leave self-consistent data, under sanitizers.", "Non-numeric numbers are read as their leading number with a warning.", "malformed files.")
D("C30", "Newton-Euler in long double, rotation group identities, conserved momenta.", "Products of inertia must be <= 0 (validate); matrix-to-quaternion throws at half turns.", "all Euler sequences and mass properties.")
D("C31", "Residual of the original system in long double.", "Moderate sizes; diagonally dominant systems.", "")
D("C32", "Residual and bracket membership.", "fastSolveW0 on [0.1,100) to 0.8%.", "")
D("C33", "Formula or table re-evaluated, monotone inversion.", "Two singularity acceptance findings known (tests pin them).", "")
D("C34", "Exact factors from SI definitions, reference implementations, distribution bounds over long streams.", "Intersections for geometry of order one; segments starting inside a cylinder unspecified; TS_sgmt_conversion not built.", "")
D("C35", "Random documents, print-parse-print; bytes and edit histories under sanitizers; a model tree.", "Blank text dropped, white space condensed, '&#x' passes through; NUL, declarations with special characters and invalid UTF-8 excluded.", "arbitrary bytes.")
D("C36", "Reference text functions and a directory model.", "", "")
D("C37", "Element matrices of every compound, rate bounds, equilibrium constants to 15-30%, Toth isotherm.", "Interpolation band 1.63<O/F<2.03 exempt from atom balance; flagged non-convergence and too-far first guesses gated.", "")
D("C38", "A queue, filter and log model; threads facet checks per-producer order and counts under real concurrency.", "Texts with '|' excluded; Trick-bound manager not built. Thread interleavings are sampled, not enumerated.", "")
D("C39", "A sensor model with the noise source replaced by a known one.", "", "")
D("C40", "Controller models per step.", "Minimum and maximum commands distinct.", "")
D("C41", "Recorded evaluations of a cost landscape; swarm equations recomputed; files in scratch directories.", "", "")
D("C42", "Drawings are generated from a network model; exported C++ is parsed (comments dropped, white space folded) and compared with the model; 25 kinds of single faults must be refused.", "supexport, supcreate, gsmigrate, external fluid configurations, reactor lists, duplicate interface boxes and compilation of the generated code are not covered.", "there are no tests of the scripts.")
D("C43", "The protocol model of C03 predicts each row of the file; a log state machine predicts when a file is written; a twin network without log or spotters must match bit for bit; totals and contents recomputed.", "Values to the six digits printed. MATH_FAIL rows not generated.", "modes, sizes and failures interleave.")
D("C44", "Expected change of every fluid and trace compound of every node per step, rates re-derived from the node states before the step; heat from the flux each node collected.", "Crew whose net production is negative or has almost no moles is outside; membrane rates within 1e-6 kPa of a sign change are not compared.", "boundary mixtures, populations and limits in combination.")
D("C45", "Isotherm, loading and interaction laws re-derived per segment and sorbate, balance of every fluid and trace compound over nodes and bed; the sublimator as a reference state machine; the type change from the upstream mixture; the island report recomputed from the nodes.", "The first segment's temperature law is checked, later segments by balance. Island membership itself is C02's.", "sorbants, interactions, malfunctions and flow reversal in combination.")
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
    seeds = []
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(m)); d["id"] = os.path.basename(os.path.dirname(m)); seeds.append(d)
    man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    o = [HEAD, "## Properties\n"]
    for p in props:
        i = p["id"]; orc, bnd, bey = T[i]
        o.append("### %s %s\n" % (i, p["title"])); o.append("*Oracle.* " + orc + "\n")
        if bnd: o.append("*Bounds.* " + bnd + "\n")
        o.append("*Beyond the tests.* " + (bey or p.get("why_not_tests", "") or "the whole input space and any history instead of a few hand-picked points.") + "\n")
        cc = V + "/harness/%s.cc" % i; py = V + "/harness/%s.py" % i
        if os.path.exists(cc):
            src = open(cc).read()
            o.append("*Facets* (quick, thorough cases; non-trivial when):\n")
            for n, q, t, r in re.findall(r'FACET\(\s*(\w+)\s*,\s*(\d+)\s*,\s*(\d+)\s*,\s*"((?:[^"\\]|\\.)*)"', src): o.append("- `%s` (%s, %s): %s" % (n, q, t, r))
            o.append("")
        else:
            src = open(py).read(); fs = re.findall(r'\("(\w+)", \w+, (\d+), (\d+), "([^"]*)"\)', src)
            o.append("*Facets* (quick, thorough cases; non-trivial when):\n")
            for n, q, t, r in fs: o.append("- `%s` (%s, %s): %s" % (n, q, t, r))
            o.append("")
        k = [e for e in kf if e["property"] == i and e.get("status") == "known"]; f = [e for e in kf if e["property"] == i and e.get("status") == "fixed"]
        if k: o.append("*Known findings* (not repaired):\n"); o += ["- `%s`: %s" % (e.get("id"), e["what"]) for e in k]; o.append("")
        if f: o.append("*Defects repaired*: " + "; ".join("%s (%s)" % (e["what"].split(". ")[0][:230], e.get("commit", "")[:9]) for e in f) + ".\n")
        s = [d for d in seeds if d["property"] == i]
        if s: o.append("*Planted bugs*:\n"); o += ["- `%s`: %s. Needs: %s. %s" % (d["id"], d["what_it_breaks"].rstrip("."), d["needs"].rstrip("."), "**Caught** by %s." % i if d.get("caught", True) else "**Missed.**") for d in s]; o.append("")
    open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n"); print(len(o), "lines")
main()
