"""The properties; properties.jsonl and MANIFEST.json are generated from this file."""
TECH = {
    "": "static analysis: abstract interpretation of the source to guarded normal forms, compared with reference definitions",
    "note": "",
}
NA = {}
PROPS = []
def P(id, title, statement, over, text, why, files, mech, state=(), na=None, note=None):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state)
    if note: d["note"] = note
    if na: NA[id] = na
    PROPS.append(d)

P("A01", "Merging reachable boxes never loses a state",
  "Whenever several boxes or tubes are merged into one, the result is, per time slot and per variable, the least lower bound and the greatest upper bound of all of them. No state contained in any merged box is outside the result.",
  ["inputs"], "all lists of boxes, all dimensions, all segment lengths, all tubes",
  "Tests merge at most a handful of boxes in fixed dimensions and never compare bounds; a dropped axis or a min taken for a max shows only on particular boxes.",
  ["verse/analysis/verifier.py", "verse/analysis/incremental.py"],
  [("union of boxes", "verse/analysis/verifier.py:combine_rect"), ("union of tubes", "verse/analysis/verifier.py:Verifier._union_traces"), ("union of initial boxes", "verse/analysis/incremental.py:combine_all")])

SIMF, VERF, TREE, SCN, AGT = "verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/analysis/analysis_tree.py", "verse/scenario/scenario.py", "verse/agents/base_agent.py"

P("A02", "Partitioned verification splits a box into cells that cover exactly that box",
  "When a set is split for partitioned verification, the union of the cells is the whole set, every cell lies inside it, and every selected dimension is cut into the requested number of equal parts. Every cell is reset and every resulting initial box is propagated; the node's tube is the union of the tubes of all its initial boxes.",
  ["inputs"], "all boxes, all cell counts, all selections of dimensions, all transitions",
  "Tests run one partitioned scenario; a cell left out or shifted by one width loses reachable states only for trajectories through that cell.",
  [VERF], [("splitting", VERF + ":Verifier._partition_rect"), ("per-cell reset and propagation", VERF + ":Verifier.compute_full_reachtube_step_partitioned")])

P("A03", "The chosen reachability method and its settings reach every computed tube",
  "Each agent's tube is computed by the reachability method the caller chose, from that agent's own mode, initial boxes and uncertain parameters, with the run's time step, remaining time and map. The run-wide settings given to a verification or a simulation are the ones used in every node of the tree.",
  ["inputs", "configurations"], "all agents, methods, horizons, time steps and tree nodes",
  "Tests exercise the default method on a few scenarios; swapped or dropped arguments on another method or a later node are never observed.",
  [VERF, SIMF], [("tube of an agent", VERF + ":Verifier.compute_full_reachtube_step"), ("run-wide settings", VERF + ":Verifier.compute_full_reachtube"), ("simulation settings", SIMF + ":Simulator.simulate")])

P("B01", "An assertion violation found while exploring is kept on its node",
  "Whenever the exploration of a node finds a violated assertion, the node's assertion record in the returned tree names it, under the violating agent. Nothing processed afterwards removes or replaces that record, whether the step ran locally or remotely.",
  ["histories", "schedules"], "all nodes, agents, assertion labels, local and remote execution",
  "Whether a hit survives depends on the order in which node results are processed; the tests look at few trees with at most one hit.",
  [SIMF, VERF], [("simulation step and result handling", SIMF + ":Simulator.simulate_one"), ("verification step and result handling", VERF + ":Verifier.compute_full_reachtube_step"), ("result handling", VERF + ":Verifier.proc_result")],
  [("assert_hits", "labels of violated assertions per agent, or none", TREE + ":AnalysisTreeNode")])

P("B02", "An assertion is reported exactly where it can be violated",
  "In simulation an assertion is reported at a state if and only if its precondition is true and its condition is false there. In verification it is reported for a segment if and only if the precondition can hold somewhere in the segment and not every state of the segment that meets the precondition is shown to meet the condition; every agent with assertions is examined, also one without transitions.",
  ["inputs", "programs"], "all decision logics, all states, all segments of all tubes",
  "A wrong polarity or a skipped agent matters only for assertions whose truth changes at particular states.",
  [SIMF, VERF], [("simulated states", SIMF + ":check_sim_transitions"), ("segments of a tube", VERF + ":Verifier.get_transition_verify_opt"), ("executed decision logic", SIMF + ":Simulator.get_transition_simulate_simple")])

P("B03", "After a violated assertion the run stops there, or goes on only if asked to",
  "By default a node with a violated assertion has no successors and its trace ends at the violation. When the user asks to continue past unsafe states, the run goes on to the same successors it would have explored without the assertion, and the trace is not cut at the violation.",
  ["configurations", "programs"], "all nodes with a violation, both settings",
  "The setting is off in almost every test; successors lost after a violation are not compared with anything.",
  [SIMF, VERF], [("simulation step", SIMF + ":Simulator.simulate_one"), ("verification step", VERF + ":Verifier.compute_full_reachtube_step")])

P("B04", "No point of a trace is skipped when transitions and violations are looked for",
  "A simulated trace is scanned from its first point up to the first transition that is taken or the first violation, and a transition the map forbids does not end the scan. A tube is scanned segment by segment from its first to its last, since a transition may be taken from each, unless a violation ends the run.",
  ["inputs", "programs"], "all traces and tubes of all nodes",
  "An exit one iteration early loses transitions that become enabled late; tests seldom have such a state.",
  [SIMF, VERF], [("tube scan", VERF + ":Verifier.get_transition_verify_opt"), ("simulated trace scan", SIMF + ":Simulator.get_transition_simulate")])

P("C01", "Exactly the nodes within the horizon and the depth limit are explored",
  "A node is explored if and only if it starts before the time horizon and is above the depth limit, for exactly the time that remains to the horizon. Every successor produced by a step is attached to its parent, listed among the tree's nodes and queued for exploration.",
  ["histories", "schedules"], "all runs, horizons, depth limits, queue orders",
  "Tests compare tree sizes of a few scenarios; a successor dropped at the limit or a queue mishandled in another order is not seen.",
  [SIMF, VERF], [("verification worklist", VERF + ":Verifier.compute_full_reachtube"), ("simulation worklist", SIMF + ":Simulator.simulate"), ("results", VERF + ":Verifier.proc_result")],
  [("verification_queue", "nodes still to explore", VERF + ":Verifier"), ("simulation_queue", "nodes still to explore", SIMF + ":Simulator")])

P("C02", "Time is continuous along the tree",
  "Each node's trace is stamped with absolute time beginning at the node's start time, and a successor starts at the time of the transition that created it: there is no gap between the part of the parent's trace that is kept and the successor's trace, and an agent that did not change mode continues its own trace from that time.",
  ["histories"], "all nodes, transitions and agents",
  "Off-by-one cuts and start times are visible only when traces of neighbouring nodes are compared, which the tests do not do.",
  [SIMF, VERF, TREE], [("simulation successors", SIMF + ":Simulator.simulate_one"), ("verification successors", VERF + ":Verifier.compute_full_reachtube_step"), ("node creation", TREE + ":AnalysisTreeNode.new_child")],
  [("start_time", "absolute time at which the node begins", TREE + ":AnalysisTreeNode"), ("trace", "per agent, the time-stamped states or boxes", TREE + ":AnalysisTreeNode")])

P("C03", "A successor starts from the state its parent handed over",
  "The agent that takes a transition starts the successor in the destination mode and the reset state; every other agent keeps its mode and continues from its own state (or box) at the transition. Static parameters, uncertain parameters, agents and node kind are inherited unchanged.",
  ["histories"], "all transitions and agents of all trees",
  "Mixing up agents or leaving a mode behind needs several agents with simultaneous transitions, which tests rarely have.",
  [SIMF, VERF, TREE], [("simulation successors", SIMF + ":Simulator.simulate_one"), ("verification successors", VERF + ":Verifier.compute_full_reachtube_step"), ("node creation", TREE + ":AnalysisTreeNode.new_child")])

P("C04", "All nondeterministic choices at a transition are explored",
  "When several transitions are enabled at once, each combination of one reset per variable and, in simulation, of one choice per agent that moves gives its own successor. Two choices are merged only if they agree in destination mode and reset state.",
  ["inputs", "programs"], "all sets of simultaneously enabled guards, all resets, all destination modes",
  "The number of combinations explodes; tests contain only single choices or two independent ones.",
  [SIMF, VERF, "verse/utils/utils.py"], [("choices of an agent in simulation", SIMF + ":check_sim_transitions"), ("product over agents", SIMF + ":Simulator.simulate_one"), ("choices in verification", VERF + ":Verifier.get_transition_verify_opt"), ("merging of equal choices", "verse/utils/utils.py:dedup")])

P("C05", "Only transitions the map permits are taken, and all of those are",
  "A transition that changes an agent's track or maneuver is taken if and only if the map's successor track for the old track, old maneuver and new maneuver is the destination track. A transition that changes neither is never filtered.",
  ["inputs", "configurations"], "all maps, modes and transitions, in simulation and verification",
  "Test maps permit nearly all transitions that are offered; a filter that is too wide or too narrow shows on others.",
  [SIMF, VERF, TREE], [("simulation filter", SIMF + ":Simulator.get_transition_simulate"), ("verification filter", VERF + ":Verifier.get_transition_verify_opt"), ("track and maneuver of a mode", TREE + ":AnalysisTreeNode.get_track")])

P("C06", "Resets change exactly the variables they assign, to the assigned values",
  "On a transition each assigned mode variable takes the assigned mode, each assigned continuous variable takes the value of its expression in the state before the transition (for sets: bounds that enclose the expression's value at every corner), and every other component keeps its value.",
  ["inputs", "programs"], "all reset expressions, all states and boxes",
  "Tests use constant resets or identity; an index shifted by one or a corner left out needs a particular reset.",
  [VERF, SIMF], [("reset of a box", VERF + ":Verifier.apply_reset"), ("reset of a state", SIMF + ":check_sim_transitions"), ("executed decision logic", SIMF + ":Simulator.get_transition_simulate_simple")])

P("G01", "Saving a tree and loading it back gives the same tree",
  "Everything a saved tree records about its nodes (identity, parent and child links, kind, start time, initial sets, modes, static and uncertain parameters, assertion hits, traces, height) is written for every node and restored from exactly the field it was written to. The root of the loaded tree is the root of the saved one.",
  ["inputs"], "all trees of either kind, with any number of nodes and agents",
  "The tests do not round-trip trees; a field read under the wrong name or a node left unlinked goes unnoticed.",
  [TREE], [("node to dictionary", TREE + ":AnalysisTreeNode._to_dict"), ("dictionary to node", TREE + ":AnalysisTreeNode._from_dict"), ("file", TREE + ":AnalysisTree.dump"), ("loading", TREE + ":AnalysisTree.load")])

P("G02", "Traversals of a tree visit every node exactly once",
  "The node list of a tree contains each node reachable from the root exactly once, the leaf queries return exactly the nodes without successors, and the height of a tree is the largest depth of its nodes, counted by one from parent to child.",
  ["inputs"], "all tree shapes",
  "Tests have small, mostly linear trees; a branch lost in a traversal shows only on wider ones.",
  [TREE], [("node list", TREE + ":AnalysisTree._get_all_nodes"), ("leaves", TREE + ":AnalysisTree.leaves"), ("height", TREE + ":AnalysisTree.height")])

P("G03", "Tree comparison answers yes only if every part of the traces matches",
  "Two trees of simulations match only if they have the same agents and the same shape and the traces of corresponding nodes have the same length and agree within the tolerance; each node is paired with one other. A reachability tree contains another only if, for every agent, time slot and variable, the other's set lies inside the union of its own sets at that time, enlarged by the tolerance. Equality is containment both ways.",
  ["inputs"], "all pairs of trees",
  "A comparison that ignores a field or stops early agrees with a right one on equal trees, which is what the tests compare.",
  [TREE], [("equality", TREE + ":AnalysisTree.is_equal"), ("containment", TREE + ":AnalysisTree.contains")])

P("H01", "Every run starts from the initial sets, modes and parameters the user gave",
  "Initial states, initial modes, static parameters and uncertain parameters given for an agent, on the agent or on the scenario, are copied and stored for that agent and no other; malformed input is rejected; no run starts with an agent that has none. The root of every run holds exactly these values.",
  ["inputs", "configurations"], "all orders of setting up agents and scenarios, all agents",
  "Scenarios in tests are set up in one order with one source of initial values; stale or swapped values need another order or several agents.",
  [SCN, AGT], [("setting initial values", SCN + ":Scenario.set_init_single"), ("values on agents", SCN + ":Scenario._get_init_from_agent"), ("agent state", AGT + ":BaseAgent.set_initial")],
  [("init_dict", "initial box per agent", SCN + ":Scenario"), ("init_mode_dict", "initial modes per agent", SCN + ":Scenario")])

P("H03", "All entry points run the analysis with the scenario's current settings",
  "Simulation, repeated simulation, verification and partitioned verification use the scenario's current map, sensor, agents and configuration and the horizon, time step and depth limit given in the call, whatever was run before. Each run is recorded as the latest past run, and a changed configuration or map takes effect in the next run.",
  ["configurations", "histories"], "all sequences of configuration changes and runs",
  "Tests make a single run per scenario object; stale settings need two.",
  [SCN], [("entry points", SCN + ":Scenario.simulate"), ("verification entry points", SCN + ":Scenario.verify"), ("configuration", SCN + ":Scenario.update_config")],
  [("past_runs", "trees of earlier runs, in order", SCN + ":Scenario")])

P("L01", "A simulated trace samples the dynamics on the requested time grid",
  "The default simulation of an agent returns one row per time step, from zero to the horizon inclusive, each with its time first, and the states come from integrating the agent's own dynamics from the given initial state on that grid.",
  ["inputs"], "all horizons, time steps and initial states",
  "Tests use horizons that are exact multiples of the step; a point lost or gained to rounding at other horizons is not seen.",
  [AGT], [("default simulation", AGT + ":BaseAgent.TC_simulate")],
  note="The accuracy of the numerical integrator is not decided.")

AG = "verse/agents/example_agent/"
P("L02", "The bundled agents move by their dynamics under the control of their mode",
  "The simulation of a bundled agent starts with the given initial state at time zero and continues with one row per time step until the horizon is covered, each obtained by integrating the agent's own dynamics for one step from the row before it, with the control its mode asks for in that row. A car steers towards the middle of its track, or towards the line one (or two) lane widths to the side it switches to, brakes and accelerates only as far as its limits and its target speed allow, and never drives backwards; an unknown mode is refused.",
  ["inputs"], "all modes, states, maps, horizons and time steps, every bundled agent",
  "Tests simulate two agents along one straight run; a sign, a mode or a limit that is wrong shows only in particular modes and states.",
  [AG + "car_agent.py", AG + "origin_agent.py", AG + "quadrotor_agent.py"],
  [("car control", AG + "car_agent.py:CarAgent.action_handler"), ("car simulation", AG + "car_agent.py:CarAgent.TC_simulate"), ("van der Pol oscillator", AG + "origin_agent.py:vanderpol_agent.TC_simulate"),
   ("thermostat", AG + "origin_agent.py:thermo_agent.TC_simulate"), ("quadrotor", AG + "quadrotor_agent.py:QuadrotorAgent.TC_simulate")],
  note="The accuracy of the numerical integrator and the quadrotor's neural controller (runModel) are not decided; Ball_g_agent, which cannot be simulated, is left out.")

P("M01", "The same seed gives the same simulation",
  "With a seed given, the initial states of a simulation depend only on the initial sets and the seed; repeated simulation uses a different seed for each run, derived from the given one, and the initial states always lie inside the initial sets.",
  ["inputs", "schedules"], "all seeds, initial sets and numbers of runs",
  "Determinism over all seeds and run counts cannot be sampled; the tests never compare two seeded runs.",
  [SCN, "verse/utils/utils.py"], [("sampling", "verse/utils/utils.py:sample_rect"), ("seeded runs", SCN + ":Scenario.simulate_multi")])

P("O01", "Parallel execution does the same work as serial execution",
  "A step sent to a remote worker gets the same node, caches, limits and settings as a local step, and its whole result (successors, traces, assertion hits and cache updates) is processed exactly as a local result is. No submitted step is forgotten before the run ends.",
  ["schedules"], "all interleavings of remote results, all nodes",
  "Which results arrive first differs from run to run; the tests run serially.",
  [SIMF, VERF], [("simulation worklist", SIMF + ":Simulator.simulate"), ("verification worklist", VERF + ":Verifier.compute_full_reachtube"), ("result handling", SIMF + ":Simulator.proc_result")],
  [("result_refs", "results of submitted steps that are still outstanding", VERF + ":Verifier")])

INC, SENS = "verse/analysis/incremental.py", "verse/sensor/base_sensor.py"
P("F01", "A cached result is reused only for a run it was computed for",
  "An incremental run takes a trace or tube from the cache only if it was computed for the same agent and mode, from a set that contains the one at hand, under the same start time, horizon, time step and parameters. Every computed result is stored under exactly the key it was computed for.",
  ["histories", "inputs"], "all sequences of runs on one scenario and all edits between them",
  "An incremental run that reuses a wrong result is wrong only for particular earlier runs; the tests compare node counts of two fixed edit sequences.",
  [INC, SIMF, VERF], [("simulation cache", INC + ":SimTraceCache.check_hit"), ("tube cache", INC + ":TubeCache.check_hit"), ("transition cache", INC + ":ReachTubeCache.check_hit"), ("use", SIMF + ":Simulator.simulate_one")],
  [("cache", "earlier results by agent, mode and set", INC + ":SimTraceCache")])

P("F02", "An incremental run applies the decision logic as it is now",
  "After an edit of the decision logic, an incremental run takes and reports exactly the transitions and assertion violations of the edited logic. A cached transition is taken over only if the guard and reset it came from are unchanged and the states it was computed for fit; paths that are new or changed are evaluated.",
  ["histories", "programs"], "all pairs of decision logics before and after an edit, all cached nodes",
  "Only an edit that changes the outcome at a cached node reveals stale transitions; the tests compare node counts of two fixed edit sequences.",
  [INC, SIMF, VERF], [("paths to recheck", INC + ":to_simulate"), ("simulation", SIMF + ":Simulator.get_transition_simulate"), ("verification", VERF + ":Verifier.get_transition_verify_opt")])

P("I01", "The sensor reports the true state of every agent",
  "The default sensor gives an agent its own values and the values of every other agent, each continuous, discrete and static variable under its own name and in the same agent order for all variables. In verification a continuous variable is given as its lower and upper bound over the segment.",
  ["inputs"], "all agents, state definitions and joint states, in simulation and verification",
  "Test agents share one state definition and mostly meet one other agent; swapped names or orders show only with several.",
  [SENS], [("sensing", SENS + ":BaseSensor.sense"), ("own values", SENS + ":set_states_2d"), ("values of others", SENS + ":add_states_3d")],
  note="The star-set sensor is covered by I02.")

SX = "verse/sensor/example_sensor/"
P("I02", "The bundled sensors report each variable under its own name",
  "The sensors for spacecraft, thermostats and quadrotors give an agent its own values as ego and those of every other agent as others: each continuous variable under its own name from its own column of the state (both bounds in verification), and each mode under its name, in the same agent order for all variables. The star-set sensor gives, for every continuous variable of an agent's definition, the star set that agent is in, and its modes and static values under their names.",
  ["inputs"], "all joint states and agents, in simulation and verification, for each of these sensors",
  "No test uses these sensors; a column or name swapped changes guards only in the demos that use them.",
  [SX + "craft_sensor.py", SX + "thermo_sensor.py", SX + "quadrotor_sensor.py", "verse/sensor/base_sensor_stars.py"],
  [("spacecraft", SX + "craft_sensor.py:CraftSensor.sense"), ("thermostat", SX + "thermo_sensor.py:ThermoSensor.sense"), ("quadrotor", SX + "quadrotor_sensor.py:QuadrotorSensor.sense"),
   ("star sets", "verse/sensor/base_sensor_stars.py:BaseStarSensor.sense")],
  note="SingleSensor and CraftStarSensor, made for one scenario each, are left out.")

LM, LN, LS, L3, M3 = "verse/map/lane_map.py", "verse/map/lane.py", "verse/map/lane_segment.py", "verse/map/lane_segment_3d.py", "verse/map/lane_map_3d.py"
P("J01", "A map answers from the entry registered for the lane it is asked about",
  "A map returns as successor track exactly the one registered for the track, old mode and new mode, and says that one exists exactly when it returns one. Questions about a lane go to the physical lane it stands for, and neighbour relations between lanes are mutual.",
  ["inputs", "configurations"], "all maps, track names, modes and positions, in two and three dimensions",
  "The maps in tests have few lanes and regular names; a query sent to the wrong lane needs other names or relations.",
  [LM, M3], [("successor track", LM + ":LaneMap.h"), ("existence of a successor", LM + ":LaneMap.h_exist"), ("physical lane", LM + ":LaneMap.get_phys_lane"), ("neighbours", M3 + ":LaneMap_3d.pair_lanes")],
  [("h_dict", "successor track by track, old mode and new mode", LM + ":LaneMap")])

P("J02", "Lane coordinates describe the position on the nearest segment of the lane",
  "A position on a lane is measured on the segment that is nearest sideways among those it lies alongside, and the distance travelled is the length of the segments before it plus the distance along it. World positions, lane coordinates and headings of straight and circular segments are computed by mutually inverse formulas.",
  ["inputs"], "all lanes, segments and positions",
  "Tests check single positions on one straight and one circular segment.",
  [LN, LS, "verse/map/lane_3d.py", L3], [("segment of a position", LN + ":Lane.get_lane_segment"), ("distance along a lane", LN + ":Lane.get_longitudinal_position"), ("straight segments", LS + ":StraightLane.local_coordinates"), ("circular segments", LS + ":CircularLane.local_coordinates")],
  note="Positions past half a turn of a circular segment count as before its start; trigonometric functions are taken as given.")

P("J03", "A lane segment rebuilt from its saved configuration is the same segment",
  "The configuration of a straight or circular segment contains every argument needed to construct it, each under its own name with the segment's own value. Constructing a segment from it gives a segment with the same geometry and attributes.",
  ["inputs"], "all segments in two and three dimensions",
  "No test saves a segment.",
  [LS, L3], [("writing", LS + ":StraightLane.to_config"), ("reading", LS + ":StraightLane.from_config"), ("writing circular segments", LS + ":CircularLane.to_config")],
  note="Reading a configuration converts its points in place, in the caller's dictionary.")

P("J04", "The bundled maps lead every switch to the lane beside",
  "On the bundled maps every lane has its documented position, width and segments, and adjoining segments meet. A switch offered from a lane leads to the virtual track between it and the next lane on that side (left, right, up or down), that track leads to the destination lane, and where there is no such lane no track is offered. Recorded neighbours agree with the geometry.",
  ["inputs"], "all bundled two- and three-dimensional maps, all lanes, switches and intersection sizes",
  "One test drives on one of these maps; a wrong entry for another lane or switch sends the vehicle to the wrong lane without any error.",
  ["verse/map/example_map/simple_map2.py", "verse/map/example_map/simple_map_3d.py", "verse/map/example_map/map_tacas.py", "verse/map/example_map/intersection.py", "verse/map/example_map/simple_map.py"],
  [("parallel lanes", "verse/map/example_map/simple_map2.py:SimpleMap4"), ("intersection", "verse/map/example_map/intersection.py:Intersection.h"), ("levels", "verse/map/example_map/map_tacas.py:M5")],
  note="Imported OpenDRIVE maps are a separate matter.")

P("Q01", "Operations on star sets give the sets they name",
  "A star set is the set of points center + sum a_i basis_i with C a <= g. Building one from a box, polytope or constraints, copying it, mapping it, cutting it with a halfspace or polytope, taking its bounds, its furthest point or its box hull with others, and asking whether it is empty, holds a point, or lies in a halfspace, give exactly the set, number or answer so described.",
  ["inputs"], "all star sets, any number of dimensions and basis vectors, all constraints",
  "Verification with star sets decides guards and successors from these sets; no stable test builds one, and a basis taken by columns instead of rows agrees on every symmetric example.",
  ["verse/stars/starset.py"],
  [("intersection", "verse/stars/starset.py:StarSet.intersection_poly"), ("bounds", "verse/stars/starset.py:StarSet.get_max_min"), ("emptiness", "verse/stars/starset.py:StarSet.is_feasible"), ("membership", "verse/stars/starset.py:StarSet.contains_point"), ("hull", "verse/stars/starset.py:StarSet.combine_stars")],
  note="Solvers and linear programs are taken at their word; the sets are compared as formulas over the reals.")

P("Q02", "A run with star sets follows every set of a node",
  "With star sets every segment of a node's initial sets is followed and its tube kept in the node's tube; the set built around sample runs holds all of them; resets map a set by the assigned expressions and leave other variables; sensors hand on the sets of all agents, and the tube is scanned from the first step to the last.",
  ["inputs", "histories"], "all initial sets, segment lengths, sample runs, resets and decision logics, without incremental caching",
  "No stable test runs the analysis with star sets; a lost segment or a variable reset by accident shows only in the reached sets.",
  [VERF, "verse/stars/starset.py", "verse/sensor/base_sensor_stars.py"],
  [("segments", VERF + ":Verifier.calculate_full_bloated_tube_stars"), ("resets", VERF + ":Verifier.apply_reset_stars"), ("fit to sample runs", "verse/stars/starset.py:post_cont_pca"), ("sensor", "verse/sensor/base_sensor_stars.py:BaseStarSensor.sense")],
  note="Whether the fitted set contains runs that were not sampled is Z03; incremental runs with star sets are not covered.")

P("H02", "Running an analysis changes nothing but its own result",
  "A simulation or verification leaves the scenario's initial sets, modes, parameters, agents, map, sensor and settings as they were, and leaves earlier results as they were. Values handed to a scenario or an agent are copied, so changing them afterwards does not change the scenario or a finished result.",
  ["histories", "inputs"], "all sequences of settings, runs and changes the caller makes to his own objects",
  "Aliasing shows only in a second run or after the caller reuses an object; tests run a scenario once and throw it away.",
  [SCN, AGT, SIMF, VERF, TREE, "verse/analysis/incremental.py", "verse/map/lane_map.py", "verse/sensor/base_sensor.py"],
  [("entry points", SCN + ":Scenario.simulate"), ("setting an initial set", SCN + ":Scenario.set_init_single"), ("agent setters", AGT + ":BaseAgent.set_initial"), ("transitions of a simulation", SIMF + ":check_sim_transitions"), ("transitions of a verification", VERF + ":Verifier.get_transition_verify_opt"), ("root of a tree", TREE + ":AnalysisTreeNode.root_from_inits")],
  [("scenario", "initial sets, modes, parameters, agents, map, sensor, settings", SCN + ":Scenario"), ("tree", "nodes of earlier results", TREE + ":AnalysisTreeNode")],
  note="Functions of star-set runs are not covered; objects returned by library calls count as new.")

P("N01", "Looking at a result does not change it",
  "Plotting a tree, thinning it for a plot, searching it, comparing it or saving it leaves the tree, its nodes and its traces as they were. Only figures that were passed in are added to.",
  ["histories"], "all trees and all sequences of plots and queries",
  "A plot that damages the tree it shows is noticed only by whatever reads the tree afterwards; no test does.",
  ["verse/plotter/plotter2D.py", "verse/plotter/plotter3D.py", "verse/plotter/plotter3D_new.py", "verse/plotter/plotterStar.py", TREE],
  [("thinning", "verse/plotter/plotter2D.py:sample_trace"), ("plots", "verse/plotter/plotter2D.py:reachtube_tree"), ("queries", TREE + ":AnalysisTree.contains")])

P("N02", "Thinning a tree for a plot keeps its samples and its pairs of bounds",
  "A simulated trace thinned by k keeps every k-th sample beginning with the first. A reach tube thinned by k keeps, of every k full time slots, the lower bound of the first and the upper bound of the last, in this order; this holds in every node and for every agent.",
  ["inputs"], "all trees, node kinds, trace lengths and thinning rates",
  "No test thins a reach tube; when the kind of the tree is misjudged a plot pairs lower bounds with lower bounds and shows less than was reached.",
  ["verse/plotter/plotter2D.py", "verse/plotter/plotter3D_new.py"],
  [("thinning for plane plots", "verse/plotter/plotter2D.py:sample_trace"), ("thinning for space plots", "verse/plotter/plotter3D_new.py:sample_trace")])

GRD = "verse/automaton/guard.py"
P("D01", "Verification never rules a transition out that the guard allows",
  "A guard evaluated over a box counts as not enabled only if no point of the box satisfies it: the condition given to the solver is the guard over the box's own bounds, every continuous variable ranges over its whole interval and every mode has its own value, and a condition the solver cannot refute counts as possible. A guard counts as containing the box only if no point of the box violates it.",
  ["inputs", "programs"], "all guards written in the language, all boxes of all agents",
  "Tests run a handful of guards that the solver decides at once; a wrong bound or an unknown answer loses transitions without a trace.",
  [GRD, VERF], [("continuous part", GRD + ":GuardExpressionAst.evaluate_guard_cont"), ("formula", GRD + ":GuardExpressionAst.generate_z3_expression"), ("discrete part", GRD + ":GuardExpressionAst.evaluate_guard_disc")],
  note="The solver's own answers are trusted, as is the translation of Python operators by eval over its variables; star sets are not covered.")

P("D02", "Map functions in a guard become intervals that enclose their values",
  "When a guard asks the map for a position along or beside a lane, the variable that takes its place ranges over an interval which encloses the map's value at every point of the box.",
  ["inputs"], "all lanes, segments and boxes",
  "Tests drive on straight lanes with small boxes; the enclosure fails near the ends of arcs and on boxes spread over several segments.",
  [GRD], [("position along the lane", GRD + ":GuardExpressionAst._handle_longitudinal_set"), ("position beside the lane", GRD + ":GuardExpressionAst._handle_lateral_set"), ("replacement", GRD + ":GuardExpressionAst._evaluate_guard_hybrid")])

P("D03", "any and all range over every agent of the list",
  "A quantified condition is replaced, where it stands, by the disjunction or conjunction of its body over every other agent of the list it ranges over, each copy using that agent's own variables; nothing else of the guard changes and the guard itself is left as it was.",
  ["inputs", "programs"], "all quantified conditions, any number of agents",
  "Tests use one or two other agents; an agent left out, or a body shared between agents, needs three.",
  [GRD], [("expansion", GRD + ":GuardExpressionAst.unroll_any_all_new"), ("replacement", GRD + ":NodeSubstituter"), ("quantifiers of a guard", GRD + ":GuardExpressionAst.parse_any_all_new")])

PAR = "verse/parser/parser.py"
P("E01", "A name in a decision logic means what it means in Python",
  "When a decision logic is read, every name stands for its last value in the innermost scope that has it; an assignment changes only the scope it belongs to; a call stands for the function's result with every parameter replaced by its own argument, variables bound inside the function staying bound; comparison, arithmetic, conditional and quantified expressions keep their operands and their operators.",
  ["programs"], "all decision logics, all functions called from them, any nesting of scopes",
  "Tests read the decision logics of a few demos; a captured variable or a leaked assignment needs a particular nesting of functions and quantifiers.",
  [PAR], [("scopes", PAR + ":Env.set"), ("call of a function", PAR + ":Lambda.apply"), ("replacement of parameters", PAR + ":ArgSubstituter"), ("reading", PAR + ":proc")])

P("E02", "Each branch of a decision logic becomes a transition under its own condition",
  "The transitions read from a decision logic are those of its branches: a value assigned in a branch is taken under the conditions of all enclosing branches, in their own polarity, also in else branches; a value assigned before a branch stays possible outside of it; values of other branches are neither lost nor merged with different ones.",
  ["programs"], "all decision logics, any nesting of branches and functions",
  "Tests compare end results of a few demos; losing the negated condition of one else branch is visible only in states that satisfy both.",
  [PAR], [("merging of branches", PAR + ":merge_if"), ("merging of a name", PAR + ":merge_if_single"), ("transitions", PAR + ":ControllerIR.from_env")])

P("E03", "Every assertion in a decision logic is kept under its branch condition",
  "Every assertion written in a decision logic or in a function it calls is part of what is read from it, with its own label and condition, and with a precondition which is the conjunction of the conditions of all enclosing branches; an assertion that cannot be kept is an error.",
  ["programs"], "all decision logics, any nesting of branches and functions",
  "An assertion that is lost when it is read makes every run look safe, and no test can see that.",
  [PAR], [("assertions of branches", PAR + ":merge_assert"), ("assertions of a scope", PAR + ":Env.add_assert"), ("assertions of functions", PAR + ":Lambda.apply")])

P("E04", "Simulation and verification read the same decision logic",
  "The executable controller used in simulation and the conditions, resets and assertions used in verification are obtained from one source text, and the translation from one to the other keeps the order of the parameters and every condition, reset and assertion.",
  ["programs"], "all decision logics",
  "Tests run simulation and verification on a few demos separately and do not compare them.",
  [PAR], [("both results", PAR + ":ControllerIR.from_env"), ("translation", PAR + ":Env.trans_args")])

P("E05", "Nothing written in a decision logic is passed over when it is read",
  "Every kind of Python statement or expression in a decision logic is either taken into account or rejected with an error. None is accepted and then ignored.",
  ["programs"], "every statement and expression class of the Python grammar",
  "Tests use only the constructs that are supported; an ignored one gives a system that is not the one written down.",
  [PAR], [("reading", PAR + ":proc")],
  note="Constants, bare expressions and pass are accepted as they are.")

P("E06", "The state variables and modes of an agent are the declared ones, in order",
  "The state variables read from a decision logic's state class are the declared ones, in their order of declaration, each continuous, discrete or static as its annotation and name say; the modes of a mode class are its members.",
  ["programs"], "all decision logics",
  "Agents use positions in this order in every state vector; the demos all declare the same few variables.",
  [PAR], [("declared variables", PAR + ":StateDef.all_vars"), ("reading of classes", PAR + ":proc")])

DRY, DDI, MIX, FIX = "verse/analysis/dryvr.py", "verse/analysis/dryvr_disc.py", "verse/analysis/mixmonotone.py", "verse/utils/fixed_points.py"
P("A04", "A learnt tube is bloated by all the sensitivity its sample runs show",
  "The tube computed from sample runs is, at every time and for every variable, the run from the centre of the initial box plus and minus at least the distance that the largest ratio seen between any two of the sample runs gives for the whole initial box. All sample runs enter, all pairs of them, all variables and all times, and the runs start at the centre and at points of the whole box.",
  ["inputs"], "all initial boxes, all dimensions, all sample runs",
  "Tubes in tests are wide enough that a factor learnt from fewer pairs, or scaled by the wrong radius, still contains the few runs compared.",
  [DRY, DDI], [("sensitivity", DRY + ":all_sensitivities_calc"), ("tube", DRY + ":get_reachtube_segment"), ("discrete tube", DDI + ":get_reachtube_segment"), ("sample runs", DRY + ":calc_bloated_tube")],
  note="That the computation is the stated one, not that its result contains all runs: see the not applicable property Z02.")

P("K01", "A mixed monotone tube follows both corners of the box through the decomposition",
  "The tube of a mixed monotone system is obtained from the lower and the upper corner of the initial box and of the uncertainty, each moved by the decomposition function with the arguments of the other as opposite ones. A decomposition found by optimisation takes, for each variable, the least value over the box when it moves the lower corner and the greatest when it moves the upper one.",
  ["inputs"], "all initial boxes, uncertainties, systems and decompositions",
  "Swapped corners give the same tube whenever the system is monotone or the box is small, as in the one demo.",
  [MIX], [("discrete", MIX + ":compute_reachtube_mixmono_disc"), ("continuous", MIX + ":compute_reachtube_mixmono_cont"), ("optimisation", MIX + ":calculate_bloated_tube_mixmono_disc")],
  note="The optimiser and the integrator are taken to be exact.")

P("P01", "A fixed point is reported only if the last sets lie in earlier ones",
  "That a fixed point has been reached is answered only if, for every agent and mode, the sets reached in the last interval of the analysed time lie inside the union of the sets reached in that mode before, all of them taken from the whole tree.",
  ["inputs", "histories"], "all analysis trees, all agents, modes and intervals",
  "No test runs the fixed point check on a tree whose branches end at different times.",
  [FIX], [("answer", FIX + ":fixed_points_fix"), ("containment", FIX + ":contain_all_fix"), ("sets of an interval", FIX + ":reach_at_fix")],
  note="The satisfiability solver is taken to be exact.")

P("R01", "A benchmark runs and reports the analysis its arguments ask for",
  "The options on a benchmark's command line set exactly the settings they stand for (incremental, parallel, local, comparing, plotting, dumping, verification instead of simulation). A run calls the chosen analysis with the caller's arguments, returns its tree, and the numbers of agents, nodes, leaves, steps and cache hits it records are those of that run. A comparison runs twice and replaces the scenario and its settings in between when asked.",
  ["inputs", "configurations"], "all command lines, scenarios and arguments",
  "The tests never use the benchmark driver; experiments rest on its figures.",
  [SCN], [("options", SCN + ":ExprConfig.from_arg"), ("run", SCN + ":Benchmark.run"), ("comparison", SCN + ":Benchmark.compare_run")],
  note="Times and sizes are measurements and are not judged.")

TUB = "verse/analysis/verifier.py"
P("Z01", "Numerical integration follows the exact solution",
  "The trajectory an agent's dynamics produces stays within a given distance of the exact solution of its differential equation.",
  ["inputs"], "all dynamics, initial states, horizons and steps", "Tests compare a few runs with earlier results.",
  ["verse/agents/example_agent"], [("integration", "verse/agents/example_agent/car_agent.py:CarAgent.TC_simulate")],
  na="The error depends on the values of runtime derivatives of arbitrary agent code inside scipy's adaptive integrator; no bound on it follows from the source of this repository. (That the steps are taken at the agent's time step from its state is checked as L02 where dynamics are the library's own.)")
P("Z02", "A tube learnt from sample runs contains every run with the stated probability",
  "The tube computed from sample runs contains every trajectory from the initial box, up to the probability the method promises.",
  ["inputs"], "all systems and initial boxes", "A tube that misses a rare run looks like one that does not.",
  [DRY], [("tube", DRY + ":calc_bloated_tube")],
  na="A statistical guarantee about unknown dynamics: it holds or fails with the distribution of the runs sampled at runtime. What the source fixes (all runs, pairs, variables and times are used, and the bloating is by the learnt ratio) is checked as A04.")
P("Z03", "Zonotope, star and neural tubes enclose every run numerically",
  "The star sets and neural tubes contain all trajectories of the system they are computed for.",
  ["inputs"], "all systems, initial sets and horizons", "Tests only look at one system.",
  ["verse/stars/starset.py", "verse/analysis/dryvr.py"], [("star sets", "verse/stars/starset.py:StarSet.post_cont_pca")],
  na="The enclosure is obtained from sampled points by principal components and by a solver's floating point optimum, or from a trained network; whether it contains all runs depends on those numbers and is not decided by the source.")
P("Z04", "Incremental analysis gives the same tree as a fresh analysis",
  "Verifying or simulating again with the cache gives the same tree as doing so without it.",
  ["histories"], "all sequences of scenarios and all caches", "Tests replay a few edits of one scenario.",
  ["verse/analysis/incremental.py", TUB], [("cache", "verse/analysis/incremental.py:ReachTubeCache")],
  na="Equality of two whole runs would need the relation between the cached results, of arbitrary user dynamics, and the fresh ones: tubes depend on the box they were computed for and are not functions of it alone (random sample points). The conditions the source does fix, under which a cached result may be used, are checked as G01, G02 and G03.")
P("Z05", "An OpenDRIVE file gives the lanes it describes",
  "The lanes of a map read from an OpenDRIVE file have the geometry the file describes.",
  ["inputs"], "all OpenDRIVE files", "There is one example file.",
  ["verse/map/opendrive_parser.py"], [("reader", "verse/map/opendrive_parser.py:opendrive_map")],
  na="The reader approximates curves numerically within tolerances of its own choice; the statement is about closeness of real curves, and the format is given by an external document, so there is nothing in the source to decide it against.")
P("Z06", "A plot shows what was computed",
  "The figure drawn for a tree shows every set and trace of it at its place.",
  ["inputs"], "all trees and plot options", "Tests do not look at figures.",
  ["verse/plotter/plotter2D.py"], [("tube", "verse/plotter/plotter2D.py:reachtube_tree")],
  na="What is seen depends on plotly's and the browser's rendering and on options given at runtime; the source only fixes the calls made.")
