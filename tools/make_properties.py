"""Writes /verif/properties.jsonl (the text lives here so it can be edited)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SIM = "mentpy/simulators/"
prop("C01", "Density-matrix simulation is exact quantum mechanics",
 "For every circuit without controlled measurements, input state and angle list, running the numpy density-matrix backend returns the normalised state of the unmeasured nodes obtained by preparing the inputs in the input state and all other nodes in |+>, entangling every edge with CZ and projecting each measured node on the outcome that the simulator reports. The result is ordered by the circuit's quantum output nodes and does not depend on the window size or on the (valid) schedule; a window too small to simulate the pattern is refused, never silently wrong. Every reported outcome has non-zero probability, a node measured in the Z basis draws its outcome with the Born probability (given the earlier outcomes), and any other node reports 0 unless outcome 0 is impossible (probability below 1e-4).",
 ["programs", "inputs", "configurations"],
 "all graphs with inputs/outputs, all measurement planes (X, Y, Z, XY, XZ, YZ fixed or trainable), all measured-output choices, all input states, all angles, all adequate window sizes and schedules",
 "The tests compare one state on a few fixed circuits (linear cluster, one muta, one many-wire) with random angles; they never vary graph shape, plane, window, output order or measured outputs.",
 [SIM+"np_simulator_dm.py", "mentpy/calculator/state_ops.py", "mentpy/operators/gates.py"],
 [("sliding window of simulated nodes", "np_simulator_dm.NumpySimulatorDM.measure"), ("final reordering of output qubits", "np_simulator_dm.NumpySimulatorDM.run")],
 ["PatternSimulator(mc, backend='numpy-dm').run", "simulator.outcomes"])

prop("C02", "State-vector simulation is exact quantum mechanics",
 "For every circuit measured in the X, Y or XY bases, running the numpy state-vector backend returns, up to global phase, the normalised state of the unmeasured nodes on the all-zero outcome branch, in the order of the circuit's quantum output nodes, both as a state vector and as the corresponding density matrix. The result does not depend on the window size, and measurements in other planes are refused with an error.",
 ["programs", "inputs", "configurations"],
 "all graphs with a flow, X/Y/XY measurements fixed or trainable, all input states, all angles (including multiples of pi/2 and pi), all adequate windows, both output forms",
 "The tests only compare backends on a handful of circuits with generic random angles, never the special angles at which amplitudes cancel, other windows, measured outputs or permuted outputs.",
 [SIM+"np_simulator_sv.py", "mentpy/calculator/state_ops.py"],
 [("projection and removal of the measured qubit", "np_simulator_sv.NumpySimulatorSV.measure")],
 ["PatternSimulator(mc, backend='numpy-sv').run(output_form=...)"])

prop("C03", "Flow circuits are deterministic and all backends agree",
 "For every circuit with a causal flow whose measured nodes (all but the outputs) lie in the X, Y or XY bases, and every input state and angles, the PennyLane backend (which measures for real and applies corrections) returns exactly the pure state that the numpy backends return by forcing outcome 0. The map from input to output is an isometry: it preserves inner products between input states. Every outcome branch has the same probability and, corrected by the reported flow, gives the same state. A circuit with a measurement that a backend cannot simulate (any other plane, or a controlled measurement, on PennyLane and numpy-sv) is refused by that backend, at construction or at the run; it never yields a wrong state.",
 ["programs", "inputs"],
 "all graphs with causal flow on integer labels, X/Y/XY measurements fixed or trainable, all angles, all input states",
 "The tests compare backends with three circuit shapes and random generic angles.",
 [SIM+"pennylane_simulator.py", SIM+"pattern_simulator.py", SIM+"np_simulator_sv.py", SIM+"np_simulator_dm.py"],
 [("X and Z corrections along the flow", "pennylane_simulator.mbqcircuit_to_circuit")],
 ["PatternSimulator(mc, backend=b).run for b in pennylane, numpy-dm, numpy-sv"])

prop("C04", "Simulator state machine: reset, measure and run are coherent",
 "After a reset, or a run given a new input state, a numpy simulator behaves exactly like a freshly built one with that input state, whatever runs, partial measurements and resets came before. Measuring the nodes one by one in the simulator's schedule gives the same states and the same recorded outcomes as one run, and more measurements than the pattern has, or a run with a wrong number of angles, are refused. Neither the caller's input array, the angle list nor the circuit is modified, and on every backend filling the input array anew later changes nothing until the next reset.",
 ["histories"],
 "all sequences of run / measure / reset / reset(state) / run(input_state=...) operations on one simulator object, for all circuits and input states",
 "Tests build a fresh simulator per run; no test resets, reuses or steps a simulator.",
 [SIM+"np_simulator_dm.py", SIM+"np_simulator_sv.py", SIM+"pattern_simulator.py", SIM+"base_simulator.py"],
 [("reset", "np_simulator_*.reset"), ("measurement counter and outcomes", "np_simulator_*.measure")],
 ["PatternSimulator.reset/run/measure", "simulator.outcomes", "simulator.current_measurement"],
 state=[("current_measurement", "number of nodes already measured", "np_simulator_*"), ("outcomes", "outcome per measured node", "np_simulator_*")])

prop("C05", "Controlled measurements adapt to the actual earlier outcomes",
 "On the density-matrix backend a controlled measurement measures its node in the 'true' basis exactly when its condition, evaluated on the outcomes really obtained for earlier nodes, holds, and in the 'false' basis otherwise, whatever Boolean combination of outcomes the condition is. The measurement schedule always places a controlled node after every node its condition reads (conditions may read any nodes that do not have to come later), and the output is the corresponding postselected state.",
 ["programs", "histories", "inputs"],
 "all flow circuits with any number of controlled nodes, nested conditions, fixed or trainable branches, and every random outcome pattern of the controlling Z measurements",
 "No test simulates a controlled measurement; correctness depends on outcome histories.",
 ["mentpy/operators/controlled_ment.py", SIM+"np_simulator_dm.py", "mentpy/mbqc/mbqcircuit.py"],
 [("branch choice", "controlled_ment.ControlMent.matrix/get_povm"), ("order with controls", "mbqcircuit._create_new_partial_order")],
 ["PatternSimulator(backend='numpy-dm').run, .outcomes", "MBQCircuit.measurement_order"])

prop("C06", "Causal flow search is sound and complete",
 "A causal flow is reported for a graph with equally many inputs and outputs exactly when one exists. The reported flow function, partial order and layers satisfy the flow conditions (the successor is a non-input neighbour, later than the node, and so are all other neighbours of the successor), the layering is the optimal one, and the reported depth is the number of measurement layers; unequal input and output sizes are refused. The deprecated finder (find_flow) reports a flow for the same graphs, with the same flow function and an order that satisfies the conditions.",
 ["inputs"],
 "all open graphs (graph, inputs, outputs), including inputs that are outputs, isolated nodes and graphs without flow",
 "Tests never call the flow finder on anything but template circuits and never look at layers or depth.",
 ["mentpy/mbqc/flow.py"],
 [("backward layer-by-layer search", "flow.find_cflow, flow.causal_flow_aux"), ("wrapper", "flow.Flow")],
 ["mp.mbqc.flow.find_cflow", "mp.mbqc.flow.Flow", "check_if_flow"])

prop("C07", "Generalised flow search is sound and complete",
 "When no causal flow exists, a generalised flow is reported exactly when one exists for XY-plane measurements, with a maximally delayed layering, its partial order and its depth; otherwise a warning is issued and none is reported. A circuit whose graph only has a generalised flow reports that depth and those layers, and one with neither reports none.",
 ["inputs"],
 "all open graphs with equally many inputs and outputs, on arbitrary node labels and insertion orders",
 "No test exercises generalised flow.",
 ["mentpy/mbqc/flow.py", "mentpy/mbqc/mbqcircuit.py"],
 [("GF(2) linear systems per layer", "flow.find_gflow, flow.gflowaux")],
 ["mp.mbqc.flow.find_gflow", "Flow(...).layers/.depth"])

prop("C08", "Measurement orders are valid linear extensions",
 "For every circuit with a flow, the reported measurement order lists every node exactly once and respects the flow's partial order and the conditions of controlled nodes; giving a measurement order, at construction or later, succeeds exactly when the new order does so too, and otherwise raises and leaves the circuit unchanged. The circuit's partial order is a strict partial order, and the trainable layers it reports list the trainable angles consistently with the flow's layers.",
 ["programs", "configurations"],
 "all circuits with causal flow, with and without controlled measurements, all candidate orders",
 "Tests only use default orders of template circuits; the setter is never called.",
 ["mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/flow.py"],
 [("calculate_order", "mbqcircuit.MBQCircuit.calculate_order"), ("setter validation", "mbqcircuit._check_measurement_order")],
 ["MBQCircuit.measurement_order (get and set)", "MBQCircuit.partial_order", "Flow.measurement_order", "ordered_layers"])

prop("C09", "Editing a circuit keeps every derived attribute consistent",
 "After any sequence of setting, deleting or bulk-replacing measurements and adding edges, a circuit reports the same measurements, trainable nodes, planes, controlled nodes, quantum and classical outputs, input/output complements, flow, partial order, layers and depth, and simulates identically, as a circuit built from scratch with the same graph and measurements, and answers every question about its graph (nodes, edges, neighbours, stabilizers) for the current graph. A rejected edit raises and changes nothing, and editing one circuit never changes another circuit or the caller's objects.",
 ["histories"],
 "all sequences of edit operations (valid and invalid) on all circuits",
 "Tests perform at most one assignment; long edit histories and rejected edits are never exercised.",
 ["mentpy/mbqc/mbqcircuit.py"],
 [("attribute refresh", "mbqcircuit.MBQCircuit._update_attributes"), ("edge edits", "mbqcircuit.MBQCircuit.add_edge/add_edges_from")],
 ["MBQCircuit.__setitem__/__delitem__/measurements/add_edge/add_edges_from and all read-only properties"],
 state=[("measurements", "node to measurement map", "MBQCircuit")])

prop("C10", "Circuits are independent of node names and insertion order",
 "Building the same open graph with any sortable node labels, any node or edge insertion order, and any plain-graph or graph-state container yields circuits that agree, node by node in label order, on flow existence, depth, measurements, outputs and simulated output. Nodes are renamed 0..n-1 in label order unless relabelling is switched off, a user-supplied flow, partial order or measurement order is translated along, and the caller's arguments are not modified.",
 ["inputs", "configurations"],
 "all open graphs, all relabelings and insertion orders, with and without user-supplied flow/order",
 "Tests always insert nodes 0..n-1 in order.",
 ["mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/states/graphstate.py"],
 [("relabel_indices", "mbqcircuit.MBQCircuit.__init__")],
 ["MBQCircuit constructor and its properties", "PatternSimulator.run"])

prop("C11", "Stacking and merging compose the implemented maps",
 "Horizontally stacking circuits implements the composition of their maps with the first circuit acting first, vertically stacking them implements the tensor product, and merging along chosen pairs of unmeasured outputs and inputs implements the corresponding partial composition; in each case the angles of the result are those of the parts in node order. Size mismatches, empty lists and non-output/non-input merge pairs are refused, and the parts are left unchanged.",
 ["programs", "inputs"],
 "all pairs and lists of flow circuits, with relabelled or kept node names, permuted inputs/outputs, fixed and trainable measurements, all angles and input states, all merge pairings",
 "Tests only stack two many-wire circuits and look at no output state beyond shape equality.",
 ["mentpy/mbqc/mbqcircuit.py"],
 [("hstack/vstack/merge", "mbqcircuit._hstack2, _vstack2, merge")],
 ["mp.hstack, mp.vstack, mp.merge then PatternSimulator.run"])

prop("C12", "Pauli-gadget templates implement exp(-i theta P)-type rotations",
 "The circuit generated from a Pauli string, in any accepted form, has as many inputs and outputs as qubits and exactly one trainable node, and maps every input state by the rotation exp(i s theta P / 2) generated by exactly that Pauli string for every angle theta, with a sign s = +1 or -1 that depends on the string only. Stacking such circuits applies the rotations one after another. Requests for several strings at once are refused.",
 ["inputs", "programs"],
 "all Pauli strings up to the explored size and all products of strings, all angles, all input states",
 "No test simulates circuits generated from Pauli strings.",
 ["mentpy/mbqc/templates.py"],
 [("from_pauli gadget", "templates.from_pauli")],
 ["mp.templates.from_pauli(...) then PatternSimulator.run"])

prop("C13", "Templates have the promised shape, flow and trainable nodes",
 "Each circuit template (linear cluster, parallel wires, grid cluster, MuTA, symmetric-perturbation ansatz) returns, for all valid sizes, the documented graph with the right inputs and outputs, a causal flow, and the stated trainable and fixed measurements. A linear cluster of n nodes implements the product of n-1 J(angle) gates, and the symmetric-perturbation ansatz commutes with its Z2 x Z2 symmetry. Invalid sizes are refused.",
 ["inputs", "configurations"],
 "all template parameters within the explored bounds including periodic, one-column and restricted-trainability options",
 "Tests check the trainable count of one template and sizes of a few.",
 ["mentpy/mbqc/templates.py"],
 [("template constructors", "templates.linear_cluster/many_wires/grid_cluster/muta/spturb")],
 ["mp.templates.*"])

prop("C14", "Measurement operators are the right projective measurements",
 "For every plane and angle the measurement operator is the Hermitian, traceless, involutory combination of Paulis of that plane, its POVM elements are complementary rank-one projectors with outcome 0 on the +1 eigenvector, and all accepted spellings of the same measurement agree. Trainability is reported exactly when an angle is still free, a missing or conflicting angle is refused, unknown planes and bad angle types are refused, and copies are equal but independent.",
 ["inputs"],
 "all planes, all angles (scalars and pairs), all constructor spellings, valid and invalid",
 "Tests check a few constructor calls and one matrix.",
 ["mentpy/operators/ment.py"],
 [("Ment.matrix/get_povm", "ment.Ment")],
 ["mp.Ment(...).matrix/.get_povm/.is_trainable/.copy"])

prop("C15", "Outcome expressions are exact Boolean algebra with true dependencies",
 "An outcome expression built with any nesting of the supported operators over outcomes of circuit nodes, constants and (as right operands) plain functions of the outcomes evaluates, on every outcome assignment, to the value of the same expression over bits reduced mod 2. Its reported dependency set contains exactly the nodes whose outcomes occur in the expression (a plain function declares none), and combining expressions never changes the operands.",
 ["inputs", "programs"],
 "all expression trees over and/or/xor/not/+/-/*/comparisons with constants and outcomes, all assignments",
 "No test builds an outcome expression.",
 ["mentpy/operators/ment.py", "mentpy/operators/controlled_ment.py"],
 [("operator overloads", "ment.MentOutcome")],
 ["MentOutcome operators, cond_nodes; MBQCircuit[i].outcome; ControlMent(condition)"])

prop("C16", "Pauli operator lists follow the Pauli group",
 "Conversion between text, list and binary symplectic form of a list of Pauli strings is lossless, and commutators and commutation matrices agree with matrix algebra. Length, indexing, slicing, iteration, membership, equality, hashing, append and qubit-subset selection behave like those of a list of strings, and malformed inputs, size mismatches, empty slices and subsets outside the register are refused without changing the operator. No operation shares mutable state between operators.",
 ["inputs", "histories"],
 "all lists of Pauli strings in the bounds explored, all sequences of append/query operations",
 "Tests cover one or two fixed strings per operation.",
 ["mentpy/operators/pauliop.py"],
 [("symplectic representation", "pauliop.PauliOp")],
 ["mp.PauliOp"])

prop("C17", "Stabilizers and entanglement entropy describe the graph state",
 "The stabilizers reported for a graph state are independent, pairwise commuting Pauli strings, one per node in node order, each leaving the actual graph state vector invariant. The entanglement entropy reported for a bipartition equals the entropy of the actual reduced state (the GF(2) rank of the cut). Two graph states compare equal exactly when their graphs are isomorphic.",
 ["inputs"],
 "all graphs in bounds, all node insertion orders, all bipartitions",
 "No test compares stabilizers or entropies with an actual graph state.",
 ["mentpy/mbqc/states/graphstate.py"],
 [("stabilizer matrix", "graphstate._get_stabilizers"), ("entropy", "graphstate.entanglement_entropy")],
 ["GraphState.stabilizers()", "mp.mbqc.states.graphstate.entanglement_entropy"])

prop("C18", "Lie-algebra analysis agrees with what the circuit does",
 "The Lie-algebra generators reported for a circuit with flow whose measured nodes are all trainable in the XY plane are, per trainable node, the Pauli strings on the output qubits such that changing that angle from zero acts as a rotation generated by that string. The computed Lie algebra is exactly the identity and the closure of the generators under commutators, without duplicates.",
 ["programs", "inputs"],
 "all flow circuits with XY-plane trainable measurements in bounds, all generator sets",
 "Tests compare the dimension for a few template circuits.",
 ["mentpy/utils/lie_algebra.py"],
 [("stabilizer reduction", "lie_algebra.get_generators"), ("commutator closure", "lie_algebra.lie_algebra_completion")],
 ["mp.utils.calculate_lie_algebra, lie_algebra_completion"])

prop("C19", "Local-Clifford equivalence matches the orbit of local complementations",
 "Two graph states on the same nodes are reported local-Clifford equivalent exactly when one graph can be reached from the other by local complementations, and the reported local operation really transforms one graph's stabilizer group into the other's.",
 ["inputs"],
 "all pairs of graphs on the same node set up to the explored size",
 "No test exercises this module.",
 ["mentpy/utils/lc_equivalence.py"],
 [("linear system and quadratic constraints", "lc_equivalence.are_lc_equivalent")],
 ["mp.utils.are_lc_equivalent"])

prop("C20", "Flow-space enumeration lists exactly the graphs with flow",
 "The flow space of n nodes with given (equally many) inputs and outputs contains every graph of the enumerated family that has a causal flow and none without, with valid neighbourhood relations between them, and grouping it by local equivalence yields a partition of it into the exact classes.",
 ["configurations"],
 "all node counts, inputs and outputs within bounds",
 "No test builds a flow space.",
 ["mentpy/utils/flow_space.py", "mentpy/utils/lc_equivalence.py"],
 [("enumeration", "flow_space.FlowSpace")],
 ["mp.utils.FlowSpace"])

prop("C21", "Gate builders return the named unitaries",
 "The controlled-Z, swap, CNOT, single-qubit-embedding and qubit-permutation builders return, for every register size and choice of distinct qubits, the unitary of that name acting on the stated qubits and as identity elsewhere, and random special unitaries are unitary with determinant one. The named constant gates are the textbook matrices.",
 ["inputs"],
 "all register sizes and qubit indices in bounds, all gates, all states",
 "Tests never check a gate builder directly.",
 ["mentpy/operators/gates.py"],
 [("gate constructors", "gates.*")],
 ["mp.operators.gates / mp.gates"])

prop("C22", "State utilities: partial trace, purity conversion and fidelity",
 "The partial trace of a density matrix over any subset of qubits equals the mathematical partial trace and preserves trace, Hermiticity and positivity; for vectors that are products across the cut the pure-state partial trace returns the remaining factor up to phase. Pure-to-density conversion gives the outer product, and no input array is modified.",
 ["inputs"],
 "all states on up to the explored number of qubits, all index subsets in any order",
 "Tests check two fixed examples.",
 ["mentpy/calculator/state_ops.py", "mentpy/calculator/borrows.py"],
 [("tensor contraction", "state_ops.partial_trace*")],
 ["mp.calculator.partial_trace, pure2density, fidelity"])

prop("C23", "Binary linear solving is sound and complete",
 "For every binary matrix and right-hand side, the linear solver returns a binary vector that solves the system mod 2 whenever a solution exists, for plain integer and for finite-field arrays alike, without modifying its arguments.",
 ["inputs"],
 "all binary matrices in bounds, consistent right-hand sides, square, wide, tall and rank-deficient",
 "No test calls the solver.",
 ["mentpy/calculator/linalg2.py", "mentpy/mbqc/flow.py"],
 [("gaussian elimination", "linalg2.solve")],
 ["mp.calculator.solve"])

prop("C24", "Gradients and Hessians are the true derivatives",
 "For every cost that is a trigonometric polynomial of degree one in each parameter (as circuit expectation values are), the parameter-shift gradient equals the analytic gradient for every valid shift, and the finite-difference gradient and Hessian converge to the analytic ones within their order's error. Requests for an unknown method are refused, the evaluation point is not modified, and the shapes match the number of parameters.",
 ["inputs"],
 "all multilinear trigonometric costs, all points, all step sizes and shifts in range, all methods/types",
 "Tests never evaluate a gradient on a function with known derivative.",
 ["mentpy/gradients/_parameter_shift.py", "mentpy/gradients/_finite_difference.py", "mentpy/gradients/grad.py"],
 [("shift rules", "gradients.*")],
 ["mp.gradients.get_gradient, get_hessian"])

prop("C25", "Optimizers follow their update rules and never spoil inputs",
 "Plain gradient descent, momentum and Nesterov descent and Adam perform exactly the published update rules from the given starting point for any gradient and any schedule of options, and random coordinate descent moves one coordinate at a time along its own derivative, with a constant or a decaying step, never increasing a smooth cost when the step is small. The starting point is never modified, the callback sees every step, and a new or reset optimizer starts afresh.",
 ["inputs", "histories"],
 "all hyperparameters in range, all starting points, all quadratic and trigonometric costs, all sequences of optimize/step/reset",
 "No test runs an optimizer.",
 ["mentpy/optimizers/sgd.py", "mentpy/optimizers/adam.py", "mentpy/optimizers/rcd.py", "mentpy/optimizers/base_optimizer.py"],
 [("step/optimize", "optimizers.*")],
 ["mp.optimizers.SGDOptimizer/AdamOptimizer/RCDOptimizer"])

prop("C26", "Generated training data is consistent with the target unitary",
 "Generated datasets contain the requested number of normalised input states and targets that are exactly the images of those inputs under the given unitary, and random-state helpers return normalised states of the right size, distributed uniformly. Noisy datasets differ from noiseless targets only by the named noise at the requested strength, and unknown noise is refused. Splitting data into training and test sets partitions it, keeps input-target pairs together, and respects the requested fraction.",
 ["inputs"],
 "all sizes, unitaries, split fractions and random seeds in bounds",
 "No test generates data.",
 ["mentpy/utils/generate_data.py"],
 [("sampling and splitting", "generate_data.*")],
 ["mp.utils.generate_random_dataset, generate_haar_random_states, train_test_split"])

prop("C27", "Circuits, graphs and simulators survive copying and serialisation",
 "A circuit, measurement, outcome expression, graph state, Pauli list or simulator that is shallow- or deep-copied or sent through dill serialisation behaves identically to the original: same attributes, flow, orders and simulated outputs. A deep copy shares no mutable state with the original: editing or running either one never affects the other.",
 ["programs", "histories"],
 "all circuits (with fixed, trainable and controlled measurements) and simulators in any reachable state",
 "No test copies or serialises anything.",
 ["mentpy/mbqc/mbqcircuit.py", SIM+"pattern_simulator.py", "mentpy/operators/ment.py"],
 [("attribute delegation", "MBQCircuit.__getattr__, PatternSimulator.__getattr__")],
 ["copy.copy, copy.deepcopy, dill.dumps/loads of circuits and simulators"])

prop("C28", "Drawing shows every circuit faithfully without side effects",
 "Drawing any circuit or graph state in any supported style, label mode and option combination succeeds and returns a figure showing each node once, labelled as requested and coloured by its role (controlled, quantum output, fixed, trainable), each edge once, the flow and the controls on request, at finite distinct positions with wires running left to right. Drawing never changes the circuit, and unknown options, label modes or styles for circuits are refused.",
 ["inputs", "configurations"],
 "all circuits and graph states in bounds, all styles, labels and option combinations",
 "Tests draw one circuit in three styles.",
 ["mentpy/mbqc/view.py"],
 [("draw", "view.draw")],
 ["mp.draw"])

prop("C29", "Noise options of the PennyLane backend are physical channels",
 "With a noise option (depolarizing, amplitude_damping, phase_damping, phase_flip) on the mixed-state device, the PennyLane backend returns for any strength p in [0,1] the density matrix obtained by applying the named single-qubit channel with that strength to every qubit of the entangled resource state before the measurements and corrections. Strength zero gives the noiseless state. Unknown noise names and strengths outside [0,1] are refused.",
 ["inputs", "configurations"],
 "all noise models and strengths, flow circuits and angles in bounds",
 "No test passes a noise option.",
 [SIM+"pennylane_simulator.py"],
 [("noise channels", "pennylane_simulator.mbqcircuit_to_circuit")],
 ["PatternSimulator(mc, backend='pennylane', device='default.mixed', circuit_noise=..., p=...)"])

prop("C30", "Haar statistics helpers follow the exact formulas",
 "The Haar fidelity density and its histogram are the exact probability law of fidelities of Haar-random states in the given dimension, normalised and monotone. Sampled fidelities are fidelities between output states of the circuit and lie in [0,1]. The expressivity equals the chosen divergence between the sampled and the Haar histogram; the KL and JS divergences are non-negative and zero only for identical histograms.",
 ["inputs"],
 "all dimensions, bin counts and fidelities in range",
 "No test exercises this module.",
 ["mentpy/utils/expressivity.py"],
 [("closed formulas", "expressivity.*")],
 ["mp.utils.expressivity functions"])

prop("C31", "Angles are bound to the trainable nodes in the circuit's order",
 "Running a circuit with a list of angles measures each trainable node at the angle in its position in trainable_nodes, on every backend, including after the order was replaced by any permutation (which later changes of the given list, runs, refused calls and deep copies do not alter). Fixed measurements keep their own angles. The trainable layers index into that order. A list that names an unknown node is refused and leaves the order as it was; a list of angles of another length is refused.",
 ["inputs", "histories"],
 "all flow circuits and permutations in bounds, all backends",
 "Tests use the default order and one circuit, and never set the order.",
 ["mentpy/mbqc/mbqcircuit.py", SIM+"np_simulator_dm.py", SIM+"np_simulator_sv.py", SIM+"pennylane_simulator.py"],
 [("order", "MBQCircuit.trainable_nodes"), ("binding", "run of the three simulators")],
 ["mc.trainable_nodes = ...", "PatternSimulator.run(angles)", "mc.ordered_layers(train_indices=True)"])

prop("C32", "Invalid requests are refused and change nothing",
 "A circuit is not built when inputs, outputs or measured nodes are not nodes of the graph, or when a measurement (or the default one) is not a measurement. A simulation is refused for a wrong number of angles, an unknown backend, an input that is not an array or has the wrong dimension, a window smaller than the pattern needs or larger than the pattern, a schedule that misses, repeats or invents nodes, random outcomes where only outcome zero is supported (force0=False on the numpy backends), a missing angle for a trainable node, another angle for a fixed measurement, one measurement too many, and a circuit without flow and schedule. A refused request leaves the arguments, the circuit and the state of a half-run simulation unchanged: it goes on to the right result (a refused reset: after a valid reset).",
 ["inputs", "histories", "faults"],
 "one invalid element in otherwise valid requests, on new and half-run simulators",
 "Tests never make invalid requests of a circuit or simulator.",
 ["mentpy/mbqc/mbqcircuit.py", SIM+"pattern_simulator.py", SIM+"np_simulator_dm.py", SIM+"np_simulator_sv.py", SIM+"pennylane_simulator.py", "mentpy/operators/ment.py"],
 [("argument checks", "MBQCircuit.__init__, PatternSimulator.__init__, simulators' __init__/run/measure/reset"), ("angle checks", "Ment.matrix")],
 ["MBQCircuit(...)", "PatternSimulator(...)", "sim.run / sim.measure / sim.reset"])

prop("C33", "Long patterns are simulated exactly, a window of qubits at a time",
 "Patterns of any length (hundreds of nodes) on a few wires are simulated by the numpy backends with default settings, or with another valid schedule, in time and memory that depend on the width and not on the length: the output has unit norm and is exactly the image of the input, whether the angles are given to run() or the nodes are measured one by one, and towers of many stacked circuits do what their floors do one after the other.",
 ["inputs", "configurations"],
 "all wire patterns with periodic rungs of up to 240 nodes, towers of up to 12 circuits",
 "Tests simulate at most a dozen nodes; drifts, deep orders and window growth only show in long patterns.",
 [SIM+"np_simulator_dm.py", SIM+"np_simulator_sv.py", SIM+"base_simulator.py", "mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/flow.py"],
 [("window", "base_simulator.minimum_window_size"), ("default order", "MBQCircuit.calculate_order"), ("stacking", "mbqcircuit.hstack")],
 ["PatternSimulator(mc, backend=..., schedule=...).run / measure", "mp.hstack"])

prop("C34", "Analyses leave their arguments alone and answer alike every time",
 "Every query (flow searches, stabilizers, entropy, index mappings, building, stacking and merging circuits, templates, flow spaces, Lie algebras, local-Clifford equivalence, binary solving, partial traces, purity conversion, fidelity, gates, measurement matrices and POVMs, Pauli-list operations, Haar formulas, gradients, optimizers, simulations of given angles) leaves its arguments unchanged and gives the same answer whenever it is asked again, with the same or with equal arguments, whatever other queries are made in between and whatever the caller did with earlier answers: answers belong to the caller and share no state with the arguments, the library's constants or any cache.",
 ["inputs", "operation sequences"],
 "all sequences of queries, with answers overwritten in between",
 "Tests call each function once on fresh arguments and never touch an answer afterwards; hidden state only shows in histories.",
 ["mentpy/mbqc/flow.py", "mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/templates.py", "mentpy/mbqc/states/graphstate.py", "mentpy/operators/ment.py", "mentpy/operators/pauliop.py", "mentpy/operators/gates.py", "mentpy/calculator/linalg2.py", "mentpy/calculator/state_ops.py", "mentpy/utils/lie_algebra.py", "mentpy/utils/lc_equivalence.py", "mentpy/utils/expressivity.py", "mentpy/gradients/grad.py"],
 [("constants", "operators.ment.Ment.matrix"), ("in-place edits", "operators.pauliop.PauliOp.append, utils.lie_algebra")],
 ["every analysis function of mp, mp.utils, mp.calculator, mp.templates, mp.operators, mp.gradients, mp.optimizers"])

prop("C35", "Training a circuit on generated data works end to end",
 "For every circuit with causal flow, data generated from the unitary it implements at some hidden angles is explained exactly by those angles; the cost (mean infidelity computed with a simulator that is reset to every sample, purity conversion and fidelity) equals the exact one at every point; and an optimizer run on it visits the points the published rule visits on the exact cost, with the same gradient norms and final cost on training and test data, whichever backend, optimizer, gradient method and interface (optimize, optimize_and_gradient_norm, single steps) is used and whether one simulator serves all samples or every sample gets its own. The data are not changed.",
 ["inputs", "configurations", "operation sequences"],
 "flow circuits of up to six nodes on one or two wires with up to four trainable angles, up to five samples and four steps",
 "The parts are tested separately on a few examples; that they compose into a correct training loop, for any circuit, is what users rely on.",
 [SIM+"np_simulator_dm.py", SIM+"np_simulator_sv.py", SIM+"pennylane_simulator.py", "mentpy/optimizers/sgd.py", "mentpy/optimizers/adam.py", "mentpy/gradients/grad.py", "mentpy/utils/generate_data.py", "mentpy/calculator/state_ops.py", "mentpy/mbqc/mbqcircuit.py"],
 [("data", "generate_data.generate_random_dataset"), ("reset", "simulators.*.reset"), ("steps", "optimizers.*.step")],
 ["mp.utils.generate_random_dataset", "PatternSimulator.reset / run", "mp.calculator.fidelity, pure2density", "SGDOptimizer / AdamOptimizer.optimize, step, optimize_and_gradient_norm"])

prop("C36", "Requests that mean the same get the same answer",
 "However the same thing is asked for, the answer is the same. Measurements: plane or angle first, keywords, small letters, aliases, copies, angles set later, conditions that are always true or false. Pauli lists: text (with blanks or a closing semicolon), lists, matrices, rows appended one by one. Circuits: positional or keyword arguments, measurements given in full, by default, by later edits, by assignment or after deletions, plain graphs, an edge added later, their own order or flow given back. Simulations: run or call, lists, tuples or arrays of angles, the input given when made, on reset or on run, fresh or used simulators, inputs up to a phase. Stacking: hstack and vstack of lists or tuples, merge along everything or nothing, any bracketing, rows before columns or columns before rows. Templates: one-row grids, single wires and linear clusters, grids and wires joined by edges, repeated layers.",
 ["inputs", "configurations", "operation sequences"],
 "all spellings listed, for generated measurements, Pauli lists, circuits, simulations, stacks and templates",
 "Tests use one spelling of each request and never compare two.",
 [SIM+"pattern_simulator.py", SIM+"np_simulator_dm.py", SIM+"np_simulator_sv.py", SIM+"pennylane_simulator.py", "mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/templates.py", "mentpy/operators/ment.py", "mentpy/operators/controlled_ment.py", "mentpy/operators/pauliop.py"],
 [("spellings", "Ment.__init__, PauliOp.__init__, MBQCircuit.__init__, PatternSimulator.__init__"), ("laws", "mbqcircuit.hstack, vstack, merge")],
 ["mp.Ment, mp.PauliOp, mp.MBQCircuit, mp.PatternSimulator, mp.hstack, mp.vstack, mp.merge, mp.templates"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
