"""C31: angles are bound to the trainable nodes in the circuit's order."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require


@st.composite
def case_strategy(draw, max_nodes=7, max_wires=3, free=False):
    backend = draw(st.sampled_from(["numpy-dm", "numpy-sv", "numpy-dm", "numpy-sv",
                                    "pennylane"]))
    planes = ("X", "Y", "XY", "XY", "XY", "XY") if backend != "numpy-dm" else (
        "X", "Y", "XY", "XY", "XY", "XZ", "YZ", "XYZ")
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires))
    m = {str(v): ["XY", None] for v in range(g["n"]) if v not in g["outputs"]} if free else \
        draw(gen.measured(g, gen.meas_specs(planes)))
    train = [v for v in range(g["n"]) if m.get(str(v), ["X", 0])[1] is None]
    perm = st.one_of(st.permutations(train).map(list), st.permutations(train).map(list),
                     st.sampled_from([train[::-1], sorted(train), train[1:] + train[:1]]))
    op = st.one_of(st.tuples(st.just("order"), perm), st.tuples(st.just("run")),
                   st.tuples(st.just("run")), st.tuples(st.just("copy")),
                   st.tuples(st.just("reorder"), perm),
                   st.tuples(st.just("wrong"), st.integers(1, 3)),
                   st.tuples(st.just("steps"), perm) if backend != "pennylane" else
                   st.tuples(st.just("run")))
    return {"graph": g, "meas": m, "backend": backend,
            "listed": list(draw(st.permutations(sorted(m)))),
            "ops": [["order", draw(perm)]] + [list(o) for o in draw(st.lists(op, max_size=4))]
            + [["run"]],
            "theta": draw(st.lists(gen.generic_angles(), min_size=g["n"], max_size=g["n"])),
            "as": draw(st.sampled_from(["list", "array", "tuple"])),
            "psi": draw(gen.amplitudes(len(g["inputs"])))}


def check(case, t):
    warnings.simplefilter("ignore")
    g, n = case["graph"], case["graph"]["n"]
    m = {int(v): mk.ment(case["meas"][v]) for v in case["listed"]}
    for v in range(n):
        m.setdefault(v, None)
    mc = mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                       output_nodes=list(g["outputs"]), measurements=m)
    sims.train_angles(case, mc)  # the initial order lists every trainable node once
    if case["backend"] != "pennylane":
        sims.small_window(case, mc, 7)
    outs = sims.expected_outputs(case, mc)
    vec, probs = sims.reference(case, {v: 0 for v in range(n)}, outs,
                                list(mc.measurement_order))
    if vec is None or min(list(probs.values()) + [1]) < 1e-3:
        raise Skip("the zero branch is unlikely")
    if any(case["meas"][v][0] in ("XZ", "YZ", "XYZ") for v in case["meas"]) and mc.flow is None:
        raise Skip
    order = list(mc.trainable_nodes)
    kinds = set()
    psi = gen.to_state(case["psi"])

    def simulator():
        return mp.PatternSimulator(mc, input_state=psi.copy(), backend=case["backend"])

    def same(out, sim, what):
        out = mk.array(out, (2 ** len(outs),) * 2, "output")
        if case["backend"] != "pennylane" and any(sim.outcomes.values()):
            raise Skip("another branch")
        require(mk.close(out, ref.dm(vec)), "{} with trainable order {}: the angles are not "
                "bound to their nodes (differs by {:.3g})", what, order,
                np.max(np.abs(out - ref.dm(vec))))

    for op in case["ops"]:
        kinds.add(op[0])
        angles = [sims.angle_of(case, v) for v in order]
        if op[0] == "order":
            given = list(op[1])
            mc.trainable_nodes = given
            order = list(op[1])
            require(given == order, "the given list was modified")
            # later changes of the caller's list do not change the circuit
            given.reverse()
        elif op[0] == "copy":
            mc = copy.deepcopy(mc)
        elif op[0] == "wrong":
            mk.raises(lambda: setattr(mc, "trainable_nodes", order + [n + op[1]]), ValueError,
                      "an unknown trainable node")
            sim = simulator()
            if order:
                mk.raises(lambda: sim.run(angles[:-1]), ValueError, "an angle too few")
            mk.raises(lambda: sim.run(angles + [0.3] * op[1]), ValueError, "angles too many")
            same(sim.run(angles), sim, "a run after refused ones")
        elif op[0] in ("run", "reorder"):
            sim = simulator()
            if op[0] == "reorder":
                # the order at the time of the run counts
                mc.trainable_nodes = order = list(op[1])
                angles = [sims.angle_of(case, v) for v in order]
            kind = "list" if any(isinstance(a, tuple) for a in angles) else case["as"]
            give = {"list": list, "tuple": tuple, "array": np.array}[kind](angles)
            keep = list(give)
            same(sim.run(give), sim, "run")
            require(list(give) == keep, "run changed the angles")
        else:
            # node by node: every node gets its own angle, whatever the order
            sim = simulator()
            todo = [v for v in mc.measurement_order if str(v) in case["meas"]]
            for v in todo:
                a = sims.angle_of(case, v)
                plane = case["meas"][str(v)][0]
                state, _ = sim.measure(a if len(plane) > 1 else 0.0) if v in order else \
                    sim.measure(mc[v].angle)
            require(set(sim.outcomes) == set(todo), "measured {}", sim.outcomes)
        require(list(mc.trainable_nodes) == order, "trainable nodes are {} after {}, expected "
                "{}", mc.trainable_nodes, op[0], order)
        layers = [set(l) for l in mc.ordered_layers()]
        got = mc.ordered_layers(train_indices=True)
        want = [sorted(v for v in l if v in order and v not in g["outputs"])
                for l in layers[:-1]]
        require([sorted(order[i] for i in l) for l in got] == want,
                "trainable layers {} with order {}", got, order)
    t.label(case["backend"], f"{len(order)} trainable", *kinds)
    t.interesting(len(order) >= 2 and case["ops"][0][1] != sorted(order))


SUBS = [
    Sub("orders", case_strategy, check, 1600,
        rule="permutations of the trainable nodes set on circuits with flow, runs on all "
             "backends, deep copies, refused orders and angle counts, against the "
             "reference; also after the simulator was "
             "made; non-trivial: two trainable nodes in an unsorted order"),
    Sub("many", lambda: case_strategy(13, 3, True), check, 200,
        rule="as orders, up to 13 nodes, every angle free"),
    Sub("large", lambda: case_strategy(12, 4), check, 200, rule="as orders, up to 12 nodes"),
]
