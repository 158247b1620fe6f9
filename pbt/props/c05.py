"""C05: controlled measurements adapt to the outcomes that really occurred."""
import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import ControlMent

from pbt import exprs, gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

PLANES = ("X", "Y", "Z", "Z", "Z", "Z", "XY", "XY", "XZ", "YZ")


def any_extension(g, draw):
    """Some order compatible with the circuit's (layered) partial order, at random."""
    layer, _ = ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"],
                                             g["outputs"])
    shuffled = draw(st.permutations(range(g["n"])))
    return sorted(shuffled, key=lambda v: -layer[v])


@st.composite
def case_strategy(draw, max_nodes=7, max_wires=3):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires))
    m = draw(gen.measured(g, gen.meas_specs(PLANES), measure_outputs=True, unmeasure=True))
    order = [v for v in any_extension(g, draw) if str(v) in m]
    psi = draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"]))))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    ctrl = {}
    for i, v in enumerate(order):
        if i and draw(st.integers(0, 2)) > 0:
            cond = draw(st.one_of(exprs.trees(order[:i]), exprs.trees(order[:i]),
                                  st.booleans().map(lambda b: ["bool", b])))
            ctrl[str(v)] = {"cond": cond, "true": draw(gen.meas_specs(PLANES)),
                            "false": draw(gen.meas_specs(PLANES))}
    return {"graph": g, "meas": m, "psi": psi, "theta": theta, "ctrl": ctrl,
            "how": draw(st.sampled_from(["set", "set", "set reversed", "constructor",
                                         "bulk"])),
            "drive": draw(st.sampled_from(["run", "run", "step", "again", "mixed"]))}


def controlled(spec, outcome_of):
    cond = spec["cond"]
    c = cond[1] if cond[0] == "bool" else exprs.build(cond, outcome_of)
    (tp, ta), (fp, fa) = spec["true"], spec["false"]
    return ControlMent(c, ta if len(tp) > 1 else None, tp, fa if len(fp) > 1 else None, fp)


def build(case):
    plain = mk.circuit(case["graph"], case["meas"])
    ments = {int(v): controlled(s, lambda i: plain[i].outcome)
             for v, s in case["ctrl"].items()}
    if case["how"].startswith("set"):
        todo = list(ments.items())
        if case["how"] == "set reversed":
            todo.reverse()
        for v, m in todo:
            plain[v] = m
        return plain
    full = {v: plain[v] for v in range(case["graph"]["n"])}
    full.update(ments)
    if case["how"] == "bulk":
        plain.measurements = full
        return plain
    g = case["graph"]
    return mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                         output_nodes=list(g["outputs"]), measurements=full)


def trainable(spec):
    return len(spec[0]) > 1 and spec[1] is None


def drive(case, mc, sim, outs):
    """Run the pattern in one go, step by step, or again after an earlier run."""
    angles = [case["theta"][v] for v in mc.trainable_nodes]
    how = case.get("drive", "run")
    nodes = [v for v in mc.measurement_order if mc[v] is not None]

    def step(v):
        if v in mc.trainable_nodes:
            return sim.measure(case["theta"][v])
        return sim.measure(None if v in mc.controlled_nodes else mc[v].angle)

    if how == "again":
        sim.run(angles)
        sim.reset()
    elif how == "mixed":
        for v in nodes[:len(nodes) // 2]:
            step(v)
        sim.reset()
    if how != "step" or not nodes:
        return sim.run(angles)
    for v in nodes:
        state, outcome = step(v)
        require(sim.outcomes.get(v) == outcome, "outcome of node {} is recorded as {}", v,
                sim.outcomes.get(v))
    left, k = list(sim.current_simulated_nodes()), len(outs)
    require(sorted(left) == sorted(outs), "left with nodes {}", left)
    perm = [left.index(o) for o in outs]
    state = mk.array(state, (2**k, 2**k), "state").reshape([2] * (2 * k))
    return state.transpose(perm + [k + p for p in perm]).reshape(2**k, 2**k)


def check(case, t):
    g = case["graph"]
    mc = build(case)
    outs = sims.expected_outputs(case, mc)
    ctrl = case["ctrl"]
    require(sorted(mc.controlled_nodes) == sorted(map(int, ctrl)),
            "controlled nodes are {}", sorted(mc.controlled_nodes))
    want_train = set()
    for v in sims.measured_nodes(case):
        s = ctrl.get(str(v))
        specs = [case["meas"][str(v)]] if s is None else [s["true"], s["false"]]
        if s is not None and s["cond"][0] == "bool":
            # a constant condition never uses the other branch; both answers are fine
            want_train |= {v} if v in mc.trainable_nodes else set()
            require(v in mc.trainable_nodes or not trainable(
                s["true" if s["cond"][1] else "false"]), "node {} needs an angle", v)
        elif any(map(trainable, specs)):
            want_train.add(v)
    require(set(mc.trainable_nodes) == want_train and
            len(mc.trainable_nodes) == len(want_train),
            "trainable nodes are {}, expected {}", mc.trainable_nodes, sorted(want_train))
    order = list(mc.measurement_order)
    require(sorted(order) == list(range(g["n"])), "measurement order {}", order)
    pos = {v: i for i, v in enumerate(order)}
    for v, s in ctrl.items():
        reads = set() if s["cond"][0] == "bool" else exprs.nodes_in(s["cond"])
        for u in reads:
            require(pos[u] < pos[int(v)], "node {} is measured before {} which it reads", v, u)
    nb = ref.neighbours(range(g["n"]), g["edges"])
    for u in range(g["n"]):
        if u not in g["outputs"]:
            f = mc.flow(u)
            for w in {f} | (nb[f] - {u}):
                require(pos[u] < pos[w], "order {} violates the flow at {}, {}", order, u, w)

    if g["n"] > 8:
        sims.small_window(case, mc, 7)
    psi = None if case["psi"] is None else gen.to_state(case["psi"])
    sim = mp.PatternSimulator(mc, input_state=psi, backend="numpy-dm")
    out = drive(case, mc, sim, outs)
    outcomes = sims.read_outcomes(sim, case)
    bases, both = {}, set()
    for v in sims.measured_nodes(case):
        spec = case["meas"][str(v)]
        s = ctrl.get(str(v))
        if s is not None:
            c = s["cond"][1] if s["cond"][0] == "bool" else exprs.value(s["cond"], outcomes)
            spec = s["true"] if c else s["false"]
            both.add(bool(c))
            fixed = 0 if len(spec[0]) == 1 else spec[1]
            require(mc[v].plane(dict(outcomes)) == spec[0] and
                    mc[v].angle(dict(outcomes)) == fixed, "node {} says it is measured in {} "
                    "at {}, but its condition selects {}", v, mc[v].plane(dict(outcomes)),
                    mc[v].angle(dict(outcomes)), spec)
        ang = spec[1] if spec[1] is not None else case["theta"][v]
        bases[v] = (spec[0], ang, outcomes[v])
    vec, probs = ref.run_pattern(range(g["n"]), g["edges"], g["inputs"],
                                 sims.input_vector(case), bases,
                                 [v for v in order if v in bases], outs)
    for v, p in probs.items():
        require(p > 1e-7, "node {} reports outcome {} of probability {:.2g} in the basis "
                "its condition selects", v, outcomes[v], p)
        require(bases[v][0] == "Z" or outcomes[v] == 0 or 1 - p < 1e-2,
                "node {} reports 1 though 0 has probability {:.3g}", v, 1 - p)
    if min(list(probs.values()) + [1]) < 1e-3:
        raise Skip("ill-conditioned branch")
    rho = mk.array(out, (len(vec), len(vec)), "output")
    require(mk.close(rho, ref.dm(vec)), "output differs from the adapted pattern by {:.3g}",
            np.max(np.abs(rho - ref.dm(vec))))
    t.label(case["how"], case.get("drive", "run"), *(f"condition {c}" for c in both))
    if any(outcomes[v] for s in ctrl.values() if s["cond"][0] != "bool"
           for v in exprs.nodes_in(s["cond"])):
        t.label("reads an outcome 1")
    chains = any(set(map(str, exprs.nodes_in(s["cond"]))) & set(ctrl)
                 for s in ctrl.values() if s["cond"][0] != "bool")
    if chains:
        t.label("chained controls")
    t.interesting(any(s["cond"][0] != "bool" and s["true"] != s["false"]
                      for s in ctrl.values()))


SUBS = [
    Sub("adaptive", case_strategy, check, 4000,
        rule="random flow graphs where about two thirds of the nodes are controlled by "
             "random Boolean expressions over earlier outcomes (Z nodes give random "
             "outcomes); non-trivial: a genuine condition selecting between two "
             "different bases"),
    Sub("large", lambda: case_strategy(12, 4), check, 320,
        rule="as adaptive with up to 12 nodes and 4 wires"),
]
