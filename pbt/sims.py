"""Shared oracles for simulator checks."""
import numpy as np

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Violation, require


def angle_of(case, v):
    plane, angle = case["meas"][str(v)]
    if plane == "XYZ":
        # two angles; trainable ones take the next node's as well
        n = len(case["theta"])
        return tuple(angle) if angle is not None else (case["theta"][v],
                                                       case["theta"][(v + 1) % n])
    return angle if angle is not None else case["theta"][v]


def measured_nodes(case):
    return [v for v in range(case["graph"]["n"]) if case["meas"].get(str(v)) is not None]


def expected_outputs(case, mc):
    """Unmeasured outputs in the declared order, then any other unmeasured node."""
    g = case["graph"]
    meas = set(measured_nodes(case))
    outs = [o for o in g["outputs"] if o not in meas]
    rest = {v for v in range(g["n"]) if v not in meas and v not in g["outputs"]}
    got = list(mc.quantum_output_nodes)
    require(got[: len(outs)] == outs and set(got[len(outs):]) == rest
            and len(got) == len(outs) + len(rest),
            "quantum outputs are {}, expected {} then {}", got, outs, sorted(rest))
    return got


def train_angles(case, mc):
    want = {v for v in measured_nodes(case)
            if case["meas"][str(v)][1] is None and len(case["meas"][str(v)][0]) > 1}
    got = list(mc.trainable_nodes)
    require(set(got) == want and len(got) == len(want),
            "trainable nodes are {}, expected {}", got, sorted(want))
    return [angle_of(case, v) for v in got]


def input_vector(case):
    k = len(case["graph"]["inputs"])
    if case.get("psi") is None:
        return np.ones(2**k) / np.sqrt(2**k)
    return gen.to_state(case["psi"])


def small_window(case, mc, limit):
    """Skips circuits whose default schedule (or given order) needs a window of more than
    `limit` nodes, which dense simulations cannot handle in reasonable time."""
    g = case["graph"]
    order = mc if isinstance(mc, list) else list(mc.measurement_order)
    listed = [v for v in order if v in g["inputs"]] + [v for v in order
                                                        if v not in g["inputs"]]
    at = {v: i for i, v in enumerate(listed)}
    nb = ref.neighbours(range(g["n"]), g["edges"])
    meas = [v for v in order if str(v) in case["meas"]]
    need = max([at[w] - k + 1 for k, v in enumerate(meas) for w in nb[v] | {v}]
               + [len(g["inputs"])])
    if need > limit:
        raise Skip("window too large")
    return need


def reference(case, outcomes, outs, order=None):
    """Postselected output vector and conditional probabilities."""
    g = case["graph"]
    bases = {}
    for v in measured_nodes(case):
        bases[v] = (case["meas"][str(v)][0], angle_of(case, v), outcomes[v])
    order = [v for v in (order or range(g["n"])) if v in bases]
    return ref.run_pattern(range(g["n"]), g["edges"], g["inputs"], input_vector(case),
                           bases, order, outs)


def read_outcomes(sim, case):
    got = dict(sim.outcomes)
    want = set(measured_nodes(case))
    require(set(got) == want, "outcomes reported for {}, measured {}", sorted(got), sorted(want))
    for v, o in got.items():
        require(o in (0, 1), "outcome of node {} is {!r}", v, o)
    return {v: int(o) for v, o in got.items()}


def compare_dm(case, sim, out, mc, tol=1e-6, order=None, free=()):
    """The density matrix `out` and reported outcomes against the reference."""
    outs = expected_outputs(case, mc)
    outcomes = read_outcomes(sim, case)
    order = order or list(mc.measurement_order)
    vec, probs = reference(case, outcomes, outs, order)
    for v in measured_nodes(case):
        plane = case["meas"][str(v)][0]
        require(probs[v] > 1e-7, "node {} reports outcome {} of probability {:.2g}", v,
                outcomes[v], probs[v])
        if plane != "Z" and outcomes[v] == 1 and v not in free:
            require(1 - probs[v] < 1e-2,
                    "node {} ({}) reports 1 though 0 has probability {:.3g}", v, plane,
                    1 - probs[v])
    if min(list(probs.values()) + [1]) < 1e-3:
        raise Skip("ill-conditioned branch")
    d = 2 ** len(outs)
    rho = mk.array(out, (d, d), "output state")
    require(mk.close(rho, ref.dm(vec), tol),
            "output differs from the postselected state by {:.3g}",
            np.max(np.abs(rho - ref.dm(vec))))
    return outcomes, vec
