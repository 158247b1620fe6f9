"""C03: flow circuits are deterministic isometries and all backends agree."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require


@st.composite
def case_strategy(draw, max_nodes=6, permute=True, max_wires=3):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires, permute=permute,
                             passthrough=draw(st.booleans())))
    m = draw(gen.measured(g, gen.meas_specs(("X", "Y", "XY", "XY", "XY"))))
    psi = draw(gen.amplitudes(len(g["inputs"])))
    phi = draw(gen.amplitudes(len(g["inputs"])))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    # the order in which measurements are listed is free
    listed = draw(st.permutations(sorted(m)))
    return {"graph": g, "meas": {k: m[k] for k in listed}, "psi": psi, "phi": phi,
            "theta": theta, "listed": list(listed)}


def circuit(case):
    g = case["graph"]
    m = {int(k): mk.ment(case["meas"][k]) for k in case["listed"]}
    for v in g["outputs"]:
        m.setdefault(v, None)
    return mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                         output_nodes=list(g["outputs"]), measurements=m)


def label(case, t, mc):
    g = case["graph"]
    t.label(f"depth {mc.depth}", f"wires {len(g['inputs'])}")
    if set(g["inputs"]) & set(g["outputs"]):
        t.label("input is output")
    if len(mc.trainable_nodes) == len(case["meas"]):
        t.label("all trainable")
    t.interesting(len(case["meas"]) >= 2)


def check_backends(case, t):
    g = case["graph"]
    mc = circuit(case)
    outs = sims.expected_outputs(case, mc)
    angles = sims.train_angles(case, mc)
    d = 2 ** len(outs)
    if g["n"] > 8:
        sims.small_window(case, mc, 7)
    want, _ = sims.reference(case, {v: 0 for v in range(g["n"])}, outs)
    psi = gen.to_state(case["psi"])
    for backend in ("pennylane", "numpy-dm", "numpy-sv"):
        sim = mp.PatternSimulator(mc, input_state=psi.copy(), backend=backend)
        got = mk.array(sim.run(list(angles)), (d, d), backend)
        require(mk.close(got, ref.dm(want), 1e-5), "{} differs from the zero branch by {:.3g}",
                backend, np.max(np.abs(got - ref.dm(want))))
    label(case, t, mc)


def check_isometry(case, t):
    g = case["graph"]
    mc = circuit(case)
    outs = sims.expected_outputs(case, mc)
    angles = sims.train_angles(case, mc)
    d = 2 ** len(outs)
    psi, phi = gen.to_state(case["psi"]), gen.to_state(case["phi"])
    rhos = {}
    for backend in ("numpy-dm", "numpy-sv"):
        for k, s in enumerate((psi, phi)):
            sim = mp.PatternSimulator(mc, input_state=s.copy(), backend=backend)
            rhos[backend, k] = mk.array(sim.run(list(angles)), (d, d), backend)
            require(all(o == 0 for o in sim.outcomes.values()),
                    "{} takes the branch {} of a deterministic pattern", backend, sim.outcomes)
    for k in (0, 1):
        require(mk.close(rhos["numpy-dm", k], rhos["numpy-sv", k], 1e-5),
                "the numpy backends differ by {:.3g}",
                np.max(np.abs(rhos["numpy-dm", k] - rhos["numpy-sv", k])))
    got = np.real(np.trace(rhos["numpy-dm", 0] @ rhos["numpy-dm", 1]))
    want = abs(np.vdot(psi, phi)) ** 2
    require(abs(got - want) < 1e-5, "overlap {} of the outputs, {} of the inputs", got, want)
    label(case, t, mc)
    t.interesting(len(case["meas"]) >= 2 and 1e-3 < want < 1 - 1e-3)


def check_branches(case, t):
    """Every outcome branch, corrected by the reported flow, gives the same state: the
    corrections the flow of the circuit prescribes really make it deterministic."""
    g = case["graph"]
    mc = circuit(case)
    outs = sims.expected_outputs(case, mc)
    sims.train_angles(case, mc)
    order = [v for v in mc.measurement_order if v not in outs]
    pos = {v: i for i, v in enumerate(mc.measurement_order)}
    nb = ref.neighbours(range(g["n"]), g["edges"])
    want, _ = sims.reference(case, {v: 0 for v in order}, outs)
    for bits in itertools.product([0, 1], repeat=len(order)):
        st_ = ref.resource_state(range(g["n"]), g["edges"], g["inputs"],
                                 sims.input_vector(case))
        for v, b in zip(order, bits):
            plane = case["meas"][str(v)][0]
            p0 = st_.norm2()
            p = st_.project(v, ref.eigvec(plane, sims.angle_of(case, v), b))
            require(abs(p / p0 - 0.5) < 1e-6,
                    "outcome {} of node {} has probability {:.4g} instead of 1/2", b, v, p / p0)
            if b:
                f = mc.flow(v)
                st_.apply(ref.X, f)
                for w in nb[f]:
                    if w != v:
                        require(pos[w] > pos[v], "node {} is corrected after it is measured", w)
                        st_.apply(ref.Z, w)
        vec = st_.vector(outs)
        require(ref.same_ray(vec / np.linalg.norm(vec), want),
                "branch {} gives another state", bits)
    label(case, t, mc)


@st.composite
def unsupported_case(draw):
    g = draw(gen.flow_graphs(max_nodes=5, max_wires=2, permute=True))
    m = draw(gen.measured(g, gen.meas_specs(("X", "Y", "XY", "XY"))))
    if not m:
        return {"graph": g, "meas": {}}
    v = draw(st.sampled_from(sorted(m)))
    if draw(st.integers(0, 3)):
        m[v] = draw(gen.meas_specs(("Z", "XZ", "YZ")))
        how = "plane"
    else:
        how = "control"
    return {"graph": g, "meas": m, "node": int(v), "how": how, "listed": sorted(m),
            "psi": draw(gen.amplitudes(len(g["inputs"]))),
            "backend": draw(st.sampled_from(["pennylane", "pennylane", "numpy-sv"])),
            "theta": draw(st.lists(gen.generic_angles(), min_size=g["n"], max_size=g["n"]))}


def check_unsupported(case, t):
    """A backend refuses a circuit it cannot simulate; it never returns a wrong state."""
    if not case["meas"]:
        raise Skip("nothing measured")
    warnings.simplefilter("ignore")
    mc = circuit(case)
    if case["how"] == "control":
        old = mc[case["node"]]
        other = "Y" if old.plane == "X" else "X"
        mc[case["node"]] = mp.operators.ControlMent(True, None, other, old.angle, old.plane)
        case = dict(case, meas=dict(case["meas"], **{str(case["node"]): [other, None]}))
    outs = sims.expected_outputs(case, mc)
    angles = [case["theta"][v] for v in mc.trainable_nodes]
    t.label(case["how"], case["backend"])
    t.interesting()
    try:
        sim = mp.PatternSimulator(mc, input_state=gen.to_state(case["psi"]),
                                  backend=case["backend"])
        got = sim.run(angles)
    except Exception:
        return
    want, _ = sims.reference(case, {v: 0 for v in range(case["graph"]["n"])}, outs)
    if want is not None:
        require(np.shape(got) == (2 ** len(outs),) * 2 and mk.close(got, ref.dm(want), 1e-5),
                "{} accepts the circuit but returns a wrong state", case["backend"])


SUBS = [
    Sub("backends", lambda: case_strategy(max_nodes=6), check_backends, 360,
        rule="random flow graph with X/Y/XY measurements listed in any order, PennyLane "
             "(real measurements and corrections) against both numpy backends and the "
             "reference; non-trivial: at least 2 measurements"),
    Sub("large", lambda: case_strategy(max_nodes=13, max_wires=5), check_backends, 160,
        rule="as backends with up to 13 nodes and 5 wires"),
    Sub("isometry", lambda: case_strategy(max_nodes=8), check_isometry, 1600,
        rule="two inputs through one circuit; non-trivial: neither parallel nor orthogonal"),
    Sub("branches", lambda: case_strategy(max_nodes=7), check_branches, 800,
        rule="all outcome branches corrected by the reported flow; "
             "non-trivial: at least 2 measurements"),
    Sub("unsupported", unsupported_case, check_unsupported, 320,
        rule="one measurement of a kind PennyLane or numpy-sv cannot simulate: refused, "
             "never a wrong state; non-trivial: all"),
]
