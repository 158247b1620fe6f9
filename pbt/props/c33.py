"""C33: long patterns are simulated exactly, a window of qubits at a time."""
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

WINDOW = {"numpy-dm": 6, "numpy-sv": 8}
TOL = 1e-9  # rounding stays near 1e-13, however long the pattern is


def wires(case):
    """Nodes, edges, inputs and outputs of the case: wires with rungs at regular places."""
    start, names = [], {}
    for w, length in enumerate(case["lengths"]):
        start.append(len(names))
        for i in range(length):
            names[w, i] = len(names)
    edges = {(names[w, i], names[w, i + 1]) for w, length in enumerate(case["lengths"])
             for i in range(length - 1)}
    slant = {}
    for w, shift, first, period in case["rungs"]:
        # all slanted rungs between two wires lean to the same side, so that there is a flow
        shift = slant.setdefault(w, shift) if shift else 0
        for i in range(first, case["lengths"][w], period):
            if (w, i) in names and (w + 1, i + shift) in names:
                edges.add((names[w, i], names[w + 1, i + shift]))
    ends = [names[w, length - 1] for w, length in enumerate(case["lengths"])]
    return {"n": len(names), "edges": sorted(edges), "inputs": start, "outputs": ends}


@st.composite
def long_case(draw, total=90, max_wires=3):
    k = draw(st.integers(1, max_wires))
    size = draw(st.integers(max(4, total // (3 * k)), total // k))
    lengths = [size + draw(st.integers(0, 2)) for _ in range(k)]
    rungs = [[w, draw(st.sampled_from([0, 0, 1, -1])), draw(st.integers(0, 5)),
              draw(st.integers(1, 9))] for w in range(k - 1)
             for _ in range(draw(st.integers(0, 2)))]
    planes = draw(st.sampled_from([("X", "Y", "XY", "XY"), ("XY",)]))
    return {"lengths": lengths, "rungs": rungs,
            "specs": draw(st.lists(gen.meas_specs(planes), min_size=1, max_size=7)),
            "base": draw(st.lists(gen.generic_angles(), min_size=1, max_size=4)),
            "psi": draw(st.one_of(st.none(), gen.amplitudes(k))),
            "order": draw(st.sampled_from(["default", "default", "columns"])),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv", "numpy-sv"]))}


def reference(g, case, meas, theta, order):
    bases = {v: (s[0], theta[v] if s[1] is None else s[1]) for v, s in meas.items()}
    psi = sims.input_vector({"graph": g, "psi": case["psi"]})
    vec, least = ref.run_lazily(range(g["n"]), g["edges"], g["inputs"], psi, bases, order,
                                g["outputs"])
    if vec is None or least < 1e-3:
        raise Skip("the zero branch is unlikely")
    return vec


def same(out, vec, what):
    out = np.asarray(out)
    want = ref.dm(vec)
    rho = out if out.ndim == 2 else ref.dm(out)
    rho = mk.array(rho, want.shape, what)
    require(abs(np.trace(rho) - 1) < TOL, "{}: trace {}", what, np.trace(rho))
    require(mk.close(rho, want, TOL), "{} differs by {:.3g}", what, np.max(np.abs(rho - want)))


def check_long(case, t):
    warnings.simplefilter("ignore")
    g = wires(case)
    n = g["n"]
    meas = {v: case["specs"][v % len(case["specs"])] for v in range(n)
            if v not in g["outputs"]}
    theta = [case["base"][v % len(case["base"])] + 0.37 * v for v in range(n)]
    mc = mk.circuit(g, {str(v): s for v, s in meas.items()})
    kw = {}
    order = [v for v in mc.measurement_order if v in meas]
    if case["order"] == "columns":
        # another order: as early as its dependencies allow, shorter columns first
        col, rest = {}, list(mc.measurement_order)
        for w, length in enumerate(case["lengths"]):
            for i in range(length):
                col[g["inputs"][w] + i] = (i - length, w)
        done = []
        while rest:
            rest.sort(key=lambda v: col[v])
            done.append(next(v for v in rest if not any(
                mc.partial_order(u, v) for u in rest)))
            rest.remove(done[-1])
        kw["schedule"] = done
        order = [v for v in done if v in meas]
    whole = kw.get("schedule", list(mc.measurement_order))
    need = sims.small_window({"graph": g, "meas": {str(v): s for v, s in meas.items()}}, whole,
                             WINDOW[case["backend"]])
    vec = reference(g, case, meas, theta, order)
    psi = None if case["psi"] is None else gen.to_state(case["psi"])
    sim = mp.PatternSimulator(mc, backend=case["backend"], input_state=psi, **kw)
    angles = [theta[v] for v in mc.trainable_nodes]
    same(sim.run(angles), vec, "the output")
    require(dict(sim.outcomes) == {v: 0 for v in meas}, "outcomes {}", dict(sim.outcomes))
    require(list(sim.current_simulated_nodes()) == g["outputs"], "left with {}",
            sim.current_simulated_nodes())
    sim.reset()
    most = 0
    for v in order:
        most = max(most, len(sim.current_simulated_nodes()))
        sim.measure(theta[v] if meas[v][1] is None and len(meas[v][0]) > 1 else mc[v].angle)
    require(most <= max(need, 12), "{} nodes are simulated at once, {} are needed", most, need)
    left = list(sim.current_simulated_nodes())
    require(sorted(left) == sorted(g["outputs"]), "left with {}", left)
    same(sim.qstate, ref.State(g["outputs"], vec).vector(left),
         "the state after all measurements")
    t.label(case["backend"], f"{len(case['lengths'])} wires", case["order"],
            f"about {n // 25 * 25} nodes")
    t.interesting(n >= 20)


@st.composite
def stack_case(draw):
    g = draw(gen.flow_graphs(max_nodes=6, max_wires=2))
    h = draw(gen.flow_graphs(max_nodes=6, max_wires=2).filter(
        lambda h: len(h["inputs"]) == len(g["inputs"])))
    return {"parts": [g, h], "psi": draw(gen.amplitudes(len(g["inputs"]))),
            "base": draw(st.lists(gen.generic_angles(), min_size=2, max_size=5)),
            "times": draw(st.integers(3, 12)), "nested": draw(st.booleans()),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv"]))}


def check_stack(case, t):
    """A tower of stacked circuits does what its floors do one after the other."""
    warnings.simplefilter("ignore")
    floors, vec = [], gen.to_state(case["psi"])
    for i in range(case["times"]):
        g = case["parts"][i % 2]
        ang = {v: case["base"][(v + i) % len(case["base"])] + 0.41 * i for v in range(g["n"])
               if v not in g["outputs"]}
        floors.append(mk.circuit(g, {str(v): ["XY", a] for v, a in ang.items()}))
        vec, least = ref.run_lazily(range(g["n"]), g["edges"], g["inputs"], vec,
                                    {v: ("XY", a) for v, a in ang.items()},
                                    [v for v in floors[-1].measurement_order if v in ang],
                                    g["outputs"])
        if vec is None or least < 1e-3:
            raise Skip("the zero branch is unlikely")
    if case["nested"]:
        tower = mp.hstack([mp.hstack(floors[:2]), mp.hstack(floors[2:])])
    else:
        tower = mp.hstack(floors)
    order = list(tower.measurement_order)
    meas = {str(v): 1 for v in tower.graph.nodes if v not in tower.output_nodes}
    sims.small_window({"graph": {"inputs": list(tower.input_nodes), "n": len(tower),
                                 "edges": list(tower.graph.edges)}, "meas": meas}, order,
                      WINDOW[case["backend"]])
    sim = mp.PatternSimulator(tower, backend=case["backend"],
                              input_state=gen.to_state(case["psi"]))
    same(sim.run([]), vec, f"the output of {case['times']} circuits")
    t.label(case["backend"], "nested" if case["nested"] else "flat")
    t.interesting(len(tower) >= 15)


SUBS = [
    Sub("long", long_case, check_long, 240,
        rule="1-3 wires with rungs (straight and slanted), 30-90 nodes, default order and "
             "another schedule; non-trivial: at least 20 nodes"),
    Sub("very long", lambda: long_case(240), check_long, 40, rule="80-240 nodes"),
    Sub("stacks", stack_case, check_stack, 160,
        rule="3-12 stacked circuits of up to 6 nodes; non-trivial: at least 15 nodes"),
]
