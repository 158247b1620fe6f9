"""C02: the state-vector backend is exact quantum mechanics."""
import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

PLANES = ("X", "Y", "XY", "XY", "XY")


@st.composite
def case_strategy(draw, graphs=None, window=False, schedule=False):
    g = draw(graphs)
    m = draw(gen.measured(g, gen.meas_specs(PLANES), measure_outputs=True, unmeasure=True))
    psi = draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"]))))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    c = {"graph": g, "meas": m, "psi": psi, "theta": theta,
         "form": draw(st.sampled_from(["dm", "sv", "densitymatrix", "statevector", "SV"]))}
    c["window"] = draw(st.integers(1, 7)) if window else None
    c["schedule"] = list(draw(st.permutations(range(g["n"])))) if schedule else None
    return c


def flow_case():
    return case_strategy(graphs=gen.flow_graphs(max_nodes=9, max_wires=3))


def window_case():
    return case_strategy(graphs=gen.flow_graphs(max_nodes=6, max_wires=3), window=True)


def schedule_case():
    return case_strategy(graphs=gen.open_graphs(max_nodes=6, min_nodes=2), schedule=True)


def make(case, mc, **kw):
    psi = None if case["psi"] is None else gen.to_state(case["psi"])
    return mp.PatternSimulator(mc, input_state=psi, backend="numpy-sv", **kw)


def check(case, t):
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    if g["n"] > 9:
        sims.small_window(case, mc, 8)
    kw = {}
    if case["window"] is not None:
        kw["window_size"] = case["window"]
    if case["schedule"] is not None:
        kw["schedule"] = list(case["schedule"])
    try:
        sim = make(case, mc, **kw)
    except ValueError:
        require(case["window"] is not None and case["window"] != g["n"], "simulator refused")
        t.label("window refused")
        return
    outs = sims.expected_outputs(case, mc)
    angles = sims.train_angles(case, mc)
    order = case["schedule"] or list(mc.measurement_order)
    out = sim.run(angles, output_form=case["form"])
    outcomes = sims.read_outcomes(sim, case)
    vec, probs = sims.reference(case, outcomes, outs, order)
    for v, p in probs.items():
        require(p > 1e-7, "node {} reports outcome {} of probability {:.2g}", v,
                outcomes[v], p)
        require(outcomes[v] == 0 or 1 - p < 1e-2,
                "node {} reports 1 though 0 has probability {:.3g}", v, 1 - p)
    if min(list(probs.values()) + [1]) < 1e-3:
        raise Skip("ill-conditioned branch")
    d = 2 ** len(outs)
    if case["form"].lower() in ("sv", "statevector"):
        got = mk.array(out, (d,), "state vector")
        require(ref.same_ray(got, vec), "state vector has overlap {} with the right one",
                abs(np.vdot(got, vec)))
        require(abs(np.linalg.norm(got) - 1) < 1e-6, "norm {}", np.linalg.norm(got))
        t.label("vector form")
    else:
        got = mk.array(out, (d, d), "density matrix")
        require(mk.close(got, ref.dm(vec)), "density matrix differs by {:.3g}",
                np.max(np.abs(got - ref.dm(vec))))
    if any(outcomes.values()):
        t.label("forced outcome 1")
    if any(str(o) in case["meas"] for o in g["outputs"]):
        t.label("measured output")
    if set(g["inputs"]) & set(g["outputs"]):
        t.label("input is output")
    t.label(f"quantum outputs {len(outs)}")
    t.interesting(len(case["meas"]) >= 2 and len(g["edges"]) >= 2)


@st.composite
def refused_case(draw):
    g = draw(gen.flow_graphs(max_nodes=6, max_wires=2, passthrough=False))
    m = draw(gen.measured(g, gen.meas_specs(PLANES)))
    bad = draw(st.sampled_from([int(k) for k in m]))
    m[str(bad)] = draw(gen.meas_specs(("Z", "XZ", "YZ")))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    return {"graph": g, "meas": m, "psi": None, "theta": theta, "bad": bad,
            "what": draw(st.sampled_from(["plane", "form", "angles"]))}


def check_refused(case, t):
    g = case["graph"]
    meas = dict(case["meas"])
    if case["what"] != "plane":
        meas[str(case["bad"])] = ["XY", None]
    c = dict(case, meas=meas)
    mc = mk.circuit(g, meas)
    angles = sims.train_angles(c, mc)

    def go(**kw):
        make(c, mc).run(**{"angles": list(angles), **kw})

    if case["what"] == "plane":
        mk.raises(go, Exception, f"measurement in plane {meas[str(case['bad'])][0]}")
    elif case["what"] == "form":
        mk.raises(lambda: go(output_form="matrix"), ValueError, "output form")
    else:
        mk.raises(lambda: go(angles=angles + [0.1]), ValueError, "too many angles")
        if angles:
            mk.raises(lambda: go(angles=angles[:-1]), ValueError, "too few angles")
    t.label(case["what"])
    t.interesting(g["n"] > 2)


SUBS = [
    Sub("flow", flow_case, check, 3600,
        rule="random flow graph, X/Y/XY planes, random inputs; "
             "non-trivial: at least 2 measurements and 2 edges"),
    Sub("large", lambda: case_strategy(graphs=gen.flow_graphs(max_nodes=14, max_wires=5)),
        check, 480, rule="as flow with up to 14 nodes and 5 wires, windows of up to 8"),
    Sub("window", window_case, check, 1600, rule="as flow with explicit windows 1..7"),
    Sub("schedule", schedule_case, check, 1600,
        rule="arbitrary open graphs in arbitrary schedules"),
    Sub("refused", refused_case, check_refused, 400,
        rule="other planes, unknown output forms, wrong angle counts; more than 2 nodes"),
]
