"""C01: the density-matrix backend is exact quantum mechanics."""
import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

ALL = ("X", "Y", "Z", "XY", "XZ", "YZ", "XY", "X", "XYZ")


@st.composite
def flow_case(draw, max_nodes=8, max_wires=3, **kw):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires))
    m = draw(gen.measured(g, gen.meas_specs(ALL), measure_outputs=True, unmeasure=True))
    psi = draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"]))))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    return {"graph": g, "meas": m, "psi": psi, "theta": theta}


def make(case, mc, **kw):
    psi = None if case["psi"] is None else gen.to_state(case["psi"])
    return mp.PatternSimulator(mc, input_state=psi, backend="numpy-dm", **kw)


def describe(case, t, mc, outcomes):
    g = case["graph"]
    planes = {s[0] for s in case["meas"].values()}
    t.label(*("plane " + p for p in planes))
    if set(g["inputs"]) & set(g["outputs"]):
        t.label("input is output")
    if any(str(o) in case["meas"] for o in g["outputs"]):
        t.label("measured output")
    if any(v not in g["outputs"] and str(v) not in case["meas"] for v in range(g["n"])):
        t.label("unmeasured inner node")
    if any(outcomes.values()):
        t.label("some outcome 1")
    if g["outputs"] != sorted(g["outputs"]):
        t.label("permuted outputs")
    t.interesting(len(case["meas"]) >= 2 and len(g["edges"]) >= 2)


def check_flow(case, t):
    mc = mk.circuit(case["graph"], case["meas"])
    if case["graph"]["n"] > 8:
        sims.small_window(case, mc, 7)
    sim = make(case, mc)
    out = sim.run(sims.train_angles(case, mc))
    outcomes, _ = sims.compare_dm(case, sim, out, mc)
    describe(case, t, mc, outcomes)


@st.composite
def hub_case(draw):
    """Some nodes have many neighbours, all simulated at once."""
    n = draw(st.integers(6, 9))
    perm = list(draw(st.permutations(range(n))))
    k = draw(st.integers(1, 2))
    hubs = draw(st.integers(1, 2))
    edges = {tuple(sorted((perm[h], perm[v]))) for h in range(hubs) for v in range(n)
             if v != h and draw(st.integers(0, 5))}
    ins, outs = perm[:k] if draw(st.booleans()) else perm[-k:], perm[n // 2:n // 2 + k]
    g = {"n": n, "edges": sorted(map(list, edges)), "inputs": ins, "outputs": outs}
    m = draw(gen.measured(g, gen.meas_specs(ALL)))
    return {"graph": g, "meas": m, "psi": draw(gen.amplitudes(k)),
            "schedule": list(draw(st.permutations(range(n)))),
            "theta": draw(st.lists(gen.angles(), min_size=n, max_size=n))}


def check_hub(case, t):
    n = case["graph"]["n"]
    mc = mk.circuit(case["graph"], case["meas"])
    sim = make(case, mc, window_size=n, schedule=list(case["schedule"]))
    out = sim.run(sims.train_angles(case, mc))
    outcomes, _ = sims.compare_dm(case, sim, out, mc, order=case["schedule"])
    describe(case, t, mc, outcomes)


@st.composite
def window_case(draw):
    c = draw(flow_case(max_nodes=6))
    c["window"] = draw(st.integers(1, 7))
    return c


def check_window(case, t):
    """Every explicit window either is refused or gives the right answer."""
    mc = mk.circuit(case["graph"], case["meas"])
    n = case["graph"]["n"]
    try:
        sim = make(case, mc, window_size=case["window"])
    except ValueError:
        require(case["window"] != n, "a window of all {} nodes is refused", n)
        t.label("refused")
        return
    out = sim.run(sims.train_angles(case, mc))
    outcomes, _ = sims.compare_dm(case, sim, out, mc)
    describe(case, t, mc, outcomes)
    t.label(f"window {case['window']}")


@st.composite
def schedule_case(draw):
    g = draw(gen.open_graphs(max_nodes=6, min_nodes=2))
    m = draw(gen.measured(g, gen.meas_specs(ALL), measure_outputs=True))
    psi = draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"]))))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    sched = draw(st.permutations(range(g["n"])))
    win = draw(st.one_of(st.none(), st.integers(1, 7)))
    return {"graph": g, "meas": m, "psi": psi, "theta": theta, "schedule": list(sched),
            "window": win}


def check_schedule(case, t):
    """Any graph, flow or not, in any given order."""
    mc = mk.circuit(case["graph"], case["meas"])
    kw = {} if case["window"] is None else {"window_size": case["window"]}
    n = case["graph"]["n"]
    try:
        sim = make(case, mc, schedule=list(case["schedule"]), **kw)
    except ValueError:
        require(case["window"] is not None and case["window"] != n, "schedule refused")
        t.label("refused")
        return
    out = sim.run(sims.train_angles(case, mc))
    outcomes, _ = sims.compare_dm(case, sim, out, mc, order=case["schedule"])
    describe(case, t, mc, outcomes)
    t.label("no flow" if mc.flow is None else "flow")


@st.composite
def expectation_case(draw):
    g = draw(gen.flow_graphs(max_nodes=6, max_wires=2))
    specs = gen.meas_specs(("X", "XY", "Z", "Z"))
    m = draw(gen.measured(g, specs, measure_outputs=True))
    psi = draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"]))))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    return {"graph": g, "meas": m, "psi": psi, "theta": theta,
            "mode": draw(st.sampled_from(["expectation", "exp"]))}


def check_expectation(case, t):
    """In expectation mode a Z measurement reports its probability of 1 and is averaged
    over; all other measurements behave as usual."""
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    sim = make(case, mc)
    out = sim.run(sims.train_angles(case, mc), mode=case["mode"])
    outs = sims.expected_outputs(case, mc)
    got = dict(sim.outcomes)
    order = [v for v in mc.measurement_order if str(v) in case["meas"]]
    require(set(got) == set(order), "outcomes reported for {}", sorted(got))
    n = g["n"]
    st_ = ref.resource_state(range(n), g["edges"], g["inputs"], sims.input_vector(case))
    branches = [st_]
    for v in order:
        plane, _ = case["meas"][str(v)]
        ang = sims.angle_of(case, v)
        tot = sum(b.norm2() for b in branches)

        def proj(o):
            res = []
            for b in branches:
                c = ref.State(b.order, b.t)
                c.project(v, ref.eigvec(plane, ang, o))
                res.append(c)
            return res, sum(c.norm2() for c in res) / tot

        if plane == "Z":
            b0, p0 = proj(0)
            b1, p1 = proj(1)
            require(abs(got[v] - p1) < 1e-6, "Z expectation of node {} is {}, should be {}",
                    v, got[v], p1)
            branches = b0 + b1
            t.label("averaged Z")
            t.interesting(0.01 < p1 < 0.99)
        else:
            require(got[v] in (0, 1), "outcome {!r}", got[v])
            branches, p = proj(int(got[v]))
            if p < 1e-3:
                raise Skip("ill-conditioned")
    tot = sum(b.norm2() for b in branches)
    want = sum(ref.dm(b.vector(outs)) for b in branches) / tot
    rho = mk.array(out, want.shape, "output state")
    require(mk.close(rho, want), "averaged output differs by {:.3g}",
            np.max(np.abs(rho - want)))


@st.composite
def sampling_case(draw):
    g = draw(gen.flow_graphs(max_nodes=5, max_wires=2))
    m = draw(gen.measured(g, gen.meas_specs(("Z", "Z", "Z", "X", "XY", "YZ")),
                          measure_outputs=True))
    psi = draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"]))))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    return {"graph": g, "meas": m, "psi": psi, "theta": theta}


def check_sampling(case, t):
    """Outcomes of Z measurements follow their joint Born distribution."""
    g = case["graph"]
    zs = [v for v in sims.measured_nodes(case) if case["meas"][str(v)][0] == "Z"]
    if not zs:
        raise Skip("nothing is sampled")
    mc = mk.circuit(g, case["meas"])
    order = [v for v in mc.measurement_order if str(v) in case["meas"]]
    tree = []  # (probability, outcomes) of every branch

    def grow(s, p, k, outcomes):
        if k == len(order):
            tree.append((p, outcomes))
            return
        v = order[k]
        plane, ang = case["meas"][str(v)][0], sims.angle_of(case, v)
        tot, probs, after = s.norm2(), [], []
        for o in (0, 1):
            c = ref.State(s.order, s.t)
            c.project(v, ref.eigvec(plane, ang, o))
            probs.append(c.norm2() / tot)
            after.append(c)
        if plane == "Z":
            for o in (0, 1):
                if probs[o] > 1e-9:
                    grow(after[o], p * probs[o], k + 1, {**outcomes, v: o})
        else:
            if 1e-9 < probs[0] < 1e-2:
                raise Skip("ill-conditioned branch")
            o = 0 if probs[0] >= 1e-2 else 1
            grow(after[o], p, k + 1, {**outcomes, v: o})

    grow(ref.resource_state(range(g["n"]), g["edges"], g["inputs"],
                            sims.input_vector(case)), 1.0, 0, {})
    sim = make(case, mc)
    angles = sims.train_angles(case, mc)
    N, seen = 120, []
    for _ in range(N):
        sim.reset()
        sim.run(angles)
        seen.append(sims.read_outcomes(sim, case))
        require(any(all(seen[-1][v] == b[v] for v in order) for _, b in tree),
                "impossible outcomes {}", seen[-1])
    for i, u in enumerate(zs):
        for w in [None] + zs[:i]:
            p = sum(q for q, b in tree if b[u] != (b[w] if w is not None else 0))
            f = sum(s[u] != (s[w] if w is not None else 0) for s in seen) / N
            require(abs(f - p) <= 6 * np.sqrt(p * (1 - p) / N) + 1e-6,
                    "node{} {}: frequency {} in {} runs, probability {}",
                    "" if w is None else "s", u if w is None else (u, w), f, N, p)
            t.interesting(0.05 < p < 0.95)
    t.label(f"{len(zs)} Z measurements")


SUBS = [
    Sub("flow", flow_case, check_flow, 3200,
        rule="random flow graph (wires + admissible cross edges), random planes; "
             "non-trivial: at least 2 measurements and 2 edges"),
    Sub("large", lambda: flow_case(max_nodes=13, max_wires=5), check_flow, 320,
        rule="as flow with up to 13 nodes and 5 wires, windows of up to 7 nodes"),
    Sub("hubs", hub_case, check_hub, 120, rule="graphs of six to nine nodes, one or two of them "
        "joined to most others, in one window"),
    Sub("window", window_case, check_window, 1200,
        rule="explicit window sizes 1..7; non-trivial as flow and accepted"),
    Sub("schedule", schedule_case, check_schedule, 1200,
        rule="arbitrary open graphs (with or without flow) and arbitrary schedules"),
    Sub("expectation", expectation_case, check_expectation, 600,
        rule="expectation mode with Z measurements; non-trivial: an undetermined Z"),
    Sub("sampling", sampling_case, check_sampling, 160, thorough=1600,
        rule="frequencies (120 runs) of the outcomes of Z measurements and of their pairwise "
             "parities against the Born rule, 6 sigma; non-trivial: an undetermined one"),
]
