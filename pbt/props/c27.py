"""C27: circuits, graphs and simulators survive copying and serialisation."""
import copy
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import ControlMent, Ment, MentOutcome, PauliOp

from pbt import exprs, gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require
from pbt.props import c09

try:
    import dill
except ImportError:  # nothing to check then
    dill = None

SHALLOW = ["copy"]
DEEP = ["deepcopy", "dill", "dill twice", "deepcopy of copy"]


def clone(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "deepcopy of copy":
        return copy.deepcopy(copy.copy(x))
    if dill is None:
        raise Skip
    y = dill.loads(dill.dumps(x))
    return dill.loads(dill.dumps(y)) if way == "dill twice" else y


@st.composite
def circuit_case(draw):
    h = draw(c09.history())
    h["ops"] = [o for o in h["ops"] if o[0] in ("set", "ctrl", "del", "bulk", "edge")]
    return {**h, "at": draw(st.integers(0, len(h["ops"]))),
            "way": draw(st.sampled_from(SHALLOW + DEEP + DEEP)),
            "target": draw(st.lists(st.booleans(), min_size=7, max_size=7))}


def apply(mc, model, op, case):
    """One edit, if it is in the domain of the edit histories of C09."""
    g, kind, n = case["graph"], op[0], case["graph"]["n"]
    if kind == "set":
        if c09.read_by_some(model, op[1]) and model.meas[op[1]] is None:
            return False
        mc[op[1]] = mk.ment(op[2])
        model.meas[op[1]] = op[2]
    elif kind == "ctrl":
        v, r = op[1], op[2]
        if v == r or model.meas[r] is None or c09.depends(model, mc, r, v):
            return False
        mc[v] = c09.ctrl_ment(mc[r].outcome, op[3], op[4])
        model.meas[v] = ("ctrl", r, op[3], op[4])
    elif kind == "del":
        if c09.read_by_some(model, op[1]):
            return False
        del mc[op[1]]
        model.meas[op[1]] = None
    elif kind == "bulk":
        mc.measurements = {int(k): None if s is None else mk.ment(s)
                           for k, s in op[1].items()}
        for v in range(n):
            model.meas[v] = op[1].get(str(v), case["default"] if v not in g["outputs"]
                                      else None)
    else:
        if op[1] == op[2]:
            return False
        trial = model.edges | {tuple(sorted(op[1:]))}
        if c09.cyclic(g, model, trial):
            return False
        mc.add_edge(*op[1:])
        model.edges = trial
    return True


def conditions(mc):
    """Truth table of every controlled measurement."""
    out = {}
    for v in mc.controlled_nodes:
        reads = sorted(mc[v].condition.cond_nodes)
        out[v] = [(mc[v].plane(o), mc[v].angle(o)) for o in (
            {**{u: 0 for u in range(len(mc))}, **dict(zip(reads, bits))}
            for bits in itertools.product([0, 1], repeat=len(reads)))]
    return out


def behaviour(mc, case, model):
    f = c09.facts(mc)
    f["conditions"] = conditions(mc)
    f["order"] = mc.measurement_order
    f["gflow"] = None
    if mc.gflow is not None:
        f["gflow"] = {v: frozenset(np.ravel(mc.gflow.func(v)).tolist())
                      for v in range(len(mc)) if v not in mc.output_nodes} \
            if mc.gflow.func is not None else None
    f["stabilizers"] = mc.stabilizers().txt
    return f


def check_circuit(case, t):
    warnings.simplefilter("ignore")
    g, n = case["graph"], case["graph"]["n"]
    model = c09.Model(g, {v: case["meas"].get(str(v)) for v in range(n)})
    mc = c09.make(case, model, None)
    edits = 0
    for op in case["ops"][:case["at"]]:
        edits += apply(mc, model, op, case)
    before = behaviour(mc, case, model)
    twin = clone(mc, case["way"])
    require(type(twin) is type(mc) and twin is not mc, "the copy is a {}", type(twin))
    c09.compare(behaviour(twin, case, model), before, f"{case['way']}")
    c09.compare(behaviour(mc, case, model), before, f"original after {case['way']}")
    if all(s is None or s[0] != "Z" for s in model.meas.values()):
        a, oa, outs = c09.simulate(mc, case, model)
        b, ob, outs2 = c09.simulate(twin, case, model)
        require(oa == ob and outs == outs2 and mk.close(a, b), "the copy simulates differently")
    t.label(case["way"], "flow" if mc.flow else "no flow", *sorted({
        "controlled" for _ in mc.controlled_nodes}))
    if case["way"] in SHALLOW:
        t.interesting(edits > 0)
        return
    other = c09.Model(g, model.meas)
    other.edges = set(model.edges)
    pairs = [(mc, model), (twin, other)]
    later = [0, 0]
    for op, which in zip(case["ops"][case["at"]:], case["target"]):
        k = int(which)
        rest = behaviour(*((pairs[1 - k][0], case, pairs[1 - k][1])))
        if apply(*pairs[k], op, case):
            later[k] += 1
            c09.compare(c09.facts(pairs[k][0]), c09.facts(c09.make(case, pairs[k][1],
                        pairs[k][0])), f"{'copy' if k else 'original'} after {op[0]}")
            c09.order_ok(pairs[k][0])
            c09.compare(behaviour(pairs[1 - k][0], case, pairs[1 - k][1]), rest,
                        f"the other circuit after {op[0]} on the {'copy' if k else 'original'}")
    t.interesting(any(later))


@st.composite
def piece_case(draw):
    kind = draw(st.sampled_from(["ment", "control", "outcome", "graph", "pauli"]))
    c = {"kind": kind, "way": draw(st.sampled_from(SHALLOW + DEEP))}
    spec = gen.meas_specs()
    if kind == "ment":
        c["spec"] = draw(spec)
        c["node"] = draw(st.one_of(st.none(), st.integers(0, 9)))
    elif kind in ("control", "outcome"):
        c["expr"] = draw(exprs.trees(range(3), max_leaves=6))
        c["specs"] = [draw(spec), draw(spec)]
    elif kind == "graph":
        n = draw(st.integers(1, 5))
        c["n"] = n
        c["edges"] = [list(p) for p in itertools.combinations(range(n), 2) if draw(
            st.booleans())]
    else:
        n = draw(st.integers(1, 3))
        c["words"] = draw(st.lists(st.text("IXYZ", min_size=n, max_size=n), min_size=1,
                                   max_size=3))
    return c


def check_piece(case, t):
    kind, way = case["kind"], case["way"]
    bits = [dict(enumerate(b)) for b in itertools.product([0, 1], repeat=3)]
    if kind == "ment":
        m = mk.ment(case["spec"])
        if case["node"] is not None:
            m.node_id = case["node"]
        name = m.node_id
        c = clone(m, way)
        for a in (m, c):
            require((a.plane, a.angle, a.node_id, a.is_trainable()) ==
                    (m.plane, m.angle, m.node_id, case["spec"][1] is None),
                    "copy {} of {}", a, m)
        args = (0.7,) if m.is_trainable() else ()
        require(mk.close(c.matrix(*args), ref.observable(m.plane, 0.7 if args else m.angle)),
                "the copy measures something else")
        require(set(c.outcome.cond_nodes) == set(m.outcome.cond_nodes), "outcome of the copy")
        for a in (m.copy(), c.copy()):
            require(type(a) is Ment and a not in (m, c) and
                    (a.plane, a.angle, a.is_trainable()) == (m.plane, m.angle,
                                                             case["spec"][1] is None),
                    "copy() of {} is {}", m, a)
            require(mk.close(a.matrix(*args), m.matrix(*args)), "copy() measures another way")
        if way != "copy":
            c.node_id = 77
            require(m.node_id == name, "renaming the copy renamed the original")
    elif kind in ("control", "outcome"):
        ms = [Ment("X") for _ in range(3)]
        for i, m in enumerate(ms):
            m.node_id = i
        obj = exprs.build(case["expr"], lambda v: ms[v].outcome)
        reads = exprs.nodes_in(case["expr"])
        if kind == "outcome":
            c = clone(obj, way)
            require(isinstance(c, MentOutcome) and set(c.cond_nodes) == reads,
                    "copy depends on {}", c.cond_nodes)
            more = c ^ ms[2].outcome
            for b in bits:
                require(int(c(b)) == exprs.value(case["expr"], b) == int(obj(b)),
                        "copy is {} on {}", c(b), b)
                require(int(more(b)) == exprs.value(["xor", case["expr"], ["n", 2]], b),
                        "an expression built from the copy")
            require(set(obj.cond_nodes) == reads, "using the copy changed the original")
        else:
            cm = c09.ctrl_ment(obj, *case["specs"])
            c = clone(cm, way)
            require(isinstance(c, ControlMent) and c.is_trainable() == cm.is_trainable(),
                    "copy is {}", c)
            require(set(c.condition.cond_nodes) == reads, "copy reads {}",
                    c.condition.cond_nodes)
            for b in bits:
                want = case["specs"][0 if exprs.value(case["expr"], b) else 1]
                require(c.plane(b) == want[0] == cm.plane(b), "copy in plane {}", c.plane(b))
                require(c.angle(b) == cm.angle(b), "copy has angle {}", c.angle(b))
                for a in (cm.copy(), c.copy()):
                    require(isinstance(a, ControlMent) and (a.plane(b), a.angle(b)) ==
                            (want[0], cm.angle(b)) and
                            bool(a.is_trainable()) == bool(cm.is_trainable()),
                            "copy() of {} is {}", cm, a)
    elif kind == "graph":
        g = mp.GraphState()
        g.add_nodes_from(range(case["n"]))
        g.add_edges_from(map(tuple, case["edges"]))
        c = clone(g, way)
        text = g.stabilizers().txt
        require(isinstance(c, mp.GraphState) and list(c.nodes) == list(g.nodes), "nodes {}",
                list(c.nodes))
        require(sorted(map(sorted, c.edges)) == sorted(case["edges"]), "edges {}",
                list(c.edges))
        require(c.stabilizers().txt == text, "stabilizers of the copy")
        if way != "copy":
            c.add_edge(0, "new")
            require(len(g) == case["n"] and g.stabilizers().txt == text,
                    "editing the copy changed the original")
    else:
        op = PauliOp(list(case["words"]))
        c = clone(op, way)
        require(c == op and hash(c) == hash(op) and [p.txt for p in c] == case["words"],
                "copy reads {}", c)
        if way != "copy":
            c.append(PauliOp(case["words"][0]))
            require([p.txt for p in op] == case["words"], "appending to the copy changed {}",
                    op)
    t.label(kind, way)
    t.interesting(way != "copy")


@st.composite
def sim_case(draw):
    backend = draw(st.sampled_from(["numpy-dm", "numpy-sv", "numpy-dm", "numpy-sv",
                                    "pennylane"]))
    planes = ("X", "Y", "XY", "XY", "XZ", "YZ") if backend == "numpy-dm" else \
        ("X", "Y", "XY", "XY")
    g = draw(gen.flow_graphs(max_nodes=5 if backend != "pennylane" else 4, max_wires=2))
    op = st.tuples(st.sampled_from(["run", "measure", "measure", "reset", "reset_with"]),
                   st.integers(0, 1)).map(list)
    n = g["n"]
    return {"graph": g, "meas": draw(gen.measured(g, gen.meas_specs(planes))),
            "backend": backend, "states": [draw(gen.amplitudes(len(g["inputs"])))
                                           for _ in range(2)],
            "thetas": [draw(st.lists(gen.angles(), min_size=n, max_size=n)) for _ in range(2)],
            "before": draw(st.lists(op, max_size=4)), "way": draw(st.sampled_from(
                SHALLOW + DEEP)),
            "after": draw(st.lists(st.tuples(st.booleans(), op).map(list), min_size=1,
                                   max_size=5))}


def play(sim, case, mc, op, done):
    """Performs an operation that is allowed now; returns (result, measurements done)."""
    total = len(case["meas"])
    theta = case["thetas"][op[1]]
    if op[0] == "run":
        if done:
            sim.reset()
        out = sim.run([theta[v] for v in mc.trainable_nodes])
        return np.asarray(out), 0 if case["backend"] == "pennylane" else total
    if op[0] == "measure":
        if case["backend"] == "pennylane" or done == total:
            return None, done
        v = [v for v in mc.measurement_order if str(v) in case["meas"]][done]
        state, outcome = sim.measure(theta[v] if mc[v].angle is None else mc[v].angle)
        return np.append(np.asarray(state).ravel(), outcome), done + 1
    if op[0] == "reset":
        sim.reset()
    else:
        sim.reset(gen.to_state(case["states"][op[1]]))
    return None, 0


def check_sim(case, t):
    warnings.simplefilter("ignore")
    if case["way"].startswith("dill") and dill is None:
        raise Skip

    def fresh(history):
        mc = mk.circuit(case["graph"], case["meas"])
        sim = mp.PatternSimulator(mc, input_state=gen.to_state(case["states"][0]),
                                  backend=case["backend"])
        done, out = 0, None
        for op in history:
            out, done = play(sim, case, mc, op, done)
        return sim, mc, done, out

    def state(sim):
        o = dict(sim.outcomes) if case["backend"] != "pennylane" else {}
        return o, np.array(sim.input_state).tolist()

    sim, mc, done, _ = fresh(case["before"])
    was = state(sim)
    twin = clone(sim, case["way"])
    require(isinstance(twin, mp.PatternSimulator), "the copy is a {}", type(twin))
    require(state(twin) == was == state(sim), "the copy reports {}, the original {}",
            state(twin), was)
    if case["way"] == "copy":
        # a shallow copy shares its parts: use only the copy from here on
        sims_ = [None, [twin, done, list(case["before"])]]
    else:
        sims_ = [[sim, done, list(case["before"])], [twin, done, list(case["before"])]]
    used = set()
    for which, op in case["after"]:
        k = 1 if sims_[0] is None else int(which)
        s, d, hist = sims_[k]
        other = None if sims_[1 - k] is None else state(sims_[1 - k][0])
        got, d2 = play(s, case, mc, op, d)
        sims_[k] = [s, d2, hist + [op]]
        fs, _, _, want = fresh(hist + [op])
        used.add(k)
        require((got is None) == (want is None), "different results")
        if want is not None:
            require(got.shape == want.shape and mk.close(got, want, 1e-6),
                    "{} on the {} gives another result than on a fresh simulator", op[0],
                    "copy" if k else "original")
        require(state(s) == state(fs), "{} reports {}, a fresh simulator {}",
                "copy" if k else "original", state(s), state(fs))
        if other is not None:
            require(state(sims_[1 - k][0]) == other, "using one simulator changed the other")
    t.label(case["backend"], case["way"], f"{done} measured")
    t.interesting(1 in used and len(case["meas"]) >= 2)


SUBS = [
    Sub("circuits", circuit_case, check_circuit, 2400,
        rule="circuits after a random edit history, copied in five ways; non-trivial: "
             "further edits of original or deep copy (compared with circuits from scratch), "
             "or edits before a shallow copy"),
    Sub("pieces", piece_case, check_piece, 1500,
        rule="measurements, conditions, graphs and Pauli lists; non-trivial: not shallow"),
    Sub("simulators", sim_case, check_sim, 600,
        rule="simulators copied in the middle of a random history, then used alternately "
             "and compared with fresh simulators replaying the same history; non-trivial: "
             "the copy is used and two nodes are measured"),
]
