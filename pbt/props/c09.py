"""C09: editing a circuit keeps every derived attribute consistent."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.mbqc.states.graphstate import GraphState
from mentpy.operators import ControlMent, Ment

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

SPECS = ("X", "Y", "Z", "XY", "XY", "XZ", "YZ")


@st.composite
def history(draw, max_nodes=6, max_wires=3, max_ops=7):
    g = draw(st.one_of(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.open_graphs(max_nodes=max_nodes - 1, min_nodes=2)))
    n = g["n"]
    spec = gen.meas_specs(SPECS)
    m = draw(gen.measured(g, spec, measure_outputs=True, unmeasure=True))
    node = st.integers(0, n - 1)
    opt_spec = st.one_of(spec, spec, st.none())
    op = st.one_of(
        st.tuples(st.just("set"), node, spec),
        st.tuples(st.just("set"), node, spec),
        st.tuples(st.just("ctrl"), node, node, spec, spec),
        st.tuples(st.just("again"), node, node, spec, spec),
        st.tuples(st.just("del"), node),
        st.tuples(st.just("bulk"), st.dictionaries(node.map(str), opt_spec, max_size=n)),
        st.tuples(st.just("edge"), node, node),
        st.tuples(st.just("edges"), st.lists(st.tuples(node, node).map(list), max_size=3)),
        st.tuples(st.just("copy")),
        st.tuples(st.just("nudge"), node),
        st.tuples(st.just("bad"), st.integers(0, 7), node),
    )
    ops = draw(st.lists(op, min_size=1, max_size=max_ops))
    theta = draw(st.lists(gen.generic_angles(), min_size=n, max_size=n))
    psi = draw(gen.amplitudes(len(g["inputs"])))
    return {"graph": g, "meas": m, "ops": [list(o) for o in ops], "theta": theta,
            "psi": psi, "default": draw(gen.meas_specs(("X", "XY", "YZ"))),
            "implicit": draw(st.booleans())}


def facts(mc):
    """Everything a circuit reports, order-insensitively where the order is free."""
    nodes = list(mc.graph.nodes)
    ments = {}
    for v in nodes:
        m = mc[v]
        if m is None:
            ments[v] = None
        elif isinstance(m, ControlMent):
            ments[v] = ("control", sorted(m.condition.cond_nodes), m.is_trainable())
        else:
            ments[v] = (m.plane, m.angle, m.node_id)
    flow = mc.flow
    f = {v: flow(v) for v in nodes if v not in mc.output_nodes} if flow else None
    po = None
    if mc.partial_order is not None:
        po = [(u, v) for u in nodes for v in nodes if mc.partial_order(u, v)]
    return {
        "measurements": ments,
        "trainable nodes": sorted(mc.trainable_nodes),
        "controlled nodes": sorted(mc.controlled_nodes),
        "planes": {v: p for v, p in mc.planes.items() if isinstance(p, str)},
        "quantum outputs": list(mc.quantum_output_nodes)[:len(
            [o for o in mc.output_nodes if mc[o] is None])],
        "all unmeasured": sorted(mc.quantum_output_nodes),
        "classical outputs": list(mc.classical_output_nodes),
        "inputs": list(mc.input_nodes), "outputs": list(mc.output_nodes),
        "input complement": sorted(mc.inputc), "output complement": sorted(mc.outputc),
        "nodes": list(mc.graph.nodes), "edges": sorted(map(sorted, mc.graph.edges)),
        "flow": f, "partial order": po, "depth": mc.depth,
        "layers": None if mc.ordered_layers() is None else
        [sorted(l) for l in mc.ordered_layers()],
        "size": len(mc), "order kept": mc.measurement_order is None,
    }


def compare(a, b, what):
    for k in a:
        require(a[k] == b[k], "{}: {} is {}, expected {}", what, k, a[k], b[k])


def answers_for_graph(mc):
    """A circuit can be asked about its graph directly."""
    gr = mc.graph
    require(list(mc.nodes) == list(gr.nodes) and len(mc) == mc.number_of_nodes() == len(gr),
            "nodes {} of the graph {}", list(mc.nodes), list(gr.nodes))
    edges = {frozenset(e) for e in gr.edges}
    require({frozenset(e) for e in mc.edges} == edges and mc.number_of_edges() == len(edges),
            "edges {} of the graph {}", list(mc.edges), edges)
    for v in gr.nodes:
        nb = {w for e in edges if v in e for w in e if w != v}
        require(set(mc.neighbors(v)) == nb and mc.degree(v) == len(nb) and all(
            mc.has_edge(v, w) for w in nb), "neighbours {} of {}", list(mc.neighbors(v)), v)
    x = "".join("X" if v == list(gr.nodes)[0] else "Z" if gr.has_edge(
        v, list(gr.nodes)[0]) else "I" for v in gr.nodes)
    require(mc.stabilizers()[0].txt == x, "first stabilizer {}", mc.stabilizers()[0])
    require(not hasattr(mc, "no_such_attribute"), "made up an attribute")


def order_ok(mc):
    o = mc.measurement_order
    if mc.flow is None:
        return
    n = len(mc)
    require(sorted(o) == list(range(n)), "measurement order {}", o)
    for i in range(n):
        for j in range(i):
            require(not mc.partial_order(o[i], o[j]), "order {} is invalid at {}, {}", o,
                    o[i], o[j])


def simulate(mc, case, model, backend="numpy-dm"):
    theta, psi = case["theta"], gen.to_state(case["psi"])
    kw = {}
    if mc.flow is None:
        rel = relation(case["graph"], model, model.edges)
        order = []
        while len(order) < len(mc):
            order.append(min(v for v in rel if v not in order and not any(
                v in rel[u] for u in rel if u not in order)))
        kw["schedule"] = order
    order = order if kw else list(mc.measurement_order)
    sims.small_window({"graph": {**case["graph"], "edges": list(mc.graph.edges)}, "meas": {
        str(v): 1 for v in range(len(mc)) if mc[v] is not None}}, order, 8)
    sim = mp.PatternSimulator(mc, input_state=psi, backend=backend, **kw)
    np.random.seed(7)
    out = sim.run([theta[v] for v in mc.trainable_nodes])
    return np.asarray(out), dict(sim.outcomes), list(mc.quantum_output_nodes)


class Model:
    """Graph and measurements the circuit should have."""

    def __init__(self, g, meas):
        self.edges = {tuple(sorted(e)) for e in g["edges"]}
        self.meas = dict(meas)  # node -> None | spec | ("ctrl", reads, t, f)


def make(case, model, donor):
    """A circuit from scratch; conditions read the outcomes of `donor`."""
    g = case["graph"]
    gr = GraphState()
    gr.add_nodes_from(range(g["n"]))
    gr.add_edges_from(sorted(model.edges))
    ms = {}
    for v, s in model.meas.items():
        if s is None:
            ms[v] = None
        elif s[0] == "ctrl":
            ms[v] = ctrl_ment(donor[s[1]].outcome, s[2], s[3])
        else:
            ms[v] = mk.ment(s)
    return mp.MBQCircuit(gr, input_nodes=list(g["inputs"]), output_nodes=list(g["outputs"]),
                         measurements=ms, default_measurement=mk.ment(case["default"]))


def ctrl_ment(cond, t_, f_):
    return ControlMent(cond, t_[1] if len(t_[0]) > 1 else None, t_[0],
                       f_[1] if len(f_[0]) > 1 else None, f_[0])


def check(case, t):
    g = case["graph"]
    n = g["n"]
    warnings.simplefilter("ignore")
    given_graph = mk.graph(g)
    given = {int(k): mk.ment(s) for k, s in case["meas"].items()}
    if not case["implicit"]:
        for v in range(n):
            given.setdefault(v, None)
    model = Model(g, {})
    for v in range(n):
        if str(v) in case["meas"]:
            model.meas[v] = case["meas"][str(v)]
        elif case["implicit"] and v not in g["outputs"]:
            model.meas[v] = case["default"]
        else:
            model.meas[v] = None
    keep = {v: None if m is None else (m.plane, m.angle, m.node_id)
            for v, m in given.items()}
    keep_lists = list(g["inputs"]), list(g["outputs"])
    args = dict(input_nodes=keep_lists[0][:], output_nodes=keep_lists[1][:])
    mc = mp.MBQCircuit(given_graph, measurements=given,
                       default_measurement=mk.ment(case["default"]), **args)
    sibling = mp.MBQCircuit(given_graph, measurements=given,
                            default_measurement=mk.ment(case["default"]), **args)
    edges0 = sorted(map(sorted, given_graph.edges))
    sib0 = facts(sibling)
    compare(facts(mc), facts(make(case, model, mc)), "new circuit")
    others, kinds, order_circuit = [], set(), [None]

    def rejected(fn, what):
        before, order = facts(mc), mc.measurement_order
        mk.raises(fn, (ValueError, KeyError, TypeError, AttributeError), what)
        compare(facts(mc), before, "after rejected " + what)
        require(mc.measurement_order == order, "rejected {} changed the order", what)

    def setprop(x):
        mc.measurements = x

    for op in case["ops"]:
        kind = op[0]
        kinds.add(kind)
        if kind == "set":
            m = mk.ment(op[2])
            mc[op[1]] = m
            model.meas[op[1]] = op[2]
            require((m.plane, m.angle) == (op[2][0], op[2][1] if len(op[2][0]) > 1 else 0)
                    and m.node_id == mk.ment(op[2]).node_id,
                    "the caller's measurement was modified")
        elif kind in ("ctrl", "again"):
            v, r = op[1], op[2]
            if kind == "again" and mc.controlled_nodes:
                v = sorted(mc.controlled_nodes)[v % len(mc.controlled_nodes)]
            old = model.meas[v]
            if kind == "again":
                model.meas[v] = None
            if v == r or model.meas[r] is None or depends(model, mc, r, v):
                model.meas[v] = old
                continue
            m = ctrl_ment(mc[r].outcome, op[3], op[4])
            if kind == "ctrl":
                mc[v] = m
            else:
                mc.measurements = {**mc.measurements, v: m}
            model.meas[v] = ("ctrl", r, op[3], op[4])
        elif kind == "nudge":
            # almost the same measurement
            s = model.meas[op[1]]
            if s is None or len(s[0]) != 2 or s[1] is None:
                continue
            model.meas[op[1]] = [s[0], s[1] + 1e-5]
            mc[op[1]] = mk.ment(model.meas[op[1]])
        elif kind == "del":
            if read_by_some(model, op[1]):
                continue
            del mc[op[1]]
            model.meas[op[1]] = None
        elif kind == "bulk":
            ms = {int(k): None if s is None else mk.ment(s) for k, s in op[1].items()}
            size = len(ms)
            mc.measurements = ms
            require(len(ms) == size, "the caller's dictionary was modified")
            for v in range(n):
                model.meas[v] = op[1].get(str(v), case["default"] if v not in g["outputs"]
                                          else None)
        elif kind in ("edge", "edges"):
            es = [tuple(op[1:])] if kind == "edge" else [tuple(e) for e in op[1]]
            if any(a == b for a, b in es):
                continue
            trial = model.edges | {tuple(sorted(e)) for e in es}
            if cyclic(g, model, trial):
                continue
            if kind == "edge":
                mc.add_edge(*es[0])
            else:
                mc.add_edges_from(es)
            model.edges = trial
        elif kind == "copy":
            c = copy.deepcopy(mc)
            others.append((c, facts(c), list(c.measurement_order or [])))
            compare(facts(c), facts(mc), "deep copy")
            continue
        else:
            i, v = op[1], op[2]
            bad = [
                (lambda: mc.__setitem__(n + 3, mp.Ment("X")), "setting an unknown node"),
                (lambda: mc.__setitem__(v, "X"), "setting a non-measurement"),
                (lambda: mc.__setitem__(v, None), "setting None"),
                (lambda: mc.__delitem__(n + 1), "deleting an unknown node"),
                (lambda: setprop({n + 2: mp.Ment("X")}), "bulk setting an unknown node"),
                (lambda: setprop({v: "XY"}), "bulk setting a non-measurement"),
                (lambda: mc[n + 5], "reading an unknown node"),
                (lambda: mc.add_edges_from([(v,)]), "a malformed edge"),
            ][i]
            rejected(*bad)
            continue
        want = facts(make(case, model, mc))
        compare(facts(mc), want, f"after {kind}")
        order_ok(mc)
    answers_for_graph(mc)
    # behaviour
    fresh = make(case, model, mc)
    try:
        a, oa, outs_a = simulate(mc, case, model)
        b, ob, outs_b = simulate(fresh, case, model)
        dense = True
    except Skip:
        t.label("window too large")
        dense = False
    if dense and all(s is None or s[0] != "Z" for s in model.meas.values()):
        require(oa == ob, "outcomes {} and {} of a fresh circuit", oa, ob)
        k = len(outs_a)
        perm = [outs_b.index(o) for o in outs_a]
        b = b.reshape([2] * (2 * k)).transpose(perm + [k + p for p in perm])
        require(mk.close(a, b.reshape(a.shape)), "simulates differently from a fresh circuit")
        t.label("simulated")
    compare(facts(sibling), sib0, "another circuit from the same arguments")
    for c, f0, o0 in others:
        compare(facts(c), f0, "an earlier deep copy")
        require(list(c.measurement_order or []) == o0, "the copy's order changed")
    require(keep == {v: None if m is None else (m.plane, m.angle, m.node_id)
                     for v, m in given.items()}, "the caller's measurements were modified")
    require((args["input_nodes"], args["output_nodes"]) == keep_lists,
            "the caller's node lists were modified")
    require(sorted(map(sorted, given_graph.edges)) == edges0
            and list(given_graph.nodes) == list(range(n)), "the caller's graph was modified")
    independent(case, mc, sibling, given, others, t)
    t.label(*kinds, "flow" if mc.flow else "no flow")
    t.interesting(len(kinds - {"bad", "copy"}) >= 2)


def independent(case, mc, sibling, given, others, t):
    """Changing the angles of one circuit's measurements in place (or of the caller's)
    changes no other circuit, however the circuits came from one another."""
    derived = [("a circuit built with its measurements", mp.MBQCircuit(
        mc.graph, list(mc.input_nodes), list(mc.output_nodes), measurements=mc.measurements,
        relabel_indices=bool(len(mc) % 2)))]
    if not mc.controlled_nodes:
        derived.append(("a stack of it", mp.vstack([mc, mc])))
    derived.append(("a circuit from the same arguments", sibling))
    derived += [("a deep copy", c) for c, _, _ in others]
    bulk = copy.deepcopy(sibling)
    bulk.measurements = mc.measurements
    derived.append(("a circuit given its measurements", bulk))
    was, own = [facts(c) for _, c in derived], facts(mc)
    held = {v: None if m is None else (m.plane, m.angle) for v, m in given.items()}

    def turn(c, by):
        for v in range(len(c)):
            m = c[v]
            if m is not None and not isinstance(m, ControlMent) and len(m.plane) > 1:
                m.set_angle(by + v)

    for m in given.values():
        if m is not None and len(m.plane) > 1:
            m.set_angle(7.5)
    compare(facts(mc), own, "after changing the caller's measurements")
    for (what, c), f in zip(derived, was):
        compare(facts(c), f, what + " after changing the caller's measurements")
    for v, m in given.items():
        if m is not None:
            m.set_angle(held[v][1])
    turn(mc, 8.5)
    for (what, c), f in zip(derived, was):
        compare(facts(c), f, what + ", after changing the circuit's angles in place")
    own = facts(mc)
    for i, (what, c) in enumerate(derived):
        turn(c, 9.5 + i)
        compare(facts(mc), own, "after changing the angles of " + what)
        for j in range(i + 1, len(derived)):
            compare(facts(derived[j][1]), was[j], derived[j][0]
                    + ", after changing the angles of " + what)
    require(held == {v: None if m is None else (m.plane, m.angle)
                     for v, m in given.items()}, "the caller's measurements were modified")


def read_by_some(model, v):
    return any(s is not None and s[0] == "ctrl" and s[1] == v for s in model.meas.values())


def relation(g, model, edges):
    """Direct 'before' relation of flow layers and controls."""
    res = ref.max_delayed_causal_layers(range(g["n"]), sorted(edges), g["inputs"],
                                        g["outputs"])
    rel = {v: set() for v in range(g["n"])}
    if res is not None:
        for u in rel:
            rel[u] |= {v for v in rel if res[0][u] > res[0][v]}
    for v, s in model.meas.items():
        if s is not None and s[0] == "ctrl":
            rel[s[1]].add(v)
    for v, more in getattr(model, "extra", {}).items():
        for r in more:
            rel[r].add(v)
    return rel


def depends(model, mc, r, v):
    """Would reading r at v close a cycle?"""
    g = {"n": len(mc), "inputs": mc.input_nodes, "outputs": mc.output_nodes}
    rel = relation(g, model, model.edges)
    seen, todo = {v}, [v]
    while todo:
        for y in rel[todo.pop()] - seen:
            seen.add(y)
            todo.append(y)
    return r in seen


def cyclic(g, model, edges):
    rel = relation(g, model, edges)
    left = set(rel)
    while left:
        free = [v for v in left if not any(v in rel[u] for u in left)]
        if not free:
            return True
        left -= set(free)
    return False


@st.composite
def names_case(draw):
    c = draw(history(6, 3, 5))
    c["names"] = sorted(draw(st.lists(st.integers(0, 60), min_size=c["graph"]["n"],
                                      max_size=c["graph"]["n"], unique=True)))
    c["ops"] = [o for o in c["ops"] if o[0] in ("set", "del", "bulk", "edge", "edges")]
    return c


def check_names(case, t):
    """Edits of a circuit that keeps its own node names."""
    warnings.simplefilter("ignore")
    g, nm = case["graph"], case["names"]
    model = Model(g, {v: case["meas"].get(str(v)) for v in range(g["n"])})

    def build():
        gr = GraphState()
        gr.add_nodes_from(nm)
        gr.add_edges_from((nm[a], nm[b]) for a, b in sorted(model.edges))
        return mp.MBQCircuit(
            gr, [nm[v] for v in g["inputs"]], [nm[v] for v in g["outputs"]], measurements={
                nm[v]: None if s is None else mk.ment(s) for v, s in model.meas.items()},
            default_measurement=mk.ment(case["default"]), relabel_indices=False)

    mc, kinds = build(), set()
    for op in case["ops"]:
        kind = op[0]
        if kind == "set":
            mc[nm[op[1]]] = mk.ment(op[2])
            model.meas[op[1]] = op[2]
        elif kind == "del":
            del mc[nm[op[1]]]
            model.meas[op[1]] = None
        elif kind == "bulk":
            mc.measurements = {nm[int(k)]: None if s is None else mk.ment(s)
                               for k, s in op[1].items()}
            for v in model.meas:
                model.meas[v] = op[1].get(str(v), case["default"] if v not in g["outputs"]
                                          else None)
        else:
            es = [tuple(op[1:])] if kind == "edge" else [tuple(e) for e in op[1]]
            if any(a == b for a, b in es):
                continue
            mc.add_edges_from([(nm[a], nm[b]) for a, b in es])
            model.edges |= {tuple(sorted(e)) for e in es}
        kinds.add(kind)
        compare(facts(mc), facts(build()), f"after {kind}")
        if mc.flow is not None:
            at = {v: i for i, v in enumerate(mc.measurement_order)}
            require(sorted(at) == nm and all(
                at[u] < at[v] for u in nm for v in nm if mc.partial_order(u, v)),
                "measurement order {}", mc.measurement_order)
    t.label(*kinds, "flow" if mc.flow else "no flow")
    t.interesting(nm != list(range(len(nm))) and bool(kinds & {"edge", "edges"}))


SUBS = [
    Sub("history", history, check, 6000,
        rule="random edit histories (set, control, delete, bulk, edges, rejected edits, "
             "deep copies) against a circuit built from scratch; non-trivial: at least "
             "two kinds of accepted edits"),
    Sub("long", lambda: history(10, 4, 14), check, 600,
        rule="as history, up to 10 nodes and 14 edits"),
    Sub("names", names_case, check_names, 500, rule="edits of circuits that keep their own "
        "node names; non-trivial: such names, and an edge added"),
    Sub("large", lambda: history(14, 5, 5), check, 150, rule="as history, up to 14 nodes"),
]
