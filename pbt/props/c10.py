"""C10: circuits do not depend on node names and insertion order."""
import warnings

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.mbqc.states.graphstate import GraphState

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

PLANES = ("X", "Y", "XY", "XY", "XZ", "YZ")


@st.composite
def labels(draw, n):
    kind = draw(st.sampled_from(["int", "neg", "str", "tuple", "float", "same", "digits", "mixed"]))
    if kind == "same":
        out = list(range(n))
    elif kind in ("int", "neg"):
        lo = 0 if kind == "int" else -50
        out = sorted(draw(st.lists(st.integers(lo, 60), min_size=n, max_size=n, unique=True)))
    elif kind == "float":
        out = [x / 4 for x in sorted(draw(st.lists(st.integers(-40, 40), min_size=n,
                                                   max_size=n, unique=True)))]
    elif kind == "digits":
        out = sorted(map(str, draw(st.lists(st.integers(0, 130), min_size=n, max_size=n,
                                            unique=True))))
    elif kind == "mixed":
        out = sorted(draw(st.lists(st.one_of(st.integers(-9, 30), st.integers(-9, 30).map(
            lambda x: x + 0.5)), min_size=n, max_size=n, unique=True)))
    elif kind == "str":
        out = sorted(draw(st.lists(st.text("abBz09", min_size=1, max_size=3), min_size=n,
                                   max_size=n, unique=True)))
    else:
        out = sorted(draw(st.lists(st.tuples(st.integers(0, 3), st.integers(-2, 9)),
                                   min_size=n, max_size=n, unique=True)))
        out = [["t", *x] for x in out]
    return {"kind": kind, "names": out}


@st.composite
def case_strategy(draw, max_nodes=7, max_wires=3):
    g = draw(st.one_of(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.open_graphs(max_nodes=max_nodes - 1)))
    n = g["n"]
    m = draw(gen.measured(g, gen.meas_specs(PLANES), measure_outputs=True))
    return {
        "graph": g, "meas": m, "labels": draw(labels(n)),
        "nodes": list(draw(st.permutations(range(n)))),
        "edges": list(draw(st.permutations(range(len(g["edges"]))))),
        "flips": draw(st.lists(st.booleans(), min_size=len(g["edges"]),
                               max_size=len(g["edges"]))),
        "measured": list(draw(st.permutations(sorted(m)))),
        "container": draw(st.sampled_from(["Graph", "GraphState", "edges only"])),
        "relabel": draw(st.sampled_from([True, True, False])),
        "user": draw(st.booleans()), "implicit": draw(st.booleans()),
        "theta": draw(st.lists(gen.angles(), min_size=n, max_size=n)),
        "psi": draw(gen.amplitudes(len(g["inputs"]))),
    }


def names_of(case):
    nm = case["labels"]["names"]
    return [tuple(x[1:]) for x in nm] if case["labels"]["kind"] == "tuple" else list(nm)


def base_circuit(case):
    g = case["graph"]
    m = {int(v): mk.ment(s) for v, s in case["meas"].items()}
    if not case["implicit"]:
        for v in range(g["n"]):
            m.setdefault(v, None)
    return mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                         output_nodes=list(g["outputs"]), measurements=m)


def check(case, t):
    warnings.simplefilter("ignore")
    g, n = case["graph"], case["graph"]["n"]
    nm = names_of(case)
    back = {x: i for i, x in enumerate(nm)}
    base = base_circuit(case)
    gr = GraphState() if case["container"] == "GraphState" else nx.Graph()
    if case["container"] != "edges only":
        gr.add_nodes_from(nm[v] for v in case["nodes"])
    for k in case["edges"]:
        u, v = g["edges"][k]
        if case["flips"][k]:
            u, v = v, u
        gr.add_edge(nm[u], nm[v])
    gr.add_nodes_from(nm[v] for v in case["nodes"])
    m = {nm[int(v)]: mk.ment(case["meas"][v]) for v in case["measured"]}
    if not case["implicit"]:
        for v in case["nodes"]:
            m.setdefault(nm[v], None)
    kw = {}
    if case["user"] and base.flow is not None:
        f0, p0 = base.flow, base.partial_order
        kw["flow"] = lambda x: nm[f0(back[x])]
        kw["partial_order"] = lambda x, y: p0(back[x], back[y])
        if len(case["meas"]) % 2:
            kw["measurement_order"] = [nm[v] for v in base.measurement_order]
    args = {"input_nodes": [nm[v] for v in g["inputs"]],
            "output_nodes": [nm[v] for v in g["outputs"]], "measurements": m, **kw}
    keep = [list(args["input_nodes"]), list(args["output_nodes"]),
            {k: None if x is None else (x.plane, x.angle, x.node_id) for k, x in m.items()},
            list(gr.nodes), list(map(str, gr.edges)), type(gr),
            list(kw.get("measurement_order", []))]
    mc = mp.MBQCircuit(gr, relabel_indices=case["relabel"], **args)
    now = [args["input_nodes"], args["output_nodes"],
           {k: None if x is None else (x.plane, x.angle, x.node_id) for k, x in m.items()},
           list(gr.nodes), list(map(str, gr.edges)), type(gr),
           list(kw.get("measurement_order", []))]
    require(now == keep, "the arguments were modified: {} became {}", keep, now)
    # the circuit does not share its arguments with the caller
    args["input_nodes"].reverse()
    args["output_nodes"].clear()
    m.clear()
    gr.remove_edges_from(list(gr.edges)[:1])
    gr.add_node(max(nm))
    kw.get("measurement_order", []).reverse()
    to = (lambda v: v) if case["relabel"] else (lambda v: nm[v])
    require(isinstance(mc.graph, GraphState), "graph is a {}", type(mc.graph))
    require(set(mc.graph.nodes) == {to(v) for v in range(n)}, "nodes are {}",
            list(mc.graph.nodes))
    if case["relabel"]:
        require(list(mc.graph.nodes) == list(range(n)), "nodes are listed as {}",
                list(mc.graph.nodes))
    require({frozenset(e) for e in mc.graph.edges} ==
            {frozenset((to(u), to(v))) for u, v in g["edges"]}, "edges {}", mc.graph.edges)
    require(list(mc.input_nodes) == [to(v) for v in g["inputs"]], "inputs {}",
            mc.input_nodes)
    require(list(mc.output_nodes) == [to(v) for v in g["outputs"]], "outputs {}",
            mc.output_nodes)
    require(len(mc) == n, "size {}", len(mc))
    for v in range(n):
        a, b = mc[to(v)], base[v]
        require((a is None) == (b is None) and (a is None or (a.plane, a.angle) ==
                (b.plane, b.angle)), "measurement of {} is {}, expected {}", to(v), a, b)
        require(a is None or a.node_id == to(v), "measurement of {} has id {}", to(v),
                a and a.node_id)
        require(mc.planes[to(v)] == base.planes[v], "plane of {}", to(v))
    require(set(mc.trainable_nodes) == {to(v) for v in base.trainable_nodes},
            "trainable nodes {}", mc.trainable_nodes)
    outs = [to(v) for v in base.quantum_output_nodes]
    require(set(mc.quantum_output_nodes) == set(outs) and
            [o for o in mc.quantum_output_nodes
             if o in [to(v) for v in g["outputs"]]] ==
            [to(o) for o in base.quantum_output_nodes if o in g["outputs"]],
            "quantum outputs {}, expected {}", mc.quantum_output_nodes, outs)
    require(list(mc.classical_output_nodes) == [to(v) for v in base.classical_output_nodes],
            "classical outputs {}", mc.classical_output_nodes)
    require(set(mc.outputc) == {to(v) for v in base.outputc}, "outputc {}", mc.outputc)
    require(set(mc.inputc) == {to(v) for v in base.inputc}, "inputc {}", mc.inputc)
    require((mc.flow is None) == (base.flow is None), "flow exists: {} for some names",
            mc.flow is not None)
    require(mc.depth == base.depth, "depth {} and {}", mc.depth, base.depth)
    if base.flow is not None:
        nb = ref.neighbours(range(n), g["edges"])
        rev = {to(v): v for v in range(n)}
        for v in range(n):
            if v not in g["outputs"]:
                f = rev[mc.flow(to(v))]
                require(f in nb[v] and f not in g["inputs"], "f({}) = {}", v, f)
                for w in {f} | nb[f] - {v}:
                    require(mc.partial_order(to(v), to(w)), "{} is not before {}", v, w)
        order = [rev[x] for x in mc.measurement_order]
        require(sorted(order) == list(range(n)), "order {}", mc.measurement_order)
        for i in range(n):
            for j in range(i):
                require(not mc.partial_order(to(order[i]), to(order[j])), "order {}", order)
        if "measurement_order" in kw:
            require(order == list(base.measurement_order), "given order became {}", order)
        layers = [sorted(rev[x] for x in l) for l in mc.ordered_layers()]
        require(layers == [sorted(l) for l in base.ordered_layers()], "layers {}", layers)

        try:
            for c, r in ((base, lambda v: v), (mc, rev.get)):
                sims.small_window(case, [r(v) for v in c.measurement_order], 7)
        except Skip:
            t.label("window too large")
            return
        psi = gen.to_state(case["psi"])
        results = []
        for c in (base, mc):
            r = {to(v): v for v in range(n)} if c is mc else {v: v for v in range(n)}
            sim = mp.PatternSimulator(c, input_state=psi.copy(), backend="numpy-dm")
            rho = np.asarray(sim.run([case["theta"][r[v]] for v in c.trainable_nodes]))
            o = [r[v] for v in c.quantum_output_nodes]
            k = len(o)
            perm = [o.index(v) for v in sorted(o)]
            rho = rho.reshape([2] * (2 * k)).transpose(perm + [k + p for p in perm])
            results.append((rho.reshape(2**k, 2**k),
                            {r[v]: x for v, x in sim.outcomes.items()}))
        require(results[0][1] == results[1][1], "outcomes {} and {}", results[0][1],
                results[1][1])
        require(mk.close(results[0][0], results[1][0]), "simulated outputs differ")
        t.label("simulated")
    else:
        require(mc.measurement_order is None or case["user"], "order without flow")
        t.label("no flow")
    t.label(case["labels"]["kind"], case["container"],
            "relabelled" if case["relabel"] else "kept names")
    if kw:
        t.label("user flow")
    t.interesting(n >= 3 and len(g["edges"]) >= 2 and case["nodes"] != sorted(case["nodes"]))


SUBS = [
    Sub("names", case_strategy, check, 4800,
        rule="any sortable labels (ints, negative, strings, tuples, floats), insertion "
             "orders, edge orientations, containers and user-supplied flow against the "
             "circuit on 0..n-1; non-trivial: 3 nodes, 2 edges, unsorted insertion"),
    Sub("large", lambda: case_strategy(13, 4), check, 480, rule="as names, up to 13 nodes"),
]
