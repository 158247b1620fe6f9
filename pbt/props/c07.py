"""C07: generalised flow search is sound and complete."""
import itertools
import math
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.mbqc.flow import find_gflow
from mentpy.mbqc.states.graphstate import GraphState

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require


@st.composite
def mixed(draw, max_nodes=8, max_wires=4):
    """A graph with causal flow whose output columns were mixed: neighbourhoods of
    non-input outputs are added to each other, which keeps every gflow layer."""
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires, min_wires=2, passthrough=False))
    corr = [v for v in g["outputs"] if v not in g["inputs"]]
    es = {tuple(sorted(e)) for e in g["edges"]}
    if len(corr) >= 2:
        for _ in range(draw(st.integers(2, 7))):
            a, b = draw(st.permutations(corr))[:2]
            for m in range(g["n"]):
                if m not in g["outputs"] and tuple(sorted((a, m))) in es:
                    es ^= {tuple(sorted((b, m)))}
    g["edges"] = [list(e) for e in sorted(es)]
    return g


@st.composite
def perturbed(draw, max_nodes=8, max_wires=4):
    g = draw(mixed(max_nodes, max_wires))
    pairs = [[i, j] for i in range(g["n"]) for j in range(i + 1, g["n"])]
    if pairs:
        p = draw(st.sampled_from(pairs))
        if p in g["edges"]:
            g["edges"].remove(p)
        else:
            g["edges"].append(p)
    return g


@st.composite
def any_graph(draw, equal, max_nodes=7):
    g = draw(gen.open_graphs(max_nodes=max_nodes, min_nodes=2, equal=equal))
    if draw(st.booleans()):
        free = [v for v in range(g["n"]) if v not in g["outputs"]]
        g["inputs"] = [v for v in g["inputs"]][: max(1, len(g["inputs"]) // 2)]
        if equal:
            g["outputs"] = g["outputs"][: len(g["inputs"])]
    return g


def search(g, names=None):
    """The search on the graph, whose nodes may be named and listed in any way; the answers
    in terms of the numbers of the nodes."""
    names = names or {v: v for v in range(g["n"])}
    gr = GraphState()
    gr.add_nodes_from(names.values())
    gr.add_edges_from((names[a], names[b]) for a, b in g["edges"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        func, order, depth, layers = find_gflow(gr, [names[v] for v in g["inputs"]],
                                                [names[v] for v in g["outputs"]])
    if func is not None:
        back = {x: v for v, x in names.items()}
        require(set(layers) == set(back), "layers of {}, nodes {}", set(layers), set(back))
        res = ((lambda v: func(names[v])), (lambda u, v: order(names[u], names[v])), depth,
               {back[x]: l for x, l in layers.items()})
    else:
        res = func, order, depth, layers
    warned = any(issubclass(x.category, UserWarning) for x in w)
    return res, warned


def verify_correction(g, u, sol, layers, plain):
    """What the gflow reports for u selects nodes measured later, other than inputs, whose
    joint neighbourhood among u, its layer and the earlier ones is u alone."""
    later = [v for v in range(g["n"]) if layers[v] < layers[u] and v not in g["inputs"]]
    nb = ref.neighbours(range(g["n"]), g["edges"])
    unc = {v for v in range(g["n"]) if layers[v] >= layers[u]}

    def corrects(cs):
        odd = set()
        for c in cs:
            odd ^= nb[c]
        return odd & unc == {u}

    bits = [int(x) for x in np.ravel(np.asarray(sol))]
    require(len(bits) == len(later) and set(bits) <= {0, 1}, "the correction of {} is {}, there "
            "are {} nodes to choose from", u, bits, len(later))
    if plain:
        # there is only one way to list the nodes
        chosen = [c for c, x in zip(later, bits) if x]
        require(corrects(chosen), "measuring {} cannot be corrected by {}", u, chosen)
    elif math.comb(len(later), sum(bits)) < 20000:
        require(any(corrects(cs) for cs in itertools.combinations(later, sum(bits))),
                "measuring {} cannot be corrected by {} nodes", u, sum(bits))


def verify_order(g, order, layers):
    n = g["n"]
    for u in range(n):
        for v in range(n):
            require(bool(order(u, v)) == (layers[u] > layers[v]),
                    "partial order relates {} and {} wrongly", u, v)


def check_search(case, t):
    g = case["graph"]
    want = ref.gflow_layers(range(g["n"]), g["edges"], g["inputs"], g["outputs"])
    names = case.get("names")
    (func, order, depth, layers), warned = search(g, names and {int(v): x for v, x in
                                                                names.items()})
    if want is None:
        require(func is None and order is None and depth is None and layers is None,
                "a gflow is reported but there is none")
        require(warned, "no warning although there is no gflow")
        t.label("no gflow")
    else:
        require(func is not None, "no gflow is reported but there is one with layers {}", want)
        require(not warned, "warned although a gflow is reported")
        require(dict(layers) == want, "layers {}, maximally delayed ones {}", layers, want)
        require(depth == max(want.values()), "depth {}, layers {}", depth, want)
        verify_order(g, order, want)
        for u in range(g["n"]):
            if u not in g["outputs"]:
                verify_correction(g, u, func(u), want, plain=not names and g["n"] < 8)
        causal = len(g["inputs"]) == len(g["outputs"]) and ref.max_delayed_causal_layers(
            range(g["n"]), g["edges"], g["inputs"], g["outputs"]) is not None
        t.label("causal flow too" if causal else "gflow only")
    t.interesting(len(g["edges"]) >= 2 and len(g["outputs"]) < g["n"])


def check_circuit(case, t):
    """What a circuit reports: causal flow if any, else gflow depth and layers."""
    g = case["graph"]
    gl = ref.gflow_layers(range(g["n"]), g["edges"], g["inputs"], g["outputs"])
    cf = ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"], g["outputs"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        mc = mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                           output_nodes=list(g["outputs"]))
    warned = any("gflow" in str(x.message) for x in w)
    require((mc.flow is not None) == (cf is not None), "causal flow misreported")
    want = cf[0] if cf is not None else gl
    if want is None:
        require(mc.depth is None and mc.ordered_layers() is None, "depth {}", mc.depth)
        require(warned, "no warning although there is no flow")
        t.label("none")
    else:
        require(mc.depth == max(want.values()), "depth {}, expected {}", mc.depth,
                max(want.values()))
        layers = mc.ordered_layers()
        got = {v: l for l, vs in enumerate(reversed(layers)) for v in vs}
        require(got == want and sum(map(len, layers)) == g["n"],
                "layers {}, expected {}", layers, want)
        require(not warned, "warned about a missing gflow")
        t.label("causal" if cf is not None else "gflow only")
    if cf is None:
        require(mc.measurement_order is None, "order without causal flow: {}",
                mc.measurement_order)
    t.interesting(cf is None)


@st.composite
def named(draw, s):
    """The nodes are listed in any order and may have names instead of numbers."""
    g = draw(s)
    shuffled = draw(st.permutations(range(g["n"])))
    make = draw(st.sampled_from([lambda v: v, lambda v: f"q{v}", lambda v: 3 * v - 5]))
    rename = draw(st.permutations(range(g["n"])))
    return {"graph": g, "names": {str(v): make(rename[v]) for v in shuffled}}


def cases(s):
    return st.builds(lambda g: {"graph": g}, s)


SUBS = [
    Sub("mixed", lambda: cases(st.one_of(mixed(), perturbed())), check_search, 2000,
        rule="graphs with gflow by construction (mixed output neighbourhoods), also with "
             "one edge toggled, against exhaustive search over correcting sets; "
             "non-trivial: 2 edges and a measured node"),
    Sub("any", lambda: cases(st.one_of(any_graph(True), any_graph(False))), check_search,
        2000, rule="arbitrary open graphs, also with unequal input and output sizes"),
    Sub("named", lambda: named(st.one_of(mixed(), perturbed(), any_graph(True),
                                         any_graph(False))), check_search, 1000,
        rule="nodes listed in any order, with names or other numbers"),
    Sub("large", lambda: cases(st.one_of(mixed(14, 6), mixed(14, 6), perturbed(14, 6),
                                         any_graph(False, 11))), check_search, 300,
        rule="up to 14 nodes"),
    Sub("very large", lambda: cases(st.one_of(mixed(22, 8), perturbed(22, 8), perturbed(22, 8),
                                              any_graph(False, 18))), check_search, 120,
        rule="up to 22 nodes"),
    Sub("large circuit", lambda: cases(st.one_of(mixed(14, 6), perturbed(14, 6))),
        check_circuit, 150, rule="circuits with up to 14 nodes"),
    Sub("circuit", lambda: cases(st.one_of(mixed(), perturbed(), any_graph(True))),
        check_circuit, 1200, rule="flow report of circuits; non-trivial: no causal flow"),
]
