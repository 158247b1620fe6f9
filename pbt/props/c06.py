"""C06: causal flow search is sound and complete."""
import contextlib
import io
import warnings

import networkx as nx
from hypothesis import strategies as st

import mentpy as mp
from mentpy.mbqc.flow import check_if_flow, find_cflow, find_flow
from mentpy.mbqc.states.graphstate import GraphState

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require


def names(case):
    kind, n = case.get("names", "int"), case["graph"]["n"]
    if kind == "int":
        return list(range(n))
    if kind == "gap":
        return [3 * i + 5 for i in range(n)]
    return [f"q{i}" for i in range(n)]


def labelled(case):
    g, nm = case["graph"], names(case)
    gr = GraphState()
    for v in case.get("insertion", range(g["n"])):
        gr.add_node(nm[v])
    gr.add_edges_from([(nm[u], nm[v]) for u, v in g["edges"]])
    return gr, nm


def verify(g, flow, order, depth, layers, nm, exact_layers):
    """The reported flow against the definition (on nodes 0..n-1 named nm)."""
    n = g["n"]
    nb = ref.neighbours(range(n), g["edges"])
    back = {x: i for i, x in enumerate(nm)}
    used = {}
    for u in range(n):
        if u in g["outputs"]:
            continue
        f = back[flow(nm[u])]
        require(f in nb[u], "f({}) = {} is not a neighbour", u, f)
        require(f not in g["inputs"], "f({}) = {} is an input", u, f)
        require(f not in used, "f({}) = f({}) = {}", u, used.get(f), f)
        used[f] = u
        for w in {f} | (nb[f] - {u}):
            require(order(nm[u], nm[w]), "{} is not before {}", u, w)
            require(not order(nm[w], nm[u]), "{} is before and after {}", u, w)
    if n <= 9:
        rel = {(u, v) for u in range(n) for v in range(n) if order(nm[u], nm[v])}
        for u in range(n):
            require((u, u) not in rel, "{} is before itself", u)
        for a, b in rel:
            for c in range(n):
                require((b, c) not in rel or (a, c) in rel,
                        "order is not transitive at {}, {}, {}", a, b, c)
    got = {back[v]: l for v, l in layers.items()}
    require(got == exact_layers, "layers are {}, the optimal ones {}", got, exact_layers)
    require(depth == max(exact_layers.values()), "depth is {}, there are {} layers", depth,
            max(exact_layers.values()))


def check_search(case, t):
    g = case["graph"]
    gr, nm = labelled(case)
    inp, out = [nm[v] for v in g["inputs"]], [nm[v] for v in g["outputs"]]
    ref_res = ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"],
                                            g["outputs"])
    if g["n"] <= 7:
        brute = ref.has_causal_flow_bruteforce(range(g["n"]), g["edges"], g["inputs"],
                                               g["outputs"])
        assert brute == (ref_res is not None), "reference models disagree"
    edges = sorted(map(str, gr.edges))
    flow, order, depth, layers = find_cflow(gr, inp, out)
    require(sorted(map(str, gr.edges)) == edges and set(gr.nodes) == set(nm),
            "the graph was modified")
    require(inp == [nm[v] for v in g["inputs"]] and out == [nm[v] for v in g["outputs"]],
            "the input or output list was modified")
    if ref_res is None:
        require(flow is None and order is None and depth is None and layers is None,
                "a flow is reported but there is none")
        t.label("no flow")
    else:
        require(flow is not None, "no flow is reported but there is one: {}", ref_res[1])
        verify(g, flow, order, depth, layers, nm, ref_res[0])
        t.label("flow")
    t.interesting(len(g["edges"]) >= 2 and len(g["outputs"]) < g["n"])


@st.composite
def with_names(draw, graphs):
    g = draw(graphs)
    return {"graph": g, "names": draw(st.sampled_from(["int", "gap", "str"])),
            "insertion": list(draw(st.permutations(range(g["n"]))))}


@st.composite
def perturbed(draw):
    g = draw(gen.flow_graphs(max_nodes=9, max_wires=3))
    pairs = [[i, j] for i in range(g["n"]) for j in range(i + 1, g["n"])]
    for p in draw(st.lists(st.sampled_from(pairs), min_size=0, max_size=2)) if pairs else []:
        if p in g["edges"]:
            g["edges"].remove(p)
        else:
            g["edges"].append(p)
    if draw(st.booleans()):
        outs = draw(st.permutations(range(g["n"])))
        g["outputs"] = list(outs[: len(g["inputs"])])
    return g


def check_circuit(case, t):
    """What a circuit reports about its own flow."""
    g = case["graph"]
    ref_res = ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"],
                                            g["outputs"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mc = mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                           output_nodes=list(g["outputs"]))
    if ref_res is None:
        require(mc.flow is None and mc.partial_order is None, "flow reported, none exists")
        t.label("no flow")
    else:
        layers = ref_res[0]
        require(mc.flow is not None, "no flow reported")
        verify(g, mc.flow, mc.partial_order, mc.depth,
               {v: l for l, vs in enumerate(reversed(mc.ordered_layers())) for v in vs},
               list(range(g["n"])), layers)
        require(sorted(v for vs in mc.ordered_layers() for v in vs) == list(range(g["n"])),
                "layers list a node twice")
        t.label("flow")
    t.interesting(len(g["edges"]) >= 2 and len(g["outputs"]) < g["n"])


@st.composite
def unequal(draw):
    g = draw(gen.open_graphs(max_nodes=6, min_nodes=1, equal=False))
    return {"graph": g}


def check_unequal(case, t):
    g = case["graph"]
    if len(g["inputs"]) == len(g["outputs"]):
        raise Skip("equal sizes")
    mk.raises(lambda: find_cflow(mk.graph(g), list(g["inputs"]), list(g["outputs"])),
              ValueError, "flow search with unequal sizes")
    mk.raises(lambda: mp.MBQCircuit(mk.graph(g), input_nodes=list(g["inputs"]),
                                    output_nodes=list(g["outputs"])),
              ValueError, "circuit without a given flow and with unequal sizes")
    t.interesting(len(g["edges"]) >= 1)


@st.composite
def deep(draw):
    w = draw(st.integers(1, 3))
    l = draw(st.integers(120, 700))
    twists = draw(st.lists(st.tuples(st.integers(0, l - 2), st.integers(0, max(w - 2, 0))),
                           max_size=10))
    return {"wires": w, "length": l, "rungs": [list(x) for x in twists]}


def check_deep(case, t):
    w, l = case["wires"], case["length"]
    nid = lambda i, k: i * l + k
    edges = [(nid(i, k), nid(i, k + 1)) for i in range(w) for k in range(l - 1)]
    if w > 1:
        edges += [(nid(i, k), nid(i + 1, k)) for k, i in case["rungs"]]
    gr = GraphState()
    gr.add_nodes_from(range(w * l))
    gr.add_edges_from(edges)
    flow, order, depth, layers = find_cflow(gr, [nid(i, 0) for i in range(w)],
                                            [nid(i, l - 1) for i in range(w)])
    require(flow is not None, "no flow reported for a ladder of length {}", l)
    for i in range(w):
        for k in range(l - 1):
            require(flow(nid(i, k)) == nid(i, k + 1), "f({}) = {}", nid(i, k),
                    flow(nid(i, k)))
    nb = ref.neighbours(range(w * l), edges)
    for u in range(w * l):
        if u % l < l - 1:
            f = flow(u)
            require(all(order(u, x) and layers[u] > layers[x] for x in {f} | nb[f] - {u}),
                    "order is wrong around {}", u)
    # the longest chain of conditions gives the depth
    memo = {}
    for k in range(l - 1, -1, -1):
        pending = [nid(i, k) for i in range(w)]
        while pending:
            for u in list(pending):
                if k == l - 1:
                    memo[u] = 0
                    pending.remove(u)
                    continue
                f = u + 1
                need = {f} | (nb[f] - {u})
                if all(x in memo for x in need):
                    memo[u] = 1 + max(memo[x] for x in need)
                    pending.remove(u)
    require(depth == max(memo.values()), "depth {}, longest chain {}", depth,
            max(memo.values()))
    t.interesting(l > 200)


@st.composite
def checker(draw, max_nodes=7, max_wires=3):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires))
    layer, flow = ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"],
                                                g["outputs"])
    f = {str(u): v for u, v in flow.items()}
    l = [layer[v] for v in range(g["n"])]
    kind = draw(st.sampled_from(["valid", "flow", "order", "both"]))
    if f and kind in ("flow", "both"):
        u = draw(st.sampled_from(sorted(f)))
        f[u] = draw(st.integers(0, g["n"] - 1))
    if kind in ("order", "both"):
        v = draw(st.integers(0, g["n"] - 1))
        l[v] = draw(st.integers(0, max(l) + 1))
    return {"graph": g, "f": f, "layer": l}


@st.composite
def hub(draw):
    """One wire whose successor of the first node has many neighbours on other wires, one of
    which may be too early."""
    k = draw(st.integers(3, 13))
    names = draw(st.permutations(range(2 * k + 3)))
    # the hub wire is 0 - 1 - 2; the others are (3 + 2i) - (4 + 2i)
    edges = [[0, 1], [1, 2]] + [[3 + 2 * i, 4 + 2 * i] for i in range(k)]
    edges += [[1, draw(st.sampled_from([3 + 2 * i, 4 + 2 * i]))] for i in range(k)]
    flow = {0: 1, 1: 2, **{3 + 2 * i: 4 + 2 * i for i in range(k)}}
    layer = [3, 1, 0] + [v for _ in range(k) for v in (2, 0)]
    for a, b in edges[2 + k:]:
        if b % 2 == 0:
            layer[b - 1] = 2  # the successor of b - 1 is b, next to the hub's centre
    if draw(st.booleans()):
        layer[draw(st.sampled_from(range(1, len(layer))))] = draw(st.integers(0, 4))
    edges = [[names[a], names[b]] for a, b in draw(st.permutations(edges))]
    g = {"n": 2 * k + 3, "edges": edges, "inputs": [names[0]] + [names[3 + 2 * i] for i in
                                                                 range(k)],
         "outputs": [names[2]] + [names[4 + 2 * i] for i in range(k)]}
    l = [0] * g["n"]
    for v, x in enumerate(layer):
        l[names[v]] = x
    return {"graph": g, "f": {str(names[u]): names[v] for u, v in flow.items()}, "layer": l}


def check_checker(case, t):
    """The validity test for user-supplied flows decides the three flow conditions."""
    g, f, l = case["graph"], case["f"], case["layer"]
    nb = ref.neighbours(range(g["n"]), g["edges"])
    want = True
    for u in range(g["n"]):
        if u not in g["outputs"]:
            w = f[str(u)]
            want = want and u in nb[w] and all(l[u] > l[x] for x in {w} | nb[w] - {u})
    with contextlib.redirect_stdout(io.StringIO()):
        got = check_if_flow(mk.graph(g), list(g["inputs"]), list(g["outputs"]),
                            lambda x: f[str(x)], lambda x, y: l[x] > l[y])
    require(bool(got) == want, "validity reported as {}, is {}", bool(got), want)
    t.label("valid" if want else "invalid")
    t.interesting(len(f) >= 2)


def check_old(case, t):
    """The deprecated finder: the same answers (its order is reflexive)."""
    g, n = case["graph"], case["graph"]["n"]
    gr, nm = labelled(case)
    back = {x: i for i, x in enumerate(nm)}
    inp, out = [nm[v] for v in g["inputs"]], [nm[v] for v in g["outputs"]]
    edges = sorted(map(str, gr.edges))
    layers = ref.max_delayed_causal_layers(range(n), g["edges"], g["inputs"], g["outputs"])
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        flow, order = find_flow(gr, inp, out)
    require(sorted(map(str, gr.edges)) == edges and set(gr.nodes) == set(nm),
            "the graph was modified")
    require((inp, out) == ([nm[v] for v in g["inputs"]], [nm[v] for v in g["outputs"]]),
            "the input or output list was modified")
    if layers is None:
        require(flow is None and order is None, "a flow is reported but there is none")
        t.label("no flow")
        t.interesting(len(g["edges"]) >= 2 and len(g["outputs"]) < n)
        return
    require(flow is not None, "no flow is reported but there is one: {}", layers[1])
    nb = ref.neighbours(range(n), g["edges"])
    need = set()
    for u in range(n):
        if u not in g["outputs"]:
            f = back[flow(nm[u])]
            require(f == layers[1][u], "f({}) = {}, expected {}", u, f, layers[1][u])
            need |= {(u, w) for w in {f} | nb[f] - {u}}
    rel = {(u, v) for u in range(n) for v in range(n) if u != v and order(nm[u], nm[v])}
    require(need <= rel, "not before each other: {}", sorted(need - rel))
    require(not any((v, u) in rel for u, v in rel), "the order is not antisymmetric")
    if n <= 9:
        for a, b in rel:
            for c in range(n):
                require(c == a or (b, c) not in rel or (a, c) in rel,
                        "order is not transitive at {}, {}, {}", a, b, c)
    t.label("flow")
    t.interesting(len(g["edges"]) >= 2 and len(g["outputs"]) < n)


SUBS = [
    Sub("any", lambda: with_names(gen.open_graphs(max_nodes=7)), check_search, 4800,
        rule="arbitrary open graphs with up to 7 nodes, any labels and insertion order, "
             "against exhaustive search; non-trivial: 2 edges and a measured node"),
    Sub("near_flow", lambda: with_names(perturbed()), check_search, 6000,
        rule="graphs with flow after toggling up to 2 edges or redrawing the outputs"),
    Sub("large", lambda: with_names(gen.flow_graphs(max_nodes=18, max_wires=5)),
        check_search, 1600, rule="graphs with flow by construction, up to 18 nodes"),
    Sub("circuit", lambda: st.builds(lambda g: {"graph": g}, st.one_of(
        perturbed(), gen.open_graphs(max_nodes=6), gen.flow_graphs(max_nodes=8))),
        check_circuit, 2400, rule="flow attributes of circuits; 2 edges, a measured node"),
    Sub("unequal", unequal, check_unequal, 600,
        rule="different numbers of inputs and outputs are refused; non-trivial: has edges"),
    Sub("deep", deep, check_deep, 48, rule="ladders with 120..700 columns; non-trivial: "
        "longer than 200"),
    Sub("checker", checker, check_checker, 2400,
        rule="the flow validity test on valid and corrupted flows; at least 2 nodes in "
             "the flow's domain"),
    Sub("checker large", lambda: st.one_of(checker(24, 12), hub()), check_checker, 500,
        rule="as checker, up to 24 nodes and twelve wires, hubs with up to 14 neighbours"),
    Sub("older finder", lambda: with_names(st.one_of(
        gen.open_graphs(max_nodes=7), perturbed(), gen.flow_graphs(max_nodes=14, max_wires=5))),
        check_old, 1600, rule="the deprecated find_flow against the same reference; as any"),
]
