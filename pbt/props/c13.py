"""C13: templates have the promised shape, flow and trainable nodes."""
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

tmpl = mp.templates


def wire_facts(mc, n, edges, ins, outs):
    require(list(mc.graph.nodes) == list(range(n)), "nodes {}", list(mc.graph.nodes))
    require({frozenset(e) for e in mc.graph.edges} == {frozenset(e) for e in edges},
            "edges {}", sorted(map(sorted, mc.graph.edges)))
    require(list(mc.input_nodes) == ins, "inputs {}", mc.input_nodes)
    require(list(mc.output_nodes) == outs, "outputs {}", mc.output_nodes)
    require(list(mc.quantum_output_nodes) == [o for o in outs if mc[o] is None],
            "quantum outputs {}", mc.quantum_output_nodes)


def flow_facts(mc, want=None):
    n = len(mc)
    edges = [tuple(e) for e in mc.graph.edges]
    res = ref.max_delayed_causal_layers(range(n), edges, mc.input_nodes, mc.output_nodes)
    require(res is not None and mc.flow is not None, "no causal flow")
    for v in range(n):
        if v not in mc.output_nodes:
            require(mc.flow(v) in (res[1][v],) if want is None else mc.flow(v) == want[v],
                    "f({}) = {}", v, mc.flow(v))
    require(mc.depth == max(res[0].values()), "depth {}", mc.depth)


def train_facts(mc):
    """Exactly the nodes whose measurement has a free angle are trainable."""
    want = {v for v in mc.graph.nodes if mc[v] is not None and mc[v].is_trainable()}
    require(set(mc.trainable_nodes) == want and len(mc.trainable_nodes) == len(want),
            "trainable nodes are {}, nodes with free angles {}", mc.trainable_nodes,
            sorted(want))


KW = ["none", "default X", "default Y", "fixed", "measurements"]


def kwargs_of(kind, n):
    if kind == "default X":
        return {"default_measurement": mp.Ment("X")}
    if kind == "default Y":
        return {"default_measurement": mp.Ment("Y")}
    if kind == "fixed":
        return {"default_measurement": mp.Ment(0.4, "XY")}
    if kind == "measurements":
        return {"measurements": {0: mp.Ment("Y")}}
    return {}


def ment_facts(mc, kind):
    for v in range(len(mc)):
        m = mc[v]
        if v in mc.output_nodes and not (kind == "measurements" and v == 0):
            require(m is None, "output {} is measured by {}", v, m)
        else:
            want = {"default X": ("X", 0), "default Y": ("Y", 0), "fixed": ("XY", 0.4)}.get(
                kind, ("XY", None))
            if kind == "measurements" and v == 0:
                want = ("Y", 0)
            require((m.plane, m.angle) == want, "node {} is measured by {}", v, m)
    train_facts(mc)


@st.composite
def linear_case(draw, max_n=9):
    n = draw(st.integers(2, max_n))
    return {"n": n, "kw": draw(st.sampled_from(KW)), "psi": draw(gen.amplitudes(1)),
            "theta": draw(st.lists(gen.angles(), min_size=n - 1, max_size=n - 1)),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv"]))}


def check_linear(case, t):
    n = case["n"]
    mc = tmpl.linear_cluster(n, **kwargs_of(case["kw"], n))
    wire_facts(mc, n, [(i, i + 1) for i in range(n - 1)], [0], [n - 1])
    ment_facts(mc, case["kw"])
    flow_facts(mc)
    require(mc.depth == n - 1, "depth {}", mc.depth)
    fixed = {"default X": 0, "default Y": np.pi / 2, "fixed": 0.4}.get(case["kw"])
    vec = gen.to_state(case["psi"])
    for k, th in enumerate(case["theta"]):
        th = th if fixed is None else fixed
        if case["kw"] == "measurements" and k == 0:
            th = np.pi / 2
        vec = ref.H @ np.diag([1, np.exp(-1j * th)]) @ vec
    sim = mp.PatternSimulator(mc, input_state=gen.to_state(case["psi"]),
                              backend=case["backend"])
    rho = mk.array(sim.run([case["theta"][v] for v in mc.trainable_nodes]), (2, 2), "output")
    require(mk.close(rho, ref.dm(vec)), "not the product of J gates, off by {:.3g}",
            np.max(np.abs(rho - ref.dm(vec))))
    t.label(case["kw"])
    t.interesting(n >= 3)


@st.composite
def wires_case(draw, max_len=6, max_wires=5):
    return {"wires": draw(st.lists(st.integers(2, max_len), min_size=1, max_size=max_wires)),
            "kw": draw(st.sampled_from(KW))}


def check_wires(case, t):
    ws = case["wires"]
    given = list(ws)
    mc = tmpl.many_wires(given, **kwargs_of(case["kw"], sum(ws)))
    require(given == ws, "the list was modified")
    starts = [sum(ws[:i]) for i in range(len(ws))]
    edges = [(s + j, s + j + 1) for s, w in zip(starts, ws) for j in range(w - 1)]
    wire_facts(mc, sum(ws), edges, starts, [s + w - 1 for s, w in zip(starts, ws)])
    ment_facts(mc, case["kw"])
    flow_facts(mc)
    require(mc.depth == max(ws) - 1, "depth {}", mc.depth)
    t.interesting(len(ws) >= 2)


@st.composite
def grid_case(draw, max_n=6, max_m=6):
    return {"n": draw(st.integers(1, max_n)), "m": draw(st.integers(1, max_m)),
            "periodic": draw(st.booleans()), "explicit": draw(st.booleans()), "kw": draw(st.sampled_from(KW[:4]))}


def check_grid(case, t):
    n, m = case["n"], case["m"]
    if n * m == 1:
        raise Skip("single node")
    options = kwargs_of(case["kw"], n * m)
    if case["periodic"] or case["explicit"]:
        options["periodic"] = case["periodic"]
    mc = tmpl.grid_cluster(n, m, **options)
    edges = [(i * m + j, i * m + j + 1) for i in range(n) for j in range(m - 1)]
    edges += [(i * m + j, i * m + m + j) for i in range(n - 1) for j in range(m)]
    if case["periodic"] and n > 1:
        edges += [(j, (n - 1) * m + j) for j in range(m)]
    wire_facts(mc, n * m, edges, [i * m for i in range(n)],
               [i * m + m - 1 for i in range(n)])
    ment_facts(mc, case["kw"])
    flow_facts(mc, {v: v + 1 for v in range(n * m) if v % m < m - 1})
    t.label("periodic" if case["periodic"] else "open")
    t.interesting(n >= 2 and m >= 2)


@st.composite
def muta_case(draw):
    n = draw(st.integers(1, 7))
    c = {"wires": n, "options": {}}
    if draw(st.booleans()):
        c["options"]["restrict_trainable"] = draw(st.booleans())
    if n > 5:
        c["options"]["one_column"] = True
    elif n > 1 and draw(st.booleans()):
        c["options"]["one_column"] = draw(st.booleans())
    cols = 1 if c["options"].get("one_column") else n
    c["layers"] = draw(st.integers(1, max(1, min(5, 24 // (cols * n)))))
    return c


def check_muta(case, t):
    n, l = case["wires"], case["layers"]
    mc = tmpl.muta(n, l, **case["options"])
    cols = l * (1 if case["options"].get("one_column") else n)
    length = 4 * cols + 1
    require(len(mc) == n * length, "{} nodes, expected {}", len(mc), n * length)
    require(len(mc.input_nodes) == len(mc.output_nodes) == n, "inputs {}", mc.input_nodes)
    require(mc.flow is not None, "no flow")
    node = {}
    for i, v in enumerate(mc.input_nodes):
        for k in range(length):
            node[i, k] = v
            if k < length - 1:
                require(v not in mc.output_nodes, "wire {} ends after {} nodes", i, k + 1)
                v = mc.flow(v)
        require(v == mc.output_nodes[i], "wire {} ends at {}", i, v)
    require(len(set(node.values())) == n * length, "wires overlap")
    want = {frozenset((node[i, k], node[i, k + 1])) for i in range(n)
            for k in range(length - 1)}
    per_layer = 1 if case["options"].get("one_column") else n
    for c in range(cols):
        w = c % per_layer
        for i in range(n):
            if i != w:
                want |= {frozenset((node[w, 4 * c + 1], node[i, 4 * c + d])) for d in (0, 2)}
    require({frozenset(e) for e in mc.graph.edges} == want, "edges are wrong")
    for v in mc.graph.nodes:
        m = mc[v]
        if v in mc.output_nodes:
            require(m is None, "output {} is measured", v)
        else:
            require((m.plane, m.angle) == ("XY", None), "node {} is measured by {}", v, m)
    flow_facts(mc, {node[i, k]: node[i, k + 1] for i in range(n) for k in range(length - 1)})
    train_facts(mc)
    t.label(f"{n} wires", f"{l} layers")
    t.interesting(n >= 2)


# ------------------------------------------------------------------ spturb


class Net:
    """An open graph under construction, glued like the template's definition."""

    def __init__(self, n, edges, ins, outs, meas):
        self.nodes = list(range(n))
        self.edges = {frozenset(e) for e in edges}
        self.ins, self.outs, self.meas = list(ins), list(outs), dict(meas)
        self.next = n

    def glue(self, n, edges, pairs, outs, meas):
        """Glue a block along {my output: its input}; outs: its input -> output."""
        new = {v: self.next + v for v in range(n)}
        self.next += n
        sub = {o: new[i] for o, i in pairs}
        ren = lambda v: sub.get(v, v)
        self.edges = {frozenset(map(ren, e)) for e in self.edges}
        self.edges |= {frozenset((new[a], new[b])) for a, b in edges}
        self.nodes = [v for v in self.nodes if v not in sub] + [new[v] for v in range(n)]
        for o in sub:
            self.meas.pop(o)
        self.meas.update({new[v]: m for v, m in meas.items()})
        self.ins = list(map(ren, self.ins))
        back = dict(pairs)
        self.outs = [new[outs[back[o]]] if o in back else o for o in self.outs]


def spturb_net(n, layers, periodic):
    row_edges = [(3 * i + j, 3 * i + j + 1) for i in range(n) for j in range(2)]
    row_meas = {}
    for i in range(n):
        row_meas.update({3 * i: "X", 3 * i + 1: "XY", 3 * i + 2: None})
    block_edges = [(0, 1), (1, 2), (2, 3), (3, 4), (5, 6), (7, 8), (8, 9), (9, 10),
                   (10, 11), (2, 6), (9, 6)]
    b1 = {v: "X" for v in range(12)}
    b1.update({4: None, 11: None, 5: "XY"})
    b2 = dict(b1)
    b2.update({1: "Y", 3: "Y", 8: "Y", 10: "Y"})
    net = Net(3 * n, row_edges, [3 * i for i in range(n)], [3 * i + 2 for i in range(n)],
              row_meas)
    for layer in range(layers):
        if layer:
            net.glue(3 * n, row_edges, [(o, 3 * i) for i, o in enumerate(net.outs)],
                     {3 * i: 3 * i + 2 for i in range(n)}, row_meas)
        for b in (b1, b2):
            for i in range(n if periodic else n - 2):
                net.glue(12, block_edges, [(net.outs[i], 0), (net.outs[(i + 2) % n], 7)],
                         {0: 4, 7: 11}, b)
    return net


@functools.lru_cache(maxsize=None)
def spturb(n, layers, periodic):
    return tmpl.spturb(n, layers, periodic=True) if periodic else tmpl.spturb(n, layers)


SPT_QUICK = [[4, 1, False], [4, 1, True], [5, 1, False], [4, 1, False]]
SPT_DEEP = [[6, 1, False], [5, 1, True], [4, 2, False], [6, 1, True], [5, 2, False],
            [4, 3, False]]


@st.composite
def spt_case(draw, sizes=SPT_QUICK):
    size = draw(st.sampled_from(sizes))
    k = size[1] * (size[0] + 2 * (size[0] if size[2] else size[0] - 2))
    return {"size": size, "theta": draw(st.lists(gen.generic_angles(), min_size=k,
                                                 max_size=k)),
            "psi": draw(gen.amplitudes(size[0]))}


def check_spt(case, t):
    warnings.simplefilter("ignore")
    n, layers, periodic = case["size"]
    mc = spturb(n, layers, periodic)
    net = spturb_net(n, layers, periodic)
    pos = {v: i for i, v in enumerate(net.nodes)}
    wire_facts(mc, len(pos), [[pos[v] for v in e] for e in net.edges],
               [pos[v] for v in net.ins], [pos[v] for v in net.outs])
    for v, i in pos.items():
        m = mc[i]
        require((m.plane if m is not None else None) == net.meas[v],
                "node {} is measured by {}, expected {}", i, m, net.meas[v])
    train_facts(mc)
    require(len(mc.trainable_nodes) == len(case["theta"]), "{} angles",
            len(mc.trainable_nodes))
    # the implemented map commutes with the Z2 x Z2 symmetry
    bases = {}
    for v in range(len(mc)):
        if mc[v] is not None:
            bases[v] = [mc[v].plane, mc[v].angle, 0]
    for v, th in zip(sorted(mc.trainable_nodes), case["theta"]):
        bases[v] = ["XY", th, 0]
    order = sorted(bases)

    def apply(psi):
        return ref.run_lazy(range(len(mc)), list(mc.graph.edges), list(mc.input_nodes), psi,
                            bases, order, list(mc.output_nodes))

    psi = gen.to_state(case["psi"])
    out = apply(psi)
    require(out is not None, "zero branch impossible")
    if periodic and n % 2:
        syms = ["X" * n]
    else:
        syms = ["".join("X" if i % 2 == r else "I" for i in range(n)) for r in (0, 1)]
    for s in syms:
        S = ref.pauli_matrix(s)
        require(ref.same_ray(S @ out, apply(S @ psi)),
                "the ansatz does not commute with the symmetry {}", s)
    t.label(str(case["size"]))
    t.interesting()


@st.composite
def bad_case(draw):
    return {"what": draw(st.sampled_from(["linear", "wires", "spturb", "grid"])),
            "n": draw(st.integers(-3, 3)),
            "wires": draw(st.lists(st.one_of(st.integers(-2, 4), st.just(2.0)), min_size=1,
                                   max_size=4))}


def check_bad(case, t):
    n = case["n"]
    if case["what"] == "linear":
        if n <= 0:
            mk.raises(lambda: tmpl.linear_cluster(n), Exception, f"linear_cluster({n})")
            t.interesting()
    elif case["what"] == "spturb":
        mk.raises(lambda: tmpl.spturb(n, 1), ValueError, f"spturb({n}, 1)")
        t.interesting()
    elif case["what"] == "grid":
        if n <= 0:
            mk.raises(lambda: tmpl.grid_cluster(2, n), Exception, f"grid_cluster(2, {n})")
    else:
        ws = case["wires"]
        if not all(isinstance(w, int) and w > 1 for w in ws):
            mk.raises(lambda: tmpl.many_wires(ws), ValueError, f"many_wires({ws})")
            t.interesting()


SUBS = [
    Sub("linear", linear_case, check_linear, 800,
        rule="linear clusters of 2..9 nodes with every keyword, against the product of "
             "J gates; non-trivial: 3 nodes"),
    Sub("wires", wires_case, check_wires, 400, rule="non-trivial: 2 wires"),
    Sub("grid", grid_case, check_grid, 400, rule="grids up to 6x6; non-trivial: 2x2"),
    Sub("linear long", lambda: linear_case(60), check_linear, 32, rule="up to 60 nodes"),
    Sub("wires large", lambda: st.one_of(wires_case(25, 3), wires_case(4, 14)), check_wires, 40,
        rule="wires of up to 25 nodes, or up to 14 wires"),
    Sub("grid large", lambda: st.one_of(grid_case(2, 24), grid_case(14, 3), grid_case(3, 18)),
        check_grid, 40, rule="up to 24 columns or 14 rows"),
    Sub("muta", muta_case, check_muta, 400, rule="non-trivial: 2 wires"),
    Sub("spturb", spt_case, check_spt, 64,
        rule="exact graph, and commutation with the symmetry on random angles and states"),
    Sub("spturb layers", lambda: spt_case([[4, 2, False]]), check_spt, 8, 8,
        rule="as spturb, two layers"),
    Sub("spturb large", lambda: spt_case(SPT_DEEP), check_spt, 0, 56,
        rule="as spturb, up to 6 qubits and 3 layers"),
    Sub("refused", bad_case, check_bad, 240, rule="invalid sizes; non-trivial: refusable"),
]
