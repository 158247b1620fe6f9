"""C11: stacking and merging compose the implemented maps."""
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c09 import compare, facts

SPECS = ("X", "Y", "XY", "XY", "XY")


@st.composite
def part(draw, max_nodes=5, wires=None):
    kw = dict(max_wires=3)
    if wires is not None:
        kw = dict(min_wires=wires, max_wires=wires)
        max_nodes = max(max_nodes, wires)
    g = draw(gen.flow_graphs(max_nodes=max_nodes, **kw))
    m = draw(gen.measured(g, gen.meas_specs(SPECS)))
    theta = draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
    p = {"graph": g, "meas": m, "theta": theta}
    if draw(st.integers(0, 3)) == 0:
        # a circuit that keeps its own node names, added in this order
        p["order"] = list(draw(st.permutations(range(g["n"]))))
        p["letters"] = draw(st.booleans())
    return p


def name(p, v):
    return "abcdefghijkl"[v] if p.get("letters") else v


def order(p):
    return p.get("order", range(p["graph"]["n"]))


def build(p):
    if "order" not in p:
        return mk.circuit(p["graph"], p["meas"])
    g = p["graph"]
    gr = mp.GraphState()
    gr.add_nodes_from(name(p, v) for v in p["order"])
    gr.add_edges_from((name(p, a), name(p, b)) for a, b in g["edges"])
    ments = {name(p, v): None for v in range(g["n"])}
    ments.update((name(p, int(v)), mk.ment(s)) for v, s in p["meas"].items())
    return mp.MBQCircuit(gr, [name(p, v) for v in g["inputs"]],
                         [name(p, v) for v in g["outputs"]], measurements=ments,
                         relabel_indices=False)


def matrix(p):
    g = p["graph"]
    bases = {v: (p["meas"][str(v)][0], sims.angle_of(p, v), 0)
             for v in range(g["n"]) if str(v) in p["meas"]}
    return ref.pattern_matrix(range(g["n"]), g["edges"], g["inputs"], bases, g["outputs"])


def doubled(a, b, pairs):
    """Are two glued pairs adjacent in both parts (their edges cancel)?"""
    ea = {frozenset(e) for e in a["graph"]["edges"]}
    eb = {frozenset(e) for e in b["graph"]["edges"]}
    return any(frozenset((i, k)) in ea and frozenset((j, l)) in eb
               for x, (i, j) in enumerate(pairs) for k, l in pairs[:x])


def run(mc, parts_nodes, psi, case):
    """Simulates the result; parts_nodes lists (part index, node) in node order."""
    require(len(mc) == len(parts_nodes), "result has {} nodes, expected {}", len(mc),
            len(parts_nodes))
    want_train = set()
    for x, (k, v) in enumerate(parts_nodes):
        spec = case["parts"][k]["meas"].get(str(v))
        m = mc[x]
        require((m is None) == (spec is None), "node {} is measured by {}, the part by {}",
                x, m, spec)
        if spec is not None:
            w = mk.ment(spec)
            require((m.plane, m.angle) == (w.plane, w.angle),
                    "node {} is measured by {}, the part by {}", x, m, w)
            if w.is_trainable():
                want_train.add(x)
    require(set(mc.trainable_nodes) == want_train, "trainable nodes {}", mc.trainable_nodes)
    require(mc.flow is not None, "the result has no flow")
    angles = []
    for x in mc.trainable_nodes:
        k, v = parts_nodes[x]
        angles.append(case["parts"][k]["theta"][v])
    sims.small_window({"graph": {"n": len(mc), "edges": list(mc.graph.edges),
                                 "inputs": list(mc.input_nodes)},
                       "meas": {str(v): 1 for v in range(len(mc)) if mc[v] is not None}},
                      mc, 8)
    sim = mp.PatternSimulator(mc, input_state=psi, backend=case["backend"])
    return np.asarray(sim.run(angles))


def expect(rho, vec, what):
    vec = vec / np.linalg.norm(vec)
    require(rho.shape == (len(vec), len(vec)), "{}: output has shape {}", what, rho.shape)
    require(mk.close(rho, ref.dm(vec)), "{} differs by {:.3g}", what,
            np.max(np.abs(rho - ref.dm(vec))))


def circuits(case):
    """The parts; a circuit may occur several times, with other angles."""
    made = []
    for p, j in zip(case["parts"], case.get("same", range(len(case["parts"])))):
        made.append(build(p) if j == len(made) else made[j])
    return made


def repeated(draw, parts):
    """Sometimes a circuit is used again: `same` gives the place of its first use."""
    same = list(range(len(parts)))
    if len(parts) > 1 and draw(st.booleans()):
        for i in range(1, len(parts)):
            j = same[draw(st.integers(0, i))]
            if j < i and len(parts[j]["graph"]["inputs"]) == len(parts[i]["graph"]["inputs"]):
                same[i] = j
                turned = (parts[i]["theta"] + parts[j]["theta"])[:parts[j]["graph"]["n"]]
                parts[i] = {**parts[j], "theta": turned}
    return same


def unchanged(mcs, before, result, single):
    for c, f in zip(mcs, before):
        compare(facts(c), f, "a part afterwards")
    if not single:
        for x in range(len(result)):
            if result[x] is not None:
                result[x] = mp.Ment(1.234, "XY")
        if len(result) > 2:
            result.add_edge(0, 1)
        for c, f in zip(mcs, before):
            compare(facts(c), f, "a part after editing the result")


@st.composite
def hcase(draw, max_wires=3, max_parts=3, max_nodes=4):
    w = draw(st.integers(1, max_wires))
    k = draw(st.integers(1, max_parts))
    parts = [draw(part(max_nodes=max_nodes + (k < 3), wires=w)) for _ in range(k)]
    return {"parts": parts, "same": repeated(draw, parts), "psi": draw(gen.amplitudes(w)),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv"]))}


def check_h(case, t):
    parts = case["parts"]
    for a, b in zip(parts, parts[1:]):
        if doubled(a, b, list(zip(a["graph"]["outputs"], b["graph"]["inputs"]))):
            t.label("common edges")
    mcs = circuits(case)
    before = [facts(c) for c in mcs]
    res = mp.hstack(mcs)
    nodes = []
    for k, p in enumerate(parts):
        glued = set(p["graph"]["outputs"]) if k < len(parts) - 1 else set()
        nodes += [(k, v) for v in order(p) if v not in glued]
    vec = gen.to_state(case["psi"])
    want = vec
    for p in parts:
        want = matrix(p) @ want
    if len(parts) == 1:
        require(res is mcs[0] or facts(res) == before[0], "the stack of one circuit differs")
        raise Skip("one part")
    expect(run(res, nodes, vec, case), want, "horizontal stack")
    unchanged(mcs, before, res, len(parts) == 1)
    if len(set(case.get("same", range(len(parts))))) < len(parts):
        t.label("a part used again")
    t.label(f"{len(parts)} parts", *({"kept names"} if any("order" in p for p in parts)
                                     else ()))
    if any(set(p["graph"]["inputs"]) & set(p["graph"]["outputs"]) for p in parts):
        t.label("input is output")
    t.interesting(len(parts) >= 2 and len(nodes) >= 3)


@st.composite
def vcase(draw, large=False):
    k = draw(st.integers(2, 5) if large else st.integers(1, 3))
    parts = []
    if large:
        for _ in range(k):
            parts.append(draw(part(max_nodes=6 if k == 2 else 4,
                                   wires=draw(st.integers(1, 2 if k < 4 else 1)))))
    k = 0 if large else k
    for _ in range(k):
        parts.append(draw(part(max_nodes=4 if k == 2 else 3,
                               wires=draw(st.integers(1, 2 if k < 3 else 1)))))
    w = sum(len(p["graph"]["inputs"]) for p in parts)
    return {"parts": parts, "same": repeated(draw, parts), "psi": draw(gen.amplitudes(w)),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv"]))}


def check_v(case, t):
    parts = case["parts"]
    mcs = circuits(case)
    before = [facts(c) for c in mcs]
    res = mp.vstack(mcs)
    if len(parts) == 1:
        require(res is mcs[0] or facts(res) == before[0], "the stack of one circuit differs")
        raise Skip("one part")
    nodes = [(k, v) for k, p in enumerate(parts) for v in order(p)]
    vec = gen.to_state(case["psi"])
    want = ref.kron_all([matrix(p) for p in parts]) @ vec
    expect(run(res, nodes, vec, case), want, "vertical stack")
    unchanged(mcs, before, res, len(parts) == 1)
    if len(set(case.get("same", range(len(parts))))) < len(parts):
        t.label("a part used again")
    t.label(f"{len(parts)} parts", *({"kept names"} if any("order" in p for p in parts)
                                     else ()))
    t.interesting(len(parts) >= 2)


@st.composite
def mcase(draw, max_nodes=5, max_wires=3, min_wires=1):
    a = draw(part(max_nodes=max_nodes, wires=draw(st.integers(min_wires, max_wires))))
    b = draw(part(max_nodes=max_nodes, wires=draw(st.integers(min_wires, max_wires))))
    oa, ib = a["graph"]["outputs"], b["graph"]["inputs"]
    k = draw(st.sampled_from(list(range(min(len(oa), len(ib)), -1, -1))))
    along = list(zip(draw(st.permutations(oa))[:k], draw(st.permutations(ib))[:k]))
    w = len(a["graph"]["inputs"]) + len(ib) - k
    return {"parts": [a, b], "along": [list(x) for x in along],
            "psi": draw(gen.amplitudes(w)),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv"]))}


def check_m(case, t):
    a, b = case["parts"]
    ga, gb = a["graph"], b["graph"]
    along = [tuple(x) for x in case["along"]]
    if doubled(a, b, along):
        t.label("common edges")
    mcs = circuits(case)
    before = [facts(c) for c in mcs]
    named = [(name(a, i), name(b, j)) for i, j in along]
    given = list(named)
    res = mp.merge(*mcs, along=given)
    require(given == named, "the list of pairs was modified")
    glue = dict(along)
    glued = {j: i for i, j in along}
    nodes = [(0, v) for v in order(a) if v not in glue] + [(1, v) for v in order(b)]
    psi = gen.to_state(case["psi"])
    free = [j for j in gb["inputs"] if j not in glued]
    s = ref.State([("i", v) for v in ga["inputs"]] + [("j", v) for v in free], psi)
    s = ref.apply_map(s, matrix(a), [("i", v) for v in ga["inputs"]],
                      [("o", v) for v in ga["outputs"]])
    s = ref.apply_map(s, matrix(b),
                      [("o", glued[j]) if j in glued else ("j", j) for j in gb["inputs"]],
                      [("p", v) for v in gb["outputs"]])
    outs, used = [], set()
    for i in ga["outputs"]:
        if i in glue:
            k = gb["inputs"].index(glue[i])
            used.add(k)
            outs.append(("p", gb["outputs"][k]))
        else:
            outs.append(("o", i))
    outs += [("p", o) for k, o in enumerate(gb["outputs"]) if k not in used]
    expect(run(res, nodes, psi, case), s.vector(outs), "merge")
    unchanged(mcs, before, res, False)
    t.label(f"{len(along)} glued", "partial" if free or len(along) < len(ga["outputs"])
            else "complete")
    t.interesting(len(along) >= 1 and len(nodes) >= 3)


@st.composite
def rcase(draw):
    return {"parts": [draw(part(max_nodes=4)), draw(part(max_nodes=4))],
            "pick": draw(st.integers(0, 20)), "backend": "numpy-dm"}


def check_refused(case, t):
    warnings.simplefilter("ignore")
    a, b = circuits(case)
    before = [facts(a), facts(b)]
    mk.raises(lambda: mp.hstack([]), ValueError, "hstack of nothing")
    mk.raises(lambda: mp.vstack([]), ValueError, "vstack of nothing")
    if len(a.output_nodes) != len(b.input_nodes):
        mk.raises(lambda: mp.hstack([a, b]), ValueError, "hstack of different sizes")
        t.label("size mismatch")
        t.interesting()
    for v in list(a.graph.nodes):
        if v not in a.output_nodes:
            j = b.input_nodes[case["pick"] % len(b.input_nodes)]
            mk.raises(lambda: mp.merge(a, b, along=[(v, j)]), ValueError,
                      "merge at a node that is no output")
            t.interesting()
    for j in list(b.graph.nodes):
        if j not in b.input_nodes:
            i = a.output_nodes[case["pick"] % len(a.output_nodes)]
            mk.raises(lambda: mp.merge(a, b, along=[(i, j)]), ValueError,
                      "merge at a node that is no input")
            t.interesting()
    compare(facts(a), before[0], "first part")
    compare(facts(b), before[1], "second part")


SUBS = [
    Sub("hstack", hcase, check_h, 1800,
        rule="1..3 random flow circuits in a row against the product of their maps; "
             "non-trivial: 2 parts and 3 nodes"),
    Sub("vstack", vcase, check_v, 1400,
        rule="1..3 random flow circuits in parallel against the tensor product; "
             "non-trivial: 2 parts"),
    Sub("merge", mcase, check_m, 2000,
        rule="two circuits glued along random output-input pairs against partial "
             "composition; non-trivial: something glued and 3 nodes"),
    Sub("refused", rcase, check_refused, 400, rule="mismatches are refused; at least one "
        "refusable call"),
    Sub("hstack large", lambda: hcase(4, 5, 6), check_h, 400,
        rule="as hstack, up to 5 parts of up to 4 wires"),
    Sub("vstack large", lambda: vcase(True), check_v, 320, rule="as vstack, up to 5 parts"),
    Sub("merge wide", lambda: mcase(6, 5, 4), check_m, 160,
        rule="as merge, four or five wires"),
    Sub("merge large", lambda: mcase(8, 4), check_m, 400,
        rule="as merge, parts of up to 8 nodes and 4 wires"),
]
