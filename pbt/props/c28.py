"""C28: drawing shows every circuit faithfully and changes nothing."""
import copy
import itertools
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_hex
from matplotlib.patches import FancyArrowPatch

import mentpy as mp
from mentpy.operators import PauliOp

from pbt import gen, mk
from pbt.core import Sub, require
from pbt.props import c09

INPUT = OUTPUT = "#add8e6"
DEFAULT, CONTROLLED, FIXED = "#ffbd59", "#a88fe8", "#cccccc"
STYLES = ("default", "black_and_white", "blue_inputs")
LABELS = ("index", "indices", "plane", "planes", "arrow", "arrows", "angle", "angles",
          "pauliop", None)
ARROWS = {"X": r"$\uparrow$", "Y": r"$\rightarrow$", "XY": r"$\nearrow$", "Z": r"$\cdot$",
          "XZ": r"$\nwarrow$", "YZ": r"$\nwarrow$", "": "",
          "XYZ": r"$\nwarrow \nearrow$"}
BAD = [({"style": "default "}, (AssertionError, ValueError)),
       ({"style": "Blue_inputs"}, (AssertionError, ValueError)),
       ({"style": "colourful"}, (AssertionError, ValueError)),
       ({"label": "colour"}, ValueError),
       ({"label": "Plane"}, ValueError),
       ({"label": "indexs"}, ValueError),
       ({"nodesize": 5}, (ValueError, TypeError)),
       ({"show_flows": True}, (ValueError, TypeError)),
       ({"fixed_wires": []}, (ValueError, TypeError)),
       ({"pauliop": "two"}, ValueError)]


@st.composite
def circuit_case(draw, max_nodes=7, max_wires=3):
    g = draw(st.one_of(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.open_graphs(max_nodes=max_nodes - 1)))
    n = g["n"]
    spec = gen.meas_specs(("X", "Y", "Z", "XY", "XZ", "YZ", "XYZ"))
    case = {"graph": g, "meas": draw(gen.measured(g, spec, measure_outputs=True,
                                                  unmeasure=True)),
            "default": ["XY", None]}
    case["ctrl"] = [list(x) for x in draw(st.lists(st.tuples(
        st.integers(0, n - 1), st.integers(0, n - 1), gen.meas_specs(), gen.meas_specs()),
        max_size=3))]
    case["more"] = draw(st.lists(st.integers(0, n - 1), max_size=4))
    case["style"] = draw(st.sampled_from(STYLES))
    case["label"] = draw(st.sampled_from(LABELS))
    case["word"] = draw(st.text("IXYZ", min_size=n, max_size=n))
    case["flow"] = draw(st.sampled_from([True, True, False, None]))
    case["controls"] = draw(st.sampled_from([True, True, False, None]))
    case["transparent"] = draw(st.sampled_from([True, False, None]))
    case["figsize"] = draw(st.sampled_from([None, [8, 3], [4, 4], [2.5, 6]]))
    case["bad"] = draw(st.one_of(st.none(), st.integers(0, len(BAD) - 1)))
    case["wires"] = None
    if draw(st.integers(0, 2)) == 0:
        nodes = draw(st.permutations(range(n)))
        wires, k = [], 0
        for _ in range(draw(st.integers(1, 3))):
            l = draw(st.integers(0, 3))
            wire = list(nodes[k:k + l])
            k += l
            for _ in range(draw(st.integers(0, 1))):
                wire.insert(draw(st.integers(0, len(wire))), "*")
            if any(v != "*" for v in wire):
                wires.append(wire)
        case["wires"] = wires or None
    return case


def build(case):
    g, n = case["graph"], case["graph"]["n"]
    model = c09.Model(g, {v: case["meas"].get(str(v)) for v in range(n)})
    mc = c09.make(case, model, None)
    model.extra = {}
    for v, r, a, b in case["ctrl"]:
        if v == r or model.meas[r] is None or c09.depends(model, mc, r, v):
            continue
        if c09.read_by_some(model, v) and model.meas[v] is None:
            continue
        model.meas[v] = ("ctrl", r, a, b)
        model.extra.pop(v, None)
        cond = mc[r].outcome
        for k in case["more"]:
            if k not in (v, r) and model.meas[k] is not None and not c09.depends(
                    model, mc, k, v):
                cond = cond ^ mc[k].outcome
                model.extra.setdefault(v, set()).add(k)
        mc[v] = c09.ctrl_ment(cond, a, b)
    return mc, model


def read(ax):
    """What the drawing shows."""
    nodes, arrows, dashed, lines = [], [], [], []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            off = [tuple(np.round(p, 6).tolist()) for p in np.asarray(c.get_offsets())]
            col = [to_hex(x) for x in c.get_facecolors()]
            nodes.append((off, col * len(off) if len(col) == 1 else col))
        elif isinstance(c, LineCollection):
            segs = [tuple(sorted(tuple(np.round(p, 6).tolist()) for p in s[[0, -1]]))
                    for s in map(np.asarray, c.get_segments())]
            (dashed if c.get_linestyle()[0][1] else lines).extend(segs)
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            pos = getattr(p, "_posA_posB", None)
            arrows.append(None if pos is None else
                          tuple(tuple(np.round(np.array(q, float), 6).tolist()) for q in pos))
    texts = [(tuple(np.round(np.array(x.get_position(), float), 6).tolist()), x.get_text())
             for x in ax.texts]
    return nodes, lines, dashed, arrows, texts


def near(p, q):
    return abs(p[0] - q[0]) < 1e-5 and abs(p[1] - q[1]) < 1e-5


def locate(p, pos):
    """The node drawn at p."""
    for v, q in pos.items():
        if near(p, q):
            return v
    return None


def positions(texts, n):
    pos = {}
    for p, s in texts:
        require(s.isdigit() and int(s) < n, "a node is labelled {}", s)
        require(int(s) not in pos or near(pos[int(s)], p), "node {} appears twice", s)
        pos[int(s)] = p
    require(len(pos) == n, "only {} of {} nodes are labelled", len(pos), n)
    for v, p in pos.items():
        require(np.all(np.isfinite(p)), "node {} is at {}", v, p)
    for a, b in itertools.combinations(pos, 2):
        require(not near(pos[a], pos[b]), "nodes {} and {} are drawn on top of each other, "
                "at {}", a, b, pos[a])
    return pos


def want_label(mc, model, v, case, got):
    mode = case["label"]
    s = model.meas[v]
    if mode == "pauliop":
        return case["word"][list(mc.graph.nodes).index(v)]
    if s is not None and s[0] == "ctrl":
        return "Ctrl"
    if mode in ("plane", "planes"):
        return "" if s is None else s[0]
    if mode in ("arrow", "arrows"):
        return ARROWS["" if s is None else s[0]]
    if s is None:
        return ""
    if s[1] is None and len(s[0]) > 1:
        return r"$\theta$"
    if s[0] == "XYZ":
        want = tuple(round(a, 3) for a in s[1])
        return str(want)
    try:
        return got if abs(float(got) - (s[1] or 0)) <= 5.01e-4 else str(s[1])
    except ValueError:
        return str(s[1])


def same_figure(a, b):
    return sorted(a) == sorted(b)


def check_circuit(case, t):
    warnings.simplefilter("ignore")
    matplotlib.use("Agg")
    try:
        _check_circuit(case, t)
    finally:
        plt.close("all")


def _check_circuit(case, t):
    g, n = case["graph"], case["graph"]["n"]
    mc, model = build(case)
    before = c09.facts(mc)
    kw = {}
    for key, name in (("flow", "show_flow"), ("controls", "show_controls"),
                      ("transparent", "transparent"), ("figsize", "figsize")):
        if case[key] is not None:
            kw[name] = case[key]
    if case["wires"] is not None:
        kw["fix_wires"] = [tuple(w) for w in case["wires"]]
    if case["style"] != "default":
        kw["style"] = case["style"]

    # where things are, from the drawing with indices
    kept = copy.deepcopy(kw)
    np.random.seed(7)
    fig, ax = mp.draw(mc, **kw)
    require(kw == kept, "drawing changed its arguments")
    nodes, lines, dashed, arrows, texts = read(ax)
    pos = positions(texts, n)
    require(fig is ax.figure, "figure and axes do not belong together")
    require(np.allclose(fig.get_size_inches(), case["figsize"] or (8, 3)), "figure of size {}",
            fig.get_size_inches())
    clear = case["transparent"] in (True, None)
    for p in (fig.patch, ax.patch):
        require((p.get_alpha() == 0) == clear, "transparency {}", p.get_alpha())
    require(nodes, "no nodes are drawn")
    for off, col in nodes:
        require(len(off) == n and sorted(locate(p, pos) for p in off) == list(range(n)),
                "markers at {}", off)
        for p, c in zip(off, col):
            v = locate(p, pos)
            s = model.meas[v]
            if s is not None and s[0] == "ctrl":
                want = CONTROLLED
            elif s is None and v in g["outputs"]:
                want = OUTPUT
            elif s is None:
                want = None  # unmeasured inside the pattern: any colour
            elif len(s[0]) == 1 or s[1] is not None:
                want = FIXED
            else:
                want = DEFAULT
            if case["style"] == "black_and_white":
                want = "#ffffff"
            elif case["style"] == "blue_inputs" and v in g["inputs"]:
                want = INPUT
            require(want is None or c == want, "node {} ({}) has colour {}, not {}", v, s, c,
                    want)
    seen = [tuple(sorted((locate(a, pos), locate(b, pos)))) for a, b in lines]
    require(sorted(seen) == sorted(tuple(sorted(e)) for e in g["edges"]),
            "edges drawn: {}", sorted(seen))
    want = []
    if mc.flow is not None and case["flow"] is not False:
        want = sorted((v, mc.flow(v)) for v in range(n) if v not in g["outputs"])
    require(len(arrows) == len(want), "{} flow arrows instead of {}", len(arrows), len(want))
    if all(a is not None for a in arrows):
        require(sorted((locate(a, pos), locate(b, pos)) for a, b in arrows) == want,
                "arrows {}", arrows)
    want = []
    if case["controls"] is not False:
        want = sorted(tuple(sorted((v, s[1]))) for v, s in model.meas.items()
                      if s is not None and s[0] == "ctrl")
        want = sorted(want + [tuple(sorted((v, r))) for v, more in model.extra.items()
                              for r in more])
    require(sorted(tuple(sorted((locate(a, pos), locate(b, pos)))) for a, b in dashed) == want,
            "control lines {} instead of {}", dashed, want)
    # wires run from left to right
    wires = case["wires"]
    if wires is None and mc.flow is not None:
        wires = []
        for i in g["inputs"]:
            wires.append([i])
            while wires[-1][-1] not in g["outputs"]:
                wires[-1].append(mc.flow(wires[-1][-1]))
    for w in wires or []:
        w = [v for v in w if v != "*"]
        for a, b in zip(w, w[1:]):
            require(pos[a][0] < pos[b][0] and abs(pos[a][1] - pos[b][1]) < 1e-9,
                    "wire {} is drawn from {} to {}", w, pos[a], pos[b])
    c09.compare(c09.facts(mc), before, "circuit after drawing")

    # labels
    if case["label"] is not None:
        more = dict(kw, label=case["label"])
        if case["label"] == "pauliop":
            more = dict(kw, pauliop=PauliOp(case["word"]))
        np.random.seed(7)
        _, ax2 = mp.draw(mc, **more)
        texts2 = read(ax2)[4]
        got = {}
        for p, s in texts2:
            v = locate(p, pos)
            if v is None:  # another layout: nothing says which node this is
                got = None
                break
            require(got.setdefault(v, s) == s, "node {} is labelled {} and {}", v, got[v], s)
        if case["label"] in ("index", "indices"):
            require(got is not None and all(got[v] == str(v) for v in range(n)), "labels {}",
                    got)
        elif got is not None:
            for v in range(n):
                w = want_label(mc, model, v, case, got.get(v, ""))
                require(got.get(v, "") == w, "{} label of node {} is {}, not {}",
                        case["label"], v, got.get(v, ""), w)
        else:
            t.label("other layout")
        c09.compare(c09.facts(mc), before, "circuit after drawing labels")
    if case["bad"] is not None:
        opts, kinds = BAD[case["bad"]]
        if "pauliop" in opts:
            opts = {"pauliop": PauliOp(["X" * n, "Z" * n])}
        mk.raises(lambda: mp.draw(mc, **opts), kinds, f"draw with {opts}")
        c09.compare(c09.facts(mc), before, "circuit after a refused drawing")
    t.label(case["style"], case["label"], "flow" if mc.flow else "no flow",
            "wires" if case["wires"] else "own wires",
            *(["controlled"] if mc.controlled_nodes else []),
            *(["refusal"] if case["bad"] is not None else []))
    t.interesting(n >= 3 and bool(g["edges"]) and (case["label"] not in (None, "index",
                                                                         "indices")
                  or case["style"] != "default" or bool(mc.controlled_nodes)))


@st.composite
def graph_case(draw):
    n = draw(st.integers(1, 7))
    pairs = list(itertools.combinations(range(n), 2))
    return {"n": n, "edges": [list(p) for p in pairs if draw(st.booleans())],
            "circular": draw(st.booleans()),
            "size": draw(st.sampled_from([None, [3, 3]]))}


def check_graph(case, t):
    warnings.simplefilter("ignore")
    matplotlib.use("Agg")
    try:
        gs = mp.GraphState()
        gs.add_nodes_from(range(case["n"]))
        gs.add_edges_from(map(tuple, case["edges"]))
        txt = gs.stabilizers().txt
        kw = {} if case["size"] is None else {"figsize": case["size"]}
        fig, ax = mp.draw(gs, **kw)
        nodes, lines, dashed, arrows, texts = read(ax)
        pos = positions(texts, case["n"])
        require(len(nodes) >= 1, "no nodes are drawn")
        for off, _ in nodes:
            require(sorted(locate(p, pos) for p in off) == list(range(case["n"])),
                    "markers at {}", off)
        seen = sorted(tuple(sorted((locate(a, pos), locate(b, pos)))) for a, b in lines)
        require(seen == sorted(map(tuple, case["edges"])), "edges drawn: {}", seen)
        require(not arrows and not dashed, "arrows in an undirected graph")
        require(np.allclose(fig.get_size_inches(), case["size"] or (8, 3)), "figure size")
        require(gs.stabilizers().txt == txt and sorted(gs.nodes) == list(range(case["n"])),
                "drawing changed the graph state")
    finally:
        plt.close("all")
    t.label(f"n={case['n']}")
    t.interesting(case["n"] >= 3 and bool(case["edges"]))


SUBS = [
    Sub("circuits", circuit_case, check_circuit, 1200, 9000,
        rule="markers, colours, labels, edges, flow arrows and control lines read back from "
             "the figure, in all styles and label modes; non-trivial: three nodes, an edge "
             "and a style, label mode or controlled node beyond the default"),
    Sub("graph states", graph_case, check_graph, 300, 3000,
        rule="random graph states; non-trivial: three nodes and an edge"),
    Sub("circuits large", lambda: circuit_case(13, 5), check_circuit, 120, 1200,
        rule="as circuits, up to 13 nodes and 5 wires"),
]
