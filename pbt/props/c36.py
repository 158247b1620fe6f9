"""C36: requests that mean the same get the same answer."""
import warnings

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import ControlMent, ControlledMent, Measurement, Ment, PauliOp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c09 import compare, facts

PLANES = ("X", "Y", "Z", "XY", "XZ", "YZ")


# measurements -----------------------------------------------------------------------

@st.composite
def ment_case(draw):
    p, a = draw(gen.meas_specs(PLANES))
    q, b = draw(gen.meas_specs(PLANES, trainable=False))
    return {"plane": p, "angle": a, "plane2": q, "angle2": b,
            "arg": draw(gen.angles()), "cond": draw(st.booleans())}


def say(m, arg):
    """What a measurement reports and does."""
    trainable = m.is_trainable()
    a = arg if trainable else None
    return [m.plane, m.angle, trainable, np.asarray(m.matrix(a)),
            [np.asarray(x) for x in m.get_povm(a)]]


def equal(a, b, what):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        require(len(a) == len(b), "{}: {} and {}", what, a, b)
        for x, y in zip(a, b):
            equal(x, y, what)
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        require(x.shape == y.shape and np.allclose(x, y, atol=1e-9, rtol=0),
                "{}: {} and {}", what, a, b)
    else:
        require(a == b, "{}: {} and {}", what, a, b)


def check_ment(case, t):
    warnings.simplefilter("ignore")
    p, a, arg = case["plane"], case["angle"], case["arg"]
    make = {"plane first": lambda: Ment(p) if len(p) == 1 or a is None else Ment(p, a),
            "keywords": lambda: Ment(angle=None if len(p) == 1 else a, plane=p),
            "angle first": lambda: Ment(None if len(p) == 1 else a, p),
            "small letters": lambda: Ment(None if len(p) == 1 else a, p.lower()),
            "alias": lambda: Measurement(None if len(p) == 1 else a, p),
            "copy": lambda: Ment(None if len(p) == 1 else a, p).copy()}
    if len(p) == 1:
        make["zero angle"] = lambda: Ment(0, p)
    elif a is not None:
        make["full turn"] = lambda: Ment(a, p)
        make["numpy angle"] = lambda: Ment(np.float64(a), p)
        make["angle set later"] = lambda: later(p, a)
    if p == "XY":
        make["default plane"] = lambda: Ment(a)
    ms = {k: f() for k, f in make.items()}
    want = say(ms["keywords"], arg)
    for k, m in ms.items():
        equal(say(m, arg), want, f"a measurement made by {k}")
    # a condition that always (never) holds picks one of the measurements
    q, b = case["plane2"], case["angle2"]
    first, second = (None if len(p) == 1 else a, p), (None if len(q) == 1 else b, q)
    for cls in (ControlMent, ControlledMent):
        m = cls(case["cond"], *first, *second)
        pick = Ment(*(first if case["cond"] else second))
        x = arg if m.is_trainable() and pick.is_trainable() else None
        if pick.is_trainable() or not m.is_trainable():
            equal([np.asarray(m.matrix(x, {})), [np.asarray(y) for y in m.get_povm(x, {})]],
                  [np.asarray(pick.matrix(x)), [np.asarray(y) for y in pick.get_povm(x)]],
                  "a decided control measurement")
    t.label(p, "trainable" if ms["keywords"].is_trainable() else "fixed")
    t.interesting()


def later(p, a):
    m = Ment(None, p)
    m.set_angle(a)
    return m


# Pauli lists ------------------------------------------------------------------------

@st.composite
def words_case(draw):
    n = draw(st.integers(1, 5))
    w = st.text("IXYZ", min_size=n, max_size=n)
    return {"rows": draw(st.lists(w, min_size=1, max_size=5)),
            "cut": draw(st.integers(0, 30))}


def op_facts(p):
    return [p.txt, np.asarray(p.matrix).astype(int), len(p), p.number_of_qubits,
            [q.txt for q in (list(p) if len(p) > 1 else [p])], repr(p), hash(p)]


def check_words(case, t):
    rows = case["rows"]
    n, c = len(rows[0]), case["cut"]
    text = ";".join(rows)
    bits = [[int(x in "XY") for x in r] + [int(x in "ZY") for x in r] for r in rows]
    k = c % len(rows)

    def appended():
        p = PauliOp(rows[0])
        for r in rows[1:]:
            p.append(PauliOp(r))
        return p

    def twice():
        if k == 0:
            return PauliOp(text)
        p = PauliOp(";".join(rows[:k]))
        p.append(PauliOp(rows[k:]))
        return p

    spaced = text[:c % (len(text) + 1)] + " " + text[c % (len(text) + 1):]
    base = PauliOp(text)
    want = op_facts(base)
    for what, make in (("a list", lambda: PauliOp(list(rows))),
                       ("a matrix", lambda: PauliOp(np.array(bits))),
                       ("a binary-field matrix", lambda: PauliOp(base.matrix)),
                       ("a closing semicolon", lambda: PauliOp(text + ";")),
                       ("blanks", lambda: PauliOp(spaced)),
                       ("rows one by one", appended), ("two parts", twice),
                       ("a full slice", lambda: base[:]),
                       ("all qubits", lambda: base.get_subset(list(range(n)))),
                       ("times identities", lambda: base * PauliOp(["I" * n] * len(rows)))):
        p = make()
        equal(op_facts(p), want, f"Pauli operators given as {what}")
        require(p == base and base == p and p in base and base in p,
                "Pauli operators given as {} differ from those given as text", what)
    one, two = PauliOp(rows[0]), PauliOp(rows[-1])
    equal(int(np.asarray(one.symplectic_prod(two)).ravel()[0]),
          int(np.asarray(two.symplectic_prod(one)).ravel()[0]), "the symplectic product")
    t.label(f"{len(rows)} rows")
    t.interesting(len(rows) > 1)


# circuits ---------------------------------------------------------------------------

@st.composite
def circuit_case(draw, max_nodes=7):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=3))
    m = draw(gen.measured(g, gen.meas_specs(PLANES)))
    return {"graph": g, "meas": m, "default": draw(st.sampled_from(["X", "XY", "YZ"])),
            "perm": draw(st.permutations(range(g["n"])))}


def check_circuit(case, t):
    """One circuit, put together in many ways."""
    warnings.simplefilter("ignore")
    g, n = case["graph"], case["graph"]["n"]
    spec = {int(v): s for v, s in case["meas"].items()}
    dp = case["default"]
    is_default = {v for v, s in spec.items() if s[0] == dp and (len(dp) == 1 or s[1] is None)}
    meas = lambda only=None: {v: mk.ment(spec[v]) for v in case["perm"]
                              if v in spec and (only is None or v in only)}
    gr = lambda cls=mp.GraphState: mk.graph(g, cls=cls)
    i, o = list(g["inputs"]), list(g["outputs"])
    full = lambda: {**meas(), **{v: None for v in range(n) if v not in spec}}

    def edited():
        mc = mp.MBQCircuit(gr(), i, o)
        for v in case["perm"]:
            if v in spec:
                mc[v] = mk.ment(spec[v])
        return mc

    def assigned():
        mc = mp.MBQCircuit(gr(), i, o, default_measurement=Ment("Z"))
        mc.measurements = full()
        return mc

    def grown():
        # the same nodes and edges, the last cross edge added to the finished circuit
        mc = None
        for k in range(len(g["edges"]) - 1, -1, -1):
            rest = g["edges"][:k] + g["edges"][k + 1:]
            h = {**g, "edges": rest}
            mc = mk.circuit(h, case["meas"])
            if mc.flow is not None:
                mc.add_edge(*g["edges"][k])
                return mc
        return mk.circuit(g, case["meas"])

    def deleted():
        mc = mp.MBQCircuit(gr(), i, o, measurements={**full(), **{v: Ment("X") for v in o}})
        for v in o:
            del mc[v]
        return mc

    make = {"positions": lambda: mp.MBQCircuit(gr(), i, o, full()),
            "keywords": lambda: mp.MBQCircuit(graph=gr(), measurements=full(),
                                              output_nodes=o, input_nodes=i),
            "no entries for outputs": lambda: mp.MBQCircuit(gr(), i, o, meas()),
            "defaults left out": lambda: mp.MBQCircuit(
                gr(), i, o, meas(set(spec) - is_default),
                default_measurement=mk.ment([dp, None if len(dp) > 1 else 0])),
            "names kept": lambda: mp.MBQCircuit(gr(), i, o, meas(), relabel_indices=False),
            "a plain graph": lambda: mp.MBQCircuit(gr(nx.Graph), i, o, meas()),
            "edits": edited, "assignment": assigned, "an edge added": grown,
            "measurements deleted": deleted}
    order = None
    base = make["positions"]()
    order = list(base.measurement_order)
    make["its own order"] = lambda: mp.MBQCircuit(gr(), i, o, meas(), measurement_order=order)
    make["its own flow"] = lambda: mp.MBQCircuit(gr(), i, o, meas(), flow=base.flow,
                                                 partial_order=base.partial_order)
    want = facts(base)
    for k, f in make.items():
        mc = f()
        compare(facts(mc), want, f"a circuit made by {k}")
        if k not in ("an edge added",):
            require(list(mc.stabilizers().txt) == list(base.stabilizers().txt)
                    if k != "a plain graph" else True, "the stabilizers differ for {}", k)
    t.label("defaults" if is_default else "no defaults",
            "all defaults" if is_default == set(spec) else "others")
    t.interesting(len(spec) > 1)


# simulations ------------------------------------------------------------------------

@st.composite
def sim_case(draw, backends=("numpy-dm", "numpy-sv", "numpy-dm", "numpy-sv", "pennylane")):
    b = draw(st.sampled_from(backends))
    g = draw(gen.flow_graphs(max_nodes=6, max_wires=2, min_len=2 if b == "pennylane" else None))
    planes = ("X", "Y", "XY", "XY", "XY")
    return {"graph": g, "meas": draw(gen.measured(g, gen.meas_specs(planes))), "backend": b,
            "psi": draw(gen.amplitudes(len(g["inputs"]))),
            "other": draw(gen.amplitudes(len(g["inputs"]))),
            "theta": draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))}


def check_sim(case, t):
    """One simulation, asked for in many ways."""
    warnings.simplefilter("ignore")
    mc = mk.circuit(case["graph"], case["meas"])
    sims.small_window(case, mc, 5 if case["backend"] == "numpy-dm" else 7)
    b, psi, other = case["backend"], gen.to_state(case["psi"]), gen.to_state(case["other"])
    angles = sims.train_angles(case, mc)
    new = lambda **kw: mp.PatternSimulator(mc, backend=b, **kw)

    def reset():
        s = new()
        s.reset(psi)
        return s, s.run(angles)

    def again():
        s = new(input_state=other)
        s.run([0.5] * len(angles))
        s.reset(input_state=psi)
        return s, s(angles)

    def repeated():
        s = new(input_state=psi)
        s.run(angles)
        s.reset()
        return s, s.run(angles)

    def in_run():
        s = new(input_state=other)
        return s, s.run(angles, input_state=psi)

    def plain(how):
        def f():
            s = new(input_state=psi)
            return s, how(s)
        return f

    ways = {"run": plain(lambda s: s.run(angles)), "call": plain(lambda s: s(angles)),
            "tuple": plain(lambda s: s.run(tuple(angles))),
            "array": plain(lambda s: s.run(np.array(angles, dtype=float))),
            "numpy scalars": plain(lambda s: s.run([np.float64(a) for a in angles])),
            "keyword": plain(lambda s: s.run(angles=angles)),
            "reset first": reset, "used before": again, "asked twice": repeated,
            "capitals": lambda: with_backend(b.upper()),
            "position": lambda: with_position(),
            "complex input": lambda: complex_input(),
            "state times a phase": lambda: phase()}

    def with_backend(name):
        s = mp.PatternSimulator(mc, psi, backend=name)
        return s, s.run(angles)

    def with_position():
        s = mp.PatternSimulator(mc, psi, b)
        return s, s.run(angles)

    def complex_input():
        s = new(input_state=psi.astype(complex))
        return s, s.run(angles)

    def phase():
        s = new(input_state=np.exp(0.7j) * psi)
        return s, s.run(angles)

    if b != "pennylane":
        ways["input in run"] = in_run
        ways["default window"] = plain(lambda s: new(input_state=psi, window_size=1).run(angles))
    got = {}
    for k, f in ways.items():
        s, out = f()
        out = np.asarray(out)
        if out.ndim == 1:  # vectors up to a phase
            out = np.outer(out, out.conj())
        got[k] = out, ({v: int(x) for v, x in s.outcomes.items()} if b != "pennylane" else {})
    out, outcomes = got["run"]
    for k, (x, y) in got.items():
        if k != "default window":
            require(y == outcomes, "outcomes {} when asked by {}, {} by run", y, k, outcomes)
        equal(x, out, f"the output when asked by {k}")
    t.label(b)
    t.interesting(len(case["meas"]) > 0)


# stacking and templates -------------------------------------------------------------

def shape_facts(mc):
    return {"nodes": len(mc), "edges": mc.graph.number_of_edges(), "depth": mc.depth,
            "flow": mc.flow is not None, "inputs": len(mc.input_nodes),
            "outputs": len(mc.output_nodes), "trainable": len(mc.trainable_nodes)}


def branch_map(mc, values):
    """The all-zeros branch of a circuit, up to its norm."""
    bases = {v: (mc[v].plane, values[v] if mc[v].is_trainable() else mc[v].angle, 0)
             for v in mc.graph.nodes if mc[v] is not None}
    mat = ref.pattern_matrix(list(mc.graph.nodes), list(mc.graph.edges), list(mc.input_nodes),
                             bases, list(mc.output_nodes))
    return mat / np.linalg.norm(mat)


@st.composite
def stack_case(draw):
    w = draw(st.integers(1, 2))
    specs = gen.meas_specs(("X", "Y", "XY", "XY"), trainable=False)
    parts = []
    for _ in range(draw(st.integers(2, 3))):
        g = draw(gen.flow_graphs(max_nodes=4 if w == 1 else 5, min_wires=w, max_wires=w))
        parts.append({"graph": g, "meas": draw(gen.measured(g, specs))})
    return {"parts": parts}


def check_stack(case, t):
    warnings.simplefilter("ignore")
    build = lambda: [mk.circuit(p["graph"], p["meas"]) for p in case["parts"]]
    parts = build()
    if sum(map(len, parts)) > 14:
        raise Skip("too many nodes")

    def law(name, ways):
        (k0, first), *rest = ways
        want, mat = shape_facts(first), branch_map(first, {})
        for k, mc in rest:
            got = shape_facts(mc)
            require(got == want, "{}: {} gives {}, {} gives {}", name, k, got, k0, want)
            d = np.abs(np.vdot(branch_map(mc, {}), mat))
            require(abs(d - 1) < 1e-6, "{}: {} and {} implement different maps", name, k, k0)

    def glued(a, b):
        return mp.merge(a, b, along=list(zip(a.output_nodes, b.input_nodes)))

    a, b, *c = parts
    law("two in a row", [("hstack of a list", mp.hstack([a, b])),
                         ("hstack of a tuple", mp.hstack((a, b))), ("merge", glued(a, b)),
                         ("merge in another order", mp.merge(a, b, along=list(zip(
                             a.output_nodes, b.input_nodes))[::-1]))])
    law("two side by side", [("vstack of a list", mp.vstack([a, b])),
                             ("vstack of a tuple", mp.vstack((a, b))),
                             ("merge along nothing", mp.merge(a, b))])
    if c:
        c = c[0]
        law("three in a row", [("one hstack", mp.hstack(parts)),
                               ("left first", mp.hstack([mp.hstack([a, b]), c])),
                               ("right first", mp.hstack([a, mp.hstack([b, c])])),
                               ("merges", glued(glued(a, b), c))])
        law("three side by side", [("one vstack", mp.vstack(parts)),
                                   ("left first", mp.vstack([mp.vstack([a, b]), c])),
                                   ("right first", mp.vstack([a, mp.vstack([b, c])]))])
    if len(a) + len(b) <= 7:
        law("two rows of two", [("rows first", mp.vstack([mp.hstack([a, b])] * 2)),
                                ("columns first", mp.hstack([mp.vstack([a, a]),
                                                             mp.vstack([b, b])]))])
    for mc, p in zip(parts, build()):
        compare(facts(mc), facts(p), "a part after stacking")
    t.label(f"{len(parts)} parts", f"{len(a.input_nodes)} wires")
    t.interesting(len(a) + len(b) > 4)


@st.composite
def template_case(draw):
    return {"n": draw(st.integers(2, 7)), "w": draw(st.lists(st.integers(2, 5), min_size=1,
                                                             max_size=4)),
            "k": draw(st.integers(1, 3)), "layers": draw(st.integers(2, 3)),
            "plane": draw(st.sampled_from(["X", "XY", "Y"]))}


def check_template(case, t):
    warnings.simplefilter("ignore")
    T, n, w = mp.templates, case["n"], case["w"]
    kw = lambda: {"default_measurement": Ment(case["plane"])}
    line = facts(T.linear_cluster(n, **kw()))
    compare(facts(T.many_wires([n], **kw())), line, "one wire")
    compare(facts(T.grid_cluster(1, n, **kw())), line, "a grid of one row")
    compare(facts(T.grid_cluster(1, n, periodic=True, **kw())), line, "a periodic row")
    wires = facts(T.many_wires(w, **kw()))
    compare(facts(mp.vstack([T.linear_cluster(x, **kw()) for x in w])), wires, "stacked wires")
    k = case["k"]
    rows = T.many_wires([n] * k, **kw())
    rows.add_edges_from([(i * n + j, (i + 1) * n + j) for i in range(k - 1) for j in range(n)])
    compare(facts(T.grid_cluster(k, n, **kw())), facts(rows), "a grid made of wires")
    if k == 2:
        # the first and last of two rows are already joined
        compare(facts(T.grid_cluster(2, n, True, **kw())),
                facts(T.grid_cluster(2, n, False, **kw())), "two periodic rows")
    compare(facts(T.muta(2, case["layers"], one_column=True)),
            facts(mp.hstack([T.muta(2, 1, one_column=True)] * case["layers"])),
            "layers of MuTA")
    t.label(f"{k} rows", case["plane"])
    t.interesting()


SUBS = [
    Sub("measurements", ment_case, check_ment, 1200, rule="all non-trivial"),
    Sub("words", words_case, check_words, 1200, rule="non-trivial: several operators"),
    Sub("circuits", circuit_case, check_circuit, 500,
        rule="non-trivial: several measured nodes"),
    Sub("simulations", sim_case, check_sim, 160, rule="non-trivial: something is measured"),
    Sub("stacks", stack_case, check_stack, 240, rule="non-trivial: more than four nodes"),
    Sub("templates", template_case, check_template, 80, rule="all non-trivial"),
]
