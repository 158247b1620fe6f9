"""C18: Lie-algebra analysis agrees with what the circuit does."""
import itertools

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import PauliOp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c16 import anti, product

U = mp.utils


def texts(op):
    require(isinstance(op, PauliOp), "result is a {}", type(op))
    out = [p.txt for p in op]
    require(op.txt.split("\n") == out, "rows {} against text {!r}", out, op.txt)
    return out


def closure(gens, limit=None):
    """Closure of a set of Pauli strings under non-vanishing commutators."""
    known, todo = set(gens), list(gens)
    while todo:
        x = todo.pop()
        for y in list(known):
            if anti(x, y):
                z = product(x, y)
                if z not in known:
                    known.add(z)
                    todo.append(z)
    return known


@st.composite
def circuit_case(draw, max_nodes=7, max_wires=3):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires, passthrough=False))
    return {"graph": g, "theta": draw(st.floats(0.2, 2.9).map(lambda x: round(x, 3))),
            "input": draw(gen.amplitudes(len(g["inputs"]))),
            "names": list(draw(st.permutations(range(g["n"])))),
            "letters": draw(st.booleans()),
            "build": draw(st.sampled_from(["default", "edges", "grid", "names"]))}


def action(nodes, edges, ins, outs, psi, j, theta):
    bases = {v: ("XY", theta if v == j else 0.0, 0) for v in nodes if v not in outs}
    out, _ = ref.run_pattern(nodes, edges, ins, psi, bases, list(bases), outs)
    return out


def verify(mc, psi, theta):
    nodes, edges = list(mc.graph.nodes), [tuple(e) for e in mc.graph.edges]
    ins, outs = list(mc.input_nodes), list(mc.output_nodes)
    measured = [v for v in nodes if v not in outs]
    full = texts(U.calculate_complete_gens_lie_algebra(mc))
    gens = texts(U.calculate_gens_lie_algebra(mc))
    outputc = list(mc.outputc)
    require(sorted(outputc) == sorted(measured), "outputc is {}", outputc)
    require(len(full) == len(measured), "{} generators for {} measured nodes", len(full),
            len(measured))
    per_node = ["".join(w[o] for o in outs) for w in full]
    plain = action(nodes, edges, ins, outs, psi, None, 0.0)
    require(plain is not None, "the all-zero branch vanishes")
    for j, w, p in zip(outputc, full, per_node):
        for v in measured:
            # the string is Z on j and X or I on the other measured nodes
            require((w[v] == "Z") if v == j else (w[v] in "IX"),
                    "the string of node {} is {}", j, w)
        got = action(nodes, edges, ins, outs, psi, j, theta)
        ok = [ref.same_ray(got, ref.rotation(p, s * theta) @ plain) for s in (1, -1)]
        require(any(ok), "node {} does not act as a rotation about {}", j, p)
    require(len(gens) == len(set(gens)), "duplicate generators {}", gens)
    require(set(gens) == set(per_node), "generators {} against {}", gens, per_node)
    return gens, per_node


def check_circuit(case, t):
    g = case["graph"]
    if case["build"] == "grid":
        mc = mp.templates.grid_cluster(len(g["inputs"]), 2 + g["n"] % 2)
    else:
        mc = mk.circuit(g)
        if case["build"] == "edges":
            spare = [(a, b) for a in range(g["n"]) for b in range(a + 1, g["n"])
                     if not mc.graph.has_edge(a, b)]
            for e in spare[:1]:
                try:
                    mc.add_edge(*e)
                except Exception:
                    raise Skip
            if mc.flow is None:
                raise Skip
    psi = gen.to_state(case["input"])
    before = (list(mc.graph.edges), list(mc.measurement_order), list(mc.output_nodes))
    gens, per_node = verify(mc, psi, case["theta"])
    want = closure(gens) | {"I" * len(gens[0])}
    alg = texts(U.calculate_lie_algebra(mc))
    require(len(alg) == len(set(alg)), "the algebra lists a string twice: {}", alg)
    require(set(alg) == want, "algebra {} expected {}", sorted(alg), sorted(want))
    require((list(mc.graph.edges), list(mc.measurement_order), list(mc.output_nodes))
            == before, "the analysis changed the circuit")
    if case["build"] == "names":
        # the same circuit, with its own node names kept, in any order
        name = (lambda v: "abcdefghijkl"[v]) if case["letters"] else (lambda v: v)
        gr = mp.GraphState()
        gr.add_nodes_from(map(name, case["names"]))
        gr.add_edges_from((name(a), name(b)) for a, b in g["edges"])
        other = mp.MBQCircuit(gr, list(map(name, g["inputs"])), list(map(name, g["outputs"])),
                              relabel_indices=False)
        full = texts(U.calculate_complete_gens_lie_algebra(other))
        cols = [list(gr.nodes).index(o) for o in map(name, g["outputs"])]
        node = {name(v): p for v, p in zip(mc.outputc, per_node)}
        for v, w in zip(other.outputc, full):
            require("".join(w[c] for c in cols) == node[v], "node {} has the string {} on "
                    "nodes {}, but acts as {}", v, w, list(gr.nodes), node[v])
        got = texts(U.calculate_gens_lie_algebra(other))
        require(len(got) == len(gens) and set(got) == set(gens), "generators {} with kept "
                "names, {} without", got, gens)
        got = texts(U.calculate_lie_algebra(other))
        require(len(got) == len(want) and set(got) == want, "algebra {} with kept names, "
                "{} without", got, sorted(want))
    t.label(f"{len(mc.output_nodes)} outputs", f"dimension {len(alg)}", case["build"],
            "repeated generators" if len(set(per_node)) < len(per_node) else "distinct")
    t.interesting(len(mc.output_nodes) > 1 and len(set(gens)) > 2)


@st.composite
def words_case(draw):
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3]))
    ws = draw(st.lists(st.text("IXYZ", min_size=n, max_size=n), min_size=min(n, 2),
                       max_size=6, unique=True))
    return {"words": ws, "limit": draw(st.sampled_from([None, None, None, 2, 5, 30]))}


def check_completion(case, t):
    ws = case["words"]
    op = PauliOp(list(ws))
    want = closure(ws) | {"I" * len(ws[0])}
    if case["limit"] is None:
        got = texts(U.lie_algebra_completion(op, max_iter=10**6))
    else:
        try:
            got = texts(U.lie_algebra_completion(op, max_iter=case["limit"]))
        except ValueError:
            t.label("limit reached")
            return
    require([p.txt for p in op] == ws, "the generators changed to {}", op.txt)
    require(len(got) == len(set(got)), "the algebra lists a string twice: {}", got)
    require(set(got) == want, "closure of {} is {}, expected {}", ws, sorted(got),
            sorted(want))
    require(got[:len(ws)] == ws, "the generators do not come first: {}", got)
    require(set(texts(U.lie_algebra_completion(PauliOp(got), max_iter=10**6))) == want,
            "the closure is not closed")
    t.label(f"dimension {len(want)}")
    t.interesting(len(want) > len(ws) + 1)


@st.composite
def repeats_case(draw):
    n = draw(st.integers(1, 3))
    return {"words": draw(st.lists(st.text("IXZ", min_size=n, max_size=n), min_size=1,
                                   max_size=10))}


def check_repeats(case, t):
    ws = case["words"]
    op = PauliOp(list(ws))
    got = texts(U.remove_repeated_ops(op))
    require(got == list(dict.fromkeys(ws)), "{} without repetitions is {}", ws, got)
    require([p.txt for p in op] == ws, "the argument changed")
    t.interesting(len(got) < len(ws) and len(got) > 1)


def check_dims(case, t):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])

    def rank(fn):
        rows = []
        for _ in range(2 * n * n + 4):
            m = fn(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
            rows.append(np.concatenate([m.real.ravel(), m.imag.ravel()]))
        return np.linalg.matrix_rank(np.array(rows))

    def su(a):
        a = a - a.conj().T
        return a - np.trace(a) / n * np.eye(n)

    require(U.dim_su(n) == rank(su), "dim su({}) = {}", n, U.dim_su(n))
    require(U.dim_so(n) == rank(lambda a: a.real - a.real.T), "dim so({}) = {}", n,
            U.dim_so(n))
    if n % 2 == 0:
        m = n // 2
        J = np.block([[np.zeros((m, m)), np.eye(m)], [-np.eye(m), np.zeros((m, m))]])
        sp = lambda a: J @ (a.real + a.real.T)  # J S with S symmetric
        require(U.dim_sp(n) == rank(sp), "dim sp({}) = {}", n, U.dim_sp(n))
    else:
        mk.raises(lambda: U.dim_sp(n), Exception, "sp of odd size")
    t.interesting(n > 2)


SUBS = [
    Sub("circuits", circuit_case, check_circuit, 500,
        rule="circuits with flow and every measured node trainable in XY, random input "
             "states and angles; non-trivial: several outputs and three generators"),
    Sub("completion", words_case, check_completion, 1200,
        rule="sets of Pauli strings against an independent closure; non-trivial: the "
             "closure adds strings"),
    Sub("repeats", repeats_case, check_repeats, 600,
        rule="non-trivial: something repeats and something does not"),
    Sub("dimensions", lambda: st.fixed_dictionaries(
        {"n": st.integers(2, 7), "seed": st.integers(0, 3)}), check_dims, 24,
        rule="dimensions against ranks of random matrices; non-trivial: n > 2"),
    Sub("circuits large", lambda: circuit_case(11, 4), check_circuit, 120,
        rule="as circuits, up to 11 nodes and 4 wires"),
]
