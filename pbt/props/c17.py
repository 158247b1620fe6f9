"""C17: stabilizers and entanglement entropy describe the graph state."""
import itertools

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import PauliOp
from mentpy.mbqc.states.graphstate import GraphState, entanglement_entropy

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require


@st.composite
def labelled_graph(draw, max_nodes=6):
    n = draw(st.integers(1, max_nodes))
    kind = draw(st.sampled_from(["range", "ints", "text", "mixed"]))
    pool = {"range": st.just(None), "ints": st.integers(-5, 40),
            "text": st.text("abc", min_size=1, max_size=3),
            "mixed": st.one_of(st.integers(0, 9), st.text("ab", min_size=1, max_size=2))}[kind]
    names = list(draw(st.permutations(range(n)))) if kind == "range" else draw(
        st.lists(pool, min_size=n, max_size=n, unique=True))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    keep = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
    edges = [list(p) for p, k in zip(pairs, keep) if k]
    if draw(st.booleans()):
        edges = [e[::-1] for e in edges][::-1]
    return {"names": names, "edges": edges,
            "declared": draw(st.sampled_from(["nodes", "edges", "removed"]))}


def build(case):
    names = case["names"]
    g = GraphState()
    if case["declared"] != "edges":
        g.add_nodes_from(names)
    g.add_edges_from([(names[a], names[b]) for a, b in case["edges"]])
    g.add_nodes_from(names)
    if case["declared"] == "removed" and len(names) > 1:
        g.add_edges_from([("extra", v) for v in names])
        g.remove_node("extra")
        if not g.has_edge(names[0], names[1]):
            g.add_edge(names[0], names[1])
            g.remove_edge(names[0], names[1])
    return g


def graph_vector(g):
    nodes = list(g.nodes)
    pos = {v: i for i, v in enumerate(nodes)}
    n = len(nodes)
    x = np.arange(2**n)
    bits = np.array([(x >> (n - 1 - i)) & 1 for i in range(n)])
    sign = np.zeros(2**n, dtype=int)
    for a, b in g.edges:
        sign += bits[pos[a]] * bits[pos[b]]
    return (-1.0) ** sign / np.sqrt(2**n)


def check_stab(case, t):
    g = build(case)
    nodes = list(g.nodes)
    n = len(nodes)
    before = (list(g.nodes), sorted(map(str, g.edges)))
    s = g.stabilizers()
    require(isinstance(s, PauliOp), "stabilizers are a {}", type(s))
    ss = [p.txt for p in s]
    require(len(s) == n and len(ss) == n, "{} stabilizers for {} nodes", len(ss), n)
    psi = graph_vector(g)
    for i, w in enumerate(ss):
        require(len(w) == n, "stabilizer {} is on {} qubits", w, len(w))
        require(np.allclose(ref.pauli_matrix(w) @ psi, psi), "{} does not fix the state", w)
        want = "".join("X" if v == nodes[i] else "Z" if g.has_edge(nodes[i], v) else "I"
                       for v in nodes)
        require(w == want, "stabilizer of node {} is {}, expected {}", nodes[i], w, want)
    m = np.asarray(s.matrix).astype(int)
    require(ref.gf2_rank(m.tolist()) == n, "stabilizers are dependent: {}", ss)
    require(not np.asarray(s.symplectic_prod(s)).any(), "stabilizers do not commute: {}", ss)
    require((list(g.nodes), sorted(map(str, g.edges))) == before, "the graph changed")
    require(g.index_mapping() == {v: i for i, v in enumerate(nodes)}, "index mapping {}",
            g.index_mapping())
    again = [p.txt for p in g.stabilizers()]
    require(again == ss, "a second call gives {}", again)
    a, b = nodes[0], nodes[-1]
    if a != b:  # the stabilizers follow later edits of the graph
        (g.remove_edge if g.has_edge(a, b) else g.add_edge)(a, b)
        psi = graph_vector(g)
        for p in g.stabilizers():
            require(np.allclose(ref.pauli_matrix(p.txt) @ psi, psi),
                    "after an edit {} does not fix the state", p.txt)
        # the same edges between other nodes: as many edges and degrees as before
        move = dict(zip(nodes, nodes[1:] + nodes[:1]))
        edges = list(g.edges)
        g.remove_edges_from(edges)
        g.add_edges_from((move[x], move[y]) for x, y in edges)
        psi = graph_vector(g)
        for p in g.stabilizers():
            require(np.allclose(ref.pauli_matrix(p.txt) @ psi, psi),
                    "after moving the edges {} does not fix the state", p.txt)
    t.interesting(n >= 3 and len(case["edges"]) >= 2)


@st.composite
def circuit_case(draw, max_nodes=7, max_wires=3):
    return {"graph": draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires)),
            "plus": draw(st.booleans())}


def check_circuit(case, t):
    """A circuit reports the stabilizers of its (current) graph state."""
    g = case["graph"]
    mc = mk.circuit(g)
    def expected():
        nodes = list(mc.graph.nodes)
        return ["".join("X" if u == v else "Z" if mc.graph.has_edge(u, v) else "I"
                        for u in nodes) for v in nodes]
    require([p.txt for p in mc.stabilizers()] == expected(), "stabilizers {}",
            mc.stabilizers())
    if case["plus"] and g["n"] >= 2:
        a, b = 0, g["n"] - 1
        if not mc.graph.has_edge(a, b):
            mc.add_edge(a, b)
            require(mc.graph.has_edge(a, b), "edge not added")
            require([p.txt for p in mc.stabilizers()] == expected(),
                    "after add_edge: stabilizers {}", mc.stabilizers())
            t.label("edge added")
    t.interesting(len(g["edges"]) >= 2)


@st.composite
def entropy_case(draw, max_nodes=7):
    c = draw(labelled_graph(max_nodes))
    n = len(c["names"])
    side = draw(st.lists(st.sampled_from("AABBO"), min_size=n, max_size=n))
    if draw(st.integers(0, 2)):
        side = ["B" if s == "O" else s for s in side]
    return {**c, "side": side, "explicit": draw(st.booleans()),
            "shuffle": draw(st.integers(0, 2**20))}


def entropy_of(psi, keep, n):
    order = keep + [i for i in range(n) if i not in keep]
    s = np.linalg.svd(psi.reshape([2] * n).transpose(order).reshape(2 ** len(keep), -1),
                      compute_uv=False) ** 2
    s = s[s > 1e-12]
    return float(-(s * np.log2(s)).sum())


def check_entropy(case, t):
    g = build(case)
    names, side = case["names"], case["side"]
    rng = np.random.default_rng(case["shuffle"])
    A = [v for v, s in zip(names, side) if s == "A"]
    B = [v for v, s in zip(names, side) if s == "B"]
    A = [A[i] for i in rng.permutation(len(A))]
    B = [B[i] for i in rng.permutation(len(B))]
    full = len(A) + len(B) == len(names)
    sub = g.subgraph(A + B) if not full else g
    a0, b0, e0 = list(A), list(B), sorted(map(str, g.edges))
    if full and not case["explicit"]:
        got = entanglement_entropy(g, A)
        swapped = entanglement_entropy(g, B)
    else:
        got = entanglement_entropy(g, A, B)
        swapped = entanglement_entropy(g, B, A)
    require((A, B, sorted(map(str, g.edges))) == (a0, b0, e0), "the arguments changed")
    if not A or not B:
        require(got == 0, "entropy with an empty side is {}", got)
        return
    order = list(sub.nodes)
    want = entropy_of(graph_vector(sub), [order.index(v) for v in A], len(order))
    require(abs(got - want) < 1e-6, "entropy between {} and {} is {}, expected {}", A, B, got,
            want)
    require(got == swapped, "entropy is {} one way and {} the other", got, swapped)
    t.label(f"entropy {round(want)}", "complement" if full else "two parts")
    t.interesting(0.5 < want < min(len(A), len(B)) or want > 1.5)


def loops(ks):
    return [sorted((sum(ks[:i]) + j, sum(ks[:i]) + (j + 1) % k)) for i, k in enumerate(ks)
            for j in range(k)]


@st.composite
def regular_case(draw):
    """Regular graphs look alike from every node: unions of rings and their complements."""
    a, b = draw(st.sampled_from([[[6], [3, 3]], [[7], [3, 4]], [[3, 3], [6]], [[7], [4, 3]],
                                 [[3, 4], [4, 3]]]))
    n = sum(a)
    a, b = loops(a), loops(b)
    if draw(st.booleans()):
        a, b = ([[i, j] for i in range(n) for j in range(i + 1, n) if [i, j] not in e]
                for e in (a, b))
    if draw(st.integers(0, 2)) == 0:
        b = a
    perm = list(draw(st.permutations(range(n))))
    return {"n": n, "m": n, "a": a, "b": [sorted((perm[x], perm[y])) for x, y in b],
            "names": draw(st.sampled_from(["int", "text"])), "plain": draw(st.booleans())}


@st.composite
def equal_case(draw):
    n = draw(st.integers(1, 6))
    pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
    edges = [p for p in pairs if draw(st.booleans())]
    perm = list(draw(st.permutations(range(n))))
    other = [sorted((perm[a], perm[b])) for a, b in edges]
    how = draw(st.sampled_from(["same", "toggle", "move", "move", "node"]))
    rest = [p for p in pairs if p not in other]
    if how in ("toggle", "move") and other:
        other.remove(draw(st.sampled_from(other)))
    if how == "move" and rest:
        other.append(draw(st.sampled_from(rest)))
    return {"n": n, "m": n + (how == "node"), "a": edges, "b": other,
            "names": draw(st.sampled_from(["int", "text"])),
            "plain": draw(st.booleans())}


def check_equal(case, t):
    """Graph states are equal exactly when the graphs are isomorphic."""
    n, m = case["n"], case["m"]
    nm = (lambda v: v) if case["names"] == "int" else (lambda v: f"q{v}")
    a = GraphState()
    a.add_nodes_from(range(n))
    a.add_edges_from(case["a"])
    b = nx.Graph() if case["plain"] else GraphState()
    b.add_nodes_from(nm(v) for v in reversed(range(m)))
    b.add_edges_from((nm(x), nm(y)) for x, y in case["b"])
    want = False
    if n == m and len(case["a"]) == len(case["b"]):
        eb = {frozenset(e) for e in case["b"]}
        want = any(all(frozenset((p[x], p[y])) in eb for x, y in case["a"])
                   for p in itertools.permutations(range(n)))
    require(bool(a == b) == want, "equality of {} and {} is {}", case["a"], case["b"], a == b)
    require(bool(a != b) != want, "inequality of {} and {} is {}", case["a"], case["b"],
            a != b)
    if not case["plain"]:
        require(bool(b == a) == want, "equality is not symmetric")
    require(len(a) == n and len(b) == m, "sizes {} and {}", len(a), len(b))
    # the answer follows later edits
    if n == m >= 2:
        b.remove_edges_from(list(b.edges))
        b.add_edges_from((nm(n - 1 - x), nm(n - 1 - y)) for x, y in case["a"])
        require(bool(a == b) and not bool(a != b), "a graph that was made equal is different")
        x, y = case["a"][0] if case["a"] else (0, 1)
        (a.remove_edge if a.has_edge(x, y) else a.add_edge)(x, y)
        require(not bool(a == b) and bool(a != b), "a graph that was made different is equal")
    t.label("equal" if want else "different")
    t.interesting(n >= 4 and len(case["a"]) == len(case["b"]) >= 2)


SUBS = [
    Sub("stabilizers", labelled_graph, check_stab, 2000,
        rule="graphs of up to six nodes with any labels, built in any order, against the "
             "state vector; non-trivial: three nodes and two edges"),
    Sub("circuits", circuit_case, check_circuit, 600, rule="non-trivial: two edges"),
    Sub("entropy", entropy_case, check_entropy, 2500,
        rule="bipartitions of graphs of up to seven nodes against the singular values of "
             "the state vector; non-trivial: entropy of at least 2, or neither 0 nor maximal"),
    Sub("stabilizers large", lambda: labelled_graph(10), check_stab, 300,
        rule="as stabilizers, up to ten nodes"),
    Sub("circuits large", lambda: circuit_case(14, 5), check_circuit, 200,
        rule="as circuits, up to 14 nodes"),
    Sub("entropy large", lambda: entropy_case(11), check_entropy, 400,
        rule="as entropy, up to eleven nodes"),
    Sub("equality", equal_case, check_equal, 1200,
        rule="graphs and permuted copies, some with an edge moved, against all bijections; "
             "non-trivial: four nodes and equally many edges"),
    Sub("regular", regular_case, check_equal, 120,
        rule="unions of rings and their complements; non-trivial: as equality"),
]
