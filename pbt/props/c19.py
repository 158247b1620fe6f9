"""C19: local-Clifford equivalence matches the orbit of local complementations."""
import functools

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require


# A graph on n nodes is a tuple of neighbour bit masks.
def masks(n, edges):
    m = [0] * n
    for a, b in edges:
        m[a] |= 1 << b
        m[b] |= 1 << a
    return tuple(m)


def complement_at(m, v):
    m = list(m)
    nb = m[v]
    for u in range(len(m)):
        if nb >> u & 1:
            m[u] ^= nb & ~(1 << u)
    return tuple(m)


@functools.lru_cache(maxsize=4000)
def orbit(m):
    seen, todo = {m}, [m]
    while todo:
        x = todo.pop()
        for v in range(len(m)):
            y = complement_at(x, v)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return frozenset(seen)


def edges_of(m):
    return [(a, b) for a in range(len(m)) for b in range(a) if m[a] >> b & 1]


def span_ok(G, H, Q):
    """Does the symplectic map Q send the stabilizer group of G onto that of H? Columns are
    the generators, Z part above X part."""
    n = len(G)
    S1 = np.vstack([G, np.eye(n, dtype=int)])
    S2 = np.vstack([H, np.eye(n, dtype=int)])
    img = (Q @ S1) % 2
    both = np.hstack([img, S2]).T.tolist()
    return ref.gf2_rank(img.T.tolist()) == n and ref.gf2_rank(both) == n


def operation(res, n, form):
    if form == "global":
        Q = np.asarray(res)
        require(Q.shape == (2 * n, 2 * n), "global operation has shape {}", Q.shape)
        for blk in (Q[:n, :n], Q[:n, n:], Q[n:, :n], Q[n:, n:]):
            require((blk == np.diag(np.diag(blk))).all(), "the operation is not local")
        tens = [Q[np.ix_([k, n + k], [k, n + k])] for k in range(n)]
    else:
        require(len(res) == n, "{} local operations for {} nodes", len(res), n)
        tens = [np.asarray(x) for x in res]
        Q = np.zeros((2 * n, 2 * n), dtype=int)
        for k, x in enumerate(tens):
            require(x.shape == (2, 2), "local operation has shape {}", x.shape)
            Q[np.ix_([k, n + k], [k, n + k])] = x
    for x in tens:
        require(set(np.unique(x)) <= {0, 1}, "entries {}", x.tolist())
        require((x[0, 0] * x[1, 1] + x[0, 1] * x[1, 0]) % 2 == 1, "singular operation {}",
                x.tolist())
    return Q


def build(names, edges, kind, order):
    g = mp.GraphState() if kind != "nx" else nx.Graph()
    g.add_nodes_from([names[i] for i in order])
    g.add_edges_from([(names[a], names[b]) for a, b in edges])
    if kind == "circuit":
        mc = mp.MBQCircuit(g, input_nodes=[], output_nodes=[])
        return mc, mc.graph
    return g, g


@st.composite
def pair_case(draw, lo=1, hi=6):
    n = draw(st.integers(lo, hi))
    pairs = [(i, j) for i in range(n) for j in range(i)]
    e1 = [p for p, k in zip(pairs, draw(st.lists(st.booleans(), min_size=len(pairs),
                                                 max_size=len(pairs)))) if k]
    how = draw(st.sampled_from(["random", "related", "related", "nearly", "same degree",
                                "isomorphic"]))
    m2 = masks(n, e1)
    moves = draw(st.lists(st.integers(0, n - 1), max_size=8))
    if how in ("related", "nearly"):
        for v in moves:
            m2 = complement_at(m2, v)
    e2 = edges_of(m2)
    if how == "random" or how == "same degree":
        e2 = [p for p, k in zip(pairs, draw(st.lists(st.booleans(), min_size=len(pairs),
                                                     max_size=len(pairs)))) if k]
        if how == "same degree":
            e2 = draw(st.permutations(pairs))[:len(e1)]
    elif how == "nearly" and pairs:
        p = draw(st.sampled_from(pairs))
        e2 = [e for e in e2 if e != p] if p in e2 else e2 + [p]
    elif how == "isomorphic":
        perm = draw(st.permutations(range(n)))
        e2 = [(perm[a], perm[b]) for a, b in e1]
    labels = draw(st.sampled_from(["range", "other"]))
    return {"n": n, "e1": [list(e) for e in e1], "e2": [list(e) for e in e2], "how": how,
            "names": list(range(n)) if labels == "range" else
            draw(st.lists(st.integers(-9, 30), min_size=n, max_size=n, unique=True)),
            "o1": draw(st.permutations(range(n))), "o2": draw(st.permutations(range(n))),
            "kind": draw(st.sampled_from(["state", "state", "nx", "circuit"])),
            "form": draw(st.sampled_from(["default", "tensor", "global"]))}


def check(case, t, exact=True):
    n, names = case["n"], case["names"]
    m1, m2 = masks(n, case["e1"]), masks(n, case["e2"])
    a, g1 = build(names, case["e1"], case["kind"], case["o1"])
    b, g2 = build(names, case["e2"], case["kind"], case["o2"])
    before = (list(g1.nodes), list(g1.edges), list(g2.nodes), list(g2.edges))
    form = case["form"]
    kw = {} if form == "default" else {"clifford_form": form}
    res = mp.utils.are_lc_equivalent(a, b, **kw)
    require(isinstance(res, tuple) and len(res) == 2, "result is {}", res)
    got, op = res
    require(got in (True, False), "verdict is {}", got)
    if exact:
        want = m2 in orbit(m1)
    elif case["how"] == "related":
        want = True
    else:
        want = None
    if want is not None:
        require(bool(got) == want, "reported {}, but the graphs are {}", got,
                "equivalent" if want else "not equivalent")
    require((list(g1.nodes), list(g1.edges), list(g2.nodes), list(g2.edges)) == before,
            "the graphs changed")
    if got:
        nodes = list(g1.nodes)
        G = nx.to_numpy_array(g1, nodelist=nodes, dtype=int)
        H = nx.to_numpy_array(g2, nodelist=nodes, dtype=int)
        Q = operation(op, n, form)
        require(span_ok(G, H, Q), "the operation does not map one state to the other")
    else:
        require(op is None, "operation {} for inequivalent graphs", op)
    back = mp.utils.are_lc_equivalent(b, a, **kw)[0]
    require(bool(back) == bool(got), "the relation is not symmetric")
    t.label("equivalent" if got else "inequivalent", case["how"], case["kind"],
            "default" if form == "default" else form)
    t.interesting(n >= 3 and m1 != m2 and (got or len(case["e1"]) and len(case["e2"])))


def check_large(case, t):
    check(case, t, exact=case["n"] <= 6)


@st.composite
def other_case(draw):
    n1 = draw(st.integers(0, 5))
    n2 = draw(st.integers(0, 5).filter(lambda x: x != n1 or x == 0))
    return {"n1": n1, "n2": n2, "edge": draw(st.booleans())}


def check_other(case, t):
    """Different sizes (or empty graphs) are not equivalent."""
    g1, g2 = nx.path_graph(case["n1"]), nx.path_graph(case["n2"])
    if not case["edge"]:
        g2.remove_edges_from(list(g2.edges))
    got, op = mp.utils.are_lc_equivalent(g1, g2)
    require(not got and op is None, "graphs of {} and {} nodes reported {}, {}", case["n1"],
            case["n2"], got, op)
    t.interesting(case["n1"] and case["n2"])


SUBS = [
    Sub("small", lambda: pair_case(1, 5), check, 3000,
        rule="pairs of graphs of up to five nodes against the complete orbit; non-trivial: "
             "at least three nodes, different graphs, both with edges"),
    Sub("large", lambda: pair_case(6, 9), check_large, 480,
        rule="six to nine nodes; exact orbit up to six, otherwise equivalence of graphs "
             "related by construction, symmetry, and the reported operation; same rule"),
    Sub("larger", lambda: pair_case(9, 14), check_large, 120,
        rule="as large, up to 14 nodes"),
    Sub("sizes", other_case, check_other, 60, rule="non-trivial: both have nodes"),
]
