"""Hypothesis strategies producing JSON-able cases."""
import math

from hypothesis import strategies as st

PI = math.pi
SPECIAL = [0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, 3 * PI / 4, -PI / 4, 3 * PI / 2, 2 * PI, 3 * PI]


def angles():
    return st.one_of(
        st.sampled_from(SPECIAL),
        st.floats(-7.0, 7.0, allow_nan=False).map(lambda x: round(x, 3)),
        st.floats(-7.0, 7.0, allow_nan=False).map(lambda x: round(x, 3)),
    )


def generic_angles():
    return st.floats(-6.0, 6.0, allow_nan=False).map(lambda x: round(x, 3))


@st.composite
def amplitudes(draw, n):
    """Unnormalised non-zero vector of Gaussian integers, as [[re, im], ...]."""
    kind = draw(st.sampled_from(["dense", "product", "basis"]))
    dim = 2**n
    if kind == "basis":
        k = draw(st.integers(0, dim - 1))
        return [[1, 0] if i == k else [0, 0] for i in range(dim)]
    if kind == "product":
        vec = [complex(1)]
        for _ in range(n):
            a = draw(st.sampled_from([1, 1, 2, 1j, 0, 1 + 1j]))
            b = draw(st.sampled_from([1, -1, 1j, -1j, 2, 0, 1 - 2j]))
            if a == 0 and b == 0:
                a = 1
            vec = [x * y for x in vec for y in (a, b)]
        return [[int(complex(x).real), int(complex(x).imag)] for x in vec]
    ints = st.integers(-3, 3)
    v = draw(st.lists(st.tuples(ints, ints), min_size=dim, max_size=dim))
    v = [list(x) for x in v]
    if all(x == [0, 0] for x in v):
        v[0] = [1, 0]
    return v


def to_state(amp):
    """The normalised vector, in the type a user would write it down in: real when it is
    real, whole numbers for the first basis state."""
    import numpy as np

    v = np.array([complex(a, b) for a, b in amp])
    if not v.imag.any():
        if list(v.real) == [1] + [0] * (len(v) - 1):
            return v.real.astype(int)
        v = v.real
    return v / np.linalg.norm(v)


@st.composite
def interleaving(draw, lengths):
    """A random merge of wires, as a list of (wire, position)."""
    remaining = [list(range(l)) for l in lengths]
    out = []
    while any(remaining):
        live = [i for i, r in enumerate(remaining) if r]
        i = draw(st.sampled_from(live))
        out.append((i, remaining[i].pop(0)))
    return out


@st.composite
def flow_graphs(draw, max_nodes=7, max_wires=3, min_wires=1, passthrough=True,
                isolated=False, permute=True, min_len=None):
    """An open graph with a causal flow, by construction: wires in a random global time
    order plus any cross edges that respect the flow conditions."""
    w = draw(st.integers(min_wires, max_wires))
    lo = 1 if passthrough else 2
    if min_len is not None:
        lo = min_len
    # large graphs: mostly with wires of similar lengths
    balanced = max_nodes > 8 and draw(st.integers(0, 3)) > 0
    if balanced and min_len is None:
        lo = 2
    lengths, budget = [], max_nodes
    for i in range(w):
        hi = max(lo, budget - lo * (w - 1 - i))
        if balanced:
            hi = min(hi, max(lo, -(-max_nodes // w) + 1))
        l = draw(st.integers(lo, min(hi, max_nodes)))
        lengths.append(l)
        budget -= l
    order = draw(interleaving(lengths))
    time = {x: t for t, x in enumerate(order)}
    n = len(order)
    edges = []
    for i, l in enumerate(lengths):
        edges += [((i, k), (i, k + 1)) for k in range(l - 1)]
    cands = []
    for a in order:
        for b in order:
            if a[0] < b[0]:
                pa = time[(a[0], a[1] - 1)] if a[1] > 0 else -1
                pb = time[(b[0], b[1] - 1)] if b[1] > 0 else -1
                if pa < time[b] and pb < time[a]:
                    cands.append((a, b))
    if cands:
        keep = draw(st.lists(st.booleans(), min_size=len(cands), max_size=len(cands)))
        edges += [e for e, k in zip(cands, keep) if k]
    names = draw(st.permutations(range(n))) if permute else list(range(n))
    label = {x: names[i] for i, x in enumerate(sorted(order))}
    wires = list(range(w))
    in_perm = draw(st.permutations(wires)) if permute else wires
    out_perm = draw(st.permutations(wires)) if permute else wires
    e2 = [sorted((label[a], label[b])) for a, b in edges]
    if permute and e2:
        e2 = draw(st.permutations(e2))
    return {
        "n": n,
        "edges": [list(e) for e in e2],
        "inputs": [label[(i, 0)] for i in in_perm],
        "outputs": [label[(i, lengths[i] - 1)] for i in out_perm],
    }


@st.composite
def open_graphs(draw, max_nodes=6, min_nodes=1, equal=True):
    """Any open graph."""
    n = draw(st.integers(min_nodes, max_nodes))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    keep = draw(st.lists(st.booleans(), min_size=len(pairs), max_size=len(pairs)))
    edges = [list(p) for p, k in zip(pairs, keep) if k]
    k = draw(st.integers(0 if not equal else 1, n))
    perm1 = draw(st.permutations(range(n)))
    perm2 = draw(st.permutations(range(n)))
    k2 = k if equal else draw(st.integers(0, n))
    return {"n": n, "edges": edges, "inputs": list(perm1[:k]), "outputs": list(perm2[:k2])}


def meas_specs(planes=("X", "Y", "Z", "XY", "XZ", "YZ"), trainable=True, fixed=True):
    opts = []
    for p in planes:
        if len(p) == 1:
            opts.append(st.just([p, 0]))
        else:
            if trainable:
                opts.append(st.just([p, None]))
            if fixed:
                if p == "XYZ":
                    opts.append(st.tuples(angles(), angles()).map(lambda a, p=p: [p, list(a)]))
                else:
                    opts.append(angles().map(lambda a, p=p: [p, a]))
    return st.one_of(opts)


@st.composite
def measured(draw, graph, specs, measure_outputs=False, unmeasure=False):
    """Attach a measurement spec to every measured node of the graph."""
    m = {}
    for v in range(graph["n"]):
        if v in graph["outputs"]:
            if measure_outputs and draw(st.integers(0, 3)) == 0:
                m[str(v)] = draw(specs)
        elif not (unmeasure and draw(st.integers(0, 7)) == 0):
            m[str(v)] = draw(specs)
    return m
