"""Reference models, written from the textbook definitions with plain numpy.
Nothing here calls mentpy."""
import itertools

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}


def observable(plane, angle):
    if plane in ("X", "Y", "Z"):
        return PAULI[plane]
    if plane == "XY":
        return np.cos(angle) * X + np.sin(angle) * Y
    if plane == "XZ":
        return np.cos(angle) * X + np.sin(angle) * Z
    if plane == "YZ":
        return np.cos(angle) * Y + np.sin(angle) * Z
    if plane == "XYZ":
        a, b = angle
        return np.cos(a) * np.cos(b) * X + np.sin(a) * np.cos(b) * Y + np.sin(b) * Z
    raise ValueError(plane)


def eigvec(plane, angle, outcome):
    """Eigenvector of the observable with eigenvalue (-1)**outcome."""
    proj = (I2 + (1 - 2 * outcome) * observable(plane, angle)) / 2
    col = int(np.argmax(np.abs(np.diag(proj))))
    v = proj[:, col]
    return v / np.linalg.norm(v)


class State:
    """A state vector over named qubits."""

    def __init__(self, nodes, vec):
        self.order = list(nodes)
        self.t = np.array(vec, dtype=complex).reshape([2] * len(self.order))

    def add_plus(self, node):
        self.t = np.multiply.outer(self.t, np.ones(2) / np.sqrt(2))
        self.order.append(node)

    def cz(self, u, v):
        i, j = self.order.index(u), self.order.index(v)
        sl = [slice(None)] * len(self.order)
        sl[i] = sl[j] = 1
        self.t = self.t.copy()
        self.t[tuple(sl)] *= -1

    def apply(self, u, node):
        i = self.order.index(node)
        self.t = np.moveaxis(np.tensordot(u, self.t, axes=([1], [i])), 0, i)

    def project(self, node, vec):
        """Contracts the node with <vec|; returns the remaining probability."""
        i = self.order.index(node)
        self.t = np.tensordot(np.conj(vec), self.t, axes=([0], [i]))
        self.order.pop(i)
        return self.norm2()

    def norm2(self):
        return float(np.sum(np.abs(self.t) ** 2))

    def vector(self, order):
        assert sorted(map(str, order)) == sorted(map(str, self.order))
        return self.t.transpose([self.order.index(o) for o in order]).reshape(-1)


def resource_state(nodes, edges, inputs, psi):
    st = State(inputs, psi)
    for v in nodes:
        if v not in inputs:
            st.add_plus(v)
    for u, v in edges:
        st.cz(u, v)
    return st


def run_pattern(nodes, edges, inputs, psi, bases, order, outs):
    """bases: node -> (plane, angle, outcome), measured in the given order.
    Returns (normalised output vector or None if impossible, conditional
    probabilities per node of the given outcome)."""
    st = resource_state(nodes, edges, inputs, psi)
    probs = {}
    p_prev = st.norm2()
    for v in order:
        plane, angle, outcome = bases[v]
        p = st.project(v, eigvec(plane, angle, outcome))
        probs[v] = p / p_prev if p_prev > 0 else 0.0
        p_prev = p
    vec = st.vector(outs)
    n = np.linalg.norm(vec)
    return (vec / n if n > 1e-12 else None), probs


def run_lazily(nodes, edges, inputs, psi, bases, order, outs):
    """As run_pattern for outcome zero everywhere, but a node is only prepared when it or a
    neighbour is measured, so that long patterns on few wires stay small. bases: node ->
    (plane, angle). Returns the normalised output vector and the smallest conditional
    probability."""
    nb, left, least = neighbours(nodes, edges), set(), 1.0
    for u, v in edges:
        left.add(frozenset((u, v)))
    st, seen = State(inputs, psi), set(inputs)

    def prepare(v):
        if v not in seen:
            seen.add(v)
            st.add_plus(v)

    def entangle(v):
        prepare(v)
        for w in nb[v]:
            prepare(w)
            if frozenset((v, w)) in left:
                left.discard(frozenset((v, w)))
                st.cz(v, w)

    for v in order:
        entangle(v)
        p = st.project(v, eigvec(*bases[v], 0))
        least = min(least, p)
        if p <= 1e-12:
            return None, p
        st.t = st.t / np.sqrt(p)
    for v in outs:
        entangle(v)
    vec = st.vector(outs)
    return vec / np.linalg.norm(vec), least


def dm(vec):
    return np.outer(vec, np.conj(vec))


def kron_all(ms):
    out = np.eye(1, dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def pauli_matrix(s):
    return kron_all([PAULI[c] for c in s])


def on_qubit(u, i, n):
    return kron_all([u if k == i else I2 for k in range(n)])


def partial_trace(rho, traced, n):
    """Textbook partial trace by summing over basis states."""
    keep = [k for k in range(n) if k not in traced]
    t = np.asarray(rho, dtype=complex).reshape([2] * (2 * n))
    out = np.zeros((2 ** len(keep), 2 ** len(keep)), dtype=complex)
    for bits in itertools.product([0, 1], repeat=len(traced)):
        idx = [slice(None)] * (2 * n)
        for q, b in zip(traced, bits):
            idx[q] = b
            idx[n + q] = b
        out += t[tuple(idx)].reshape(2 ** len(keep), 2 ** len(keep))
    return out


def same_ray(a, b, tol=1e-6):
    """Equal up to a global phase (both normalised)."""
    return abs(abs(np.vdot(a, b)) - 1) < tol


# ------------------------------------------------------------------ flow


def neighbours(nodes, edges):
    nb = {v: set() for v in nodes}
    for u, v in edges:
        nb[u].add(v)
        nb[v].add(u)
    return nb


def max_delayed_causal_layers(nodes, edges, inputs, outputs):
    """Greedy backward layering by definition: in each round correct every node that
    has a corrector whose only uncorrected neighbour it is. Returns (layers, flow) or
    None. (Each round recomputes everything from scratch.)"""
    nb = neighbours(nodes, edges)
    layer = {v: 0 for v in outputs}
    flow = {}
    k = 0
    used = set()
    while len(layer) < len(nodes):
        k += 1
        found = {}
        for v in nodes:
            if v in layer and v not in inputs and v not in used:
                unc = [w for w in nb[v] if w not in layer]
                if len(unc) == 1 and unc[0] not in found:
                    found[unc[0]] = v
        if not found:
            return None
        for u, v in found.items():
            layer[u] = k
            flow[u] = v
            used.add(v)
    return layer, flow


def has_causal_flow_bruteforce(nodes, edges, inputs, outputs):
    """Definition: an injective successor function into non-input neighbours whose
    induced relation (u<f(u), u<w for w~f(u)) is acyclic."""
    nb = neighbours(nodes, edges)
    dom = [v for v in nodes if v not in outputs]
    cand = {v: [w for w in nb[v] if w not in inputs] for v in dom}

    def acyclic(f):
        succ = {v: set() for v in nodes}
        for u, fu in f.items():
            succ[u].add(fu)
            succ[u] |= nb[fu] - {u}
        color = {}

        def visit(v):
            color[v] = 1
            for w in succ[v]:
                c = color.get(w, 0)
                if c == 1 or (c == 0 and not visit(w)):
                    return False
            color[v] = 2
            return True

        return all(color.get(v, 0) == 2 or visit(v) for v in nodes)

    def rec(i, f, used):
        if i == len(dom):
            return acyclic(f)
        u = dom[i]
        for w in cand[u]:
            if w not in used:
                f[u] = w
                if acyclic(f) and rec(i + 1, f, used | {w}):
                    return True
                del f[u]
        return False

    return rec(0, {}, frozenset())


def gflow_layers(nodes, edges, inputs, outputs):
    """Maximally delayed XY-plane gflow layering by exhaustive search over correcting
    sets. Returns layers or None."""
    nb = neighbours(nodes, edges)
    layer = {v: 0 for v in outputs}
    k = 0
    while len(layer) < len(nodes):
        k += 1
        correctors = [v for v in layer if v not in inputs]
        unc = [v for v in nodes if v not in layer]
        masks = []
        for c in correctors:
            m = 0
            for i, u in enumerate(unc):
                if u in nb[c]:
                    m |= 1 << i
            masks.append(m)
        span = {0}
        for m in masks:
            span |= {s ^ m for s in span}
        new = [u for i, u in enumerate(unc) if (1 << i) in span]
        if not new:
            return None
        for u in new:
            layer[u] = k
    return layer


# ------------------------------------------------------------------ GF(2)


def gf2_rank(rows):
    """Rank over GF(2) of a list of 0/1 lists."""
    vals = [int("".join(str(int(x) & 1) for x in r) or "0", 2) for r in rows]
    rank = 0
    vals = [v for v in vals if v]
    while vals:
        p = max(vals)
        vals.remove(p)
        rank += 1
        hb = p.bit_length()
        vals = [v ^ p if v.bit_length() == hb else v for v in vals]
        vals = [v for v in vals if v]
    return rank


def pattern_matrix(nodes, edges, inputs, bases, outs):
    """The (unnormalised) linear map of the given outcome branch."""
    cols = []
    for k in range(2 ** len(inputs)):
        psi = np.zeros(2 ** len(inputs))
        psi[k] = 1
        s = resource_state(nodes, edges, inputs, psi)
        for v, (plane, angle, outcome) in bases.items():
            s.project(v, eigvec(plane, angle, outcome))
        cols.append(s.vector(outs))
    return np.array(cols).T


def apply_map(state, mat, ins, outs):
    """Applies a linear map to some legs of a State, renaming them."""
    k = len(ins)
    idx = [state.order.index(i) for i in ins]
    m = np.asarray(mat).reshape([2] * len(outs) + [2] * k)
    t = np.tensordot(m, state.t, axes=(list(range(len(outs), len(outs) + k)), idx))
    rest = [o for o in state.order if o not in ins]
    new = State.__new__(State)
    new.order, new.t = list(outs) + rest, t
    return new


def run_lazy(nodes, edges, inputs, psi, bases, order, outs):
    """As run_pattern, but prepares nodes only when they are needed."""
    nb = neighbours(nodes, edges)
    s = State(inputs, psi)
    present, done = set(inputs), set()

    def add(v):
        if v in present:
            return
        s.add_plus(v)
        present.add(v)
        for w in nb[v]:
            if w in present and w not in done:
                s.cz(v, w)

    ins = list(inputs)
    for i, u in enumerate(ins):
        for v in ins[:i]:
            if v in nb[u]:
                s.cz(u, v)
    for v in order:
        add(v)
        for w in sorted(nb[v]):
            if w not in done:
                add(w)
        p = s.norm2()
        plane, angle, outcome = bases[v]
        if s.project(v, eigvec(plane, angle, outcome)) < 1e-12 * p:
            return None
        s.t /= np.sqrt(s.norm2())
        done.add(v)
    for v in outs:
        add(v)
    return s.vector(outs)


def rotation(p, theta):
    """exp(-i theta P / 2)."""
    m = pauli_matrix(p)
    return np.cos(theta / 2) * np.eye(len(m)) - 1j * np.sin(theta / 2) * m
