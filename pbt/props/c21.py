"""C21: gate builders return the named unitaries."""
import cmath

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import gates

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require


def perm_of(fn, n):
    """Matrix of a map on bit tuples: |b> -> phase |b'>."""
    m = np.zeros((2**n, 2**n), dtype=complex)
    for k in range(2**n):
        bits = [(k >> (n - 1 - q)) & 1 for q in range(n)]
        new, phase = fn(list(bits))
        m[sum(b << (n - 1 - q) for q, b in enumerate(new)), k] = phase
    return m


def swap_bits(i, j):
    def fn(b):
        b[i], b[j] = b[j], b[i]
        return b, 1
    return fn


def cnot_bits(i, j):
    def fn(b):
        b[j] ^= b[i]
        return b, 1
    return fn


def cz_bits(i, j):
    return lambda b: (b, -1 if b[i] and b[j] else 1)


@st.composite
def pair_case(draw, max_qubits=5):
    n = draw(st.integers(2, max_qubits))
    i, j = draw(st.permutations(range(n)))[:2]
    return {"n": n, "i": i, "j": j, "state": draw(gen.amplitudes(n)),
            "numpy": draw(st.booleans())}


def check_pair(case, t):
    n, i, j = case["n"], case["i"], case["j"]
    if case["numpy"]:
        n, i, j = np.int64(n), np.int64(i), np.int64(j)
    shape = (2**case["n"],) * 2
    psi = gen.to_state(case["state"])
    keep = psi.copy()
    N, a, b = case["n"], case["i"], case["j"]
    for name, got, want in (
            ("controlled_z", gates.controlled_z(i, j, n), perm_of(cz_bits(a, b), N)),
            ("swap_ij", gates.swap_ij(i, j, n), perm_of(swap_bits(a, b), N)),
            ("cnot_ij", gates.cnot_ij(i + 1, j + 1, n), perm_of(cnot_bits(a, b), N))):
        m = mk.array(got, shape, f"{name}({a}, {b}, {N})")
        require(mk.close(m, want, 1e-9), "{}({}, {}, {}) is not that gate", name, a, b, N)
        require(mk.close(np.asarray(got) @ psi, want @ psi, 1e-9), "{} on a state", name)
    out = mk.array(gates.swap_qubits(psi, i, j), psi.shape, "swap_qubits")
    axes = list(range(N))
    axes[a], axes[b] = axes[b], axes[a]
    require(mk.close(out, psi.reshape([2] * N).transpose(axes).reshape(-1), 1e-9),
            "swap_qubits({}, {}) permutes wrongly", a, b)
    require((psi == keep).all(), "swap_qubits changed its argument")
    for fn in (gates.controlled_z, gates.swap_ij):
        mk.raises(lambda: fn(a, N, N), Exception, f"{fn.__name__} outside the register")
    t.label(f"{N} qubits", "descending" if a > b else "ascending")
    t.interesting(N >= 3)


@st.composite
def single_case(draw, max_qubits=5):
    n = draw(st.integers(1, max_qubits))
    ents = st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)
    return {"n": n, "i": draw(st.integers(0, n - 1)),
            "u": draw(st.lists(ents, min_size=4, max_size=4)), "state": draw(gen.amplitudes(n))}


def check_single(case, t):
    """Any one-qubit operator (gate or projector) is embedded at the stated qubit."""
    n, i = case["n"], case["i"]
    u = np.array([complex(*x) for x in case["u"]]).reshape(2, 2)
    keep = u.copy()
    m = mk.array(gates.arbitrary_qubit_gate(u, i, n), (2**n, 2**n), "embedding")
    require((u == keep).all(), "the operator given changed")
    psi = gen.to_state(case["state"])
    want = np.moveaxis(np.tensordot(u, psi.reshape([2] * n), axes=([1], [i])), 0, i)
    require(mk.close(m @ psi, want.reshape(-1), 1e-8), "operator on qubit {} of {} acts "
            "elsewhere", i, n)
    require(mk.close(m, np.kron(np.kron(np.eye(2**i), u), np.eye(2**(n - i - 1))), 1e-9),
            "embedding at {} of {} is wrong", i, n)
    t.label(f"qubit {i} of {n}")
    t.interesting(n >= 2 and not np.allclose(u, u[0, 0] * np.eye(2)))


def check_random(case, t):
    """Random special unitaries: unitary, determinant one, fresh, reproducible by seed."""
    n = case["n"]
    state = np.random.get_state()
    try:
        np.random.seed(case["seed"])
        u, v = gates.random_su(n), gates.random_su(n)
        np.random.seed(case["seed"])
        w = gates.random_su(n)
    finally:
        np.random.set_state(state)
    for x in (u, v):
        x = mk.array(x, (2**n, 2**n), "random_su")
        require(mk.close(x @ x.conj().T, np.eye(2**n), 1e-8), "random_su is not unitary")
        require(abs(np.linalg.det(x) - 1) < 1e-7, "determinant {}", np.linalg.det(x))
    require(not mk.close(u, v, 1e-3), "two draws agree")
    require(mk.close(u, w), "the same seed gives another unitary")
    t.interesting(n > 1)


CONSTANTS = {
    "CNOT": lambda: perm_of(cnot_bits(0, 1), 2), "SWAP": lambda: perm_of(swap_bits(0, 1), 2),
    "CSGate": lambda: np.diag([1, 1, 1, 1j]), "PauliX": lambda: ref.pauli_matrix("X"),
    "HGate": lambda: (ref.pauli_matrix("X") + ref.pauli_matrix("Z")) / np.sqrt(2),
    "PauliY": lambda: ref.pauli_matrix("Y"), "PauliZ": lambda: ref.pauli_matrix("Z"),
    "TGate": lambda: np.diag([1, cmath.exp(1j * cmath.pi / 4)]),
    "SGate": lambda: np.diag([1, 1j]),
}


def check_constant(case, t):
    """Named constants, and the identities between them and the builders."""
    got = getattr(gates, case["name"])
    want = CONSTANTS[case["name"]]()
    require(mk.close(mk.array(got, want.shape, case["name"]), want, 1e-12), "{} is {}",
            case["name"], np.asarray(got).tolist())
    n, i = case["n"], case["i"] % case["n"]
    if want.shape == (2, 2):
        m = np.asarray(gates.arbitrary_qubit_gate(got, i, n))
        require(mk.close(m, ref.on_qubit(want, i, n), 1e-9), "{} at qubit {}", case["name"], i)
    if n > 1:
        j = (i + 1) % n
        h = gates.arbitrary_qubit_gate(gates.HGate, j, n)
        require(mk.close(h @ gates.cnot_ij(i + 1, j + 1, n) @ h, gates.controlled_z(i, j, n),
                         1e-9), "H CNOT H is not CZ")
    t.interesting()


SUBS = [
    Sub("two qubit", pair_case, check_pair, 600,
        rule="CZ, swap and CNOT (numbered from 1) of two distinct qubits of up to five "
             "against bit-level tables; non-trivial: three or more qubits"),
    Sub("embedding", single_case, check_single, 800,
        rule="any 2x2 operator at any qubit; non-trivial: not a multiple of the identity, "
             "two or more qubits"),
    Sub("random", lambda: st.fixed_dictionaries({"n": st.integers(1, 6), "seed": st.integers(
        0, 2**31)}), check_random, 300, rule="non-trivial: more than one qubit"),
    Sub("constants", lambda: st.fixed_dictionaries({
        "name": st.sampled_from(sorted(CONSTANTS)), "n": st.integers(1, 4),
        "i": st.integers(0, 3)}), check_constant, 120, rule="all non-trivial"),
    Sub("two qubit large", lambda: pair_case(8), check_pair, 200,
        rule="as two qubit, up to 8 qubits"),
    Sub("embedding large", lambda: single_case(8), check_single, 200,
        rule="as embedding, up to 8 qubits"),
]
