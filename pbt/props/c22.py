"""C22: state utilities: partial trace, purity conversion and fidelity."""
import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require

calc = mp.calculator


@st.composite
def mixed_case(draw, max_qubits=4):
    n = draw(st.integers(1, max_qubits))
    k = draw(st.integers(0, n))
    terms = draw(st.lists(st.tuples(st.integers(1, 5), gen.amplitudes(n)), min_size=1,
                          max_size=3))
    order = draw(st.permutations(range(n)))
    return {"n": n, "terms": [list(x) for x in terms], "trace": list(order[:k]),
            "keep": list(order[k:])}


def density(terms):
    w = sum(a for a, _ in terms)
    return sum(a / w * ref.dm(gen.to_state(v)) for a, v in terms)


def check_mixed(case, t):
    n, out = case["n"], case["trace"]
    rho = density(case["terms"])
    keep, inds = rho.copy(), list(out)
    for fn in (calc.partial_trace, calc.partial_trace_mixed_state):
        got = mk.array(fn(rho, inds), (2 ** (n - len(out)),) * 2, "partial trace")
        require((rho == keep).all() and inds == out, "partial_trace changed its arguments")
        want = ref.partial_trace(rho, out, n)
        require(mk.close(got, want, 1e-9), "partial trace of qubits {} of {} is wrong", out, n)
        require(abs(np.trace(got) - 1) < 1e-9, "trace {}", np.trace(got))
        require(mk.close(got, got.conj().T, 1e-9), "not Hermitian")
        require(np.linalg.eigvalsh(got).min() > -1e-9, "not positive")
    # tracing in two steps gives the same
    if len(out) >= 2:
        first, rest = out[0], [q - (q > out[0]) for q in out[1:]]
        two = calc.partial_trace(calc.partial_trace(rho, [first]), rest)
        require(mk.close(two, want, 1e-9), "tracing {} one after the other differs", out)
    t.label(f"{len(out)} of {n}", "unsorted" if out != sorted(out) else "sorted",
            "mixed" if len(case["terms"]) > 1 else "pure")
    t.interesting(0 < len(out) < n and n >= 2 and len(case["terms"]) > 1)


@st.composite
def general_case(draw):
    """Any matrix: the partial trace is linear, not only defined on states."""
    n = draw(st.integers(1, 3))
    dim = 4**n
    ents = st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)
    order = draw(st.permutations(range(n)))
    return {"n": n, "m": draw(st.lists(ents, min_size=dim, max_size=dim)),
            "trace": list(order[:draw(st.integers(0, n))])}


def check_general(case, t):
    n, out = case["n"], case["trace"]
    m = np.array([complex(*x) for x in case["m"]]).reshape(2**n, 2**n)
    got = mk.array(calc.partial_trace(m, list(out)), (2 ** (n - len(out)),) * 2, "result")
    require(mk.close(got, ref.partial_trace(m, out, n), 1e-9), "partial trace of {} of a "
            "general matrix is wrong", out)
    t.interesting(0 < len(out) < n)


@st.composite
def product_case(draw, max_qubits=5):
    n = draw(st.integers(1, max_qubits))
    k = draw(st.integers(0, n))
    order = draw(st.permutations(range(n)))
    return {"n": n, "trace": list(order[:k]), "keep": sorted(order[k:]),
            "a": draw(gen.amplitudes(k)), "b": draw(gen.amplitudes(n - k))}


def check_product(case, t):
    """Tracing a vector that is a product across the cut returns the other factor."""
    n, out, keep = case["n"], case["trace"], case["keep"]
    a, b = gen.to_state(case["a"]), gen.to_state(case["b"])
    psi = np.kron(b, a).reshape([2] * n)  # axes: keep..., trace...
    psi = psi.transpose([(keep + out).index(q) for q in range(n)]).reshape(-1).copy()
    orig, inds = psi.copy(), list(out)
    for fn in (calc.partial_trace, calc.partial_trace_pure_state):
        got = mk.array(fn(psi, inds), (2 ** len(keep),), "partial trace")
        require((psi == orig).all() and inds == out, "partial_trace changed its arguments")
        require(ref.same_ray(got, b), "qubits {} of {} leave another state", out, n)
    # agrees with the density-matrix version
    rho = calc.partial_trace(calc.pure2density(psi), list(out))
    require(mk.close(rho, ref.dm(got), 1e-7), "vector and matrix versions disagree")
    t.label(f"{len(out)} of {n}")
    t.interesting(0 < len(out) < n and np.count_nonzero(a) > 1 and np.count_nonzero(b) > 1)


@st.composite
def pure_case(draw, max_qubits=4):
    n = draw(st.integers(1, max_qubits))
    return {"n": n, "amp": draw(gen.amplitudes(n)), "other": draw(gen.amplitudes(n)),
            "third": draw(gen.amplitudes(n)), "w": draw(st.integers(1, 9)),
            "norm": draw(st.booleans())}


def check_pure(case, t):
    n = case["n"]
    psi, phi, chi = (gen.to_state(case[k]) for k in ("amp", "other", "third"))
    if not case["norm"]:
        psi = psi * 1.7j
    keep = psi.copy()
    got = mk.array(calc.pure2density(psi), (2**n, 2**n), "pure2density")
    require((psi == keep).all(), "pure2density changed its argument")
    want = np.array([[x * np.conj(y) for y in psi] for x in psi])
    require(mk.close(got, want, 1e-9), "pure2density is not the outer product")
    if case["norm"]:
        f = float(np.real(calc.fidelity(calc.pure2density(psi), calc.pure2density(phi))))
        exact = abs(np.vdot(psi, phi)) ** 2
        require(abs(f - exact) < 1e-5, "fidelity {} expected {}", f, exact)
        p = case["w"] / 10
        rho = p * ref.dm(phi) + (1 - p) * ref.dm(chi)
        for a, b in ((ref.dm(psi), rho), (rho, ref.dm(psi))):
            f = float(np.real(calc.fidelity(a, b)))
            exact = np.real(psi.conj() @ rho @ psi)
            require(abs(f - exact) < 1e-5, "fidelity with a mixed state {} expected {}", f,
                    exact)
        require(abs(float(np.real(calc.fidelity(rho, rho))) - 1) < 1e-5,
                "fidelity of a state with itself")
    t.interesting(np.abs(psi.imag).max() > 1e-9 and np.count_nonzero(psi) > 1)


def check_bad(case, t):
    """Arrays that are neither vectors nor matrices are refused."""
    mk.raises(lambda: calc.partial_trace(np.zeros([2] * case["dim"]), [0]), ValueError,
              f"an array of dimension {case['dim']}")
    t.interesting()


SUBS = [
    Sub("mixed", mixed_case, check_mixed, 1500,
        rule="density matrices of up to four qubits and every ordered subset; non-trivial: "
             "a proper subset of a genuinely mixed state"),
    Sub("general", general_case, check_general, 500, rule="non-trivial: a proper subset"),
    Sub("product", product_case, check_product, 1500,
        rule="vectors that are products across the cut (entangled inside); non-trivial: both "
             "factors are superpositions"),
    Sub("pure", pure_case, check_pure, 800,
        rule="non-trivial: a complex superposition"),
    Sub("refused", lambda: st.fixed_dictionaries({"dim": st.sampled_from([3, 4])}),
        check_bad, 6, rule="all non-trivial"),
    Sub("mixed large", lambda: mixed_case(7), check_mixed, 240, rule="as mixed, up to 7 qubits"),
    Sub("product large", lambda: product_case(9), check_product, 240,
        rule="as product, up to 9 qubits"),
    Sub("pure large", lambda: pure_case(7), check_pure, 160, rule="as pure, up to 7 qubits"),
]
