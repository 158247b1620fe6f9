"""C24: gradients and Hessians are the true derivatives."""
import math

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require

EPS = 2.3e-16
PSR = ["parameter-shift", "psr", "parametershift"]
FD = ["finite-differences", "fd", "finitedifferences"]
UNIT = {"1": (lambda a: 1.0, lambda a: 0.0, lambda a: 0.0),
        "c": (math.cos, lambda a: -math.sin(a), lambda a: -math.cos(a)),
        "s": (math.sin, math.cos, lambda a: -math.sin(a))}


class Poly:
    """A trigonometric polynomial of degree one in each parameter."""

    def __init__(self, terms):
        self.terms = terms
        self.size = sum(abs(c) for c, _ in terms)

    def __call__(self, x):
        return self.diff(x, {})

    def diff(self, x, orders):
        return sum(c * math.prod(UNIT[k][orders.get(i, 0)](float(x[i]))
                                 for i, k in enumerate(w)) for c, w in self.terms)

    def gradient(self, x):
        return np.array([self.diff(x, {i: 1}) for i in range(len(x))])

    def hessian(self, x):
        n = len(x)
        return np.array([[self.diff(x, {i: 2} if i == j else {i: 1, j: 1})
                          for j in range(n)] for i in range(n)])


@st.composite
def poly(draw, n):
    coef = st.floats(-3, 3).map(lambda v: round(v, 2))
    return [list(x) for x in draw(st.lists(st.tuples(coef, st.text("1cs", min_size=n,
            max_size=n)), min_size=1, max_size=5))]


@st.composite
def case_strategy(draw, max_vars=5):
    n = draw(st.integers(1, max_vars))
    how = draw(st.sampled_from(["psr", "fd"]))
    return {"n": n, "terms": draw(poly(n)), "x": draw(st.lists(gen.angles(), min_size=n,
                                                               max_size=n)),
            "how": how, "method": draw(st.sampled_from(PSR if how == "psr" else FD)),
            "shift": draw(st.one_of(st.none(), st.floats(-6, 6).map(lambda v: round(v, 3)))),
            "h": draw(st.sampled_from([None, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7])),
            "type": draw(st.sampled_from([None, "central", "forward", "backward"])),
            "as": draw(st.sampled_from(["array", "array", "list", "readonly", "ints",
                                   "int list"])),
            "call": draw(st.sampled_from(["keyword", "positional"]))}


def check(case, t):
    f = Poly([(c, w) for c, w in case["terms"]])
    x = list(case["x"])
    n = case["n"]
    if "int" in case["as"]:
        x = [round(v) for v in x]
    arg = list(x) if "list" in case["as"] else np.array(x)
    if case["as"] == "readonly":
        arg.setflags(write=False)
    seen = []

    def cost(y):
        seen.append(len(y))
        return f(y)

    args, kw = [], {}
    if case["how"] == "psr":
        s = 1.5 if case["shift"] is None else case["shift"]
        if abs(math.sin(s)) < 0.05:
            raise Skip
        if case["shift"] is not None:
            args, kw = [s], {"shift": s}
        tol1 = 50 * EPS * f.size / abs(math.sin(s)) + 1e-12
        tol2 = 100 * EPS * f.size / math.sin(s) ** 2 + 1e-12
    else:
        h = 1e-5 if case["h"] is None else case["h"]
        kind = case["type"] or "central"
        if case["h"] is not None:
            kw["h"] = h
            args = [h]
        if case["type"] is not None:
            kw["type"] = kind
            args = [h, kind]
        M = f.size
        tol1 = 1.1 * M * (h * h / 6 if kind == "central" else h / 2) + 100 * EPS * M / h
        tol2 = 1.1 * M * (h * h / 3 if kind == "central" else h) + 300 * EPS * M / h**2
        tol1, tol2 = tol1 + 1e-12, tol2 + 1e-12
    call = (lambda fn: fn(cost, arg, case["method"], *args)) if case["call"] == "positional" \
        else (lambda fn: fn(cost, arg, method=case["method"], **kw))
    if case["how"] == "psr" and case["method"] == "parameter-shift" and not args:
        call = lambda fn: fn(cost, arg)
    g = mk.array(call(mp.gradients.get_gradient), (n,), "gradient")
    want = f.gradient(x)
    require(np.abs(g - want).max() <= tol1, "{} gradient {} expected {}", case["how"], g, want)
    hess = mk.array(call(mp.gradients.get_hessian), (n, n), "Hessian")
    want2 = f.hessian(x)
    require(np.abs(hess - want2).max() <= tol2, "{} Hessian {} expected {}", case["how"],
            hess, want2)
    require(list(arg) == x, "the evaluation point changed to {}", arg)
    require(set(seen) == {n}, "the cost was called with {} parameters", set(seen))
    t.label(case["how"], case["type"] or "default", case["as"], case["call"])
    t.interesting(n > 1 and np.count_nonzero(np.abs(want) > 1e-3) > 1)


@st.composite
def bad_case(draw):
    return {"method": draw(st.one_of(st.sampled_from(["", "PSR", "central", "newton", "fds",
                                                      "parameter_shift", "finite-difference "]),
                                     st.text(max_size=6), st.none(), st.integers(0, 3)))
            , "type": draw(st.sampled_from(["centre", "", "Forward", None, 1])),
            "hess": draw(st.booleans())}


def check_bad(case, t):
    fn = mp.gradients.get_hessian if case["hess"] else mp.gradients.get_gradient
    f, x = (lambda y: float(np.sum(np.sin(y)))), np.array([0.3, 0.4])
    if case["method"] not in PSR + FD:
        mk.raises(lambda: fn(f, x, case["method"]), Exception, f"method {case['method']!r}")
        t.interesting()
    mk.raises(lambda: fn(f, x, "fd", type=case["type"]), Exception, f"type {case['type']!r}")
    require((x == [0.3, 0.4]).all(), "the evaluation point changed")


@st.composite
def circuit_case(draw):
    w = draw(st.integers(1, 2))
    n = draw(st.integers(2, 4)) if w == 1 else 2
    k = w * (n - 1)
    return {"w": w, "n": n, "x": draw(st.lists(gen.generic_angles(), min_size=k, max_size=k)),
            "input": draw(gen.amplitudes(w)), "target": draw(gen.amplitudes(w)),
            "method": draw(st.sampled_from(["psr", "fd"])),
            "backend": draw(st.sampled_from(["numpy-sv", "numpy-dm"]))}


def check_circuit(case, t):
    """Gradients of a circuit's fidelity with a target, against the reference simulator."""
    w, n = case["w"], case["n"]
    mc = mp.templates.grid_cluster(w, n)
    psi, phi = gen.to_state(case["input"]), gen.to_state(case["target"])
    sim = mp.PatternSimulator(mc, backend=case["backend"], input_state=psi, force0=True)

    def cost(x):
        sim.reset(input_state=psi)
        out = np.asarray(sim.run(list(x)))
        if out.ndim == 1:
            return float(abs(np.vdot(phi, out)) ** 2)
        return float(np.real(phi.conj() @ out @ phi))

    nodes, edges = list(mc.graph.nodes), list(mc.graph.edges)
    train = list(mc.trainable_nodes)

    def exact(x):
        bases = {v: ("XY", a, 0) for v, a in zip(train, x)}
        out, _ = ref.run_pattern(nodes, edges, mc.input_nodes, psi, bases, train,
                                 mc.output_nodes)
        return float(abs(np.vdot(phi, out)) ** 2)

    x = np.array(case["x"])
    e = np.eye(len(x))
    want = np.array([(exact(x + np.pi / 2 * v) - exact(x - np.pi / 2 * v)) / 2 for v in e])
    got = mp.gradients.get_gradient(cost, x, case["method"])
    require(np.abs(got - want).max() < 1e-4, "gradient {} expected {}", got, want)
    t.label(case["method"], case["backend"])
    t.interesting(np.abs(want).max() > 1e-2)


@st.composite
def variance_case(draw):
    n, k = draw(st.integers(1, 4)), draw(st.integers(1, 6))
    v = st.floats(-5, 5).map(lambda y: round(y, 2))
    return {"n": n, "draws": draw(st.lists(st.lists(v, min_size=n, max_size=n), min_size=k,
                                           max_size=k)), "opt": draw(st.booleans())}


def check_variance(case, t):
    """The spread of repeated gradient estimates is their population variance."""
    rows, calls = case["draws"], []

    def estimate(f, x, **kw):
        calls.append((f, x, kw))
        return np.array(rows[(len(calls) - 1) % len(rows)])

    f, x = object(), object()
    kw = {"bonus": 3} if case["opt"] else {}
    got = mp.optimizers.compute_gradient_variance(f, x, estimate, num_samples=len(rows), **kw)
    a = np.array(rows)
    want = (a**2).mean(0) - a.mean(0) ** 2
    require(mk.close(mk.array(got, (case["n"],), "variance"), want, 1e-8), "variance {} "
            "expected {}", got, want)
    require(len(calls) == len(rows) and all(c == (f, x, kw) for c in calls), "estimates asked "
            "for: {}", calls)
    t.interesting(len(rows) > 1)


SUBS = [
    Sub("polynomials", case_strategy, check, 3000,
        rule="trigonometric polynomials of up to five parameters, all methods, shifts, steps "
             "and types against analytic derivatives; non-trivial: several non-zero partial "
             "derivatives"),
    Sub("circuits", circuit_case, check_circuit, 200,
        rule="non-trivial: the gradient is not zero"),
    Sub("refused", bad_case, check_bad, 200, rule="non-trivial: the method is unknown"),
    Sub("variance", variance_case, check_variance, 300, rule="non-trivial: several samples"),
    Sub("many parameters", lambda: case_strategy(10), check, 400,
        rule="as polynomials, up to ten parameters"),
]
