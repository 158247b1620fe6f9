"""C35: training a circuit on generated data, end to end."""
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.optimizers import AdamOptimizer, RCDOptimizer, SGDOptimizer

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c25 import model
from pbt.props.c26 import seeded


@st.composite
def case_strategy(draw, backends=("numpy-dm", "numpy-sv"), max_nodes=6, max_steps=4):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=2, min_len=2))
    # at most four angles are trained
    m, left = {}, 4
    for v in draw(st.permutations([v for v in range(g["n"]) if v not in g["outputs"]])):
        kind = draw(st.sampled_from(["train", "train", "train", "fixed", "X", "Y"]))
        if kind == "train" and left:
            m[str(v)], left = ["XY", None], left - 1
        elif kind in ("train", "fixed"):
            m[str(v)] = ["XY", draw(gen.generic_angles())]
        else:
            m[str(v)] = [kind, 0]
    angles = st.lists(gen.generic_angles(), min_size=g["n"], max_size=g["n"])
    opts = draw(st.sampled_from([{"step_size": 0.3}, {"step_size": 0.1, "momentum": 0.7},
                                 {"step_size": 0.1, "momentum": 0.5, "nesterov": True}]))
    kind = draw(st.sampled_from(["sgd", "adam"]))
    return {"graph": g, "meas": m, "theta": draw(angles), "start": draw(angles),
            "backend": draw(st.sampled_from(backends)), "kind": kind,
            "opts": opts if kind == "sgd" else {"step_size": opts["step_size"]},
            "steps": draw(st.integers(1, max_steps)), "samples": draw(st.integers(2, 5)),
            "test": draw(st.sampled_from([0.3, 0.5, 0.0])), "seed": draw(st.integers(0, 999)),
            "method": draw(st.sampled_from(["psr", "psr", "fd"])),
            "how": draw(st.sampled_from(["optimize", "norm", "steps"])),
            "shared": draw(st.booleans())}


class Exact:
    """Mean infidelity by the reference simulation; every angle turns one rotation, so the
    parameter-shift rule is exact."""

    def __init__(self, case, train, data):
        self.case, self.train, self.data = case, train, data

    def __call__(self, x):
        u = transfer(self.case, dict(zip(self.train, x)))
        return 1 - np.mean([abs(np.vdot(phi, normal(u @ psi))) ** 2 for psi, phi in self.data])

    def gradient(self, x):
        return np.array([(self(x + e) - self(x - e)) / 2
                         for e in np.pi / 2 * np.eye(len(x))])


def normal(v):
    return v / np.linalg.norm(v)


def transfer(case, angles):
    g = case["graph"]
    bases = {}
    for v, (plane, a) in case["meas"].items():
        bases[int(v)] = (plane, angles[int(v)] if len(plane) > 1 and a is None else a, 0)
    mat = ref.pattern_matrix(range(g["n"]), g["edges"], g["inputs"], bases, g["outputs"])
    return mat * np.sqrt(mat.shape[0]) / np.linalg.norm(mat)


def check(case, t):
    warnings.simplefilter("ignore")
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    train = list(mc.trainable_nodes)
    want = {int(v) for v, m in case["meas"].items() if len(m[0]) > 1 and m[1] is None}
    require(set(train) == want and len(train) == len(want), "trainable nodes are {}", train)
    if not train:
        raise Skip("nothing to train")
    sims.small_window(case, mc, 5 if case["backend"] == "numpy-dm" else 7)
    hidden = [case["theta"][v] for v in train]
    unitary = transfer(case, dict(zip(train, hidden)))
    d = len(unitary)
    require(mk.close(unitary.conj().T @ unitary, np.eye(d), 1e-8), "the oracle is not unitary")
    (a, b), (c, e) = seeded(case["seed"], lambda: mp.utils.generate_random_dataset(
        unitary, case["samples"], case["test"]))
    data, held = list(zip(a, b)), list(zip(c, e))
    kept = [(p.copy(), q.copy()) for p, q in data + held]
    sim = mp.PatternSimulator(mc, backend=case["backend"])

    def infidelity(x, pairs):
        total = 0
        for psi, phi in pairs:
            s = sim if case["shared"] else mp.PatternSimulator(mc, backend=case["backend"])
            s.reset(input_state=psi)
            out = np.asarray(s.run(x))
            if out.ndim == 1:
                out = mp.calculator.pure2density(out)
            total += float(np.real(mp.calculator.fidelity(
                mp.calculator.pure2density(phi), out)))
        return 1 - total / len(pairs)

    def near(x, y, tol, what):
        require(abs(x - y) <= tol, "{} is {}, expected {}", what, x, y)

    # the hidden angles explain all the data
    near(infidelity(hidden, data + held), 0, 1e-5, "the cost of the hidden angles")
    cost = lambda x: infidelity(x, data)
    exact = Exact(case, train, data)
    x0 = np.array([case["start"][v] for v in train])
    near(cost(x0), exact(x0), 1e-5, "the cost of the starting point")
    opt = (SGDOptimizer if case["kind"] == "sgd" else AdamOptimizer)(**case["opts"])
    kw = {"method": "fd", "h": 0.01} if case["method"] == "fd" else {}
    path = list(model(case["kind"], case["opts"], exact, x0, case["steps"],
                      case["opts"]["step_size"], kw))
    if case["kind"] == "adam" and min(np.abs(gr).min() for gr, _ in path) < 1e-3:
        raise Skip("Adam amplifies rounding where the gradient vanishes")
    tol = 1e-4 if case["kind"] == "sgd" else 1e-2
    norms = None
    if case["how"] == "optimize":
        got = opt.optimize(cost, x0, num_iters=case["steps"], **kw)
    elif case["how"] == "norm":
        got, norms = opt.optimize_and_gradient_norm(cost, x0, num_iters=case["steps"], **kw)
    else:
        got = x0
        for i in range(case["steps"]):
            got = opt.step(cost, got, i, **kw)
    last = path[-1][1]
    got = mk.array(np.asarray(got), (len(train),), "the trained angles").real
    require(mk.close(got, last, tol), "training ends at {}, expected {}", got, last)
    if norms is not None:
        require(np.allclose(norms, [np.linalg.norm(gr) for gr, _ in path], atol=tol),
                "gradient norms {}", norms)
    near(cost(got), exact(got), 1e-5, "the final cost")
    if held:
        near(infidelity(got, held), Exact(case, train, held)(got), 1e-5, "the test cost")
    require(all((p == q).all() for x, y in zip(data + held, kept) for p, q in zip(x, y)),
            "training changed the data")
    t.label(case["backend"], case["kind"], case["how"], case["method"],
            "one simulator" if case["shared"] else "fresh simulators",
            "test set" if held else "no test set", f"{len(g['inputs'])} wires")
    t.interesting(np.abs(last - x0).max() > 1e-2)


def check_long(case, t):
    """Each step of a long training run follows the rule from the points visited before it."""
    warnings.simplefilter("ignore")
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    train = list(mc.trainable_nodes)
    if not train:
        raise Skip("nothing to train")
    unitary = transfer(case, {v: case["theta"][v] for v in train})
    (a, b), _ = seeded(case["seed"], lambda: mp.utils.generate_random_dataset(
        unitary, case["samples"], 0.5))
    data = list(zip(a, b))
    sim = mp.PatternSimulator(mc, backend=case["backend"])

    def cost(x):
        total = 0
        for psi, phi in data:
            sim.reset(input_state=psi)
            out = np.asarray(sim.run(x))
            total += np.real(np.vdot(phi, out @ phi)) if out.ndim == 2 else \
                abs(np.vdot(phi, out)) ** 2
        return float(1 - total / len(data))

    exact = Exact(case, train, data)
    x0 = np.array([case["start"][v] for v in train])
    opt = (SGDOptimizer if case["kind"] == "sgd" else AdamOptimizer)(**case["opts"])
    kw = {"method": "fd", "h": 0.01} if case["method"] == "fd" else {}
    seen, norms = [], None
    cb = lambda x, i: seen.append(np.array(x, float))
    if case["how"] == "optimize":
        got = opt.optimize(cost, x0, num_iters=case["steps"], callback=cb, **kw)
    elif case["how"] == "norm":
        got, norms = opt.optimize_and_gradient_norm(cost, x0, num_iters=case["steps"],
                                                    callback=cb, **kw)
    else:
        got = x0
        for i in range(case["steps"]):
            got = opt.step(cost, got, i, **kw)
            cb(got, i)
    require(len(seen) == case["steps"], "{} steps were taken", len(seen))
    require(mk.close(np.asarray(got), seen[-1], 1e-12), "the result is not the last point")
    want = model(case["kind"], case["opts"], exact, x0, case["steps"],
                 case["opts"]["step_size"], kw, seen)
    largest = np.zeros(len(train))
    for i, ((gr, p), x) in enumerate(zip(want, seen)):
        largest = np.maximum(largest, np.abs(gr))
        # Adam divides by the gradients met so far
        if case["kind"] == "adam" and largest.min() < 1e-2:
            continue
        require(mk.close(x, p, 1e-3), "step {} goes to {}, expected {}", i, x, p)
        if norms is not None:
            require(abs(norms[i] - np.linalg.norm(gr)) < 1e-4, "gradient norm {} at step {}, "
                    "expected {}", norms[i], i, np.linalg.norm(gr))
    require(abs(cost(seen[-1]) - exact(seen[-1])) < 1e-5, "the final cost")
    t.label(case["backend"], case["kind"], case["how"], case["method"])
    t.interesting(np.abs(seen[-1] - x0).max() > 1e-2)


@st.composite
def coordinate_case(draw):
    return {**draw(case_strategy(max_nodes=4)), "kind": "rcd", "opts": {},
            "step": draw(st.sampled_from([0.1, 0.4])), "adaptive": draw(st.booleans()),
            "steps": draw(st.integers(1, 12))}


def check_coordinate(case, t):
    """Random coordinate descent on the cost of the data: every step moves one angle along its
    own derivative of the exact cost."""
    warnings.simplefilter("ignore")
    mc = mk.circuit(case["graph"], case["meas"])
    train = list(mc.trainable_nodes)
    if not train:
        raise Skip("nothing to train")
    unitary = transfer(case, {v: case["theta"][v] for v in train})
    (a, b), _ = seeded(case["seed"], lambda: mp.utils.generate_random_dataset(
        unitary, case["samples"], 0.0))
    data = list(zip(a, b))
    sim = mp.PatternSimulator(mc, backend=case["backend"])

    def cost(x):
        total = 0
        for psi, phi in data:
            sim.reset(input_state=psi)
            out = np.asarray(sim.run(x))
            total += np.real(np.vdot(phi, out @ phi)) if out.ndim == 2 else \
                abs(np.vdot(phi, out)) ** 2
        return float(1 - total / len(data))

    exact = Exact(case, train, data)
    x = np.array([case["start"][v] for v in train])
    opt = RCDOptimizer(step_size=case["step"], adaptive=case["adaptive"])
    seen = []
    if case["how"] == "steps":
        for i in range(case["steps"]):
            seen.append(opt.step(cost, seen[-1] if seen else x, i))
    else:
        got = opt.optimize(cost, x, num_iters=case["steps"],
                           callback=lambda y, i: seen.append(np.array(y)))
        require(mk.close(np.asarray(got), seen[-1], 1e-12), "the result is not the last point")
    require(len(seen) == case["steps"], "{} steps", len(seen))
    moved = 0
    for i, y in enumerate(seen):
        size = case["step"] / (np.sqrt(i + 1) if case["adaptive"] else 1)
        gr = exact.gradient(x)
        at = np.flatnonzero(np.abs(y - x) > 1e-6)
        require(len(at) <= 1, "step {} moves {} angles", i, len(at))
        fits = [k for k in range(len(x)) if abs(y[k] - x[k] + size * gr[k]) < 1e-3
                and all(abs(y[j] - x[j]) < 1e-6 for j in range(len(x)) if j != k)]
        require(fits, "step {} goes from {} to {}, gradient {}", i, x, y, gr)
        moved += len(at)
        x = y
    t.label(case["backend"], case["how"], "adaptive" if case["adaptive"] else "constant")
    t.interesting(moved >= 2)


SUBS = [
    Sub("numpy", case_strategy, check, 600, 6000,
        rule="flow circuits of up to six nodes on one or two wires with up to four trainable "
             "angles, data from the same circuit at hidden angles; non-trivial: training "
             "moves the angles"),
    Sub("long", lambda: case_strategy(max_nodes=4, max_steps=40).map(
        lambda c: {**c, "steps": 25 + c["steps"] % 16, "samples": 2 + c["samples"] % 2}),
        check_long, 60, 600, rule="circuits of up to four nodes, 25 to 40 steps; each step is "
        "judged from the points before it"),
    Sub("coordinate", coordinate_case, check_coordinate, 100, 1000, rule="random coordinate "
        "descent on circuits of up to four nodes; non-trivial: two angles moved"),
    Sub("pennylane", lambda: case_strategy(("pennylane",), 5, 2), check, 80, 600, rule="as numpy"),
]
