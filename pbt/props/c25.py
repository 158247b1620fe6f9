"""C25: optimizers follow their update rules and never spoil inputs."""
import contextlib
import io
import math
import random

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.optimizers import AdamOptimizer, RCDOptimizer, SGDOptimizer

from pbt import gen, mk
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c24 import Poly, poly


def gradient(f, x, method=None, h=1e-5, type="central"):
    """The gradient an optimizer sees when the options are passed on."""
    if method != "fd":
        return f.gradient(x)
    up, down = {"central": (1, 1), "forward": (1, 0), "backward": (0, 1)}[type]
    eye = h * np.eye(len(x))
    return np.array([(f(x + up * e) - f(x - down * e)) / (h * (up + down)) for e in eye])


def model(kind, opts, f, x0, iters, step, kw={}, seen=None):
    """The published rules; yields (gradient before the step, point after it). When the
    points really visited are given, every step starts from them."""
    x = np.array(x0, dtype=float)
    v, m = np.zeros(len(x)), np.zeros(len(x))
    for i in range(iters):
        g = gradient(f, x, **kw)
        if kind == "sgd":
            mu = opts.get("momentum", 0.0)
            v = mu * v - step * g
            x = x + (mu * v - step * g if opts.get("nesterov") else v)
        else:
            b1, b2, eps = opts.get("b1", 0.9), opts.get("b2", 0.999), opts.get("eps", 1e-8)
            m = b1 * m + (1 - b1) * g
            v = b2 * v + (1 - b2) * g**2
            x = x - step * (m / (1 - b1 ** (i + 1))) / (np.sqrt(v / (1 - b2 ** (i + 1))) + eps)
        yield g, x
        if seen is not None:
            x = seen[i]


# coarse finite differences differ visibly from the exact gradient
METHODS = st.sampled_from(
    [{}, {}, {"method": "psr"}, {"method": "parametershift"}] +
    [{"method": "fd", "h": h, "type": ty} for h in (0.25, 0.01)
     for ty in ("central", "forward", "backward")])


@st.composite
def rule_case(draw, max_vars=4, max_steps=7):
    n = draw(st.integers(1, max_vars))
    kind = draw(st.sampled_from(["sgd", "sgd", "adam"]))
    opts = {}
    if draw(st.integers(0, 3)):
        opts["step_size"] = draw(st.sampled_from([0.5, 0.01, 0.2, 1.0, 0.07]))
    if kind == "sgd":
        if draw(st.integers(0, 3)):
            opts["momentum"] = draw(st.sampled_from([0.9, 0.5, 0.25, 0.0]))
        if draw(st.booleans()):
            opts["nesterov"] = draw(st.booleans())
    else:
        for k, vals in (("b1", [0.5, 0.8, 0.0]), ("b2", [0.9, 0.99, 0.5]),
                        ("eps", [1e-6, 0.1])):
            if draw(st.booleans()):
                opts[k] = draw(st.sampled_from(vals))
    runs = draw(st.lists(st.tuples(
        st.sampled_from(["optimize", "norm", "steps"]), st.integers(0, max_steps),
        st.lists(gen.generic_angles(), min_size=n, max_size=n),
        st.sampled_from([None, None, "factor"]),
    ).map(list), min_size=1, max_size=3))
    return {"n": n, "terms": draw(poly(n)), "kind": kind, "opts": opts, "runs": runs,
            "method": draw(METHODS),
            "callback": draw(st.booleans()), "answer": draw(st.sampled_from([None, True, 0])),
            "verbose": draw(st.integers(0, 4)) == 4,
            "as": draw(st.sampled_from(["array", "array", "list", "ints"])),
            "factor": draw(st.sampled_from([None, 0.5, 0.9]))}


def check_rule(case, t):
    n = case["n"]
    f = Poly([(c, w) for c, w in case["terms"]])
    cls = SGDOptimizer if case["kind"] == "sgd" else AdamOptimizer
    opt = cls(**case["opts"])
    step = case["opts"].get("step_size", 0.1)
    kw = case["method"]
    moved = False
    for k, (how, iters, x0, change) in enumerate(case["runs"]):
        if k:
            opt.reset()
        if case["as"] == "ints":
            x0 = [round(v) for v in x0]
        if change:
            fac = case["factor"]
            opt.update_step_size(np.array(x0), 0, **({} if fac is None else {"factor": fac}))
            step *= 0.99 if fac is None else fac
        start = list(x0) if case["as"] == "list" else np.array(x0)
        want = list(model(case["kind"], case["opts"], f, x0, iters, step, kw))
        points = [p for _, p in want]
        last = points[-1] if points else np.array(x0)
        seen = []
        extra = dict(kw)
        if case["callback"]:
            # whatever a callback returns is of no interest
            extra["callback"] = lambda x, i: seen.append((x, i)) or case["answer"]
        if case["verbose"]:
            extra["verbose"] = True
        with contextlib.redirect_stdout(io.StringIO()):
            if how == "optimize":
                got = opt.optimize(f, start, num_iters=iters, **extra)
            elif how == "norm":
                got, norms = opt.optimize_and_gradient_norm(f, start, num_iters=iters, **extra)
                wn = [np.linalg.norm(g) for g, _ in want]
                require(len(norms) == iters and np.allclose(norms, wn, atol=1e-6),
                        "gradient norms {} expected {}", norms, wn)
            else:
                got = start
                for i in range(iters):
                    prev = np.array(got)
                    new = opt.step(f, got, i, **kw)
                    require((np.asarray(got) == prev).all(), "step changed its argument")
                    got = new
                    require(mk.close(got, points[i]), "step {} gives {} expected {}", i, got,
                            points[i])
        got = mk.array(np.asarray(got), (n,), "result")
        require(mk.close(got, last), "{} steps from {} give {}, expected {}", iters, x0, got,
                last)
        require(list(start) == list(x0), "the starting point changed to {}", start)
        if case["callback"] and how != "steps":
            require([i for _, i in seen] == list(range(iters)), "callback saw steps {}",
                    [i for _, i in seen])
            for (x, i), p in zip(seen, points):
                require(mk.close(mk.array(x, (n,), "callback point"), p), "callback saw {} at "
                        "step {}, expected {}", x, i, p)
        t.label(how)
        moved = moved or (iters >= 2 and np.abs(last - x0).max() > 1e-3)
    t.label(case["kind"], *sorted(case["opts"]))
    t.interesting(moved)


def check_long(case, t):
    """Every step of a long run follows the rule from the points visited so far (rounding may
    be amplified from step to step, but not within one)."""
    n = case["n"]
    f = Poly([(c, w) for c, w in case["terms"]])
    cls = SGDOptimizer if case["kind"] == "sgd" else AdamOptimizer
    opt = cls(**case["opts"])
    step, kw, longest = case["opts"].get("step_size", 0.1), case["method"], 0
    for k, (how, iters, x0, _) in enumerate(case["runs"]):
        if k:
            opt.reset()
        seen, norms = [], None
        cb = lambda x, i: seen.append((i, np.array(x, float))) or case["answer"]
        if how == "optimize":
            got = opt.optimize(f, np.array(x0), num_iters=iters, callback=cb, **kw)
        elif how == "norm":
            got, norms = opt.optimize_and_gradient_norm(f, np.array(x0), num_iters=iters,
                                                        callback=cb, **kw)
        else:
            got = np.array(x0)
            for i in range(iters):
                got = opt.step(f, got, i, **kw)
                cb(got, i)
        require([i for i, _ in seen] == list(range(iters)), "steps {}", [i for i, _ in seen])
        points = [x for _, x in seen]
        require(mk.close(mk.array(np.asarray(got), (n,), "result"),
                         points[-1] if points else x0, 1e-12), "the result is not the last point")
        want = list(model(case["kind"], case["opts"], f, x0, iters, step, kw, points))
        for i, ((g, p), x) in enumerate(zip(want, points)):
            require(mk.close(x, p, 1e-4), "step {} goes to {}, expected {}", i, x, p)
            if norms is not None:
                require(abs(norms[i] - np.linalg.norm(g)) < 1e-6, "gradient norm {} at step {}, "
                        "expected {}", norms[i], i, np.linalg.norm(g))
        longest = max(longest, iters)
        t.label(how)
    t.interesting(longest >= 30)


@st.composite
def rcd_case(draw, max_vars=4, max_iters=12):
    n = draw(st.integers(1, max_vars))
    return {"n": n, "terms": draw(poly(n)), "x0": draw(st.lists(
        gen.generic_angles(), min_size=n, max_size=n)), "iters": draw(st.integers(0, max_iters)),
        "adaptive": draw(st.booleans()), "step": draw(st.sampled_from([None, 0.05, 0.2])),
        "how": draw(st.sampled_from(["optimize", "norm", "steps"])),
        "answer": draw(st.sampled_from([None, True, 0])),
        "seed": draw(st.integers(0, 2**20)), "as": draw(st.sampled_from(["array", "list"])),
        "factor": draw(st.sampled_from([None, None, 0.5]))}


def check_rcd(case, t):
    n, iters = case["n"], case["iters"]
    f = Poly([(c, w) for c, w in case["terms"]])
    kw = {} if case["step"] is None else {"step_size": case["step"]}
    opt = RCDOptimizer(adaptive=case["adaptive"], **kw) if case["adaptive"] else \
        RCDOptimizer(**kw)
    size = 0.1 if case["step"] is None else case["step"]
    x0 = list(case["x0"])
    if case["factor"]:
        opt.update_step_size(np.array(x0), 0, factor=case["factor"])
        size *= case["factor"]
    start = list(x0) if case["as"] == "list" else np.array(x0)
    seen = []
    state = random.getstate()
    try:
        random.seed(case["seed"])
        if case["how"] == "optimize":
            got = opt.optimize(f, start, num_iters=iters, callback=lambda x, i: seen.append(
                (x, i)) or case["answer"])
        elif case["how"] == "norm":
            got, norms = opt.optimize_and_gradient_norm(
                f, start, num_iters=iters, callback=lambda x, i: seen.append((x, i))
                or case["answer"])
        else:
            got = np.array(x0)
            for i in range(iters):
                prev = got.copy()
                new = opt.step(f, got, i)
                require((got == prev).all(), "step changed its argument")
                got = new
                seen.append((got, i))
    finally:
        random.setstate(state)
    require(list(start) == x0, "the starting point changed to {}", start)
    got = mk.array(np.asarray(got), (n,), "result")
    require([i for _, i in seen] == list(range(iters)), "callback saw steps {}",
            [i for _, i in seen])
    x, counts, hidden = np.array(x0), np.zeros(n), 0
    for k, (y, i) in enumerate(seen):
        y = mk.array(y, (n,), "point").real
        g = gradient(f, x)
        diff = y - x
        changed = np.flatnonzero(diff != 0)
        require(len(changed) <= 1, "step {} changed coordinates {}", i, changed)
        # which coordinate, if the change is too small to show
        options = changed if len(changed) else range(n)
        ok = False
        for c in options:
            # adaptive sizes shrink with the step number or the visits of the coordinate
            # (visits that change nothing cannot be seen)
            visits = [1] if not case["adaptive"] else [i + 1] if case["how"] != "norm" else \
                range(int(counts[c]) + 1, int(counts[c]) + hidden + 2)
            sizes = [size / math.sqrt(v) for v in visits]
            if any(abs(diff[c] + s * g[c]) < 1e-5 for s in sizes):
                ok = True
        require(ok, "step {} moves {} along gradient {} with step size {}", i, diff, g, size)
        if len(changed):
            counts[changed[0]] += 1
        else:
            hidden += 1
        if case["how"] == "norm":
            require(any(abs(norms[k] - abs(g[c])) < 1e-5 for c in options), "norm {} at "
                    "gradient {}", norms[k], g)
        x = y
    require((np.asarray(got).real == x).all(), "result {} after point {}", got, x)
    t.label(case["how"], "adaptive" if case["adaptive"] else "constant")
    t.interesting(n > 1 and counts.sum() >= 2 and np.abs(x - x0).max() > 1e-3)


@st.composite
def descent_case(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "terms": draw(poly(n)), "x0": draw(st.lists(
        gen.generic_angles(), min_size=n, max_size=n)), "seed": draw(st.integers(0, 2**20)),
        "which": draw(st.sampled_from(["rcd", "rcd adaptive", "sgd", "every coordinate"]))}


def check_descent(case, t):
    """Small steps never increase the cost; every coordinate gets its turn."""
    f = Poly([(c, w) for c, w in case["terms"]])
    if f.size < 0.1:
        raise Skip
    n = case["n"]
    step = 0.5 / (f.size * n)  # the curvature is at most f.size per coordinate pair
    opt = {"rcd": lambda: RCDOptimizer(step), "sgd": lambda: SGDOptimizer(step),
           "rcd adaptive": lambda: RCDOptimizer(step, True),
           "every coordinate": lambda: RCDOptimizer(step)}[case["which"]]()
    values = [f(case["x0"])]
    points = [np.array(case["x0"])]

    def cb(x, i):
        values.append(f(x))
        points.append(np.array(x))

    state = random.getstate()
    try:
        random.seed(case["seed"])
        opt.optimize(f, np.array(case["x0"]), num_iters=120 if case["which"][0] == "e" else 15,
                     callback=cb)
    finally:
        random.setstate(state)
    for a, b in zip(values, values[1:]):
        require(b <= a + 1e-7 * (1 + f.size), "the cost went from {} up to {}", a, b)
    if case["which"] == "every coordinate":
        g = np.abs(f.gradient(case["x0"]))
        if n > 1 and g.min() > 1e-2:
            moved = np.abs(np.array(points) - points[0]).max(0) > 0
            require(moved.all(), "coordinates that never moved: {}", np.flatnonzero(~moved))
    t.label(case["which"])
    t.interesting(n > 1 and values[-1] < values[0] - 1e-3)


SUBS = [
    Sub("rules", rule_case, check_rule, 2000,
        rule="SGD (plain, momentum, Nesterov) and Adam with random options, sequences of "
             "runs separated by reset, against the published rules with analytic gradients; "
             "non-trivial: a run of at least two steps that moves"),
    Sub("coordinate", rcd_case, check_rcd, 1500,
        rule="random coordinate descent step by step; non-trivial: several coordinates and "
             "at least two steps that move"),
    Sub("descent", descent_case, check_descent, 500,
        rule="non-trivial: several coordinates and the cost decreases"),
    Sub("rules many", lambda: rule_case(14), check_rule, 200,
        rule="as rules, up to 14 parameters"),
    Sub("coordinate many", lambda: rcd_case(14), check_rcd, 200,
        rule="as coordinate, up to 14 parameters"),
    Sub("coordinate long", lambda: rcd_case(3, 150), check_rcd, 100,
        rule="as coordinate, up to 150 steps"),
    Sub("very long", lambda: rule_case(3, 250), check_long, 80,
        rule="as rules, up to three parameters and 250 steps; non-trivial: 30 steps"),
    Sub("long", lambda: rule_case(6, 40), check_long, 300,
        rule="as rules, up to six parameters and 40 steps; non-trivial: 30 steps"),
]
