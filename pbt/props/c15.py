"""C15: outcome expressions are exact Boolean algebra with true dependencies."""
import itertools

from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import Ment, MentOutcome

from pbt import exprs, gen, mk, ref
from pbt.core import Skip, Sub, Violation, require


@st.composite
def case_strategy(draw, max_ids=5, leaves=12):
    ids = draw(st.lists(st.one_of(st.integers(0, 30), st.text("ab", min_size=1, max_size=2)),
                        min_size=1, max_size=max_ids, unique=True))
    return {"ids": ids, "expr": draw(exprs.trees(range(len(ids)), max_leaves=leaves)),
            "source": draw(st.sampled_from(["ment", "circuit", "given"])),
            "types": draw(st.sampled_from(["int", "bool"])),
            "record": draw(st.sampled_from(["one", "many"]))}


def check(case, t):
    k = len(case["ids"])
    if case["source"] == "circuit":
        ids = list(range(k))
        mc = mp.templates.linear_cluster(k + 1)
        outcome_of = lambda v: mc[v].outcome
    elif case["source"] == "ment":
        ids = list(case["ids"])
        ments = [Ment("X") for _ in ids]
        for m, i in zip(ments, ids):
            m.node_id = i
        outcome_of = lambda v: ments[v].outcome
    else:
        ids = list(case["ids"])
        outcome_of = lambda v: MentOutcome(lambda x, i=ids[v]: x[i], ids[v])
    leaves = {}

    def leaf(v):
        if v not in leaves:
            leaves[v] = outcome_of(v)
        return leaves[v]

    seen = []
    e = case["expr"]
    exprs.build(e, leaf, seen)
    conv = bool if case["types"] == "bool" else int
    for sub, obj in seen:
        require(isinstance(obj, MentOutcome), "expression is a {}", type(obj))
        want = {ids[v] for v in exprs.nodes_in(sub)}
        require(set(obj.cond_nodes) == want, "{} depends on {}, expected {}", sub,
                obj.cond_nodes, want)
    values, kept = set(), {}
    for bits in itertools.product([0, 1], repeat=k):
        outs = {i: conv(b) for i, b in zip(ids, bits)}
        if case["record"] == "one":  # a record that is filled again, as in a simulation
            kept.update(outs)
            outs = kept
        for sub, obj in seen:
            got, want = obj(outs), exprs.value(sub, bits)
            require(got in (0, 1) and int(got) == want, "{} is {!r} on {}, expected {}", sub,
                    got, outs, want)
        values.add(want)
    t.label(*{x[0] for x, _ in seen if x[0] not in "nc"}, case["source"])
    t.interesting(exprs.depth(e) >= 2 and len(exprs.nodes_in(e)) >= 2)


@st.composite
def const_case(draw):
    return {"value": draw(st.one_of(st.booleans(), st.integers(-5, 6))),
            "expr": draw(exprs.trees([0, 1], max_leaves=4)),
            "missing": draw(st.booleans())}


def check_const(case, t):
    """Constants are reduced mod 2; evaluation without a needed outcome fails."""
    c = MentOutcome(case["value"])
    require(int(c({})) == int(case["value"]) % 2, "constant {} is {}", case["value"], c({}))
    require(set(c.cond_nodes) == set(), "a constant depends on {}", c.cond_nodes)
    ms = [Ment("X"), Ment("Y")]
    for i, m in enumerate(ms):
        m.node_id = i
    obj = exprs.build(["xor", case["expr"], ["n", 1]], lambda v: ms[v].outcome)
    mk.raises(lambda: obj({0: 1}), (Exception, Warning), "an unknown outcome")
    for bad in ("1", 1.5, None, [1]):
        mk.raises(lambda: obj & bad, TypeError, f"combining with {bad!r}")
    t.interesting(case["value"] not in (0, 1))


@st.composite
def callable_case(draw):
    return {"left": draw(exprs.trees(range(3), max_leaves=5)),
            "fn": draw(exprs.trees(range(4), max_leaves=4)),
            "right": draw(exprs.trees(range(3), max_leaves=4)),
            "op": draw(st.sampled_from(sorted(exprs.BIN))),
            "op2": draw(st.sampled_from(sorted(exprs.BIN)))}


def check_callable(case, t):
    """Plain functions of the outcomes as right operands; outcomes of outcomes."""
    mc = mp.templates.linear_cluster(5)
    left = exprs.build(case["left"], lambda v: mc[v].outcome)
    fn = lambda x: exprs.value(case["fn"], x)
    mixed = exprs.OPS[case["op"]](left, fn)
    last = exprs.OPS[case["op2"]](mixed, exprs.build(case["right"], lambda v: mc[v].outcome))
    wrapped = MentOutcome(left)
    nodes = exprs.nodes_in(case["left"])
    for what, obj, want in (("with a function", mixed, nodes), ("wrapped", wrapped, nodes),
                            ("combined", last, nodes | exprs.nodes_in(case["right"]))):
        require(set(obj.cond_nodes) == want, "{} depends on {}, expected {}", what,
                obj.cond_nodes, want)
    for bits in itertools.product([0, 1], repeat=4):
        outs = dict(enumerate(bits))
        a = exprs.value(case["left"], bits)
        m = exprs.BIN[case["op"]](a, exprs.value(case["fn"], bits))
        for what, obj, want in (
                ("with a function", mixed, m), ("wrapped", wrapped, a),
                ("combined", last, exprs.BIN[case["op2"]](m, exprs.value(case["right"],
                                                                         bits)))):
            got = obj(outs)
            require(got in (0, 1) and int(got) == want, "{} is {!r} on {}, expected {}",
                    what, got, outs, want)
    t.label(case["op"])
    t.interesting(len(nodes) >= 1 and len(exprs.nodes_in(case["fn"])) >= 1)


@st.composite
def chain_case(draw):
    n = draw(st.integers(2, 12))
    step = st.tuples(st.sampled_from(sorted(exprs.BIN)), st.integers(0, n - 1),
                     st.sampled_from(["right", "right", "left", "not", "const"]))
    return {"n": n, "first": draw(st.integers(0, n - 1)),
            "steps": draw(st.lists(step, min_size=draw(st.sampled_from([10, 45])), max_size=80)),
            "bits": draw(st.lists(st.integers(0, 2**n - 1), min_size=12, max_size=12)),
            "inplace": draw(st.booleans())}


def check_chain(case, t):
    """A running condition, as decoders build it: each step combines it with one more outcome."""
    mc = mp.templates.linear_cluster(case["n"] + 1)
    assigned = [[b >> i & 1 for i in range(case["n"])] for b in case["bits"]]
    run = mc[case["first"]].outcome
    nodes, vals = {case["first"]}, [a[case["first"]] for a in assigned]
    every = [(run, nodes, vals)]
    for op, v, how in case["steps"]:
        other, bits = mc[v].outcome, [a[v] for a in assigned]
        f = exprs.BIN[op]
        if how == "not":
            run, vals = ~run, [1 - x for x in vals]
        elif how == "const":
            run, vals = exprs.OPS[op](run, v % 2), [f(x, v % 2) for x in vals]
        elif how == "left":
            run, vals = exprs.OPS[op](other, run), [f(b, x) for x, b in zip(vals, bits)]
        elif case["inplace"] and op in ("and", "or", "xor"):
            vals = [f(x, b) for x, b in zip(vals, bits)]
            if op == "and":
                run &= other
            elif op == "or":
                run |= other
            else:
                run ^= other
        else:
            run, vals = exprs.OPS[op](run, other), [f(x, b) for x, b in zip(vals, bits)]
        if how not in ("not", "const"):
            nodes = nodes | {v}
        every.append((run, nodes, vals))
    for i, (obj, nodes, vals) in enumerate(every):
        require(set(obj.cond_nodes) == nodes, "after {} steps the condition depends on {}, "
                "expected {}", i, obj.cond_nodes, nodes)
        for a, want in zip(assigned, vals):
            got = obj(dict(enumerate(a)))
            require(got in (0, 1) and int(got) == want, "after {} steps the condition is {!r} on "
                    "{}, expected {}", i, got, a, want)
    t.label("40 steps" if len(every) > 40 else "shorter")
    t.interesting(len(set(vals)) == 2)


SUBS = [
    Sub("algebra", case_strategy, check, 4000,
        rule="random expression trees over up to 5 outcomes and constants, every "
             "subexpression checked on all assignments; non-trivial: depth 2 over at "
             "least 2 different outcomes"),
    Sub("algebra large", lambda: case_strategy(8, 50), check, 100,
        rule="as algebra, up to 8 outcomes and 50 leaves"),
    Sub("chains", chain_case, check_chain, 400,
        rule="conditions built up in 10 to 80 steps over up to 12 outcomes, every step checked "
             "on 12 assignments; non-trivial: the last condition takes both values there"),
    Sub("constants", const_case, check_const, 600,
        rule="constants and refused operands; non-trivial: a constant other than 0 and 1"),
    Sub("functions", callable_case, check_callable, 1500,
        rule="expressions combined with plain functions of the outcomes, outcomes of "
             "outcomes; non-trivial: both depend on something"),
]
