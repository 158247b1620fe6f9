"""Outcome expressions as JSON trees: generation, evaluation over bits, translation."""
import operator

from hypothesis import strategies as st

from mentpy.operators import ment as _ment  # noqa: F401  (module of MentOutcome)
from mentpy.operators import MentOutcome

BIN = {
    "and": lambda a, b: a & b,
    "or": lambda a, b: a | b,
    "xor": lambda a, b: a ^ b,
    "+": lambda a, b: (a + b) % 2,
    "-": lambda a, b: (a - b) % 2,
    "*": lambda a, b: a * b,
    "==": lambda a, b: int(a == b),
    "!=": lambda a, b: int(a != b),
    "<": lambda a, b: int(a < b),
    "<=": lambda a, b: int(a <= b),
    ">": lambda a, b: int(a > b),
    ">=": lambda a, b: int(a >= b),
    "**": lambda a, b: a**b,
}
DIV = {"/": lambda a: a, "//": lambda a: a, "%": lambda a: 0}  # by the constant 1
OPS = {
    "and": operator.and_, "or": operator.or_, "xor": operator.xor,
    "+": operator.add, "-": operator.sub, "*": operator.mul, "==": operator.eq,
    "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
    ">=": operator.ge, "**": operator.pow, "/": operator.truediv,
    "//": operator.floordiv, "%": operator.mod,
}


@st.composite
def trees(draw, nodes, consts=True, max_leaves=8, ops=None):
    """An expression over `nodes`; built top down with a drawn number of leaves, so that
    large trees are as likely as small ones."""
    nodes = list(nodes)
    names = sorted(ops or BIN)

    def make(leaves, depth):
        if leaves <= 1:
            if consts and draw(st.integers(0, 4)) == 4:
                return ["c", draw(st.one_of(st.integers(0, 1), st.booleans()))]
            e = ["n", draw(st.sampled_from(nodes))]
            return ["not", e] if draw(st.integers(0, 3)) == 3 else e
        kind = draw(st.integers(0, 9))
        if kind == 9 and depth < 6:
            return ["not", make(leaves, depth + 1)]
        if kind == 8 and depth < 6:
            return [draw(st.sampled_from(sorted(DIV))), make(leaves, depth + 1), ["c", 1]]
        left = draw(st.integers(1, leaves - 1))
        op = draw(st.sampled_from(names if kind < 5 else ["xor", "and", "or", "+"]))
        return [op, make(left, depth + 1), make(leaves - left, depth + 1)]

    return make(draw(st.integers(1, max_leaves)), 0)


def value(e, outcomes):
    if e[0] == "n":
        return int(outcomes[e[1]])
    if e[0] == "c":
        return int(e[1])
    if e[0] == "not":
        return 1 - value(e[1], outcomes)
    if e[0] in DIV:
        return DIV[e[0]](value(e[1], outcomes))
    return BIN[e[0]](value(e[1], outcomes), value(e[2], outcomes))


def nodes_in(e):
    if e[0] == "n":
        return {e[1]}
    if e[0] == "c":
        return set()
    return set().union(*(nodes_in(x) for x in e[1:]))


def build(e, outcome_of, seen=None):
    """The library's expression; constants stay plain on the right hand side. Every
    subexpression built is appended to `seen`."""
    if e[0] == "n":
        res = outcome_of(e[1])
    elif e[0] == "c":
        res = MentOutcome(e[1])
    elif e[0] == "not":
        res = ~build(e[1], outcome_of, seen)
    else:
        left = build(e[1], outcome_of, seen)
        right = e[2][1] if e[2][0] == "c" else build(e[2], outcome_of, seen)
        res = OPS[e[0]](left, right)
    if seen is not None:
        seen.append((e, res))
    return res


def depth(e):
    return 0 if e[0] in "nc" else 1 + max(depth(x) for x in e[1:])
