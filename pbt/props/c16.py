"""C16: Pauli operator lists follow the Pauli group and behave like lists of strings."""
import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import PauliOp

from pbt import mk, ref
from pbt.core import Skip, Sub, Violation, require

BITS = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}
LETTER = {v: k for k, v in BITS.items()}


def rows(ss):
    n = len(ss[0])
    return np.array([[BITS[c][0] for c in s] + [BITS[c][1] for c in s] for s in ss],
                    dtype=int).reshape(len(ss), 2 * n)


def product(a, b):
    return "".join(LETTER[(BITS[x][0] ^ BITS[y][0], BITS[x][1] ^ BITS[y][1])]
                   for x, y in zip(a, b))


def anti(a, b):
    return sum(1 for x, y in zip(a, b) if x != y and "I" not in (x, y)) % 2


def make(ss, form):
    if form == "text":
        return PauliOp(";".join(ss))
    if form == "text;":
        return PauliOp("; ".join(ss) + ";")
    if form == "list":
        return PauliOp(list(ss))
    if form == "bool":
        return PauliOp(rows(ss).astype(np.uint8))
    return PauliOp(rows(ss))


FORMS = ["text", "text;", "list", "matrix", "bool"]


def strings_of(op):
    return op.txt.split("\n")


def is_op(op, ss, what):
    require(isinstance(op, PauliOp), "{} is a {}", what, type(op))
    require(strings_of(op) == list(ss), "{} reads {}, expected {}", what, strings_of(op), ss)
    require(repr(op).split() == list(ss), "{} prints {!r}, expected {}", what, repr(op), ss)
    m = np.asarray(op.matrix).astype(int)
    require(m.shape == (len(ss), 2 * len(ss[0])) and (m == rows(ss)).all(),
            "{} has matrix {}, expected {}", what, m.tolist(), rows(ss).tolist())
    require(len(op) == len(ss), "len({}) = {}", what, len(op))
    require(op.number_of_qubits == len(ss[0]), "{} is on {} qubits", what,
            op.number_of_qubits)
    require([x.txt for x in op] == list(ss), "iterating {} gives {}", what,
            [x.txt for x in op])


def words(n):
    return st.text("IXYZ", min_size=n, max_size=n)


@st.composite
def history(draw, qubits=5, rows=5):
    n = draw(st.integers(1 if qubits <= 5 else 6, qubits))
    start = draw(st.lists(words(n), min_size=1 if rows <= 5 else 6, max_size=rows))
    steps = draw(st.lists(st.one_of(
        st.tuples(st.just("append"), st.lists(words(n), min_size=1, max_size=3 if rows <= 5 else 12),
                  st.sampled_from(FORMS)),
        st.tuples(st.just("append self")),
        st.tuples(st.just("grow others"), st.integers(0, 9)),
        st.tuples(st.just("all but one"), st.integers(0, 40), words(n)),
        st.tuples(st.just("slice"), st.integers(-6, 7), st.integers(-6, 7),
                  st.sampled_from([None, 1, 2, -1, 3])),
        st.tuples(st.just("index"), st.integers(-8, 8 if rows <= 5 else 30)),
        st.tuples(st.just("subset"), st.lists(st.integers(0, n - 1), min_size=1,
                                              max_size=qubits)),
        st.tuples(st.just("contains"), words(n)),
        st.tuples(st.just("equals"), words(n)),
        st.tuples(st.just("times"), words(n)),
        st.tuples(st.just("mismatch"), words(n + 1), st.sampled_from(["append", "mul", "prod"])),
        st.tuples(st.just("bad subset"), st.integers(0, 3)),
        st.tuples(st.just("roundtrip"), st.sampled_from(["txt", "matrix", "list"])),
    ).map(list), min_size=1, max_size=8))
    return {"start": start, "form": draw(st.sampled_from(FORMS)), "steps": steps}


def check_history(case, t):
    model = list(case["start"])
    op = make(model, case["form"])
    is_op(op, model, "the operator")
    changed, others = False, []
    for step in case["steps"]:
        kind = step[0]
        t.label(kind)
        n = len(model[0])
        if kind == "append":
            if len(step[1][0]) != n:
                continue
            extra = make(step[1], step[2])
            require(op.append(extra) is None, "append returns something")
            model = model + step[1]
            is_op(extra, step[1], "the appended operator")
            others.append([extra, list(step[1])])
            changed = True
        elif kind == "grow others":
            for i, (other, ss) in enumerate(others):
                w = ss[step[1] % len(ss)]
                other.append(PauliOp(w))
                others[i][1] = ss + [w]
        elif kind == "all but one":
            i = step[1] % (len(model) + 1)
            if len(step[2]) == n:
                query = PauliOp(model[:i] + [step[2]] + model[i:])
                require((query in op) == (step[2] in model), "membership of {} with {} at {}",
                        model, step[2], i)
            require(PauliOp(list(reversed(model))) in op, "{} backwards is not contained",
                    model)
        elif kind == "append self":
            op.append(op)
            model = model + model
            if len(model) > 40:
                break
        elif kind == "slice":
            sl = slice(step[1], step[2], step[3])
            if not model[sl]:
                mk.raises(lambda: op[sl], Exception, "an empty slice")
            else:
                is_op(op[sl], model[sl], f"slice {sl}")
        elif kind == "index":
            if -len(model) <= step[1] < len(model):
                is_op(op[step[1]], [model[step[1]]], f"element {step[1]}")
            else:
                mk.raises(lambda: op[step[1]], IndexError, "an index out of range")
        elif kind == "subset":
            inds = [i for i in step[1] if i < n]
            if not inds:
                continue
            keep = list(inds)
            got = op.get_subset(inds)
            require(inds == keep, "get_subset changed its argument to {}", inds)
            want = ["".join(s[i] for i in inds) for s in model]
            is_op(got, want, f"subset {inds}")
            if len(inds) <= 5 and step[1][0] % 2:
                op, model, changed = got, want, True
        elif kind == "contains":
            if len(step[1]) == n:
                for w in (step[1], model[0], model[-1]):
                    require((PauliOp(w) in op) == (w in model), "{} in {} is {}", w, model,
                            PauliOp(w) in op)
                both = PauliOp([model[-1], step[1]])
                require((both in op) == (step[1] in model), "membership of a list")
        elif kind == "equals":
            other = PauliOp(list(model))
            require(op == other and not op != other, "{} differs from its copy", model)
            require(hash(op) == hash(other), "equal operators hash differently")
            if len(step[1]) == n:
                for i in {0, len(model) // 2, len(model) - 1}:
                    alt = model[:i] + [step[1]] + model[i + 1:]
                    require((op == PauliOp(alt)) == (alt == model), "{} == {}", model, alt)
                    require((PauliOp(alt) == op) == (alt == model), "{} == {}", alt, model)
                require((op == PauliOp(model + [step[1]])) is False, "{} == longer", model)
            require(op != model and not op == model[0], "{} equals a plain list", model)
        elif kind == "times":
            if len(step[1]) == n:
                want = [product(s, step[1]) for s in model]
                is_op(op * PauliOp([step[1]] * len(model)), want, "the product")
        elif kind == "mismatch":
            if len(step[1]) != n:
                other = PauliOp(step[1])
                fn = {"append": lambda: op.append(other), "mul": lambda: op * other,
                      "prod": lambda: op.symplectic_prod(other)}[step[2]]
                mk.raises(fn, Exception, f"{step[2]} with another number of qubits")
        elif kind == "bad subset":
            bad = [[n], [0, n + 1], [-1], []][step[1]]
            mk.raises(lambda: op.get_subset(bad), Exception, f"subset {bad}")
        elif kind == "roundtrip":
            op = {"txt": lambda: PauliOp(op.txt.replace("\n", ";")),
                  "matrix": lambda: PauliOp(np.asarray(op.matrix)),
                  "list": lambda: PauliOp(op.txt.split("\n"))}[step[1]]()
        is_op(op, model, f"the operator after {step}")
        for other, ss in others:
            is_op(other, ss, f"another operator after {step}")
    t.interesting(changed and len(case["steps"]) >= 3)


@st.composite
def pair_case(draw, qubits=4, rows=4):
    n = draw(st.integers(1, qubits))
    ws = st.lists(words(n), min_size=1, max_size=rows)
    return {"a": draw(ws), "b": draw(ws), "form": draw(st.sampled_from(FORMS))}


def check_pair(case, t):
    """Symplectic products and commutators agree with the actual matrices."""
    a, b = case["a"], case["b"]
    A, B = make(a, case["form"]), make(b, case["form"])
    M = np.asarray(A.symplectic_prod(B)).astype(int)
    require(M.shape == (len(a), len(b)), "symplectic product has shape {}", M.shape)
    dense = len(a[0]) <= 5
    mats = {w: ref.pauli_matrix(w) for w in a + b} if dense else {}
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if dense:
                comm = mats[x] @ mats[y] - mats[y] @ mats[x]
                zero = np.allclose(comm, 0)
            else:
                zero = not anti(x, y)
            require(M[i, j] == (not zero), "symplectic product of {} and {} is {}", x, y,
                    M[i, j])
            got = A[i].commutator(B[j])
            if zero:
                require(isinstance(got, (int, np.integer)) and got == 0,
                        "[{}, {}] is {}", x, y, got)
            else:
                is_op(got, [product(x, y)], f"[{x}, {y}]")
                p = ref.pauli_matrix(got.txt) if dense else np.eye(1)
                comm = comm if dense else 2 * p
                ratio = np.trace(p.conj().T @ comm) / len(p)
                require(np.allclose(comm, ratio * p) and abs(ratio) > 1,
                        "[{}, {}] is not along {}", x, y, got.txt)
            is_op(A[i] * B[j], [product(x, y)], f"{x} * {y}")
    is_op(A, a, "left operand")
    is_op(B, b, "right operand")
    t.label(*(f"{'anti' if anti(x, y) else ''}commuting" for x in a for y in b))
    t.interesting(0 < M.sum() < M.size or (M.size == 1 and len(a[0]) > 1))


@st.composite
def bad_case(draw):
    n = draw(st.integers(1, 4))
    ws = draw(st.lists(words(n), min_size=1, max_size=4))
    return {"words": ws, "kind": draw(st.sampled_from(
        ["letter", "lower", "length", "odd", "type", "empty", "not binary"])),
        "at": draw(st.integers(0, 5)), "char": draw(st.sampled_from("AWi0-+?")),
        "as": draw(st.sampled_from(["text", "list"]))}


def check_bad(case, t):
    ws = list(case["words"])
    i = case["at"] % len(ws)
    kind = case["kind"]
    n = len(ws[0])
    if kind == "letter":
        j = case["at"] % n
        ws[i] = ws[i][:j] + case["char"] + ws[i][j + 1:]
    elif kind == "lower":
        if ws[i].lower() == ws[i]:
            raise Skip
        ws[i] = ws[i].lower()
    elif kind == "length":
        if len(ws) == 1:
            ws = ws + [ws[0] + "X"]
        else:
            ws[i] = ws[i] + "Z"
    t.label(kind)
    t.interesting()
    if kind in ("letter", "lower", "length"):
        fn = (lambda: PauliOp(";".join(ws))) if case["as"] == "text" else (lambda: PauliOp(ws))
        mk.raises(fn, Exception, f"{ws} as {case['as']}")
        if case["as"] == "text" and kind == "length":
            mk.raises(lambda: PauliOp(";".join(ws[::-1])), Exception, f"{ws[::-1]}")
    elif kind == "odd":
        m = rows(ws)
        mk.raises(lambda: PauliOp(m[:, :-1] if n > 1 or m.shape[1] > 1 else m), Exception,
                  "odd number of columns")
    elif kind == "type":
        for bad in (None, 3, {"X": 1}, tuple(ws)):
            mk.raises(lambda: PauliOp(bad), Exception, f"{bad!r}")
    elif kind == "empty":
        mk.raises(lambda: PauliOp(""), Exception, "empty text")
        mk.raises(lambda: PauliOp([]), Exception, "empty list")
    else:
        m = rows(ws)
        m[i, case["at"] % m.shape[1]] = 2 + case["at"]
        mk.raises(lambda: PauliOp(m), Exception, "entries other than 0 and 1")


@st.composite
def alias_case(draw):
    n = draw(st.integers(1, 4))
    return {"words": draw(st.lists(words(n), min_size=1, max_size=4))}


def check_alias(case, t):
    """Later changes to the array or list given in, or to a copy, do not show."""
    import copy
    ws = case["words"]
    m = rows(ws)
    op = PauliOp(m)
    m[0, 0] ^= 1
    is_op(op, ws, "operator after its source array changed")
    given = list(ws)
    op2 = PauliOp(given)
    given[0] = "I" * len(ws[0])
    is_op(op2, ws, "operator after its source list changed")
    for dup in (copy.deepcopy(op), PauliOp(op.matrix), copy.copy(op)):
        dup.append(PauliOp(ws[0]))
        is_op(dup, ws + ws[:1], "the changed copy")
        is_op(op, ws, "operator after its copy changed")
    sub = op[0:1] if len(ws) > 1 else copy.deepcopy(op)
    sub.append(PauliOp(ws[-1]))
    is_op(op, ws, "operator after its slice changed")
    t.interesting(len(ws) > 1)


SUBS = [
    Sub("history", history, check_history, 3000,
        rule="operation histories against a list of strings; non-trivial: at least three "
             "steps of which one changes the operator"),
    Sub("commutators", pair_case, check_pair, 1500,
        rule="pairs of lists against dense matrices; non-trivial: commuting and "
             "anticommuting pairs both occur, or one pair on two or more qubits"),
    Sub("refused", bad_case, check_bad, 500, rule="malformed inputs; all non-trivial"),
    Sub("history large", lambda: history(20, 30), check_history, 400,
        rule="as history, 6-20 qubits, lists of 6-30 operators"),
    Sub("commutators large", lambda: pair_case(20, 20), check_pair, 200,
        rule="as commutators, up to 20 qubits and operators"),
    Sub("history wide", lambda: history(40, 40), check_history, 100,
        rule="as history, 6-40 qubits, lists of 6-40 operators"),
    Sub("aliasing", alias_case, check_alias, 400, rule="non-trivial: several strings"),
]
