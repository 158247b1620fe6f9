"""C23: binary linear solving is sound and complete."""
import galois
import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import mk, ref
from pbt.core import Skip, Sub, Violation, require

GF = galois.GF(2)


@st.composite
def system(draw, hi=7):
    r, c = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    style = draw(st.sampled_from(["random", "sparse", "low rank", "random", "shuffled"]))
    bit = st.integers(0, 1) if style != "sparse" else st.sampled_from([0, 0, 0, 1])
    A = [draw(st.lists(bit, min_size=c, max_size=c)) for _ in range(r)]
    if style == "shuffled":
        # a triangular system with few entries, its equations and unknowns shuffled
        rows, cols = draw(st.permutations(range(r))), draw(st.permutations(range(c)))
        extra = draw(st.lists(st.tuples(st.integers(0, r - 1), st.integers(0, c - 1)),
                              max_size=2 * r))
        A = [[0] * c for _ in range(r)]
        for i in range(min(r, c)):
            A[rows[i]][cols[i]] = 1
        for i, j in extra:
            if i < j:
                A[rows[i]][cols[j]] = 1
    if style == "low rank" and r > 1:
        base = A[: max(1, r // 2)]
        rows = []
        for _ in range(r):
            pick = draw(st.lists(st.booleans(), min_size=len(base), max_size=len(base)))
            rows.append([sum(b[j] for b, k in zip(base, pick) if k) % 2 for j in range(c)])
        A = rows
    if draw(st.integers(0, 4)):
        x = draw(st.lists(st.integers(0, 1), min_size=c, max_size=c))
        b = [sum(a * v for a, v in zip(row, x)) % 2 for row in A]
    else:
        b = draw(st.lists(st.integers(0, 1), min_size=r, max_size=r))
    return {"A": A, "b": b, "style": style, "type": draw(st.sampled_from(
        ["int", "int", "gf", "bool", "uint8", "readonly"])),
        "column": draw(st.booleans())}


def check(case, t):
    A, b = np.array(case["A"], dtype=int), np.array(case["b"], dtype=int)
    r, c = A.shape
    solvable = ref.gf2_rank(A.tolist()) == ref.gf2_rank(
        np.hstack([A, b.reshape(-1, 1)]).tolist())
    conv = {"gf": GF, "bool": lambda x: x.astype(bool),
            "uint8": lambda x: x.astype(np.uint8)}.get(case["type"], lambda x: x.copy())
    M, v = conv(A), conv(b.reshape(-1, 1) if case["column"] else b)
    if case["type"] == "readonly":
        M.setflags(write=False)
        v.setflags(write=False)
    t.label(case["type"], case["style"], "solvable" if solvable else "unsolvable",
            "underdetermined" if ref.gf2_rank(A.tolist()) < c else "full column rank")
    if not solvable:
        try:
            mp.calculator.solve(M, v)
        except (ValueError, np.linalg.LinAlgError):
            pass
    else:
        x = mp.calculator.solve(M, v)
        x = np.asarray(x)
        require(x.shape == (c,), "solution has shape {}", x.shape)
        x = x.astype(int)
        require(set(np.unique(x)) <= {0, 1}, "solution {} is not binary", x)
        require(((A @ x) % 2 == b).all(), "{} x = {} is not solved by {}", A.tolist(),
                b.tolist(), x.tolist())
        t.interesting(r > 1 and c > 1 and b.any())
    require((np.asarray(M).astype(int) == A).all() and
            (np.asarray(v).astype(int).reshape(-1) == b).all(), "the arguments changed")


SUBS = [
    Sub("systems", system, check, 6000,
        rule="systems of up to seven rows and columns, most of them solvable by "
             "construction, rank-deficient ones included; non-trivial: solvable, several "
             "rows and columns, right-hand side not zero"),
    Sub("large", lambda: system(24), check, 800, rule="as systems, up to 24 rows and columns"),
    Sub("very large", lambda: system(70), check, 80, rule="as systems, up to 70 rows and columns"),
]
