"""C26: generated training data is consistent with the target unitary."""
import itertools

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require

U = mp.utils


def seeded(seed, fn):
    state = np.random.get_state()
    try:
        np.random.seed(seed)
        return fn()
    finally:
        np.random.set_state(state)


def random_unitary(n, seed):
    rng = np.random.default_rng(seed)
    m = rng.normal(size=(2**n,) * 2) + 1j * rng.normal(size=(2**n,) * 2)
    return np.linalg.qr(m)[0]


def split_size(n, frac, n_test):
    return n_test == int(n_test) and 0 <= n_test <= n and abs(n_test - n * frac) < 1 + 1e-9 \
        and n_test <= n * frac + 1e-9


FRACTIONS = [0.3, 0.0, 1.0, 0.5, 0.25, 0.1, 0.29, 0.99]


@st.composite
def states_case(draw):
    return {"n": draw(st.integers(1, 4)), "k": draw(st.integers(1, 6)),
            "seed": draw(st.integers(0, 2**31))}


def check_states(case, t):
    n, k = case["n"], case["k"]
    got = seeded(case["seed"], lambda: U.generate_haar_random_states(n, k) if k != 1 else
                 U.generate_haar_random_states(n))
    states = [got] if k == 1 else got
    require(len(states) == k, "{} states instead of {}", len(states), k)
    vecs = [mk.array(s, (2**n,), "random state") for s in states]
    for v in vecs:
        require(abs(np.linalg.norm(v) - 1) < 1e-9, "norm {}", np.linalg.norm(v))
    for a, b in itertools.combinations(vecs, 2):
        require(not np.allclose(a, b, atol=1e-6), "two random states agree")
    again = seeded(case["seed"], lambda: U.generate_haar_random_states(n, k))
    require(np.allclose(np.array(again), np.array(got)), "the same seed gives other states")
    t.interesting(n > 1 and k > 1)


def check_haar(case, t):
    """The random states have the moments of the Haar measure (within six deviations)."""
    n, k = case["n"], 1500
    N = 2**n
    got = np.array(seeded(case["seed"], lambda: U.generate_haar_random_states(n, k)))
    rng = np.random.default_rng(case["dir"])
    phi = rng.normal(size=N) + 1j * rng.normal(size=N)
    if case["basis"]:
        phi = np.eye(N)[case["dir"] % N]
    phi = phi / np.linalg.norm(phi)
    F = np.abs(got @ phi.conj()) ** 2
    m = [1.0]
    for j in range(1, 5):
        m.append(m[-1] * j / (N + j - 1))  # E F^j = j! (N-1)! / (N+j-1)!
    for j in (1, 2):
        sd = np.sqrt((m[2 * j] - m[j] ** 2) / k)
        require(abs((F**j).mean() - m[j]) < 6.5 * sd, "moment {} of the fidelity is {}, "
                "expected {}", j, (F**j).mean(), m[j])
    amp = got @ phi.conj()
    require(abs(amp.mean()) < 7 / np.sqrt(k * N), "mean amplitude {}", amp.mean())
    require(abs((amp**2).mean()) < 7 * np.sqrt(m[2] / k), "phases are not uniform")
    t.interesting(n > 1)


@st.composite
def dataset_case(draw):
    return {"n": draw(st.integers(1, 3)), "k": draw(st.integers(0, 12)),
            "frac": draw(st.one_of(st.none(), st.sampled_from(FRACTIONS),
                                   st.floats(0, 1).map(lambda x: round(x, 2)))),
            "seed": draw(st.integers(0, 2**31)),
            "noise": draw(st.sampled_from([None, None, "brownian", "bitflip", "default"])),
            "level": draw(st.sampled_from([0.0, 0.0, 1.0, 0.3, 0.7, 0.01]))}


def check_dataset(case, t):
    n, k, frac = case["n"], case["k"], case["frac"]
    V = random_unitary(n, case["seed"])
    keep = V.copy()
    kw = {} if frac is None else {"test_size": frac}
    frac = 0.3 if frac is None else frac
    if case["noise"] is None:
        data = seeded(case["seed"], lambda: U.generate_random_dataset(V, k, **kw))
    else:
        nk = {"noise_level": case["level"]}
        if case["noise"] != "default":
            nk["noise_type"] = case["noise"]
        data = seeded(case["seed"], lambda: U.generate_random_dataset_noisy(V, k, **nk, **kw))
    require((V == keep).all(), "the unitary changed")
    (xi, xt), (yi, yt) = data
    require(len(xi) == len(xt) and len(yi) == len(yt), "{} inputs, {} targets; {} test "
            "inputs, {} test targets", len(xi), len(xt), len(yi), len(yt))
    require(len(xi) + len(yi) == k, "{} samples instead of {}", len(xi) + len(yi), k)
    require(split_size(k, frac, len(yi)), "{} of {} samples for testing, asked for {}",
            len(yi), k, frac)
    allin = [mk.array(x, (2**n,), "input") for x in list(xi) + list(yi)]
    for v in allin:
        require(abs(np.linalg.norm(v) - 1) < 1e-9, "an input has norm {}", np.linalg.norm(v))
    for a, b in itertools.combinations(allin, 2):
        require(not np.allclose(a, b, atol=1e-6), "two inputs agree")
    for x, y in zip(yi, yt):
        require(mk.close(mk.array(y, (2**n,), "target"), V @ x, 1e-9), "a test target is not "
                "the image of its input")
    flips = [ref.pauli_matrix("".join(w)) for w in itertools.product("IX", repeat=n)]
    for x, y in zip(xi, xt):
        y = mk.array(y, (2**n,), "target")
        exact = V @ x
        if case["noise"] is None or case["level"] == 0:
            require(mk.close(y, exact, 1e-9), "a training target is not the image of its input")
        elif case["noise"] == "bitflip":
            use = flips if case["level"] < 1 else flips[-1:]
            require(any(mk.close(y, P @ exact, 1e-9) for P in use), "a training target is not "
                    "a bit-flipped image")
        else:
            require(abs(np.linalg.norm(y) - 1) < 1e-8, "a noisy target has norm {}",
                    np.linalg.norm(y))
            if case["level"] <= 0.01:
                require(np.linalg.norm(y - exact) < 1.0, "slight noise moved a target by {}",
                        np.linalg.norm(y - exact))
    t.label(case["noise"] or "exact", f"level {case['level']}" if case["noise"] else "-")
    t.interesting(len(xi) >= 1 and len(yi) >= 1)


@st.composite
def large_dataset_case(draw):
    case = draw(dataset_case())
    case["n"], case["k"] = draw(st.integers(1, 6)), draw(st.integers(8, 60))
    return case


def check_rates(case, t):
    """Each wire of each training target is flipped on its own, at the level asked for."""
    n, level, frac = case["n"], case["level"], case["frac"]
    k = 600
    V = random_unitary(n, case["seed"])
    (xi, xt), _ = seeded(case["seed"], lambda: U.generate_random_dataset_noisy(
        V, k, level, "bitflip", test_size=frac))
    words = list(itertools.product((0, 1), repeat=n))
    flips = [ref.pauli_matrix("".join("IX"[b] for b in w)) for w in words]
    seen = []
    for x, y in zip(xi, xt):
        fid = [abs(np.vdot(P @ V @ x, y)) for P in flips]
        require(max(fid) > 1 - 1e-6, "a training target is not a bit-flipped image")
        seen.append(words[int(np.argmax(fid))])
    seen = np.array(seen, float)
    m = len(seen)
    sd = np.sqrt(max(level * (1 - level), 1e-12) / m)
    for i in range(n):
        require(abs(seen[:, i].mean() - level) < 6.5 * sd + 1e-9, "wire {} is flipped at rate "
                "{} instead of {}", i, seen[:, i].mean(), level)
        for j in range(i):
            both = (seen[:, i] * seen[:, j]).mean()
            sd2 = np.sqrt(level**2 * (1 - level**2) / m)
            require(abs(both - level**2) < 6.5 * sd2 + 1e-9, "wires {} and {} flip together at "
                    "rate {}, expected {}", i, j, both, level**2)
    half = np.array_split(seen, 3)
    for part in half:
        require(abs(part.mean() - level) < 6.5 * np.sqrt(max(level * (1 - level), 1e-12)
                / part.size) + 1e-9, "the rate drifts to {}", part.mean())
    t.interesting(n > 1)


@st.composite
def split_case(draw):
    k = draw(st.one_of(st.integers(0, 14), st.integers(0, 200)))
    return {"k": k, "frac": draw(st.one_of(st.none(), st.sampled_from(FRACTIONS),
                                           st.floats(0, 1).map(lambda x: round(x, 3)))),
            "types": [draw(st.sampled_from(["list", "array"])) for _ in range(2)],
            "random": draw(st.booleans()), "seed": draw(st.integers(0, 2**31)),
            "width": draw(st.integers(1, 3))}


def check_split(case, t):
    k, w = case["k"], case["width"]
    base = [[i * 10.0 + j for j in range(w)] for i in range(k)]
    inputs = [list(r) for r in base]
    targets = [[1000 + r[0]] for r in base]
    mkv = lambda v, typ: np.array(v) if typ == "array" else [np.array(r) for r in v]
    X, Y = mkv(inputs, case["types"][0]), mkv(targets, case["types"][1])
    kw = {} if case["frac"] is None else {"test_size": case["frac"]}
    if case["random"]:
        kw["randomize"] = True
    run = lambda: seeded(case["seed"], lambda: U.train_test_split(X, Y, **kw))
    (xi, xt), (yi, yt) = run()
    frac = 0.3 if case["frac"] is None else case["frac"]
    require(len(xi) == len(xt) and len(yi) == len(yt), "inputs and targets do not match")
    require(split_size(k, frac, len(yi)), "{} of {} for testing, asked for {}", len(yi), k,
            frac)
    got = [list(map(float, r)) for r in list(xi) + list(yi)]
    gt = [list(map(float, r)) for r in list(xt) + list(yt)]
    require(sorted(got) == base, "the parts hold {}", got)
    require(gt == [[1000 + r[0]] for r in got], "pairs were separated: {} and {}", got, gt)
    if not case["random"]:
        require(got == base, "the order changed without being asked: {}", got)
    require([list(r) for r in X] == base and [list(r) for r in Y] == targets,
            "the arguments changed")
    if case["random"] and k >= 12:
        orders = [seeded(s, lambda: U.train_test_split(X, Y, **kw)) for s in range(4)]
        flat = [[float(r[0]) for r in list(o[0][0]) + list(o[1][0])] for o in orders]
        require(len({tuple(f) for f in flat}) > 1, "shuffling never changes the order")
    t.label("random" if case["random"] else "in order", *case["types"])
    t.interesting(len(xi) >= 2 and len(yi) >= 2)


@st.composite
def noise_case(draw):
    return {"n": draw(st.integers(1, 3)), "t": draw(st.sampled_from([0.0, 1e-4, 0.01, 0.3, 1])),
            "steps": draw(st.integers(1, 30)), "seed": draw(st.integers(0, 2**31)),
            "bad": draw(st.one_of(st.floats(1.001, 5), st.floats(-5, -0.001))),
            "kind": draw(st.sampled_from(["", "Brownian", "phaseflip", None]))}


def check_noise(case, t):
    """Unitaries close to the identity, and refusals of bad noise options."""
    n, dim = case["n"], 2 ** case["n"]
    W = seeded(case["seed"], lambda: U.randomUnitary_closetoid(dim, case["t"], case["steps"]))
    W = mk.array(W, (dim, dim), "random unitary")
    require(mk.close(W @ W.conj().T, np.eye(dim), 1e-8), "not unitary")
    dist = np.linalg.norm(W - np.eye(dim), 2)
    if case["t"] == 0:
        require(dist < 1e-9, "zero time gives distance {}", dist)
    else:
        require(dist > 1e-9, "positive time gives the identity")
        # norms of the random Hermitian steps concentrate around sqrt(dim); 3x is far out
        bound = 2 * np.pi * case["t"] * np.sqrt(case["steps"] / dim) * 3 * np.sqrt(dim) * 1.5
        require(dist < bound + 1e-9, "distance {} beyond {}", dist, bound)
    V = random_unitary(n, case["seed"])
    mk.raises(lambda: U.generate_random_dataset_noisy(V, 4, noise_level=case["bad"]),
              ValueError, f"noise level {case['bad']}")
    mk.raises(lambda: U.generate_random_dataset_noisy(V, 4, 0.5, noise_type=case["kind"]),
              Exception, f"noise type {case['kind']!r}")
    t.interesting(case["t"] > 0 and n > 1)


SUBS = [
    Sub("states", states_case, check_states, 500, rule="non-trivial: several states of several "
        "qubits"),
    Sub("moments", lambda: st.fixed_dictionaries({
        "n": st.integers(1, 3), "seed": st.integers(0, 2**31), "dir": st.integers(0, 99),
        "basis": st.booleans()}), check_haar, 48, 200,
        rule="1500 states per case; non-trivial: several qubits"),
    Sub("datasets", dataset_case, check_dataset, 800,
        rule="with and without noise; non-trivial: both parts are non-empty"),
    Sub("datasets large", large_dataset_case, check_dataset, 200,
        rule="up to 60 samples on up to six wires; non-trivial: both parts are non-empty"),
    Sub("flip rates", lambda: st.fixed_dictionaries({
        "n": st.integers(1, 3), "seed": st.integers(0, 2**31),
        "level": st.sampled_from([0.1, 0.3, 0.5, 0.8]), "frac": st.sampled_from([0.0, 0.3])}),
        check_rates, 40, 150, rule="600 samples per case; non-trivial: several wires"),
    Sub("splits", split_case, check_split, 1500,
        rule="non-trivial: both parts hold at least two samples"),
    Sub("noise", noise_case, check_noise, 300, rule="non-trivial: several qubits, positive time"),
]
