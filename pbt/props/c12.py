"""C12: Pauli-gadget templates implement rotations generated by exactly that string."""
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import PauliOp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require

from_pauli = mp.templates.from_pauli


@st.composite
def case_strategy(draw, max_qubits=3):
    n = draw(st.integers(1, max_qubits))
    p = draw(st.text("IXYZ", min_size=n, max_size=n))
    return {
        "pauli": p, "form": draw(st.sampled_from(["text", "list", "matrix"])),
        "theta": [draw(gen.angles()), draw(gen.generic_angles())],
        "psi": [draw(gen.amplitudes(n)) for _ in range(2)],
        "order": list(draw(st.permutations(range(2 * n + 2)))),
        "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv"])),
    }


def operator(case):
    p = case["pauli"]
    if case["form"] == "text":
        return PauliOp(p)
    if case["form"] == "list":
        return PauliOp([p])
    return PauliOp(np.array([[int(c in "XY") for c in p] + [int(c in "ZY") for c in p]]))


def shape(mc, p):
    n = len(p)
    require(len(mc.input_nodes) == n and len(set(mc.input_nodes)) == n, "inputs {}",
            mc.input_nodes)
    require(len(mc.output_nodes) == n and len(set(mc.output_nodes)) == n, "outputs {}",
            mc.output_nodes)
    require(list(mc.quantum_output_nodes) == list(mc.output_nodes), "quantum outputs {}",
            mc.quantum_output_nodes)
    require(len(mc.trainable_nodes) == 1, "trainable nodes {} for {}", mc.trainable_nodes, p)


def sign_of(p, theta, psi, got):
    """+1 / -1 when got is exp(-+ i theta P/2) psi, else None; 0 if both fit."""
    plus = ref.same_ray(got, ref.rotation(p, theta) @ psi)
    minus = ref.same_ray(got, ref.rotation(p, -theta) @ psi)
    return {(1, 0): 1, (0, 1): -1, (1, 1): 0, (0, 0): None}[plus, minus]


# the fixed sign convention, per parity class of the string, is learnt from the first
# generic case and must then hold for every other angle and state of the same string
def check(case, t):
    warnings.simplefilter("ignore")
    p = case["pauli"]
    op = operator(case)
    before = np.array(op.matrix).tolist()
    mc = from_pauli(op)
    require(np.array(op.matrix).tolist() == before, "the operator was modified")
    shape(mc, p)
    nodes = sorted(mc.graph.nodes)
    inner = [v for v in nodes if v not in mc.output_nodes]
    require(len(inner) == 2 * len(p) + 2, "{} measured nodes", len(inner))
    bases = {}
    for v in inner:
        m = mc[v]
        require(m is not None and m.plane in ("X", "Y", "XY"), "node {} is measured by {}",
                v, m)
        bases[v] = [m.plane, m.angle, 0]
    signs = set()
    hub = mc.trainable_nodes[0]
    for theta in case["theta"]:
        for amp in case["psi"]:
            psi = gen.to_state(amp)
            bases[hub] = ["XY", theta, 0]
            vec, probs = ref.run_pattern(nodes, list(mc.graph.edges), list(mc.input_nodes),
                                         psi, bases, inner, list(mc.output_nodes))
            if set(p) == {"I"}:
                # only the detached ancilla pair feels the angle
                if vec is not None:
                    require(ref.same_ray(vec, psi), "identity string acts non-trivially")
                continue
            require(vec is not None, "the zero branch is impossible")
            require(abs(np.prod(list(probs.values())) - 0.5 ** len(inner)) < 1e-9,
                    "the zero branch has probability {} instead of 2^-{}",
                    np.prod(list(probs.values())), len(inner))
            s = sign_of(p, theta, psi, vec)
            require(s is not None, "angle {} on {} is not a rotation about {}", theta, amp,
                    p)
            signs.add(s)
            if (theta, amp) != (case["theta"][1], case["psi"][0]) or (
                    len(p) >= 3):
                continue
            order = [inner[i] for i in case["order"]] + list(mc.output_nodes)
            sim = mp.PatternSimulator(mc, input_state=psi, backend=case["backend"],
                                      schedule=order)
            rho = mk.array(sim.run([theta]), (len(psi), len(psi)), "output")
            require(mk.close(rho, ref.dm(vec)), "simulated output differs by {:.3g}",
                    np.max(np.abs(rho - ref.dm(vec))))
    signs.discard(0)
    require(len(signs) <= 1, "the direction of rotation about {} depends on angle or state",
            p)
    t.label(f"{len(p)} qubits", f"{p.count('Y')} Y", *(f"sign {s}" for s in signs))
    t.interesting(bool(signs))


@st.composite
def wide(draw):
    n = draw(st.integers(5, 11))
    letters = draw(st.sampled_from(["IXYZ", "Y", "IY", "XYZ", "YZ", "XY", "Z", "X", "IIIIIXYZ"]))
    p = draw(st.lists(st.sampled_from(letters), min_size=n, max_size=n).map("".join).filter(
        lambda p: set(p) != {"I"}))
    return {"pauli": p, "form": draw(st.sampled_from(["text", "list", "matrix"])),
            "theta": [draw(gen.generic_angles()) for _ in range(2)],
            "seed": draw(st.integers(0, 2**31))}


def apply_pauli(p, psi):
    v = psi.reshape((2,) * len(p))
    for i, c in enumerate(p):
        if c != "I":
            v = np.moveaxis(np.tensordot(ref.pauli_matrix(c), v, axes=(1, i)), 0, i)
    return v.reshape(-1)


def check_wide(case, t):
    """One rotation of many qubits, node by node."""
    warnings.simplefilter("ignore")
    p, n = case["pauli"], len(case["pauli"])
    mc = from_pauli(operator(case))
    shape(mc, p)
    inner = [v for v in sorted(mc.graph.nodes) if v not in mc.output_nodes]
    require(len(inner) == 2 * n + 2, "{} measured nodes", len(inner))
    hub = mc.trainable_nodes[0]
    rng = np.random.default_rng(case["seed"])
    signs = set()
    # measure the rotated pair as soon as its neighbours are there, then wire by wire
    order = sorted(inner, key=lambda v: (v < 3 * n, v))
    for theta in case["theta"]:
        psi = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
        psi /= np.linalg.norm(psi)
        bases = {v: [mc[v].plane, mc[v].angle, 0] for v in inner}
        bases[hub] = ["XY", theta, 0]
        vec = ref.run_lazy(sorted(mc.graph.nodes), list(mc.graph.edges), list(mc.input_nodes),
                           psi, bases, order, list(mc.output_nodes))
        require(vec is not None, "the zero branch is impossible")
        rot = apply_pauli(p, psi)
        fits = [s for s in (1, -1) if ref.same_ray(
            vec, np.cos(theta / 2) * psi - s * 1j * np.sin(theta / 2) * rot)]
        require(fits, "angle {} is not a rotation about {}", theta, p)
        signs |= set(fits) if len(fits) == 1 else set()
    require(len(signs) <= 1, "the direction of rotation about {} depends on angle or state", p)
    t.label(f"{n} qubits", f"{p.count('Y')} Y")
    t.interesting(len(p) - p.count("I") >= 3)


@st.composite
def refused(draw):
    n = draw(st.integers(1, 3))
    k = draw(st.integers(2, 4))
    return {"paulis": draw(st.lists(st.text("IXYZ", min_size=n, max_size=n), min_size=k,
                                    max_size=k))}


def check_refused(case, t):
    mk.raises(lambda: from_pauli(PauliOp(";".join(case["paulis"]))), ValueError,
              "a template of several strings")
    t.interesting()


@st.composite
def chain(draw):
    n = draw(st.integers(1, 2))
    ps = draw(st.lists(st.text("IXYZ", min_size=n, max_size=n).filter(
        lambda p: set(p) != {"I"}), min_size=2, max_size=3 if n == 1 else 2))
    return {"paulis": ps, "theta": [draw(gen.generic_angles()) for _ in ps],
            "psi": draw(gen.amplitudes(n))}


def check_chain(case, t):
    """Gadgets stacked one after another rotate one after another."""
    warnings.simplefilter("ignore")
    ps = case["paulis"]
    n = len(ps[0])
    mc = mp.hstack([from_pauli(PauliOp(p)) for p in ps])
    require(len(mc.trainable_nodes) == len(ps), "trainable nodes {}", mc.trainable_nodes)
    inner = [v for v in sorted(mc.graph.nodes) if v not in mc.output_nodes]
    bases = {v: [mc[v].plane, mc[v].angle, 0] for v in inner}
    for v, th in zip(sorted(mc.trainable_nodes), case["theta"]):
        bases[v] = ["XY", th, 0]
    psi = gen.to_state(case["psi"])
    vec = ref.run_lazy(sorted(mc.graph.nodes), list(mc.graph.edges), list(mc.input_nodes),
                       psi, bases, inner, list(mc.output_nodes))
    require(vec is not None, "zero branch impossible")
    ok = False
    for k in range(2 ** len(ps)):
        want = psi
        for i, (p, th) in enumerate(zip(ps, case["theta"])):
            want = ref.rotation(p, th if k >> i & 1 else -th) @ want
        ok = ok or ref.same_ray(vec, want)
    require(ok, "not a sequence of rotations about {}", ps)
    t.interesting(len(set(ps)) > 1)


SUBS = [
    Sub("gadget", case_strategy, check, 1200,
        rule="random Pauli strings on 1..3 qubits in every input form, two angles and two "
             "states each, random schedules, against exp(-i s theta P/2); non-trivial: "
             "the direction of rotation is visible"),
    Sub("chain", chain, check_chain, 240,
        rule="stacked gadgets; non-trivial: different strings"),
    Sub("large", lambda: case_strategy(5), check, 160, rule="as gadget, up to 5 qubits"),
    Sub("wide", wide, check_wide, 160, rule="strings on 5..11 qubits that act on few or many "
        "of them, through the numpy state-vector reference; non-trivial: three letters"),
    Sub("refused", refused, check_refused, 80, rule="several strings at once are refused"),
]
