"""C29: noise options of the PennyLane backend are physical channels."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Sub, require

NOISES = ("depolarizing", "amplitude_damping", "phase_damping", "phase_flip")
UNKNOWN = ("bitflip", "depolarising", "Depolarizing", "noise", "phase", "damping", "")


def kraus(name, p):
    x, y, z, one = ref.X, ref.Y, ref.Z, np.eye(2)
    if name == "depolarizing":
        return [np.sqrt(1 - p) * one] + [np.sqrt(p / 3) * m for m in (x, y, z)]
    if name == "phase_flip":
        return [np.sqrt(1 - p) * one, np.sqrt(p) * z]
    k0 = np.diag([1, np.sqrt(1 - p)])
    if name == "amplitude_damping":
        return [k0, np.array([[0, np.sqrt(p)], [0, 0]])]
    return [k0, np.diag([0, np.sqrt(p)])]


def on(op, rho, q, n):
    """op on qubit q of the (unnormalised) density tensor with 2n legs."""
    r = np.moveaxis(np.tensordot(op, rho, axes=(1, q)), 0, q)
    return np.moveaxis(np.tensordot(op.conj(), r, axes=(1, n + q)), 0, n + q)


def channel(ks, rho, q, n):
    return sum(on(k, rho, q, n) for k in ks)


def reference(case, flow, order, noise, p):
    """Channel on every qubit of the resource state, then measurements and corrections."""
    g, n = case["graph"], case["graph"]["n"]
    vec = ref.resource_state(range(n), g["edges"], g["inputs"],
                             sims.input_vector(case)).vector(range(n))
    vec = np.asarray(vec).reshape([2] * n)
    rho = np.multiply.outer(vec, vec.conj())
    if noise is not None:
        for q in range(n):
            rho = channel(kraus(noise, p), rho, q, n)
    nb = ref.neighbours(range(n), g["edges"])
    pos = {v: i for i, v in enumerate(order)}
    for v in order:
        if v in g["outputs"]:
            continue
        total = 0
        for b in (0, 1):
            e = ref.eigvec(case["meas"][str(v)][0], sims.angle_of(case, v), b)
            # the measured qubit is left in |b>
            out = on(np.outer(np.eye(2)[b], np.conj(e)), rho, v, n)
            if b:
                out = on(ref.X, out, flow(v), n)
                for w in nb[flow(v)]:
                    if w != v and pos[w] > pos[v]:
                        out = on(ref.Z, out, w, n)
            total = total + out
        rho = total
    outs = g["outputs"]
    gone = [v for v in range(n) if v not in outs]
    d = 2 ** len(outs)
    r = rho.transpose(outs + gone + [n + v for v in outs] + [n + v for v in gone])
    r = r.reshape(d, 2 ** len(gone), d, 2 ** len(gone))
    return np.einsum("ikjk->ij", r)


@st.composite
def case_strategy(draw, max_nodes=5):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=3))
    p = draw(st.one_of(st.sampled_from([1.0, 0.5, 0.75, 0.0]),
                       st.floats(0.02, 1).map(lambda x: round(x, 4)),
                       st.floats(0, 1).map(lambda x: round(x, 4))))
    return {"graph": g,
            "meas": draw(gen.measured(g, gen.meas_specs(("X", "Y", "XY", "XY", "XY")))),
            "psi": draw(st.one_of(st.none(), gen.amplitudes(len(g["inputs"])))),
            "theta": draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"])),
            "theta2": draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"])),
            "noise": draw(st.sampled_from(NOISES)), "p": p,
            "bad": draw(st.sampled_from([None, None, *UNKNOWN, 1.25, -0.25]))}


def check(case, t):
    warnings.simplefilter("ignore")
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    d = 2 ** len(g["outputs"])
    order, flow = list(mc.measurement_order), mc.flow
    kw = {} if case["psi"] is None else {"input_state": gen.to_state(case["psi"])}

    def run(noise, p, device="default.mixed", theta="theta"):
        c = {**case, "theta": case[theta]}
        extra = {} if noise is None else {"circuit_noise": noise}
        if p is not None:
            extra["p"] = p
        sim = mp.PatternSimulator(mc, backend="pennylane", device=device, **extra, **kw)
        return sim, mk.array(sim.run(sims.train_angles(c, mc)), (d, d), f"{noise} output")

    def compare(got, want, what):
        require(abs(np.trace(got) - 1) < 1e-6 and mk.close(got, got.conj().T, 1e-6),
                "{}: not a density matrix", what)
        require(np.linalg.eigvalsh(got).min() > -1e-6, "{}: negative eigenvalue", what)
        require(mk.close(got, want, 1e-6), "{} differs from the reference by {:.3g}", what,
                np.max(np.abs(got - want)))

    clean = reference(case, flow, order, None, 0)
    noise, p = case["noise"], case["p"]
    want = reference(case, flow, order, noise, p)
    require(abs(np.trace(want) - 1) < 1e-9, "reference")
    sim, got = run(noise, p)
    compare(got, want, f"{noise} with strength {p}")
    second = {**case, "theta": case["theta2"]}
    again = mk.array(sim.run(sims.train_angles(second, mc)), (d, d), "second run")
    compare(again, reference(second, flow, order, noise, p), f"second run with {noise} {p}")
    _, got0 = run(noise, 0)
    compare(got0, clean, f"{noise} with strength 0")
    _, plain = run(None, None)
    compare(plain, clean, "the mixed device without noise")
    if case["bad"] is not None:
        if isinstance(case["bad"], str):
            mk.raises(lambda: run(case["bad"], p), (ValueError, NotImplementedError),
                      f"noise {case['bad']!r}")
        else:
            mk.raises(lambda: run(noise, case["bad"]), ValueError,
                      f"{noise} with strength {case['bad']}")
        t.label("refusal")
    t.label(noise, "p=0" if p == 0 else "p=1" if p == 1 else "0<p<1",
            f"{len(case['meas'])} measured")
    t.interesting(bool(case["meas"]) and not mk.close(want, clean, 1e-3))


SUBS = [
    Sub("channels", case_strategy, check, 800, 8000,
        rule="flow circuits with a noisy resource state against a density-matrix reference "
             "summing all outcome branches; non-trivial: a node is measured and the noise "
             "changes the output by more than 1e-3"),
    Sub("large", lambda: case_strategy(7), check, 80, 800, rule="as channels, up to 7 nodes"),
]
