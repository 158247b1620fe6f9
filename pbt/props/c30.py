"""C30: Haar statistics helpers follow the exact formulas."""
import math

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c26 import seeded

U = mp.utils


@st.composite
def density_case(draw, lo=1, hi=7):
    return {"n": draw(st.integers(lo, hi)), "F": draw(st.one_of(
        st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1))), "G": draw(st.floats(0, 1)),
        "array": draw(st.booleans())}


def check_density_large(case, t):
    """Beyond the reach of quadrature: the values, near and far from zero."""
    n, N = case["n"], 2 ** case["n"]
    p = U.haar_probability_density_of_fidelities
    for x in (case["F"], case["G"], case["F"] / N, case["G"] / N, 3 * case["G"] / N, 0.0, 1.0):
        got = p(np.array([x, x]), n)[1] if case["array"] else p(x, n)
        want = (N - 1) * math.pow(1 - x, N - 2)
        require(np.isclose(float(got), want, rtol=1e-6, atol=1e-12), "density at {} for {} "
                "qubits is {}, expected {}", x, n, got, want)
    t.interesting(0 < case["G"] < 1)


def check_density(case, t):
    n, N = case["n"], 2 ** case["n"]
    p = U.haar_probability_density_of_fidelities
    F, G = sorted((case["F"], case["G"]))
    if case["array"]:
        got = mk.array(p(np.array([F, G]), n), (2,), "density").real
    else:
        got = [float(p(F, n)), float(p(G, n))]
    want = [(N - 1) * math.pow(1 - x, N - 2) for x in (F, G)]
    require(np.allclose(got, want, rtol=1e-9, atol=1e-12), "density at {} is {}, expected {}",
            (F, G), got, want)
    require(got[0] >= got[1] - 1e-12 and min(got) >= 0, "density increases from {} to {}", *got)
    # probability of an interval against P(F <= x) = 1 - (1-x)^(N-1), by Gauss quadrature
    xs, ws = np.polynomial.legendre.leggauss(70)
    mid, half = (F + G) / 2, (G - F) / 2
    mass = half * sum(w * float(p(mid + half * x, n)) for x, w in zip(xs, ws))
    exact = math.pow(1 - F, N - 1) - math.pow(1 - G, N - 1)
    require(abs(mass - exact) < 1e-8, "interval ({}, {}) has probability {}, expected {}", F,
            G, mass, exact)
    whole = 0.5 * sum(w * float(p(0.5 + 0.5 * x, n)) for x, w in zip(xs, ws))
    require(abs(whole - 1) < 1e-8, "total probability {}", whole)
    t.interesting(n > 1 and G - F > 1e-3 and G < 1)


@st.composite
def circuit_case(draw):
    w = draw(st.integers(1, 2))
    n = draw(st.sampled_from([3, 4, 5])) if w == 1 else draw(st.sampled_from([2, 3]))
    free = draw(st.lists(st.sampled_from([None, "X", 0.0, 1.3, math.pi]), min_size=w * (n - 1),
                         max_size=w * (n - 1)))
    return {"w": w, "n": n, "free": free, "seed": draw(st.integers(0, 2**31)),
            "samples": draw(st.integers(1, 16)), "bins": draw(st.sampled_from([1, 5, 10, 33])),
            "method": draw(st.sampled_from(["KL", "RE", "JS", None]))}


def circuit(case):
    mc = mp.templates.linear_cluster(case["n"]) if case["w"] == 1 else \
        mp.templates.grid_cluster(case["w"], case["n"])
    for v, s in zip([v for v in mc.graph.nodes if v not in mc.output_nodes], case["free"]):
        mc[v] = mp.Ment("X") if s == "X" else mp.Ment("XY") if s is None else mp.Ment(s, "XY")
    return mc


def check_samples(case, t):
    """Sampled fidelities are fidelities; for circuits without parameters they follow from
    the circuit's unitary."""
    mc = circuit(case)
    k = case["samples"]
    F = seeded(case["seed"], lambda: U.sample_probability_density_of_fidelities(
        mc, n_samples=k))
    require(len(F) == k, "{} fidelities instead of {}", len(F), k)
    F = np.array([float(np.real(x)) for x in F])
    require((F >= 0).all() and (F <= 1).all(), "fidelities {}", F)
    if None not in case["free"]:
        bases = {v: ("X", 0, 0) if s == "X" else ("XY", s, 0) for v, s in
                 zip([v for v in mc.graph.nodes if v not in mc.output_nodes], case["free"])}
        M = ref.pattern_matrix(list(mc.graph.nodes), list(mc.graph.edges), mc.input_nodes,
                               bases, mc.output_nodes)
        lam = M / np.sqrt(np.trace(M.conj().T @ M).real / len(M))
        # |<psi|U|psi>|^2 lies between the squared distance of 0 from the numerical range
        # of U and 1
        ang = np.sort(np.angle(np.linalg.eigvals(lam)))
        gap = np.append(np.diff(ang), 2 * np.pi - (ang[-1] - ang[0])).max()
        low = 0 if gap <= np.pi else math.cos((2 * np.pi - gap) / 2) ** 2
        require(F.min() >= low - 1e-6, "fidelity {} below {}", F.min(), low)
        t.label("fixed circuit", "identity" if low > 1 - 1e-9 else "other")
    else:
        t.label("trainable")
        require(k < 4 or np.ptp(F) > 1e-6, "random parameters give constant fidelity {}", F)
    t.interesting(k > 1)


def check_expressivity(case, t):
    mc = circuit(case)
    k, bins, method = case["samples"], case["bins"], case["method"]
    N = 2 ** len(mc.output_nodes)
    kw = {} if method is None else {"method": method}
    method = method or "KL"
    got = seeded(case["seed"], lambda: U.expressivity_with_histogram(
        mc, n_samples=k, n_bins=bins, **kw))
    got = float(got)
    F = seeded(case["seed"], lambda: U.sample_probability_density_of_fidelities(
        mc, n_samples=k))
    counts = np.zeros(bins)
    for x in F:
        counts[min(int(float(np.real(x)) * bins), bins - 1)] += 1
    p = counts / k
    mids = (np.arange(bins) + 0.5) / bins
    q = (N - 1) * (1 - mids) ** (N - 2) / bins
    xlog = lambda a, b: sum(x * math.log(x / y) for x, y in zip(a, b) if x > 0)
    if method == "KL":
        want = xlog(p, q) + q.sum() - p.sum()
    elif method == "RE":
        want = xlog(p, q)
    else:
        qn = q / q.sum()
        m = (p + qn) / 2
        want = math.sqrt(max(0.0, (xlog(p, m) + xlog(qn, m)) / 2))
    edge = np.array([float(np.real(x)) for x in F]) * bins
    if (np.abs(edge - np.round(edge)) < 1e-6).any() and bins > 1:
        near = np.abs(edge - np.round(edge)) < 1e-6
        if ((np.round(edge)[near] > 0) & (np.round(edge)[near] < bins)).any():
            raise Skip  # a sample on the border of two bins
    require(abs(got - want) < 1e-5, "{} expressivity {} expected {}", method, got, want)
    if method != "RE":
        require(got >= -1e-9, "negative {} divergence {}", method, got)
    t.label(method)
    t.interesting(bins > 1 and k > 1)


def check_bad(case, t):
    mc = mp.templates.linear_cluster(3)
    mk.raises(lambda: U.expressivity_with_histogram(mc, n_samples=1, n_bins=2,
                                                    method=case["method"]), UserWarning,
              f"method {case['method']!r}")
    t.interesting()


@st.composite
def space_case(draw):
    n, k = draw(st.sampled_from([(2, 1), (3, 2), (4, 2), (4, 2), (4, 2)]))
    ins, outs = draw(st.permutations(range(n))), draw(st.permutations(range(n)))
    return {"n": n, "i": list(ins[:k]), "o": list(outs[:k]), "seed": draw(st.integers(0, 2**31)),
            "method": draw(st.sampled_from(["KL", "JS"]))}


def check_space(case, t):
    """The comparison of a flow space points from the less to the more expressive circuit
    of every neighbouring pair."""
    g = mp.GraphState()
    g.add_nodes_from(range(case["n"]))
    fs = U.FlowSpace(mp.MBQCircuit(g, input_nodes=case["i"], output_nodes=case["o"]))
    d = seeded(case["seed"], lambda: U.digraph_expressivity_of_flow_space(
        fs, method=case["method"], n_samples=5, n_bins=8))
    require(set(d.nodes) == set(fs.flow_graph_space.nodes), "nodes {}", list(d.nodes))
    require({frozenset(e) for e in d.edges} ==
            {frozenset(e) for e in fs.flow_graph_space.edges} and
            len(d.edges) == len(fs.flow_graph_space.edges), "edges {}", list(d.edges))
    for a, b in d.edges:
        require(d.nodes[a]["expr"] >= d.nodes[b]["expr"], "edge from {} to {}",
                d.nodes[a]["expr"], d.nodes[b]["expr"])
    for v in d.nodes:
        require(d.nodes[v]["mbqc_circuit"] is fs.flow_graph_space.nodes[v]["mbqc_circuit"],
                "node {} carries another circuit", v)
        require(float(d.nodes[v]["expr"]) >= 0, "expressivity {}", d.nodes[v]["expr"])
    t.interesting(len(d.edges) >= 1)


SUBS = [
    Sub("density", density_case, check_density, 1500,
        rule="non-trivial: several qubits and a proper interval"),
    Sub("density large", lambda: density_case(8, 30), check_density_large, 300,
        rule="8 to 30 qubits; non-trivial: inside the interval"),
    Sub("samples", circuit_case, check_samples, 160, rule="non-trivial: several samples"),
    Sub("expressivity", circuit_case, check_expressivity, 160,
        rule="all three divergences recomputed from the same samples; non-trivial: several "
             "bins and samples"),
    Sub("refused", lambda: st.fixed_dictionaries({"method": st.sampled_from(
        ["", "kl", "TV", None, "KLD"])}), check_bad, 10, rule="all non-trivial"),
    Sub("flow space", space_case, check_space, 16, 60, rule="non-trivial: some neighbours"),
]
