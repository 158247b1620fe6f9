"""C34: analysis functions leave their arguments alone and answer alike every time."""
import contextlib
import io
import os
import random
import sys
import warnings

import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
from hypothesis import strategies as st

import mentpy as mp
from mentpy.mbqc.flow import find_cflow, find_flow, find_gflow
from mentpy.mbqc.states.graphstate import GraphState, entanglement_entropy
from mentpy.operators import ControlMent, Ment, PauliOp, gates
from mentpy.optimizers import AdamOptimizer, SGDOptimizer

from pbt import gen, mk
from pbt.core import Skip, Sub, Violation, require
from pbt.props import c09

CONSTANTS = {k: v.copy() for k, v in vars(gates).items() if isinstance(v, np.ndarray)}
U, CALC, TPL = mp.utils, mp.calculator, mp.templates


# what an object says, as plain data -------------------------------------------------

def canon(x, funs=()):
    """A plain form of anything a query takes or returns. `funs` are the points at which
    functions (flows, partial orders) are read off."""
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, mp.MBQCircuit):
        d = c09.facts(x)
        return ["circuit"] + [[k, canon(d[k])] for k in sorted(d)]
    if isinstance(x, PauliOp):
        return ["paulis", x.txt, np.asarray(x.matrix).astype(int).tolist(),
                [p.txt for p in list(x)] if len(x) > 1 else [x.txt]]
    if isinstance(x, ControlMent):
        return ["control", str(type(x).__name__), x.is_trainable(), canon(x.node_id)]
    if isinstance(x, Ment):
        return ["ment", x.plane, canon(x.angle), canon(x.node_id)]
    if isinstance(x, nx.Graph):
        return ["graph", sorted(map(repr, x.nodes)),
                sorted(sorted(map(repr, e)) for e in x.edges)]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["array", list(x.shape), [canon(v) for v in x.ravel()]]
        y = np.asarray(x)
        return ["array", list(y.shape), y.ravel().astype(complex).tolist()]
    if isinstance(x, (int, float, complex, np.number, np.bool_)):
        return complex(x)
    if isinstance(x, dict):
        return ["dict"] + sorted(([repr(k), canon(v)] for k, v in x.items()),
                                 key=lambda p: p[0])
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(map(repr, x))
    if isinstance(x, (list, tuple)):
        return ["seq"] + [canon(v) for v in x]
    return ["other", type(x).__name__]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, complex) and isinstance(b, complex):
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a)) or (a != a and b != b)
    return type(a) == type(b) and a == b


def scribble(x):
    """Overwrites an answer, as its owner may."""
    if isinstance(x, PauliOp):
        x.append(PauliOp("Y" * x.number_of_qubits))
    elif isinstance(x, mp.MBQCircuit):
        for v in list(x.graph.nodes):
            if v not in x.output_nodes:
                x[v] = Ment("Y") if x[v] is None or x[v].plane != "Y" else Ment("X")
    elif isinstance(x, nx.Graph):
        x.add_edge("new", "newer")
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype != object:
            x[...] = 1 - np.asarray(x).astype(int) % 2 if type(x) is not np.ndarray else 7
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def edit(x, k):
    """Changes an argument in place, into another valid one."""
    if isinstance(x, PauliOp):
        x.append(PauliOp("".join("IXYZ"[(k + i) % 4] for i in range(x.number_of_qubits))))
    elif isinstance(x, mp.MBQCircuit):
        vs = [v for v in x.graph.nodes if v not in x.output_nodes]
        if vs:
            x[vs[k % len(vs)]] = Ment("X") if k % 2 else Ment(0.1 * k, "XY")
    elif isinstance(x, Ment):
        if not isinstance(x, ControlMent) and x.plane in ("XY", "XZ", "YZ"):
            x.set_angle(0.1 * k)
    elif isinstance(x, nx.Graph):
        pairs = [(u, v) for u in x.nodes for v in x.nodes if u < v]
        if pairs:
            e = pairs[k % len(pairs)]
            x.remove_edge(*e) if x.has_edge(*e) else x.add_edge(*e)
    elif isinstance(x, np.ndarray):
        x[...] = np.flip(x).copy()
    elif isinstance(x, list):
        for v in x:
            edit(v, k)


# the queries ------------------------------------------------------------------------

QUERIES = {}


def query(name, strategy, make, call, own=True):
    """name, strategy of JSON arguments, JSON -> list of arguments, arguments -> answer.
    own: the answer belongs to the caller (False: it may be one of the arguments)."""
    QUERIES[name] = (strategy, make, call, own)


def table(flow, points):
    return {v: flow(v) for v in points}


def flow_args(c):
    g = c["g"]
    return [mk.graph(g), list(g["inputs"]), list(g["outputs"])]


def gargs():
    return st.one_of(gen.flow_graphs(max_nodes=6), gen.open_graphs(max_nodes=5)).map(
        lambda g: {"g": g})


def cflow(finder):
    def call(gr, i, o):
        with contextlib.redirect_stdout(io.StringIO()):
            f, po, *rest = finder(gr, i, o)
        if f is None:
            return [None]
        return [table(f, [v for v in gr if v not in o]),
                [bool(po(u, v)) for u in gr for v in gr]] + rest
    return call


for _n, _f in (("find_cflow", find_cflow), ("find_gflow", find_gflow),
               ("find_flow", find_flow)):
    query(_n, gargs, flow_args, cflow(_f))
query("stabilizers", gargs, lambda c: [mk.graph(c["g"])], lambda g: g.stabilizers())
query("index_mapping", gargs, lambda c: [mk.graph(c["g"])], lambda g: g.index_mapping())
query("entanglement_entropy",
      lambda: gen.open_graphs(max_nodes=6).flatmap(lambda g: st.fixed_dictionaries(
          {"g": st.just(g), "s": st.lists(st.integers(0, g["n"] - 1), unique=True,
                                          max_size=g["n"])})),
      lambda c: [mk.graph(c["g"]), list(c["s"])], entanglement_entropy)
query("are_lc_equivalent",
      lambda: st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries(
          {"a": gen.open_graphs(max_nodes=n, min_nodes=n),
           "b": gen.open_graphs(max_nodes=n, min_nodes=n),
           "form": st.sampled_from(["none", "tensor", "global"])})),
      lambda c: [mk.graph(c["a"]), mk.graph(c["b"]),
                 None if c["form"] == "none" else c["form"]],
      lambda a, b, f: U.are_lc_equivalent(a, b) if f is None else
      U.are_lc_equivalent(a, b, clifford_form=f))


@st.composite
def circ(draw, max_nodes=6, ments=("X", "Y", "XY", "XY", "XY")):
    g = draw(gen.flow_graphs(max_nodes=max_nodes))
    return {"g": g, "m": draw(gen.measured(g, gen.meas_specs(ments)))}


def circuit(c):
    return mk.circuit(c["g"], c["m"])


query("MBQCircuit", circ,
      lambda c: [mk.graph(c["g"]), list(c["g"]["inputs"]), list(c["g"]["outputs"]),
                 {int(v): mk.ment(m) for v, m in c["m"].items()}],
      lambda g, i, o, m: mp.MBQCircuit(g, input_nodes=i, output_nodes=o, measurements=m))
query("circuit answers", circ, lambda c: [circuit(c)],
      lambda mc: [mc.index_mapping(), mc.stabilizers(), list(mc.measurement_order),
                  mc.calculate_order(), list(mc.trainable_nodes), dict(mc.planes)])
query("circuit order", circ, lambda c: [circuit(c)], lambda mc: mc.calculate_order())
for _k in ("gens_lie_algebra", "complete_gens_lie_algebra", "lie_algebra"):
    query(_k, lambda: circ(6, ("XY",)), lambda c: [circuit(c)],
          getattr(U, "calculate_" + _k))


def pair():
    return st.integers(1, 2).flatmap(lambda w: st.tuples(*[
        gen.flow_graphs(max_nodes=5, min_wires=w, max_wires=w).flatmap(
            lambda g: gen.measured(g, gen.meas_specs(("X", "XY"))).map(
                lambda m: {"g": g, "m": m}))] * 2).map(lambda p: {"a": p[0], "b": p[1]}))


query("hstack", pair, lambda c: [[circuit(c["a"]), circuit(c["b"])]], mp.hstack)
query("vstack", pair, lambda c: [[circuit(c["a"]), circuit(c["b"])]], mp.vstack)
query("merge", lambda: pair().flatmap(lambda p: st.fixed_dictionaries(
    {"a": st.just(p["a"]), "b": st.just(p["b"]),
     "alongs": st.just([[o, i] for o, i in zip(p["a"]["g"]["outputs"],
                                               p["b"]["g"]["inputs"])])})),
      lambda c: [circuit(c["a"]), circuit(c["b"]), [tuple(x) for x in c["alongs"]]],
      lambda a, b, al: mp.merge(a, b, along=al))

# matrices
SQ = lambda n: gen.amplitudes(n)
MAT = ("swap_ij", "cnot_ij", "controlled_z")
for _k in MAT:
    query(_k, lambda: st.integers(2, 4).flatmap(lambda n: st.permutations(range(n)).map(
        lambda p: {"n": n, "i": p[0], "j": p[1]})),
        lambda c: [c["i"], c["j"], c["n"]], getattr(gates, _k))
query("arbitrary_qubit_gate",
      lambda: st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries(
          {"n": st.just(n), "i": st.integers(0, n - 1), "a": gen.amplitudes(2)})),
      lambda c: [gen.to_state(c["a"]).reshape(2, 2), c["i"], c["n"]],
      gates.arbitrary_qubit_gate)
query("swap_qubits",
      lambda: st.integers(2, 4).flatmap(lambda n: st.fixed_dictionaries(
          {"p": st.permutations(range(n)), "a": gen.amplitudes(n)})),
      lambda c: [gen.to_state(c["a"]), c["p"][0], c["p"][1]], gates.swap_qubits)
query("pure2density", lambda: st.integers(1, 3).flatmap(gen.amplitudes).map(
    lambda a: {"a": a}), lambda c: [gen.to_state(c["a"])], CALC.pure2density)


def traced():
    return st.integers(2, 4).flatmap(lambda n: st.fixed_dictionaries(
        {"a": gen.amplitudes(n), "s": st.lists(st.integers(0, n - 1), unique=True,
                                               min_size=1, max_size=n - 1)}))


query("partial_trace of a vector", traced,
      lambda c: [gen.to_state(c["a"]), list(c["s"])], CALC.partial_trace)
query("partial_trace of a matrix", traced,
      lambda c: [np.outer(gen.to_state(c["a"]), np.conj(gen.to_state(c["a"]))),
                 list(c["s"])], CALC.partial_trace)
query("fidelity", lambda: st.integers(1, 2).flatmap(lambda n: st.fixed_dictionaries(
    {"a": gen.amplitudes(n), "b": gen.amplitudes(n)})),
    lambda c: [np.outer(v, np.conj(v)) for v in (gen.to_state(c["a"]),
                                                 gen.to_state(c["b"]))], CALC.fidelity)


def gf2():
    import galois

    return galois.GF(2)


@st.composite
def system(draw):
    r, k = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    bits = lambda n: st.lists(st.integers(0, 1), min_size=n, max_size=n)
    a = [draw(bits(k)) for _ in range(r)]
    x = draw(bits(k))
    b = [sum(p * q for p, q in zip(row, x)) % 2 for row in a]
    return {"a": a, "b": b, "gf": draw(st.booleans())}


query("solve", system,
      lambda c: [gf2()(c["a"]), gf2()(c["b"])] if c["gf"] else
      [np.array(c["a"]), np.array(c["b"])], CALC.solve)

# measurements
query("Ment.matrix", lambda: gen.meas_specs(("X", "Y", "Z", "XY", "XZ", "YZ", "XYZ"),
                                            trainable=False).map(lambda m: {"m": m}),
      lambda c: [mk.ment(c["m"])], lambda m: m.matrix())
query("Ment.get_povm", lambda: gen.meas_specs(("X", "Y", "Z", "XY", "XZ", "YZ", "XYZ"),
                                              trainable=False).map(lambda m: {"m": m}),
      lambda c: [mk.ment(c["m"])], lambda m: m.get_povm())


@st.composite
def control(draw):
    spec = gen.meas_specs(("X", "Y", "Z", "XY", "XZ", "YZ"), trainable=False)
    return {"t": draw(spec), "f": draw(spec), "o": draw(st.integers(0, 1))}


def conditional(c):
    a = Ment("X")
    a.node_id = 0
    (tp, ta), (fp, fa) = c["t"], c["f"]
    return [ControlMent(a.outcome, ta, tp, fa, fp), {0: c["o"]}]


for _k in ("matrix", "get_povm"):
    query("ControlMent." + _k, control, conditional,
          lambda m, o, k=_k: getattr(m, k)(None, o))

# Pauli lists


@st.composite
def words(draw, rows=4, min_rows=1):
    n = draw(st.integers(1, 3))
    w = st.text("IXYZ", min_size=n, max_size=n)
    return {"p": draw(st.lists(w, min_size=min_rows, max_size=rows)),
            "q": draw(st.lists(w, min_size=1, max_size=1)), "k": draw(st.integers(0, 9))}


P = lambda ws: PauliOp(";".join(ws))
query("PauliOp(text)", words, lambda c: [";".join(c["p"])], PauliOp)
query("PauliOp(list)", words, lambda c: [list(c["p"])], PauliOp)
query("PauliOp(matrix)", words, lambda c: [np.array(P(c["p"]).matrix).astype(int)], PauliOp)
query("PauliOp product", words, lambda c: [P(c["p"]), P(c["q"])], lambda a, b: a * b)
query("PauliOp commutator", words, lambda c: [P(c["p"][:1]), P(c["q"])],
      lambda a, b: a.commutator(b))
query("PauliOp symplectic_prod", words, lambda c: [P(c["p"]), P(c["q"])],
      lambda a, b: a.symplectic_prod(b))
query("PauliOp subset", words,
      lambda c: [P(c["p"]), [c["k"] % len(c["p"][0])]], lambda a, i: a.get_subset(i))
query("PauliOp slice", words, lambda c: [P(c["p"]), c["k"] % len(c["p"])],
      lambda a, i: a[i:])
query("PauliOp row", lambda: words(min_rows=2), lambda c: [P(c["p"]), c["k"] % len(c["p"])],
      lambda a, i: a[i].txt)
query("PauliOp contains", words, lambda c: [P(c["p"]), P(c["q"])],
      lambda a, b: [b in a, a == b, hash(b) == hash(PauliOp(b.txt))])
query("lie_algebra_completion", words, lambda c: [P(c["p"])], U.lie_algebra_completion)
query("remove_repeated_ops", words, lambda c: [P(c["p"])], U.remove_repeated_ops)

# numbers
query("haar", lambda: st.fixed_dictionaries(
    {"n": st.integers(2, 16), "f": st.lists(st.floats(0, 1), min_size=1, max_size=5)}),
    lambda c: [np.array(c["f"]), c["n"]],
    lambda f, n: U.haar_probability_density_of_fidelities(f, n))
POLY = lambda: st.fixed_dictionaries(
    {"x": st.lists(st.floats(-3, 3).map(lambda v: round(v, 2)), min_size=1, max_size=4),
     "m": st.sampled_from(["fd", "psr"])})


def surface(x):
    return float(np.sum(np.cos(np.asarray(x, float) + np.arange(len(x)))))


query("get_gradient", POLY, lambda c: [np.array(c["x"]), c["m"]],
      lambda x, m: mp.gradients.get_gradient(surface, x, method=m))
query("get_hessian", POLY, lambda c: [np.array(c["x"]), c["m"]],
      lambda x, m: mp.gradients.get_hessian(surface, x, method=m))
for _k, _o in (("sgd", SGDOptimizer), ("adam", AdamOptimizer)):
    query(_k, POLY, lambda c: [np.array(c["x"])],
          lambda x, o=_o: o(step_size=0.1).optimize(surface, x, num_iters=4))

# templates
query("linear_cluster", lambda: st.fixed_dictionaries({"n": st.integers(2, 5)}),
      lambda c: [c["n"]], TPL.linear_cluster)
query("many_wires", lambda: st.fixed_dictionaries(
    {"w": st.lists(st.integers(2, 4), min_size=1, max_size=3)}),
    lambda c: [list(c["w"])], TPL.many_wires)
query("grid_cluster", lambda: st.fixed_dictionaries(
    {"n": st.integers(2, 3), "m": st.integers(2, 3), "p": st.booleans()}),
    lambda c: [c["n"], c["m"], c["p"]], lambda n, m, p: TPL.grid_cluster(n, m, periodic=p))
query("muta", lambda: st.fixed_dictionaries(
    {"n": st.integers(2, 3), "d": st.integers(1, 1), "one": st.booleans()}),
    lambda c: [c["n"], c["d"], c["one"]],
    lambda n, d, one: TPL.muta(n, d, one_column=one))
query("from_pauli", lambda: st.integers(1, 3).flatmap(lambda n: st.text(
    "IXYZ", min_size=n, max_size=n)).filter(lambda w: set(w) != {"I"}).map(
        lambda w: {"p": w}), lambda c: [PauliOp(c["p"])], TPL.from_pauli)
query("flow space", lambda: st.fixed_dictionaries({"k": st.integers(0, 1)}),
      lambda c: [mk.circuit({"n": 3, "edges": [[0, 1], [1, 2]], "inputs": [0],
                             "outputs": [2 - c["k"]]}, None)],
      lambda mc: [[getattr(s, k).number_of_nodes(), getattr(s, k).number_of_edges()]
                  for s in [U.FlowSpace(mc)]
                  for k in ("flow_graph_space", "total_graph_space", "no_flow_graph_space")])


# simulation results and expectation values of repeated runs
def run(backend):
    def call(mc, theta, psi):
        sim = mp.PatternSimulator(mc, backend=backend)
        sim.reset(psi)
        return [sim(theta), dict(sim.outcomes)]
    return call


@st.composite
def simulated(draw):
    c = draw(circ(5))
    c["psi"] = draw(gen.amplitudes(len(c["g"]["inputs"])))
    c["theta"] = [draw(gen.angles()) for _ in range(c["g"]["n"])]
    return c


def sim_args(c):
    mc = circuit(c)
    return [mc, np.array([c["theta"][v] for v in mc.trainable_nodes], float),
            gen.to_state(c["psi"])]


for _k in ("numpy-dm", "numpy-sv"):
    query("simulate " + _k, simulated, sim_args, run(_k))

# the checks -------------------------------------------------------------------------


def queries_case(names, max_size=5):
    @st.composite
    def case(draw):
        ks = draw(st.lists(st.sampled_from(names), min_size=1, max_size=max_size))
        return {"queries": [[k, draw(QUERIES[k][0]())] for k in ks],
                "again": draw(st.permutations(range(len(ks)))) + draw(st.lists(
                    st.integers(0, len(ks) - 1), max_size=4)),
                "scribble": draw(st.booleans()), "fresh": draw(st.booleans()),
                "edit": draw(st.one_of(st.none(), st.integers(0, 20)))}
    return case


def surroundings():
    """What other code in the process relies on."""
    name, keys, pos, gauss, cached = np.random.get_state()
    return {"numpy's random generator": (name, hash(keys.tobytes()), pos, gauss, cached),
            "the random generator": hash(random.getstate()),
            "numpy's error handling": np.geterr(),
            "numpy's print options": repr(np.get_printoptions()),
            "the working directory": os.getcwd(), "the environment": dict(os.environ),
            "the recursion limit": sys.getrecursionlimit(),
            "the open figures": plt.get_fignums()}


def ask(k, call, args):
    before = surroundings()
    try:
        ans = call(*args)
    except Exception as e:  # refusals are answers, too
        ans = ["refused", type(e).__name__]
    for what, now in surroundings().items():
        require(now == before[what], "{} changed {}", k, what)
    return ans


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


def check(case, t):
    warnings.simplefilter("ignore")
    try:
        history(case, t)
    finally:
        for k, v in CONSTANTS.items():  # a violation must not spoil the next case
            getattr(gates, k)[...] = v


def history(case, t):
    state = []
    for k, a in case["queries"]:
        _, make, call, own = QUERIES[k]
        args = make(a)
        before = canon(args)
        ans = ask(k, call, args)
        first = canon(ans)
        now = canon(args)
        require(same(before, now), "{} changed its arguments from {} to {}", k,
                short(before), short(now))
        if case["scribble"]:
            scribble(ans)
            now = canon(args)
            require(not own or same(before, now),
                    "overwriting the answer of {} changed its arguments from {} to {}", k,
                    short(before), short(now))
            t.label("answer overwritten")
        state.append((k, a, args, before, first))
        t.label(k)
        if isinstance(first, list) and first[:2] == ["seq", "refused"]:
            t.label("refused " + k)
    asked = set()
    for i in case["again"]:
        k, a, args, before, first = state[i]
        _, make, call, own = QUERIES[k]
        if case["fresh"] and i not in asked:
            args = make(a)
            asked.add(i)
            t.label("equal arguments")
        else:
            t.label("same arguments")
        now = canon(args)
        require(same(now, before), "the arguments of {} changed from {} to {}", k,
                short(before), short(now))
        got = canon(ask(k, call, args))
        require(same(first, got), "{} answered {} and later {}", k, short(first), short(got))
    if case["edit"] is not None:
        for k, a, args, before, first in state:
            _, make, call, own = QUERIES[k]
            new = make(a)
            edit(args, case["edit"])
            edit(new, case["edit"])
            now, then = canon(ask(k, call, args)), canon(ask(k, call, new))
            require(same(then, now), "{} answers {} once its arguments changed, but {} if "
                    "asked for the first time", k, short(now), short(then))
            t.label("edited arguments", *(["edits change " + k] if then != first else []))
    t.interesting(len(case["queries"]) > 1 or case["scribble"] or case["edit"] is not None)


LIGHT = [k for k in QUERIES if not k.startswith(("simulate", "muta", "flow space"))]
HEAVY = [k for k in QUERIES if k not in LIGHT]

SUBS = [
    Sub("queries", queries_case(LIGHT), check, 3000, 40000,
        rule="non-trivial: several queries, or answers overwritten, or arguments edited"),
    Sub("simulations", queries_case(HEAVY, 3), check, 240, 3000, rule="as queries"),
]
