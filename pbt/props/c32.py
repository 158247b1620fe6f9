"""C32: invalid requests are refused and change nothing."""
import warnings

import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require
from pbt.props.c09 import compare, facts

ANY = Exception


@st.composite
def build_case(draw, max_nodes=7, max_wires=3):
    g = draw(st.one_of(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires),
                       gen.open_graphs(max_nodes=max_nodes - 1)))
    return {"graph": g, "meas": draw(gen.measured(g, gen.meas_specs())),
            "relabel": draw(st.booleans()), "names": draw(st.sampled_from(["int", "str"])),
            "pick": draw(st.integers(0, 50))}


def check_build(case, t):
    """Circuits whose parts do not fit are not built, and the parts are left alone."""
    warnings.simplefilter("ignore")
    g, n, k = case["graph"], case["graph"]["n"], case["pick"]
    nm = (lambda v: f"q{v}") if case["names"] == "str" else (lambda v: v)
    alien = nm(n + 3)
    gr = mp.GraphState()
    gr.add_nodes_from(map(nm, range(n)))
    gr.add_edges_from((nm(a), nm(b)) for a, b in g["edges"])

    def parts():
        return {"input_nodes": [nm(v) for v in g["inputs"]],
                "output_nodes": [nm(v) for v in g["outputs"]],
                "measurements": {nm(int(v)): mk.ment(s) for v, s in case["meas"].items()},
                "relabel_indices": case["relabel"]}

    good = facts(mp.MBQCircuit(gr, **parts()))
    for what, change in (
            ("an unknown input", lambda p: p["input_nodes"].__setitem__(
                k % len(g["inputs"]), alien)),
            ("an unknown output", lambda p: p["output_nodes"].__setitem__(
                k % len(g["outputs"]), alien)),
            ("a measurement of an unknown node", lambda p: p["measurements"].update(
                {alien: mp.Ment("X")})),
            ("a measurement that is text", lambda p: p["measurements"].update(
                {nm(k % n): "XY"})),
            ("a measurement that is a number", lambda p: p["measurements"].update(
                {nm(k % n): 0.5})),
            ("a measurement that is zero", lambda p: p["measurements"].update({nm(k % n): 0})),
            ("a measurement that is false", lambda p: p["measurements"].update(
                {nm(k % n): False})),
            ("a measurement that is empty", lambda p: p["measurements"].update(
                {nm(k % n): [(), "", {}, []][k % 4]})),
            ("a default measurement that is false", lambda p: p.update(
                default_measurement=[False, 0, "", ()][k % 4])),
            ("a default measurement that is text", lambda p: p.update(
                default_measurement="X")),
            ("no default measurement", lambda p: p.update(default_measurement=None))):
        p = parts()
        change(p)
        before = (list(p["input_nodes"]), list(p["output_nodes"]), dict(p["measurements"]))
        mk.raises(lambda: mp.MBQCircuit(gr, **p), ANY, "a circuit with " + what)
        require((p["input_nodes"], p["output_nodes"], p["measurements"]) == before,
                "the arguments changed while {} was refused", what)
        require(list(gr.nodes) == [nm(v) for v in range(n)] and
                {frozenset(e) for e in gr.edges} == {frozenset((nm(a), nm(b)))
                                                     for a, b in g["edges"]},
                "the graph changed while {} was refused", what)
    compare(facts(mp.MBQCircuit(gr, **parts())), good, "a good circuit afterwards")
    t.label(case["names"], "relabelled" if case["relabel"] else "kept names")
    t.interesting(n >= 2)


@st.composite
def sim_case(draw):
    backend = draw(st.sampled_from(["numpy-dm", "numpy-sv", "numpy-dm", "numpy-sv",
                                    "pennylane"]))
    g = draw(gen.flow_graphs(max_nodes=7, max_wires=3))
    m = draw(gen.measured(g, gen.meas_specs(("X", "Y", "XY", "XY", "XY"))))
    ops = ["few", "many", "none", "after"]
    if backend != "pennylane":
        ops += ["no angle", "other angle", "exhausted", "window", "schedule", "force0", "size"]
    return {"graph": g, "meas": m, "backend": backend,
            "theta": draw(st.lists(gen.generic_angles(), min_size=g["n"], max_size=g["n"])),
            "psi": draw(gen.amplitudes(len(g["inputs"]))),
            "ops": draw(st.lists(st.tuples(st.sampled_from(ops), st.integers(0, 20)).map(list),
                                 min_size=2, max_size=6)),
            "measure": draw(st.integers(0, 3))}


def need_window(case, mc):
    return sims.small_window(case, mc, 7)


def check_sim(case, t):
    warnings.simplefilter("ignore")
    g, n = case["graph"], case["graph"]["n"]
    mc = mk.circuit(g, case["meas"])
    numpy = case["backend"] != "pennylane"
    if numpy:
        need = max(need_window(case, mc), len(g["outputs"]), 1)
    psi = gen.to_state(case["psi"])
    angles = sims.train_angles(case, mc)
    outs = sims.expected_outputs(case, mc)
    vec, probs = sims.reference(case, {v: 0 for v in range(n)}, outs,
                                list(mc.measurement_order))
    if vec is None or min(list(probs.values()) + [1]) < 1e-3:
        raise Skip("the zero branch is unlikely")
    before = facts(mc)
    todo = [v for v in mc.measurement_order if str(v) in case["meas"]]

    def new(**kw):
        kw.setdefault("input_state", psi.copy())
        return mp.PatternSimulator(mc, backend=case["backend"], **kw)

    def step(sim, v):
        return sim.measure(case["theta"][v] if v in mc.trainable_nodes else mc[v].angle)

    def finish(sim, at, what):
        """The simulator goes on from where it was."""
        if at == 0:
            out = mk.array(sim.run(angles), (2 ** len(outs),) * 2, "output")
            require(mk.close(out, ref.dm(vec)), "{}: the run differs by {:.3g}", what,
                    np.max(np.abs(out - ref.dm(vec))))
            return
        for v in todo[at:]:
            step(sim, v)
        state = np.asarray(sim.qstate)
        rho = state if state.ndim == 2 else ref.dm(state)
        got = [v for v in sim.current_simulated_nodes()]
        require(set(got) == set(outs), "{}: nodes {} are left", what, got)
        want, _ = sims.reference(case, {v: 0 for v in range(n)}, got,
                                 list(mc.measurement_order))
        require(mk.close(rho, ref.dm(want)), "{}: the measured state differs", what)
        require(set(sim.outcomes) == set(todo), "{}: outcomes {}", what, sim.outcomes)

    done = set()
    for op, k in case["ops"]:
        sim, at = new(), 0
        if numpy and op in ("few", "many", "none", "no angle", "other angle"):
            at = min(case["measure"], len(todo))
            for v in todo[:at]:
                step(sim, v)
        if op == "few":
            if not angles:
                continue
            at = 0 if not numpy else at
            mk.raises(lambda: sim.run(angles[:k % len(angles)]), ValueError, "too few angles")
        elif op == "many":
            mk.raises(lambda: sim.run(angles + [0.1 * i for i in range(k % 4 + 1)]),
                      ValueError, "too many angles")
        elif op == "none":
            mk.raises(lambda: sim.run(None), ANY, "no list of angles")
        elif op == "no angle":
            if at == len(todo) or todo[at] not in mc.trainable_nodes:
                continue
            mk.raises(lambda: sim.measure(None), ANY, "a trainable node without an angle")
        elif op == "other angle":
            if at == len(todo) or todo[at] in mc.trainable_nodes:
                continue
            m = mc[todo[at]]
            wrong = [m.angle + 0.4 + 0.1 * k, -m.angle, m.angle + np.pi, np.pi - m.angle][k % 4]
            if abs(np.exp(1j * wrong) - np.exp(1j * m.angle)) < 1e-3:
                continue
            mk.raises(lambda: sim.measure(wrong), ANY,
                      "another angle for a fixed measurement")
        elif op == "exhausted":
            for v in todo:
                step(sim, v)
            was = np.array(sim.qstate)
            mk.raises(lambda: sim.measure(0.3), ANY, "one measurement more than there are")
            require(np.array_equal(np.array(sim.qstate), was), "the state changed")
            at = len(todo)
        elif op == "window":
            w = k % 10
            if w == 1 or need <= w <= n:
                sim = new(window_size=w)  # 1 means automatic
            else:
                mk.raises(lambda: new(window_size=w), ValueError,
                          f"window {w} of {n} nodes when {need} are needed")
        elif op == "schedule":
            order = list(mc.measurement_order)
            i = k % n
            if k % 3 == 0:
                order.pop(i)
            elif k % 3 == 1:
                order[i] = n + 2
            elif n > 1:
                order[i] = order[i - 1]
            else:
                continue
            mk.raises(lambda: new(schedule=order).run(angles), ANY, f"schedule {order}")
        elif op == "force0":
            mk.raises(lambda: new(force0=False), NotImplementedError, "force0=False")
        elif op == "size":
            d = len(psi)
            bad = [d // 2, d * 2, d + 1, d * 4][k % 4]
            mk.raises(lambda: new(input_state=np.ones(bad) / np.sqrt(max(bad, 1))).run(angles),
                      ANY, f"an input of dimension {bad} instead of {d}")
            mk.raises(lambda: sim.reset(np.ones(bad) / np.sqrt(max(bad, 1))), ANY,
                      f"a reset to dimension {bad} instead of {d}")
            sim.reset(psi.copy())
        else:
            mk.raises(lambda: mp.PatternSimulator(mc, backend=["", "numpy", "cirq", "qiskit-dm"][
                k % 4]), ValueError, "an unknown backend")
            mk.raises(lambda: mp.PatternSimulator(mc, backend=case["backend"],
                                                  input_state=[1.0] * len(psi)), TypeError,
                      "an input that is a list")
        finish(sim, at, f"after a refused request ({op})")
        done.add(op)
    compare(facts(mc), before, "the circuit after refused requests")
    t.label(case["backend"], *done)
    t.interesting(len(done) >= 2 and len(todo) >= 1)


@st.composite
def noflow_case(draw):
    g = draw(gen.open_graphs(max_nodes=6, min_nodes=2))
    return {"graph": g, "meas": draw(gen.measured(g, gen.meas_specs(("X", "Y", "XY")))),
            "backend": draw(st.sampled_from(["numpy-dm", "numpy-sv", "pennylane"]))}


def check_noflow(case, t):
    """Without a flow there is no order to simulate in."""
    warnings.simplefilter("ignore")
    g = case["graph"]
    if ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"],
                                     g["outputs"]) is not None:
        raise Skip("there is a flow")
    mc = mk.circuit(g, case["meas"])
    before = facts(mc)
    mk.raises(lambda: mp.PatternSimulator(mc, backend=case["backend"]).run(
        [0.1] * len(mc.trainable_nodes)), ANY, "a circuit without flow and schedule")
    compare(facts(mc), before, "the circuit afterwards")
    t.label(case["backend"])
    t.interesting(len(case["meas"]) >= 1)


SUBS = [
    Sub("construction", build_case, check_build, 1600,
        rule="one wrong part in an otherwise valid circuit; non-trivial: two nodes"),
    Sub("simulation", sim_case, check_sim, 1600,
        rule="wrong angle counts, angles, windows, schedules, input states, backends on new "
             "and half-run simulators that must go on unchanged; non-trivial: two kinds of "
             "refusals, something measured"),
    Sub("large construction", lambda: build_case(14, 5), check_build, 200,
        rule="as construction, up to 14 nodes"),
    Sub("no flow", noflow_case, check_noflow, 600,
        rule="graphs without causal flow; non-trivial: something measured"),
]
