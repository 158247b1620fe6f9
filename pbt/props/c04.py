"""C04: the simulator as a state machine: run, measure and reset are coherent."""
import numpy as np
from hypothesis import strategies as st

import mentpy as mp

from pbt import gen, mk, ref, sims
from pbt.core import Skip, Sub, Violation, require


@st.composite
def history(draw, max_nodes=6, max_wires=3):
    backend = draw(st.sampled_from(["numpy-dm", "numpy-dm", "numpy-sv"]))
    planes = ("X", "Y", "XY", "XY") if backend == "numpy-sv" else ("X", "Y", "XY", "XZ", "YZ")
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires))
    m = draw(gen.measured(g, gen.meas_specs(planes), measure_outputs=True, unmeasure=True))
    k = len(g["inputs"])
    amps = st.integers(0, 2)
    states = [draw(gen.amplitudes(k)) for _ in range(3)]
    thetas = [draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"])) for _ in range(2)]
    ang = st.integers(0, 1)
    op = st.one_of(
        st.tuples(st.just("run"), ang),
        st.tuples(st.just("run_with"), ang, amps),
        st.tuples(st.just("call"), ang),
        st.tuples(st.just("measure"), ang, st.integers(1, g["n"])),
        st.tuples(st.just("measure_all"), ang),
        st.tuples(st.just("reset")),
        st.tuples(st.just("reset_with"), amps),
        st.tuples(st.just("reset_buffer"), amps),
        st.tuples(st.just("run_buffer"), ang, amps),
        st.tuples(st.just("bad_run"), ang, st.sampled_from([-1, 1, 2])),
    )
    ops = draw(st.lists(op, min_size=1, max_size=8))
    return {"graph": g, "meas": m, "states": states, "thetas": thetas, "backend": backend,
            "initial": draw(st.one_of(st.none(), amps)), "ops": [list(o) for o in ops],
            "window": draw(st.one_of(st.none(), st.none(), st.integers(2, 7)))}


def snapshot(mc):
    return (
        {v: None if m is None else (m.plane, m.angle) for v, m in mc.measurements.items()},
        list(mc.measurement_order), list(mc.trainable_nodes), list(mc.graph.nodes),
        sorted(map(sorted, mc.graph.edges)), list(mc.quantum_output_nodes),
        list(mc.input_nodes), list(mc.output_nodes),
    )


class Model:
    """What a simulator with this input and these angles must return."""

    def __init__(self, case, mc):
        self.case, self.mc = case, mc
        self.outs = sims.expected_outputs(case, mc)
        self.order = [v for v in mc.measurement_order if str(v) in case["meas"]]
        self.cache = {}

    def result(self, psi, a):
        """Outcomes per node and the final density matrix (outcome 0 unless impossible)."""
        key = (psi, a)
        if key not in self.cache:
            case, g = self.case, self.case["graph"]
            c = dict(case, theta=case["thetas"][a],
                     psi=None if psi is None else case["states"][psi])
            s = ref.resource_state(range(g["n"]), g["edges"], g["inputs"],
                                   sims.input_vector(c))
            outcomes = {}
            for v in self.order:
                plane, ang = case["meas"][str(v)][0], sims.angle_of(c, v)
                p = s.norm2()
                z = ref.State(s.order, s.t)
                p0 = z.project(v, ref.eigvec(plane, ang, 0)) / p
                if 1e-6 < p0 < 1e-3:
                    raise Skip("ill-conditioned branch")
                if p0 <= 1e-6:
                    outcomes[v] = 1
                    s.project(v, ref.eigvec(plane, ang, 1))
                else:
                    outcomes[v] = 0
                    s = z
            vec = s.vector(self.outs)
            self.cache[key] = outcomes, ref.dm(vec / np.linalg.norm(vec))
        return self.cache[key]


def density(x):
    x = np.asarray(x)
    return np.outer(x, np.conj(x)) if x.ndim == 1 else x


def check(case, t):
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    if g["n"] > 7:
        sims.small_window(case, mc, 7)
        if case["window"] is not None and case["window"] > 7:
            raise Skip("window too large")
    model = Model(case, mc)
    before = snapshot(mc)
    arrays = [gen.to_state(a) for a in case["states"]]
    copies = [a.copy() for a in arrays]
    kw = {} if case["window"] is None else {"window_size": case["window"]}
    try:
        sim = mp.PatternSimulator(
            mc, input_state=None if case["initial"] is None else arrays[case["initial"]],
            backend=case["backend"], **kw)
    except ValueError:
        require(case["window"] is not None and case["window"] != g["n"], "refused")
        raise Skip("window refused")
    cur, done, part, kinds = case["initial"], 0, None, set()
    start, seen = list(sim.current_simulated_nodes()), {}
    # the caller may fill one array with one input after the other
    buffer = np.zeros(len(arrays[0]), dtype=complex)

    def fresh():
        """The simulator has forgotten everything but its input state."""
        require(len(sim.outcomes) == 0, "outcomes {} survive a reset", dict(sim.outcomes))
        require(list(sim.current_simulated_nodes()) == start, "nodes {} after a reset, {} in "
                "a new simulator", list(sim.current_simulated_nodes()), start)
        seen.clear()
    total = len(model.order)

    def node_angle(v, a):
        return sims.angle_of(dict(case, theta=case["thetas"][a]), v)

    def angles(a):
        case2 = dict(case, theta=case["thetas"][a])
        return sims.train_angles(case2, mc)

    def run(a, **kwargs):
        ang = angles(a)
        keep = list(ang)
        out = sim.run(ang, **kwargs) if kwargs or kind != "call" else sim(ang)
        require(ang == keep, "the angle list was modified")
        outcomes, want = model.result(cur, a)
        require(dict(sim.outcomes) == outcomes, "outcomes {}, expected {}",
                dict(sim.outcomes), outcomes)
        got = mk.array(out, want.shape, "run result")
        require(mk.close(got, want), "result differs from a fresh simulation by {:.3g}",
                np.max(np.abs(got - want)))
        require(list(sim.current_simulated_nodes()) == model.outs, "nodes {} are left after a "
                "run, expected {}", list(sim.current_simulated_nodes()), model.outs)

    def measure_next(a):
        nonlocal done, part
        v = model.order[done]
        angle = node_angle(v, a) if v in mc.trainable_nodes else mc[v].angle
        state, outcome = sim.measure(angle)
        seen[v] = outcome
        require(dict(sim.outcomes) == seen, "outcomes {} recorded after measuring {}",
                dict(sim.outcomes), seen)
        if done == 0:
            part = a
        elif part != a:
            part = -1  # mixed angle lists: only outcomes of a pure history are checked
        done += 1
        if part is not None and part >= 0:
            outcomes, want = model.result(cur, part)
            require(outcome == outcomes[v], "measuring node {} gives {}, a run gives {}", v,
                    outcome, outcomes[v])
            if done == total:
                order = list(sim.current_simulated_nodes())
                require(sorted(order) == sorted(model.outs), "left with nodes {}", order)
                rho = density(state)
                n = len(order)
                perm = [order.index(o) for o in model.outs]
                rho = rho.reshape([2] * (2 * n)).transpose(perm + [n + p for p in perm])
                rho = rho.reshape(2**n, 2**n)
                require(mk.close(rho, want), "step-by-step result differs by {:.3g}",
                        np.max(np.abs(rho - want)))

    for op in case["ops"]:
        kind = op[0]
        if kind in ("run", "call"):
            if done and total:
                if done == total:
                    mk.raises(lambda: sim.run(angles(op[1])), ValueError,
                              "a second run without a reset")
                sim.reset()
                fresh()
                done = 0
            run(op[1])  # with nothing to measure, runs can be repeated
            done = total
        elif kind == "run_with":
            cur = op[2]
            run(op[1], input_state=arrays[cur])
            done = total
        elif kind == "measure":
            for _ in range(op[2]):
                if done == total:
                    mk.raises(lambda: sim.measure(0.1), ValueError, "too many measurements")
                    break
                measure_next(op[1])
        elif kind == "measure_all":
            while done < total:
                measure_next(op[1])
        elif kind == "bad_run":
            wrong = (angles(op[1]) + [0.3, 0.4])[:max(0, len(angles(op[1])) + op[2])]
            if len(wrong) != len(mc.trainable_nodes):
                mk.raises(lambda: sim.run(wrong), ValueError, f"a run with {len(wrong)} "
                          f"angles for {len(mc.trainable_nodes)} trainable nodes")
        elif kind == "reset":
            sim.reset()
            fresh()
            done = 0
        elif kind == "run_buffer":
            cur = op[2]
            buffer[:] = arrays[cur]
            run(op[1], input_state=buffer)
            done = total
        elif kind == "reset_buffer":
            cur = op[1]
            buffer[:] = arrays[cur]
            sim.reset(buffer)
            buffer[:] = 0
            fresh()
            done = 0
        else:
            cur = op[1]
            sim.reset(arrays[cur])
            fresh()
            done = 0
        kinds.add(kind)
    for a, b in zip(arrays, copies):
        require(np.array_equal(a, b), "the caller's input state was modified")
    require(snapshot(mc) == before, "the circuit was modified")
    t.label(*kinds)
    t.label(case["backend"])
    t.interesting(len(kinds) >= 3 and total >= 2)


@st.composite
def pl_history(draw):
    g = draw(gen.flow_graphs(max_nodes=5, max_wires=2))
    m = draw(gen.measured(g, gen.meas_specs(("X", "XY", "XY"))))
    states = [draw(gen.amplitudes(len(g["inputs"]))) for _ in range(2)]
    thetas = [draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"])) for _ in range(2)]
    op = st.one_of(st.tuples(st.just("run"), st.integers(0, 1)),
                   st.tuples(st.just("reset")),
                   st.tuples(st.just("bad_run"), st.sampled_from([-1, 1, 2])),
                   st.tuples(st.just("reset_buffer"), st.integers(0, 1)),
                   st.tuples(st.just("reset_with"), st.integers(0, 1)))
    return {"graph": g, "meas": m, "states": states, "thetas": thetas, "initial": 0,
            "ops": [list(o) for o in draw(st.lists(op, min_size=2, max_size=5))]}


def check_pl(case, t):
    """The PennyLane backend keeps no state between runs but its input state."""
    mc = mk.circuit(case["graph"], case["meas"])
    model = Model(case, mc)
    arrays = [gen.to_state(a) for a in case["states"]]
    buffer = arrays[0].astype(complex)
    sim = mp.PatternSimulator(mc, input_state=buffer, backend="pennylane")
    buffer[:] = 0
    cur, kinds = 0, []
    for op in case["ops"]:
        if op[0] == "run":
            want = model.result(cur, op[1])[1]
            ang = sims.train_angles(dict(case, theta=case["thetas"][op[1]]), mc)
            got = mk.array(sim.run(ang), want.shape, "run result")
            require(mk.close(got, want, 1e-5), "result differs by {:.3g}",
                    np.max(np.abs(got - want)))
        elif op[0] == "bad_run":
            ang = sims.train_angles(dict(case, theta=case["thetas"][0]), mc)
            wrong = (ang + [0.3, 0.4])[:max(0, len(ang) + op[1])]
            if len(wrong) != len(ang):
                mk.raises(lambda: sim.run(wrong), ValueError, f"a run with {len(wrong)} "
                          f"angles for {len(ang)} trainable nodes")
        elif op[0] == "reset":
            sim.reset()
        elif op[0] == "reset_buffer":
            cur = op[1]
            buffer[:] = arrays[cur]
            sim.reset(buffer)
            buffer[:] = arrays[1 - cur]
        else:
            cur = op[1]
            sim.reset(arrays[cur])
        kinds.append(op[0])
    t.interesting(kinds.count("run") >= 2)


@st.composite
def pair_case(draw, max_nodes=6):
    backends = [draw(st.sampled_from(["numpy-dm", "numpy-sv"])) for _ in range(3)]
    planes = ("X", "Y", "XY", "XY") if "numpy-sv" in backends else ("X", "Y", "XY", "XZ", "YZ")
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=3))
    m = draw(gen.measured(g, gen.meas_specs(planes), measure_outputs=True, unmeasure=True))
    return {"graph": g, "meas": m, "backends": backends,
            "shared": draw(st.sampled_from(["circuit", "circuit", "graph", "nothing"])),
            "states": [draw(gen.amplitudes(len(g["inputs"]))) for _ in range(3)],
            "thetas": [draw(st.lists(gen.angles(), min_size=g["n"], max_size=g["n"]))
                       for _ in range(3)],
            "ops": draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
                ["measure", "measure", "measure", "run", "reset"])).map(list),
                min_size=4, max_size=24))}


def check_pair(case, t):
    """Simulators of one circuit (or of equal circuits) do not disturb each other."""
    g = case["graph"]
    mc = mk.circuit(g, case["meas"])
    mcs = [mc] + [mc if case["shared"] == "circuit" else mk.circuit(g, case["meas"])
                  for _ in range(2)]
    if case["shared"] == "graph":
        mcs[1:] = [mp.MBQCircuit(mc.graph, mc.input_nodes, mc.output_nodes,
                                 measurements=mc.measurements) for _ in range(2)]
    model = Model(case, mc)
    before = [snapshot(c) for c in mcs]
    arrays = [gen.to_state(a) for a in case["states"]]
    sims_ = [mp.PatternSimulator(c, input_state=a, backend=b)
             for c, a, b in zip(mcs, arrays, case["backends"])]
    at, last, switches, finished = [0, 0, 0], None, 0, 0
    orders = [[v for v in c.measurement_order if str(v) in case["meas"]] for c in mcs]
    plan = [tuple(o) for o in case["ops"]] + [(i, "finish") for i in (2, 0, 1)]
    for i, op in plan:
        sim, c, order = sims_[i], mcs[i], orders[i]
        theta = case["thetas"][i]
        outcomes, want = model.result(i, i)
        switches += last is not None and last != i
        last = i
        if op == "reset":
            sim.reset()
            at[i] = 0
        elif op == "run":
            if at[i]:
                sim.reset()
            got = density(sim.run(sims.train_angles(dict(case, theta=theta), c)))
            require(mk.close(got, want), "simulator {} of 3: its run differs by {:.3g}", i,
                    np.max(np.abs(got - want)))
            at[i] = len(order)
        else:
            for v in order[at[i]:] if op == "finish" else order[at[i]:at[i] + 1]:
                a = sims.angle_of(dict(case, theta=theta), v)
                _, outcome = sim.measure(a if v in c.trainable_nodes else c[v].angle)
                require(outcome == outcomes[v], "simulator {} of 3: node {} gives {}, "
                        "expected {}", i, v, outcome, outcomes[v])
                at[i] += 1
        require(dict(sim.outcomes) == {v: outcomes[v] for v in order[:at[i]]},
                "simulator {} of 3: outcomes {} after {} measurements", i, dict(sim.outcomes),
                at[i])
        if op == "finish":
            left = list(sim.current_simulated_nodes())
            require(sorted(left) == sorted(model.outs), "left with {}", left)
            rho, n = density(sim.qstate), len(left)
            perm = [left.index(o) for o in model.outs]
            rho = rho.reshape([2] * (2 * n)).transpose(perm + [n + p for p in perm])
            rho = rho.reshape(2**n, 2**n)
            require(mk.close(rho, want), "simulator {} of 3: its state differs by {:.3g}", i,
                    np.max(np.abs(rho - want)))
            finished += 1
    require([snapshot(c) for c in mcs] == before, "the circuit was modified")
    t.label("shared " + case["shared"], *case["backends"])
    t.interesting(switches >= 3 and len(model.order) >= 2 and finished == 3)


SUBS = [
    Sub("history", history, check, 3600,
        rule="random histories of run/measure/reset with alternating input states and "
             "angles on both numpy backends against a reference simulation; non-trivial: "
             "at least 3 kinds of operations and 2 measured nodes"),
    Sub("large", lambda: history(11, 4), check, 320,
        rule="as history with up to 11 nodes and 4 wires"),
    Sub("pennylane", pl_history, check_pl, 160,
        rule="run/reset histories on the PennyLane backend; non-trivial: at least 2 runs"),
    Sub("side by side", pair_case, check_pair, 700,
        rule="three simulators of one circuit, of one graph or of equal circuits, with inputs "
             "and angles of their own, measured, run and reset in turns; non-trivial: 2 "
             "measured nodes, 3 switches between simulators"),
]
