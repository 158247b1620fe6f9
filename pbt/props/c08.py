"""C08: measurement orders are valid linear extensions."""
from hypothesis import strategies as st

import mentpy as mp
from mentpy.operators import ControlMent

from pbt import exprs, gen, mk, ref
from pbt.core import Skip, Sub, Violation, require
from pbt.props import c05

PLANES = ("X", "Y", "Z", "XY", "XY")


@st.composite
def case_strategy(draw, max_nodes=7, max_wires=3, chains=False):
    g = draw(gen.flow_graphs(max_nodes=max_nodes, max_wires=max_wires,
                             min_wires=max_wires - 1 if chains else 1))
    m = draw(gen.measured(g, gen.meas_specs(PLANES), measure_outputs=True))
    order = [v for v in c05.any_extension(g, draw) if str(v) in m]
    ctrl = {}
    if chains:
        last = None
        for v in order:
            if draw(st.integers(0, 2)):
                if last is not None:
                    ctrl[str(v)] = [last]
                last = v
    elif draw(st.booleans()):
        for i, v in enumerate(order):
            if i and draw(st.integers(0, 2)) == 0:
                ctrl[str(v)] = draw(st.lists(st.sampled_from(order[:i]), min_size=1,
                                             max_size=2))
    # candidate orders: permutations, near-valid orders, and non-permutations
    cands = []
    for _ in range(3):
        kind = draw(st.sampled_from(["swap", "swap", "perm", "extension", "drop", "dup"]))
        base = c05.any_extension(g, draw)
        if kind == "perm":
            base = list(draw(st.permutations(range(g["n"]))))
        elif kind == "swap" and g["n"] > 1:
            i = draw(st.integers(0, g["n"] - 2))
            base[i], base[i + 1] = base[i + 1], base[i]
        elif kind == "drop":
            base.pop(draw(st.integers(0, g["n"] - 1)))
        elif kind == "dup":
            base[draw(st.integers(0, g["n"] - 1))] = draw(st.integers(0, g["n"] - 1))
        cands.append(base)
    at = st.integers(0, g["n"] - 1)
    moves = draw(st.lists(st.tuples(at, at).map(list), max_size=6))
    return {"graph": g, "moves": moves, "meas": m, "ctrl": ctrl, "cands": cands,
            "user": draw(st.sampled_from([False, "layers", "least"]))}


def build(case, **kw):
    g = case["graph"]
    if case["user"]:
        layer, flow = ref.max_delayed_causal_layers(range(g["n"]), g["edges"], g["inputs"],
                                                    g["outputs"])
        before = lambda x, y: layer[x] > layer[y]
        if case["user"] == "least":  # only what the flow requires
            after = {v: set() for v in range(g["n"])}
            for u, v in flow_relation(g, flow.__getitem__):
                after[u].add(v)
            for _ in after:
                for u in after:
                    after[u] |= set().union(*(after[v] for v in after[u]))
            before = lambda x, y: y in after[x]
        kw.update(flow=lambda x: flow[x], partial_order=before)
    mc = mk.circuit(g, case["meas"], **kw)
    for v, reads in case["ctrl"].items():
        cond = mc[reads[0]].outcome
        for r in reads[1:]:
            cond = cond ^ mc[r].outcome
        mc[int(v)] = ControlMent(cond, 0.3, "XY", 0.7, "XY")
    return mc


def flow_relation(g, flow):
    nb = ref.neighbours(range(g["n"]), g["edges"])
    rel = set()
    for u in range(g["n"]):
        if u not in g["outputs"]:
            f = flow(u)
            rel |= {(u, w) for w in {f} | (nb[f] - {u})}
    return rel


def check(case, t):
    g = case["graph"]
    n = g["n"]
    mc = build(case)
    need = flow_relation(g, mc.flow)
    for v, reads in case["ctrl"].items():
        need |= {(r, int(v)) for r in reads}
    po = {(u, v) for u in range(n) for v in range(n) if mc.partial_order(u, v)}
    for u, v in need:
        require((u, v) in po, "partial order does not put {} before {}", u, v)
    for u, v in po:
        require(u != v and (v, u) not in po, "{} and {} are before each other", u, v)
        for w in range(n):
            require((v, w) not in po or (u, w) in po, "not transitive: {} {} {}", u, v, w)

    def valid(o):
        pos = {v: i for i, v in enumerate(o)}
        return sorted(o) == list(range(n)) and all(pos[u] < pos[v] for u, v in po)

    order = list(mc.measurement_order)
    require(valid(order), "measurement order {} is not an extension of the partial order",
            order)
    gorder = list(mc.gflow.measurement_order)
    pos = {v: i for i, v in enumerate(gorder)}
    require(sorted(gorder) == list(range(n)) and
            all(pos[u] < pos[v] for u, v in flow_relation(g, mc.gflow)),
            "flow order {} violates the flow", gorder)
    # the hardest orders to refuse: v before u, with all nodes that may be anywhere in between
    direct = [(u, v) for u, v in po if not any((u, w) in po and (w, v) in po
                                               for w in range(n))]
    far = []
    for u, v in direct:
        early = [w for w in order if w != u and ((w, u) in po or (w, v) in po)]
        late = [w for w in order if w != v and ((u, w) in po or (v, w) in po)]
        rest = [w for w in order if w not in early and w not in late and w not in (u, v)]
        far.append((len(rest), early + [v] + rest + [u] + late))
    far = [o for _, o in sorted(far)[-4:]]
    # the order of the circuit with one node taken to another place
    moved = []
    for i, j in case["moves"]:
        moved.append(list(order))
        moved[-1].insert(j, moved[-1].pop(i))
    for c in case["cands"] + moved + far:
        before = list(mc.measurement_order)
        given = list(c)
        if valid(c):
            mc.measurement_order = given
            require(list(mc.measurement_order) == c, "order is {} after setting {}",
                    mc.measurement_order, c)
            require(given == c, "the given list was modified")
            given.reverse()
            require(list(mc.measurement_order) == c, "order aliases the caller's list")
            t.label("accepted")
        else:
            mk.raises(lambda: setattr(mc, "measurement_order", given), ValueError,
                      f"invalid order {c}")
            require(list(mc.measurement_order) == before, "a refused order was kept")
            t.label("refused permutation" if sorted(c) == list(range(n)) else
                    "refused list")
    if not case["ctrl"]:
        for c in case["cands"]:
            given = list(c)
            if valid(c):
                other = build(case, measurement_order=given)
                given.reverse()
                require(list(other.measurement_order) == c, "built with the order {}, expected "
                        "{}", other.measurement_order, c)
            else:
                mk.raises(lambda: build(case, measurement_order=given), (ValueError, KeyError),
                          f"a circuit with the invalid order {c}")
            t.label("order at construction")
    layers = mc.ordered_layers()
    train = list(mc.trainable_nodes)
    got = mc.ordered_layers(train_indices=True)
    want = [sorted(v for v in layer if v in train and v not in g["outputs"])
            for layer in layers[:-1]]
    require([sorted(train[i] for i in layer) for layer in got] == want,
            "trainable layers are {}, expected the indices of {}", got, want)
    pos = {v: i for i, l in enumerate(layers) for v in l}
    require(len(pos) == n and sum(map(len, layers)) == n, "layers {}", layers)
    require(all(pos[u] < pos[v] for u, v in flow_relation(g, mc.flow)),
            "layers {} violate the flow", layers)
    if case["ctrl"]:
        t.label("controlled")
    if case["user"]:
        t.label("user flow", case["user"])
    t.interesting(n >= 3 and len(po) >= 2)


@st.composite
def history_case(draw, max_nodes=7, max_wires=3, max_ops=4):
    c = draw(case_strategy(max_nodes, max_wires))
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        k = draw(st.sampled_from(["set", "del", "ctrl", "again", "order", "order"]))
        v = draw(st.integers(0, c["graph"]["n"] - 1))
        ops.append([k, v, draw(st.integers(0, 2))])
    c["ops"] = ops
    return c


def check_history(case, t):
    """The order stays valid (for the flow and all current controls) under edits."""
    g = case["graph"]
    n = g["n"]
    mc = build(case)
    layer, _ = ref.max_delayed_causal_layers(range(n), g["edges"], g["inputs"],
                                             g["outputs"])
    ctrl = {int(v): list(r) for v, r in case["ctrl"].items()}

    def reaches(a, b):
        """a must be before b through layers and controls (over-approximation)."""
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            nxt = {v for v in range(n) if layer[x] > layer[v]} | {
                c for c, rs in ctrl.items() if x in rs}
            for y in nxt - seen:
                seen.add(y)
                todo.append(y)
        return b in seen

    kinds = set()
    for k, v, i in case["ops"]:
        if k == "set":
            mc[v] = mp.Ment(["X", "Y", "XY"][i])
            ctrl.pop(v, None)
        elif k == "del":
            if any(v in rs for rs in ctrl.values()):
                continue
            del mc[v]
            ctrl.pop(v, None)
        elif k in ("ctrl", "again"):
            if k == "again":
                # another condition at a controlled node, in a whole set of measurements
                if not ctrl:
                    continue
                v = sorted(ctrl)[v % len(ctrl)]
                del ctrl[v]
            reads = [u for u in range(n) if u != v and mc[u] is not None
                     and not reaches(v, u)]
            if not reads:
                mc[v] = mp.Ment("XY")
                continue
            r = reads[i % len(reads)]
            m = ControlMent(mc[r].outcome, 0.1, "XY", 0.2, "XY")
            if k == "ctrl":
                mc[v] = m
            else:
                mc.measurements = {**mc.measurements, v: m}
            ctrl[v] = [r]
        else:
            c = list(mc.measurement_order)
            c.insert((v + i) % n, c.pop(v))
            at = {x: j for j, x in enumerate(c)}
            need = flow_relation(g, mc.flow) | {(r, x) for x, rs in ctrl.items() for r in rs}
            try:
                mc.measurement_order = c
                require(list(mc.measurement_order) == c, "order {} after setting {}",
                        mc.measurement_order, c)
            except ValueError:
                # orders may also be refused for the layers of the flow
                require(any(at[y] < at[x] for x in range(n) for y in range(n)
                            if reaches(x, y)), "order {} refused", c)
                mc.measurement_order = list(mc.measurement_order)
            else:
                require(all(at[x] < at[y] for x, y in need), "order {} accepted", c)
        kinds.add(k)
        pos = {x: j for j, x in enumerate(mc.measurement_order)}
        require(sorted(pos) == list(range(n)) and len(mc.measurement_order) == n,
                "order {} after {}", mc.measurement_order, k)
        for a, b in flow_relation(g, mc.flow):
            require(pos[a] < pos[b], "order {} violates the flow after {}",
                    mc.measurement_order, k)
        for c, rs in ctrl.items():
            for r in rs:
                require(pos[r] < pos[c], "node {} is before {} which it reads, after {}",
                        c, r, k)
    t.label(*kinds)
    t.interesting(len(ctrl) >= 1 and len(kinds) >= 2)


SUBS = [
    Sub("orders", case_strategy, check, 4000,
        rule="circuits with flow (half with user-supplied flow, half with controls), "
             "candidate orders that are near-valid, random or not permutations; "
             "non-trivial: 3 nodes and 2 related pairs"),
    Sub("history", history_case, check_history, 2000,
        rule="edits that change controls; non-trivial: a control left and two kinds of "
             "edits"),
    Sub("large", lambda: case_strategy(14, 5), check, 600, rule="as orders, up to 14 nodes"),
    Sub("control chains", lambda: case_strategy(14, 6, True), check, 200,
        rule="as orders, five or six wires and a chain of controls across them"),
    Sub("long history", lambda: history_case(12, 4, 12), check_history, 400,
        rule="as history, up to 12 nodes and 12 edits"),
]
